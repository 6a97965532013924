#!/bin/bash
# Warms the build caches: the checks themselves build what they need from /repo.
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" && go build -o /dev/null . || exit 1
cd /repo && go build -o /dev/null ./cmd/gosec && go build -o /dev/null ./cmd/gosecutil && go build -o /dev/null ./cmd/tlsconfig
