#!/bin/bash
# check.sh ID: builds the harness (and with it gosec) from /repo's working tree and runs one check.
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
bin="$(mktemp -d /tmp/verif-bin.XXXXXX)" || exit 3
trap 'rm -rf "$bin"' EXIT
cd "$here/harness" || exit 3
if ! go build -o "$bin/harness" . ; then
  echo "CHECK ERROR: the harness does not build against /repo" >&2
  exit 3
fi
if [ "$1" = replay ]; then "$bin/harness" replay "$2"; exit $?; fi
"$bin/harness" check "$1"
exit $?
