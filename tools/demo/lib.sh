# Helpers of the demonstrations: builds gosec from the current directory and runs it on a scratch module.
. /opt/vp/env.sh
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
go build -o "$T/gosec" ./cmd/gosec || exit 3
mkdir -p "$T/m"; printf 'module example.com/m\n\ngo 1.24\n' > "$T/m/go.mod"
# put FILE: writes standard input into the module
put() { mkdir -p "$(dirname "$T/m/$1")"; cat > "$T/m/$1"; }
# run ARGS...: runs gosec in the module, prints the report, keeps the exit status in RC
run() { (cd "$T/m" && "$T/gosec" -fmt=json -no-fail "$@" 2>"$T/err"); RC=$?; return 0; }
# issues ARGS...: one line "RULE file:line" per issue, sorted
issues() { run "$@" | python3 -c '
import json,sys,os
d=json.load(sys.stdin)
for l in sorted("%s %s:%s" % (i["rule_id"], os.path.relpath(i["file"], os.path.realpath(sys.argv[1])), i["line"]) for i in d["Issues"]): print(l)' "$T/m"; }
# want TEXT GOT: compares
want() { if [ "$1" != "$2" ]; then echo "expected:"; echo "$1"; echo "got:"; echo "$2"; exit 1; fi; }
