#!/bin/bash
# mkbug.sh ID PROPERTY NEEDS BREAKS < demo body : stores /repo's uncommitted change as a planted bug and undoes it.
d=/verif/seeded/$1; mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"; [ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
git -C /repo checkout -q -- .
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cp /verif/tools/demo/lib.sh "$d/lib.sh"
{ printf '#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n'; cat; } > "$d/demo.sh"; chmod +x "$d/demo.sh"
