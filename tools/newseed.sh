#!/bin/bash
# development aid: newseed.sh ID PROPERTY "needs" "what it breaks": takes the diff of /tmp/wt against its HEAD and demo body from stdin
HERE=$(cd "$(dirname "$0")/.." && pwd); S=$HERE/seeded/$1; mkdir -p "$S"
git -C /tmp/wt diff > "$S/patch.diff"; [ -s "$S/patch.diff" ] || { echo "empty patch"; exit 1; }
{ cat <<'H'
#!/bin/bash
# exit 0: behaves as required
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
BINDER=/repo/_build/source/binder
# gen NAME ARGS...: run binder on $W/NAME.hpp, output in $W/out
gen() { local n=$1; shift; mkdir -p "$W/out"; echo "#include <$n.hpp>" > "$W/all.hpp"; "$BINDER" --root-module r --prefix "$W/out" "$@" "$W/all.hpp" -- -x c++ -std=c++14 -I"$W" > "$W/log" 2>&1; }
fail() { echo "FAIL: $*"; exit 1; }
H
cat; echo 'exit 0'; } > "$S/demo.sh"
python3 - "$S" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
git -C /tmp/wt checkout -q -- .
