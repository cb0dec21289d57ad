#!/bin/bash
# build_osim.sh OUTROOT: builds the simulator itself and prints the directory it is in. Cached by content.
set -eo pipefail
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=$1
mkdir -p "$ROOT"
H=$(cd "$HERE" && cat build_osim.sh *.cc *.h corpus.pack tool.sh | sha256sum | cut -c1-20)
D=$ROOT/osim-$H
if [ -e "$D/ok" ]; then echo "$D"; exit 0; fi
exec 9> "$ROOT/.lock-osim-$H"
flock 9
if [ -e "$D/ok" ]; then echo "$D"; exit 0; fi
rm -rf "$D"; mkdir -p "$D"
pids=()
for f in main core seam gen prof1 prof2; do
  g++ -std=c++17 -O1 -g -Wall -Wno-misleading-indentation -fno-builtin-malloc -c "$HERE/$f.cc" -o "$D/$f.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p || { echo "compilation of the simulator failed" >&2; exit 1; }; done
g++ -rdynamic -o "$D/osim" "$D"/*.o -lpcre -lmagic -ldl
rm -f "$D"/*.o
cp "$HERE/corpus.pack" "$D/"
mkdir "$D/tools"; for t in diff cmp; do cp "$HERE/tool.sh" "$D/tools/$t"; chmod 755 "$D/tools/$t"; done
touch "$D/ok"
ls -dt "$ROOT"/osim-*/ 2>/dev/null | tail -n +4 | while read -r x; do rm -rf "${x%/}"; done
echo "$D"
