#!/bin/bash
# build_sut.sh OUTROOT: builds the system under test from /repo/src as a shared object whose system calls go
# through the simulator's seams (link-time wrapping), and prints the directory it is in. Cached by content.
set -eo pipefail
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=$1
REPO=${OSIM_REPO:-/repo}
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset MAKEFLAGS CFLAGS CPPFLAGS LDFLAGS
mkdir -p "$ROOT"
H=$( (cd "$REPO/src" && find . -type f ! -name '*.o' ! -path './parsers/*.h' ! -path './hash/*_hash.h' \
        ! -path './hash/language_hash.c' -print0 | sort -z | xargs -0 sha256sum
      sha256sum < "$HERE/build_sut.sh"; sha256sum < "$HERE/glue.c"; sha256sum < "$HERE/wraps.txt") | sha256sum | cut -c1-20)
D=$ROOT/sut-$H
if [ -e "$D/ok" ]; then echo "$D"; exit 0; fi
exec 9> "$ROOT/.lock-$H"
flock 9
if [ -e "$D/ok" ]; then echo "$D"; exit 0; fi
rm -rf "$D"; mkdir -p "$D/obj"
cp -r "$REPO/src" "$D/src"
cd "$D/src"
rm -f parsers/*.h hash/*_hash.h hash/language_hash.c parser.o
(cd hash && bash ./generate_headers) > "$D/gen.log" 2>&1 || { cat "$D/gen.log" >&2; exit 1; }
(cd parsers && bash ./compile) >> "$D/gen.log" 2>&1 || { cat "$D/gen.log" >&2; exit 1; }
for f in parsers/*.rl; do [ -s "${f%.rl}.h" ] || { echo "ragel failed on $f" >&2; cat "$D/gen.log" >&2; exit 1; }; done
cp "$HERE/glue.c" glue_osim.c
CF="-fsanitize=bounds -fsanitize-trap=bounds -fPIC -g1 -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-builtin-printf -fno-builtin-fprintf -fno-builtin-puts -fno-builtin-putchar"
pids=()
cc1() { gcc $CF "$@"; }
for f in *.c hash/language_hash.c; do
  o=$D/obj/$(echo "${f%.c}" | tr / _).o
  case $f in
    parser.c) cc1 -O0 -c $f -o $o & ;;
    ohcount.c) cc1 -O1 -Dmain=ohcount_cli_main -c $f -o $o & ;;
    *) cc1 -O1 -c $f -o $o & ;;
  esac
  pids+=($!)
done
for p in "${pids[@]}"; do wait $p || { echo "compilation failed" >&2; exit 1; }; done
W=$(grep -v '^#' "$HERE/wraps.txt" | tr ' ' '\n' | sed '/^$/d;s/^/-Wl,--wrap=/')
printf '{ global: ohcount_*; hz_*; local: *; };\n' > "$D/ver.map"
gcc -shared -o "$D/sut.so" "$D"/obj/*.o $W -Wl,-Bsymbolic -Wl,--version-script="$D/ver.map" -Wl,--unresolved-symbols=ignore-all -lpcre -lmagic
for i in 1 2 3; do cp "$D/sut.so" "$D/sut$i.so"; done
cp "$D/sut.so" "$D/sut0.so"
rm -rf "$D/obj" "$D/src"
touch "$D/ok"
# keep only a few cached builds
ls -dt "$ROOT"/sut-*/ 2>/dev/null | tail -n +9 | while read -r x; do rm -rf "${x%/}"; done
echo "$D"
