#!/bin/bash
# build_rsut.sh OUTROOT: builds the Ruby binding from /repo (src/, ruby/) with the seams of rseam.c, copies /repo/ruby
# beside it and prints the directory. Cached by content.
set -eo pipefail
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=$1
REPO=${OSIM_REPO:-/repo}
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset MAKEFLAGS CFLAGS CPPFLAGS LDFLAGS RUBYOPT RUBYLIB
mkdir -p "$ROOT"
H=$( (cd "$REPO" && find src ruby -type f ! -name '*.o' ! -path 'src/parsers/*.h' ! -path 'src/hash/*_hash.h' \
        ! -path 'src/hash/language_hash.c' ! -name 'ohcount_wrap.c' -print0 | sort -z | xargs -0 sha256sum
      sha256sum < "$HERE/build_rsut.sh"; sha256sum < "$HERE/rseam.c") | sha256sum | cut -c1-20)
D=$ROOT/rsut-$H
if [ -e "$D/ok" ]; then echo "$D"; exit 0; fi
exec 9> "$ROOT/.lock-r$H"
flock 9
if [ -e "$D/ok" ]; then echo "$D"; exit 0; fi
rm -rf "$D"; mkdir -p "$D/obj"
cp -r "$REPO/src" "$D/src"; cp -r "$REPO/ruby" "$D/ruby"
printf '#!/bin/sh\necho none\n' > "$D/ruby/print_arch"; chmod +x "$D/ruby/print_arch"
cd "$D/src"
rm -f parsers/*.h hash/*_hash.h hash/language_hash.c parser.o
(cd hash && bash ./generate_headers) > "$D/gen.log" 2>&1 || { cat "$D/gen.log" >&2; exit 1; }
(cd parsers && bash ./compile) >> "$D/gen.log" 2>&1 || { cat "$D/gen.log" >&2; exit 1; }
for f in parsers/*.rl; do [ -s "${f%.rl}.h" ] || { echo "ragel failed on $f" >&2; cat "$D/gen.log" >&2; exit 1; }; done
(cd "$D" && swig -ruby -o ruby/ohcount_wrap.c ruby/ohcount.i) >> "$D/gen.log" 2>&1 || { cat "$D/gen.log" >&2; exit 1; }
INC=$(ruby -rrbconfig -e 'print "-I", RbConfig::CONFIG["rubyhdrdir"], " -I", RbConfig::CONFIG["rubyarchhdrdir"]')
CF="-fPIC -g1 -w -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0"
pids=()
for f in *.c hash/language_hash.c; do
  [ "$f" = ohcount.c ] && continue
  o=$D/obj/$(echo "${f%.c}" | tr / _).o
  case $f in parser.c) gcc $CF -O0 -c $f -o $o & ;; *) gcc $CF -O1 -c $f -o $o & ;; esac
  pids+=($!)
done
(cd "$D/ruby" && gcc $CF -O1 -I. $INC -c ohcount_wrap.c -o "$D/obj/wrap.o") & pids+=($!)
gcc $CF -O1 $INC -c "$HERE/rseam.c" -o "$D/obj/rseam.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p || { echo "compilation failed" >&2; exit 1; }; done
W=""
for s in malloc calloc realloc free strdup strndup opendir readdir closedir rb_str_new rb_str_new_cstr rb_data_object_wrap rb_ary_new rb_ary_push rb_ary_entry rb_hash_aref rb_string_value_ptr rb_ivar_set; do W="$W -Wl,--wrap=$s"; done
gcc -shared -o "$D/ruby/ohcount.so" "$D"/obj/*.o $W -Wl,-Bsymbolic -lpcre -lmagic
rm -rf "$D/obj" "$D/src"
touch "$D/ok"
ls -dt "$ROOT"/rsut-*/ 2>/dev/null | tail -n +6 | while read -r x; do rm -rf "${x%/}"; done
echo "$D"
