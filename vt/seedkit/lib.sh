# mk NAME "FLAGS" SRC... : builds google/tcmalloc from the current directory together with SRC into $T/NAME.
# With NOMALLOC=1 the allocator is linked as components only (malloc stays the C library's).
set -u
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD; T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
export LC_ALL=C
mk() {
  local name=$1 flags=$2; shift 2; local d=$T/$name.d; mkdir -p "$d" "$T/gen"
  [ -f "$T/gen/tcmalloc/internal/profile.pb.cc" ] || protoc -I"$REPO" --cpp_out="$T/gen" "$REPO/tcmalloc/internal/profile.proto" || { echo "protoc failed"; exit 99; }
  local I="-I$HERE/compat -I$REPO -I$T/gen -I$HERE" F="-std=c++17 -w -g1 -fno-omit-frame-pointer -U_FORTIFY_SOURCE -DTCMALLOC_INTERNAL_8K_PAGES $flags"
  { ls "$REPO"/tcmalloc/*.cc "$REPO"/tcmalloc/internal/*.cc | grep -Ev '_test|_fuzz|benchmark|mock_|/want_|unsupported|enable_heap_part|testutil|_helper|_recorder\.cc'
    echo "$REPO/tcmalloc/internal/percpu_rseq_asm.S"; echo "$T/gen/tcmalloc/internal/profile.pb.cc"; for s in "$@"; do echo "$s"; done; } > "$d/list"
  if [ "${NOMALLOC:-0}" = 1 ]; then grep -v '/tcmalloc/tcmalloc\.cc$' "$d/list" > "$d/l2"; mv "$d/l2" "$d/list"; fi
  nl -ba "$d/list" | awk '{print $1, $2}' > "$d/n"
  xargs -P 8 -L 1 sh -c 'case "$2" in *.S) g++ -x assembler-with-cpp -DTCMALLOC_INTERNAL_8K_PAGES '"$I"' -c "$2" -o "'"$d"'/$1.o";; *) g++ '"$F $I"' -c "$2" -o "'"$d"'/$1.o";; esac || exit 255' _ < "$d/n" > "$d/log" 2>&1 || { tail -5 "$d/log"; echo "demo: build failed"; exit 99; }
  g++ $flags "$d"/*.o -o "$T/$name" -Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a | grep -Ev 'test|flags_parse|exception_safety') -Wl,--end-group -lprotobuf -lpthread -lrt -ldl 2> "$d/log" || { tail -5 "$d/log"; echo "demo: link failed"; exit 99; }
}
