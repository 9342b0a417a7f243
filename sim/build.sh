#!/bin/bash
# Builds the simulator from /repo's current working tree into $OUT (default /verif/build).
# Prints nothing on success; exit 3 if the tree does not compile.
set -eu
export LC_ALL=C PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
HERE="$(cd "$(dirname "$0")" && pwd -P)"
REPO="${REPO:-/repo}"
OUT="${OUT:-$HERE/../build}"
mkdir -p "$OUT"; OUT="$(cd "$OUT" && pwd -P)"
exec 9>"$OUT/.lock"; flock 9

SUM=$(cd "$REPO" && cat -- *.c *.h *.in scriptx.leg "$HERE"/*.cpp "$HERE"/*.h "$HERE"/build.sh | sha256sum | cut -c1-24)
[ -x "$OUT/akt" ] && [ "$(cat "$OUT/akt.sum" 2>/dev/null)" = "$SUM" ] && exit 0

# 1. the simulator's own objects (independent of /repo)
SSUM=$(cat "$HERE"/*.cpp "$HERE"/*.h "$HERE"/build.sh | sha256sum | cut -c1-24)
mkdir -p "$OUT/so"
if [ "$(cat "$OUT/so.sum" 2>/dev/null)" != "$SSUM" ]; then
  rm -f "$OUT/so.sum"; pids=()
  for f in "$HERE"/*.cpp; do
    b=$(basename "$f" .cpp)
    g++ -std=c++20 -O1 -g -fno-pic -no-pie -Wno-misleading-indentation -c "$f" -o "$OUT/so/$b.o" & pids+=($!)
  done
  for p in "${pids[@]}"; do wait "$p"; done
  echo "$SSUM" > "$OUT/so.sum"
fi

# 2. autark itself, real sources
W="$OUT/ak"; mkdir -p "$W"; rm -f "$W"/*
sed -e 's|^//autarkdef  *META_VERSION  *"|#define META_VERSION "0.9.0"|' -e 's|^//autarkdef  *META_REVISION  *"|#define META_REVISION "simulated"|' \
  "$REPO/config.h.in" > "$W/config.h"
( cd "$REPO" && leg -o "$W/scriptx.h" scriptx.leg ) || exit 3
pids=()
for f in "$REPO"/*.c; do
  b=$(basename "$f" .c)
  gcc -std=c99 -D_XOPEN_SOURCE=700 -D_POSIX_C_SOURCE=200809L -D_DEFAULT_SOURCE -DDEBUG=1 -O1 -g -w -fno-builtin -U_FORTIFY_SOURCE \
    -fno-pic -no-pie -fno-common -fno-zero-initialized-in-bss -fstack-protector-strong -fno-omit-frame-pointer \
    -I"$W" -I"$REPO" -c "$f" -o "$W/$b.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 3; done
ld -r -o "$W/all0.o" "$W"/*.o
# libc functions without side effects stay; everything else goes to the simulator
PURE='^(mem(cpy|move|set|cmp|chr|rchr|mem|pcpy)|str(len|nlen|cmp|ncmp|casecmp|ncasecmp|chr|rchr|chrnul|str|casestr|spn|cspn|pbrk|cpy|ncpy|cat|ncat|tok|tok_r|sep|coll|lcpy|lcat)|st(p|pn)cpy|rawmemchr|v?s(n)?printf|v?sscanf|__isoc(99|23)_sscanf|qsort|qsort_r|bsearch|lsearch|lfind|dirname|basename|__xpg_basename|is(alnum|alpha|digit|space|print|punct|upper|lower|xdigit|blank|cntrl|graph)|to(upper|lower)|__ctype_(b|tolower|toupper)_loc|fnmatch|abs|labs|llabs|ato(i|l|ll|f)|bcmp|bcopy|bzero|index|rindex|ffs|_?setjmp|__sigsetjmp|_?longjmp|htonl|ntohl|htons|ntohs|memccpy|strverscmp|l?l?div|strsignal|strpbrk|getsubopt|imaxabs|f?(floor|ceil|round|trunc|sqrt|log|log2|log10|exp|pow|fmod|fabs|lround)f?|wcs(len|cmp|cpy|cat|chr)|isw[a-z]+|tow(upper|lower)|mb(r?towc|srtowcs|stowcs|len|rlen|sinit)|wc(r?tomb|stombs)|__ctype_get_mb_cur_max|basename_r|inet_[a-z]+|crypt|l64a|a64l)$'
nm -u "$W/all0.o" | awk '{print $2}' | sort -u > "$W/undef"
grep -vE "$PURE" "$W/undef" | grep -vE '^(_GLOBAL_OFFSET_TABLE_|__start_|__stop_)' > "$W/impure" || true
{ sed 's/.*/& sim_&/' "$W/impure"; echo "main ak_main"; } > "$W/redef"
# symbols which are data in libc
objcopy --redefine-syms="$W/redef" --set-section-flags .bss=alloc,load,contents --rename-section .bss=akbss --rename-section .data=akdata,alloc,load,data,contents \
  --remove-section .fini_array --remove-section .rela.fini_array --remove-section .dtors "$W/all0.o" "$W/all.o"
nm "$OUT"/so/*.o | awk '$2 ~ /[TBDVWR]/ {print $3}' | sort -u > "$W/have"
sed 's/^/sim_/' "$W/impure" | sort -u | comm -23 - "$W/have" > "$W/missing"
{ echo 'void sim_unsupported(const char*);'; while read -r s; do echo "void $s(void) { sim_unsupported(\"${s#sim_}\"); }"; done < "$W/missing"; } > "$W/stubs.c"
gcc -w -O1 -fno-pic -c "$W/stubs.c" -o "$W/stubs.o"
g++ -g -no-pie -o "$OUT/akt.new" "$OUT"/so/*.o "$W/all.o" "$W/stubs.o"
mv "$OUT/akt.new" "$OUT/akt"; echo "$SUM" > "$OUT/akt.sum"
