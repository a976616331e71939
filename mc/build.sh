#!/bin/bash
# build.sh OUT_EXE MACORO_SRC_DIR HARNESS.cpp... : builds one model-checking executable
# from the repository's current sources (instrumented) and the mc runtime.
set -euo pipefail
here=$(cd "$(dirname "$0")" && pwd)
out=$1; repo=$2; shift 2
work=$(dirname "$out")/obj.$(basename "$out"); mkdir -p "$work/gen/macoro"
# config.h as the repository's own CMake template would generate it (own stop_token, C++20)
python3 "$here/genconfig.py" "$repo/macoro/config.h.in" "$work/gen/macoro/config.h" ${MC_STD_STOP:+std}
# std::atomic::wait with one look at the value before it blocks instead of sixteen (the rest is the library's own code)
aw=$(echo '#include <atomic>' | g++ -std=c++20 -E -x c++ - | sed -n 's/^# 1 "\(.*bits\/atomic_wait.h\)".*/\1/p' | head -1)
if [ -n "$aw" ]; then mkdir -p "$work/gen/bits"; sed 's/\(__atomic_spin_count_relax = \)[0-9]*/\11/; s/\(__atomic_spin_count = \)[0-9]*/\11/' "$aw" > "$work/gen/bits/atomic_wait.h"; fi
RT="-std=c++20 -O2 -U_FORTIFY_SOURCE -g -fno-omit-frame-pointer -fno-pie -Wno-volatile"
IN="-std=c++20 -O1 -g1 -fno-omit-frame-pointer -fno-pie -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -w -foptimize-sibling-calls ${MC_CXXFLAGS:-}"
INC="${MC_STD_STOP:+-I$here/stdshim }-I$work/gen -I$repo -I$here"
pids=()
compile() { # source object: with the first of the alternative flags that makes it compile, if any are given
  g++ $IN $INC -c "$1" -o "$2" && return
  for f in ${MC_DROPS:-}; do if g++ $IN $f $INC -O0 -fsyntax-only "$1" 2>/dev/null; then g++ $IN $f $INC -c "$1" -o "$2"; return; fi; done; return 1
}
g++ $RT -c "$here/mcrt.cpp" -o "$work/mcrt.o" && objcopy --redefine-sym memcpy=__real_memcpy --redefine-sym memset=__real_memset --redefine-sym memmove=__real_memmove "$work/mcrt.o" & pids+=($!)
srcs=(); for s in "$repo"/macoro/*.cpp "$repo"/macoro/detail/*.cpp; do case "$s" in */win32.cpp) continue;; */detail/stop_*.cpp) [ -z "${MC_STD_STOP:-}" ] || continue;; esac; srcs+=("$s"); done
objs=()
g++ -c "$here/mark0.s" -o "$work/mark0.o"; g++ -c "$here/mark1.s" -o "$work/mark1.o"
for s in "${srcs[@]}" "$@"; do o="$work/$(basename "$s" .cpp).o"; objs+=("$o"); compile "$s" "$o" & pids+=($!); done
if [ -z "${MC_SKIPBAD:-}" ]; then for p in "${pids[@]}"; do wait "$p"; done
else # what compiles of the harness
  for p in "${pids[@]}"; do wait "$p" || true; done; n=0; ok=(); for o in "${objs[@]}"; do [ -f "$o" ] && ok+=("$o"); done
  for s in "$@"; do [ -f "$work/$(basename "$s" .cpp).o" ] && n=$((n+1)); done; [ $n -gt 0 ]; objs=("${ok[@]}")
fi
W=""; for f in _ZNSt6thread20hardware_concurrencyEv malloc free calloc realloc memcpy memmove memset clock_gettime sched_yield abort nanosleep clock_nanosleep syscall __cxa_atexit _ZNSt15__exception_ptr13exception_ptr9_M_addrefEv _ZNSt15__exception_ptr13exception_ptr10_M_releaseEv; do W="$W -Wl,--wrap=$f"; done
g++ -no-pie -static-libstdc++ -static-libgcc "$work/mcrt.o" "$work/mark0.o" "${objs[@]}" "$work/mark1.o" -o "$out" $W -lpthread
