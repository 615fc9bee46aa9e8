#!/bin/bash
# Builds libdynd (with AddressSanitizer) from /repo's working tree, and the named harnesses against it.
# Usage: build.sh [harness...]     Everything goes to /verif/.build (ignored by git).
# Nothing depends on time stamps: all objects are rebuilt every time, through ccache, which hashes contents.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
R=${VERIF_REPO:-/repo}
B=${VERIF_BUILD:-$V/.build}
mkdir -p "$B/bin"
exec 9>"$B/lock"
flock 9
export CCACHE_DIR="$B/ccache" CCACHE_MAXSIZE=3G CCACHE_NOHASHDIR=1 CCACHE_COMPILERCHECK=content
unset CCACHE_SLOPPINESS CCACHE_DISABLE
SAN="-fsanitize=address -fno-omit-frame-pointer"
log="$B/build.log"
: >"$log"
fail() { echo "BUILD-ERROR: $1" >&2; tail -40 "$log" >&2; exit 2; }

lib() { # lib DIR FLAGS TARGETS...
  local dir=$1 flags=$2; shift 2
  if [ -f "$dir/build.ninja" ]; then ninja -C "$dir" -t clean >>"$log" 2>&1; fi
  cmake -S "$R" -B "$dir" -G Ninja -DCMAKE_BUILD_TYPE= -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ \
    -DCMAKE_CXX_COMPILER_LAUNCHER=ccache -DCMAKE_C_COMPILER_LAUNCHER=ccache -DDYND_BUILD_TESTS=OFF \
    -DCMAKE_POLICY_VERSION_MINIMUM=3.5 "-DCMAKE_CXX_FLAGS=-O1 -g1 -Wno-error $flags" "-DCMAKE_C_FLAGS=-O1 -g1 -Wno-error $flags" \
    ${LINK[@]+"${LINK[@]}"} >>"$log" 2>&1 || fail "cmake"
  ninja -C "$dir" "$@" >>"$log" 2>&1 || fail "library"
}
# the harnesses of the C ABI need its library only
LIBS=dynd_abi
for h in "$@"; do
  case $h in abi | racea) ;; *) LIBS="libdynd libdyndt dynd_abi" ;; esac
done
[ $# = 0 ] && LIBS="libdynd libdyndt dynd_abi"
needs() { case $1 in abi | racea) echo -ldynd_abi ;; *) echo -ldynd -ldyndt -ldynd_abi ;; esac; }
if [ "$*" != race ] && [ "$*" != racea ]; then
  lib "$B/lib" "$SAN" $LIBS
fi
case " $* " in *" race "* | *" racea "*)
  # the scheduler in harness/race.cpp takes the place of libtsan, so that is not linked
  SO='<SONAME_FLAG><TARGET_SONAME> -o <TARGET> <OBJECTS> <LINK_LIBRARIES> -Wl,-z,now'
  LINK=("-DCMAKE_CXX_CREATE_SHARED_LIBRARY=<CMAKE_CXX_COMPILER> <CMAKE_SHARED_LIBRARY_CXX_FLAGS> <LINK_FLAGS> <CMAKE_SHARED_LIBRARY_CREATE_CXX_FLAGS> $SO"
    "-DCMAKE_C_CREATE_SHARED_LIBRARY=<CMAKE_C_COMPILER> <CMAKE_SHARED_LIBRARY_C_FLAGS> <LINK_FLAGS> <CMAKE_SHARED_LIBRARY_CREATE_C_FLAGS> $SO")
  lib "$B/tsan" "-fsanitize=thread" $LIBS
  ;;
esac

INC="-I$R/include -I$B/lib/include -I$R/thirdparty/utf8/source -I$R/thirdparty/datetime/include -I$V/harness"
pids=()
for h in "$@"; do
  case $h in
  race | racea)
    (
      TI="-I$R/include -I$B/tsan/include -I$R/thirdparty/utf8/source -I$R/thirdparty/datetime/include -I$V/harness"
      ccache g++ -std=c++14 -O1 -g1 -fsanitize=thread -w $TI -c "$V/harness/${h}_s.cpp" -o "$B/bin/${h}_s.o" >"$B/bin/$h.log" 2>&1 &&
        ccache g++ -std=c++14 -O1 -g1 -fno-builtin -w -I"$V/harness" -c "$V/harness/race.cpp" -o "$B/bin/${h}_m.o" >>"$B/bin/$h.log" 2>&1 &&
        g++ -rdynamic "$B/bin/${h}_m.o" "$B/bin/${h}_s.o" -o "$B/bin/$h" -L"$B/tsan" $(needs "$h") -ldl -lpthread -Wl,-rpath,"$B/tsan" >>"$B/bin/$h.log" 2>&1
    ) &
    pids+=("$!:$h")
    continue
    ;;
  esac
  (
    ccache g++ -std=c++14 -O1 -g1 $SAN -w $INC -c "$V/harness/$h.cpp" -o "$B/bin/$h.o" >"$B/bin/$h.log" 2>&1 &&
      g++ $SAN "$B/bin/$h.o" -o "$B/bin/$h" -L"$B/lib" $(needs "$h") -Wl,-rpath,"$B/lib" >>"$B/bin/$h.log" 2>&1
  ) &
  pids+=("$!:$h")
  while [ "$(jobs -rp | wc -l)" -ge 8 ]; do sleep 0.1; done
done
rc=0
for p in ${pids[@]+"${pids[@]}"}; do
  wait "${p%%:*}" || { echo "BUILD-ERROR: harness ${p##*:}" >&2; tail -30 "$B/bin/${p##*:}.log" >&2; rc=2; }
done
exit $rc
