#!/bin/bash
# Builds the named targets from /repo's working tree (out of tree, in /verif/build).
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
export HOME=${HOME:-/root} CC=gcc CXX=g++ PYTHONDONTWRITEBYTECODE=1
B=$V/build/rel
mkdir -p $V/build
exec 9>$V/build/.lock; flock 9
export CCACHE_DIR=$V/build/ccache CCACHE_NOHASHDIR=1 CCACHE_MAXSIZE=2G CCACHE_SLOPPINESS=pch_defines,time_macros
L=""
command -v ccache >/dev/null && L="-DCMAKE_CXX_COMPILER_LAUNCHER=ccache -DCMAKE_C_COMPILER_LAUNCHER=ccache"
if [ ! -f $B/build.ninja ]; then
  cmake -S /repo -B $B -G Ninja -DCMAKE_BUILD_TYPE=Release \
    -DPYTHON_EXECUTABLE=/usr/bin/python3 \
    -DCMAKE_CXX_FLAGS="-include $V/harness/cmake/compat.h -DIMPLICIT_CTDS_32BIT -w" \
    -DCMAKE_CXX_FLAGS_RELEASE="-O1 -DNDEBUG" $L \
    -DCMAKE_PROJECT_meqtrees_INCLUDE=$V/harness/cmake/hook.cmake \
    -DCASACORE_LIBRARY_casa_components= -DCASACORE_LIBRARY_casa_calibration= \
    -DCASACORE_LIBRARY_casa_msvis= -DCASACORE_LIBRARY_casa_synthesis= \
    -Wno-dev >$V/build/cmake.log 2>&1 || { cat $V/build/cmake.log; rm -f $B/build.ninja; exit 1; }
fi
ninja -C $B -j8 "$@" || exit 1
