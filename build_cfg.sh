#!/bin/bash
# Configure the sanitized build of /repo/src (GridPACK's own CMake) plus the harness
# targets of /verif/harness.   build_cfg.sh BUILD_DIR REPO
. /opt/vp/env.sh
export ASAN_OPTIONS=detect_leaks=0
V=$(cd "$(dirname "$0")" && pwd)
B=${1:-$V/build/asan}; R=${2:-/repo}
[ -f "$B/build.ninja" ] && exit 0
mkdir -p "$B"
FL="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr,alignment,null,nonnull-attribute,returns-nonnull-attribute -ftrivial-auto-var-init=pattern -D_GLIBCXX_SANITIZE_VECTOR=1 -w"
cmake -S "$R/src" -B "$B" -G Ninja \
    -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ -DMPI_CXX_COMPILER=mpicxx \
    -DCMAKE_CXX_COMPILER_LAUNCHER=ccache -DCMAKE_C_COMPILER_LAUNCHER=ccache -DCMAKE_BUILD_TYPE=None -DBUILD_SHARED_LIBS=OFF \
    "-DCMAKE_CXX_FLAGS=$FL" "-DCMAKE_C_FLAGS=$FL" \
    -DCMAKE_EXE_LINKER_FLAGS=-L$L/hdf5/openmpi -DGRIDPACK_ENABLE_TESTS=OFF \
    -DCMAKE_PROJECT_INCLUDE="$V/inject.cmake" -DVH_DIR="$V/harness" \
    -DPETSC_DIR=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-complex \
    -DPETSC_HAVE_SUPERLU_DIST=OFF \
    "-DGA_EXTRA_LIBS=$L/libscalapack-openmpi.so;$L/liblapack.so;$L/libblas.so;gfortran" \
    -DMPIEXEC=/usr/bin/mpiexec -DMPIEXEC_NUMPROC_FLAG=-n -DMPIEXEC_MAX_NUMPROCS=2 \
    -DCMAKE_EXPORT_COMPILE_COMMANDS=ON || { rm -f "$B/build.ninja"; exit 3; }
