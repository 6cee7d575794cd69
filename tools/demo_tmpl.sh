#!/bin/bash
# Compiles demo.C against the library built from this tree and runs it (cwd: the repository).
here="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; B="$R/_build"
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T" OMP_NUM_THREADS=${OMP_NUM_THREADS:-1} OPENBLAS_NUM_THREADS=1
D=$(grep -m1 '^  DEFINES = ' "$B/build.ninja" | sed 's/^  DEFINES = //; s/\\"/"/g')
D=$(eval "printf '%q ' $(grep -m1 '^  DEFINES = ' "$B/build.ninja" | sed 's/^  DEFINES = //')")
I="-I$B -I$R/3rdparty -I$R/src/ASM -I$R/src/LinAlg -I$R/src/SIM -I$R/src/Utility -I$R/src/Eig -I$R/3rdparty/autodiff -I$R/3rdparty/expreval -I$R/Apps/Utils -isystem /usr/include/superlu -isystem /usr/include/hdf5/serial -isystem /usr/include/suitesparse"
L="-lopenblas -lm -ldl -larpack -ltinyxml2 -L/usr/lib/x86_64-linux-gnu/hdf5/serial -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lgomp -lpthread -lsuperlu -lumfpack -lsuitesparseconfig -ldunecommon -lgfortran -lquadmath"
eval "g++ -O1 -w -DNDEBUG -std=gnu++20 -fopenmp $EXTRA $D $I -c '$here/demo.C' -o '$T/demo.o'" || exit 2
python3 "$here/link.py" g++ $EXTRA -fopenmp "$T/demo.o" "$B/lib/libIFEMAppUtils.a" "$B/lib/libIFEM.a" -o "$T/demo" $L || exit 2
cd "$T" && R="$R" timeout 120 "$T/demo"
