#!/bin/bash
# build.sh REPO KITDIR OUTDIR SIM   builds SIM (ball2d, rigidbody2d or rigidbody3d) of REPO's working tree as OUTDIR/SIM, with the
# stand-ins for the libraries that are not installed. Extra compiler flags in DEMO_FLAGS.
set -e
repo=$1 kit=$2 out=$3 sim=$4
mkdir -p "$out/obj"
flags="-std=c++14 -O0 -fopenmp -DNDEBUG -DEIGEN_DONT_PARALLELIZE -DCMAKE_DETECTED_GNU_COMPILER -DUSE_HDF5 -DUSE_PYTHON -DQL_FOUND -isystem /usr/include/eigen3 -I$kit/shim -I$kit -I$repo -w $DEMO_FLAGS"
echo '#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <Eigen/Sparse>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <vector>' > "$out/pch.h"
g++ $flags -x c++-header "$out/pch.h" -o "$out/pch.h.gch"
{ find "$repo/scisim" "$repo/$sim" "$repo/${sim}utils" "$repo/${sim}cli" -name '*.cpp' | grep -v Ipopt; ls "$kit"/*.cpp; } > "$out/sources"
export out flags
xargs -a "$out/sources" -P 8 -I{} bash -c 'o=$out/obj/$(echo "$1" | tr / _).o; case $1 in */*_stub.cpp|*/mini_runtime.cpp) g++ $flags -c "$1" -o "$o";; *) g++ -include "$out/pch.h" $flags -c "$1" -o "$o";; esac' _ {}
g++ -o "$out/$sim" "$out"/obj/*.o -lgomp -ldl -lpthread
rm -r "$out/obj" "$out/pch.h.gch"
