#!/bin/bash
# Builds demo.cpp against the tree in the current directory and runs it: exit 0 iff the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
. "$D/demo.conf"
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/inc/scisim" "$T/o"
cat > "$T/inc/scisim/CompileDefinitions.h" <<'H'
#ifndef COMPILE_DEFINITIONS_H
#define COMPILE_DEFINITIONS_H
namespace CompileDefinitions { constexpr char GitSHA1[]{ "x" }; constexpr char BuildMode[]{ "x" }; constexpr char CCompiler[]{ "x" }; constexpr char CXXCompiler[]{ "x" }; }
#endif
H
export F="-std=c++14 -O0 -w -DNDEBUG -DCMAKE_DETECTED_CLANG_COMPILER -DEIGEN_DONT_PARALLELIZE $FLAGS -isystem /usr/include/eigen3 -I. -I$D -I$T/inc"
export T
# every translation unit goes into an archive; only those the demonstration needs are linked
find $DIRS -name '*.cpp' | grep -vE 'HDF5|Ipopt|ImpactSolution|StateOutput|Sobogus|QLUtilities|QL\.cpp|QLVP|StaggeredProjections|/QL/|scisim/ConstrainedMaps/ConstrainedMapUtilities' | sort > "$T/list"
xargs -P 8 -I{} sh -c 'o=$(echo {} | tr / _); clang++ $F -c {} -o $T/o/$o.o >$T/o/$o.log 2>&1' < "$T/list"
ar rcs "$T/lib.a" "$T"/o/*.o || exit 3
clang++ $F "$D/demo.cpp" "$T/lib.a" -o "$T/demo" || exit 3
cd "$T" && timeout 120 "$T/demo"
