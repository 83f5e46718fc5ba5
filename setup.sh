#!/bin/bash
# Nothing to build ahead of time: every check compiles /repo's sources and its harness itself.
# This only confirms that the toolchain the checks need is there.
set -e
cd "$(dirname "$0")"
for t in /usr/bin/clang++-18 python3; do command -v $t >/dev/null; done
d=$(mktemp -d)
printf '#include <mdspan>\n#include <Eigen/Dense>\nint main(){Eigen::Vector3d v(1,2,3);return v.x()!=1;}' > $d/a.cpp
/usr/bin/clang++-18 -stdlib=libc++ -std=c++23 -I/usr/include/eigen3 -fsanitize=address,undefined $d/a.cpp -o $d/a
$d/a
rm -rf "$d"
python3 -c 'import json; json.load(open("MANIFEST.json"))'
echo setup ok
