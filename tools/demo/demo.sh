#!/bin/bash
# Run in the repository's directory: exit 0 if the guarantee held, 1 if not.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
F="-std=gnu++17 -g -w -Isrc -IArduino -Itest -I$d"
ls src/*.cpp | xargs -P 8 -I{} sh -c "g++ $F -c {} -o $t/\$(basename {} .cpp).o 2>/dev/null"
ar rcs "$t/src.a" "$t"/*.o
g++ $F "$d/demo.cpp" "$t/src.a" -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
