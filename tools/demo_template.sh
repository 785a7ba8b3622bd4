#!/bin/bash
# run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -pthread -I"$PWD" -I"$PWD/externals/rapidjson/include" "$D/demo.cpp" -o "$T/demo" \
    -Wl,--whole-archive "$PWD/_build/public/src/libdal_public.a" -Wl,--no-whole-archive \
    -Wl,--defsym=_ZN3Dal8NewSobolEimb=0 || exit 3
cd "$T" && timeout 120 "$T/demo"
