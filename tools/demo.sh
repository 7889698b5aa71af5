#!/bin/bash
# Compiles demo.cpp against the library built in ./_build and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -g -w -fsanitize=address,undefined -I include -I _build "$here/demo.cpp" _build/libE57Format-d.a -lxerces-c -lpthread -o "$t/demo" || exit 3
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
