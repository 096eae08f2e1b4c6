#!/bin/bash
# builds demo.cpp against the headers in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
clang++ -std=c++20 -O1 -g1 -w -pthread -fsanitize=address,undefined -fno-sanitize-recover=all -ftemplate-depth=1000 \
  -I"$PWD/include" "$d/demo.cpp" -o "$t/demo" || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=1:detect_stack_use_after_return=1 timeout 120 ./demo
