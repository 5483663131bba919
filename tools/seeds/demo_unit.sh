#!/bin/sh
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -g -D_GNU_SOURCE -w -fsanitize=address -I"$here" -Iinclude "$here/demo.c" $(cat "$here/sources") -o "$t/demo"
ASAN_OPTIONS=detect_leaks=0 timeout 100 "$t/demo"
