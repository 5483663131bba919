#!/bin/sh
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -g -Uunix -D_GNU_SOURCE -w -fsanitize=address $(cat "$here/cflags") "-DSCRATCH=\"$t\"" "-DSEATD_DEFAULTPATH=\"$t/sock\"" "-DSEATD_INSTALLPATH=\"$t/seatd\"" '-DSEATD_VERSION="0"' '-DLIBSEAT_SYMVER=0' -I"$here" -Iinclude "$here/demo.c" $(cat "$here/sources") -lpthread -o "$t/demo"
ASAN_OPTIONS=detect_leaks=${LEAKS:-0} timeout 100 "$t/demo" "$t"
