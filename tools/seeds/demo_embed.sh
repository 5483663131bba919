#!/bin/sh
# builds demo.c together with the daemon's sources and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -g -D_DEFAULT_SOURCE -DLIBSEAT=1 -w -fsanitize=address -I"$here" -Iinclude "$here/demo.c" \
	seatd/client.c seatd/seat.c seatd/server.c seatd/poller.c \
	common/connection.c common/linked_list.c common/log.c common/terminal.c \
	common/drm.c common/evdev.c common/hidraw.c common/wscons.c \
	-Wl,--wrap=open,--wrap=close,--wrap=dup,--wrap=ioctl,--wrap=realpath -o "$t/demo"
ASAN_OPTIONS=detect_leaks=0 timeout 100 "$t/demo"
