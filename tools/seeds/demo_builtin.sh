#!/bin/sh
# libseat with its embedded daemon
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
w=
grep -q __wrap_poll "$here/demo.c" && w=-Wl,--wrap=poll,--wrap=fork
gcc -g -D_GNU_SOURCE -w -DLIBSEAT=1 -DBUILTIN_ENABLED=1 -Uunix '-DSEATD_DEFAULTPATH="/none"' -Iinclude "$here/demo.c" \
	libseat/libseat.c libseat/backend/seatd.c libseat/backend/noop.c \
	seatd/client.c seatd/seat.c seatd/server.c seatd/poller.c \
	common/connection.c common/linked_list.c common/log.c common/terminal.c \
	common/drm.c common/evdev.c common/hidraw.c common/wscons.c $w -o "$t/demo"
timeout 60 "$t/demo"
