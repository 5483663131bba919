#!/bin/sh
# common/terminal.c as FreeBSD builds it, with the two headers it needs
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/sys"
cat > "$t/sys/consio.h" <<'H'
struct vt_mode { char mode, waitv; short relsig, acqsig, frsig; };
enum { VT_AUTO, VT_PROCESS, VT_SETMODE = 100, VT_RELDISP, VT_ACKACQ = 2, VT_ACTIVATE = 103, VT_GETACTIVE, KDSKBMODE, KDSETMODE, KD_TEXT = 0, KD_GRAPHICS = 1 };
#define cfmakesane d_cfmakesane
#define tcgetattr d_tcgetattr
#define tcsetattr d_tcsetattr
#define cfmakeraw d_cfmakeraw
#define open d_open
#define ioctl d_ioctl
#undef K_RAW
#undef K_XLATE
#define K_RAW 0
#define K_XLATE 1
void d_cfmakesane();
H
: > "$t/sys/kbio.h"
cat > "$t/first.h" <<'H'
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <string.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <unistd.h>
#undef __linux__
#define __FreeBSD__ 13
H
gcc -c -g -w -D_GNU_SOURCE -include "$t/first.h" -I"$t" -Iinclude common/terminal.c -o "$t/terminal.o"
gcc -g -w -D_GNU_SOURCE -Iinclude "$here/demo.c" "$t/terminal.o" -o "$t/demo"
timeout 60 "$t/demo"
