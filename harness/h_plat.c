/*
 * The real terminal.c, drm.c, evdev.c, hidraw.c and wscons.c of one system
 * (PLAT: 1 Linux, 2 FreeBSD, 3 NetBSD) against what that system calls its
 * devices and expects of its console. mode 0: every path; mode 1: every
 * terminal number; mode 2: every terminal and device operation with failures.
 */
#define VF_ENV
#include "rename.h"
#include "vf.h"
#if PLAT == 1
#include <linux/input.h>
#include <linux/kd.h>
#include <linux/vt.h>
#define VT_GETACTIVE 0
#define KB_ON K_UNICODE
#define KB_OFF K_OFF
#define FR 0
#else
#include "bsd/plat.h"
#define KB_ON K_XLATE
#define KB_OFF K_RAW
#define FR (PLAT == 2 ? SIGIO : 0)
#define EVIOCREVOKE _IOW('E', 0x91, int)
#endif
#include "drm.h"
#include "evdev.h"
#include "hidraw.h"
#include "terminal.h"
#include "wscons.h"

FILE *env_stderr;
char *env_strerror(int e) { (void)e; return "error"; }
int env_snprintf(char *b, size_t n, const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	int r = vsnprintf(b, n, f, ap);
	va_end(ap);
	return r;
}
void _logf(int level, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	vf_log(fmt, ap);
	va_end(ap);
	(void)level;
}

/* ---------- the system ---------- */
enum { FD = 7 };
static int n_faults, failed, n_open, n_ioctl, n_get, n_set;
static unsigned long req;
static uintptr_t arg;
static struct vt_mode vtm;
static int cur_vt;
static char opened[64];
static int open_flags;
static struct termios tio, tio0;
static int made; /* 1 raw, 2 sane */
static bool fault(void) {
	if (!n_faults || !nd_bool("fault")) return false;
	n_faults--;
	errno = failed = any_errno(EIO);
	return true;
}
int env_open(const char *path, int flags, int mode) {
	(void)mode;
	n_open++;
	vf_check_cstr(path);
	int i = 0;
	for (; i < 63 && path[i]; i++) opened[i] = path[i];
	opened[i] = 0;
	open_flags = flags;
	return fault() ? -1 : FD;
}
int env_ioctl(int fd, unsigned long r, void *a) {
	VF_ASSERT("C29", fd == FD, "operations go to the descriptor given");
	VF_ASSERT("C29", n_ioctl++ == 0, "one request per operation");
	req = (unsigned)r;
	arg = (uintptr_t)a;
	if (fault()) return -1;
	if (req == VT_SETMODE) vtm = *(struct vt_mode *)a;
#if PLAT == 2
	else if (req == VT_GETACTIVE) *(int *)a = cur_vt;
#else
	else if (req == VT_GETSTATE) ((struct vt_stat *)a)->v_active = cur_vt, ((struct vt_stat *)a)->v_signal = 0, ((struct vt_stat *)a)->v_state = 0xffff;
#endif
	return 0;
}
int env_tcgetattr(int fd, struct termios *t) {
	VF_ASSERT("C29", fd == FD, "operations go to the descriptor given");
	n_get++;
	if (fault()) return -1;
	*t = tio;
	return 0;
}
int env_tcsetattr(int fd, int how, const struct termios *t) {
	VF_ASSERT("C29", fd == FD, "operations go to the descriptor given");
	VF_ASSERT("C29", how == TCSANOW || how == TCSADRAIN || how == TCSAFLUSH, "the terminal mode is set in a known way");
	n_set++;
	if (fault()) return -1;
	tio = *t;
	return 0;
}
void env_cfmakeraw(struct termios *t) { made = 1; t->c_lflag = tio0.c_lflag ^ 1; }
void env_cfmakesane(struct termios *t) { made = 2; t->c_lflag = tio0.c_lflag ^ 2; }

static bool prefix(const char *s, const char *p) {
	bool r = true;
	for (int i = 0; p[i]; i++) {
		r = r & (s[i] == p[i]);
		if (!s[i]) break;
	}
	return r;
}

static void paths(void) {
	static const char *base[] = {"/dev/input/event", "/dev/dri/", "/dev/drm/", "/dev/wskbd", "/dev/wsmouse", "/dev/wsmux", "/dev/hidraw", "/dev/uhid"};
	char p[24];
	int from = nd_pick("from", 0, 8), len;
	if (from == 8) { /* any short path */
		len = nd_pick("len", 0, 11);
		for (int i = 0; i < len; i++) p[i] = (char)nd_u8("c");
	} else { /* the prefixes, with any character changed, cut at any place, and followed by anything */
		len = strlen(base[from]);
		strcpy(p, base[from]);
		int cut = nd_pick("cut", 0, len);
		if (cut < len) {
			p[cut] = (char)nd_u8("c"); /* also the end */
		}
		int more = nd_pick("more", 0, 2);
		for (int i = 0; i < more; i++) p[len++] = (char)nd_u8("c");
	}
	p[len] = 0;
	bool ev = prefix(p, "/dev/input/event") && PLAT != 3;
	bool drm = prefix(p, "/dev/dri/") || (PLAT == 2 && prefix(p, "/dev/drm/"));
	bool ws = PLAT == 3 && (prefix(p, "/dev/wskbd") || prefix(p, "/dev/wsmouse") || prefix(p, "/dev/wsmux"));
	bool hid = PLAT == 1 && HID && prefix(p, "/dev/hidraw");
	bool e2 = path_is_evdev(p), d2 = path_is_drm(p), w2 = path_is_wscons(p), h2 = path_is_hidraw(p);
	VF_ASSERT("C29", e2 == ev, "a path is taken for an input device exactly if it is one");
	VF_ASSERT("C29", d2 == drm, "a path is taken for a display device exactly if it is one");
	VF_ASSERT("C29", w2 == ws, "a path is taken for a wscons device exactly if it is one");
	VF_ASSERT("C29", h2 == hid, "a path is taken for a hidraw device exactly if it is one");
	if (e2 | d2 | w2 | h2) VF_WITNESS("device"); else VF_WITNESS("no-device");
	vf_obs("kind", e2 | d2 << 1 | w2 << 2 | h2 << 3);
}

static int number(const char *s, int base) { /* -1: not one; -2: too large */
	long v = 0;
	int n = 0;
	bool bad = false;
	for (; s[n]; n++) { /* without branches on the digits */
		int c = s[n];
		int dig = -(int)((c >= '0') & (c <= '9')), let = -(int)((c >= 'a') & (c <= 'z'));
		int d = (dig & (c - '0')) | (let & (c - 'a' + 10));
		bad = bad | !(dig | let) | (d >= base);
		if (n >= 10) return -2;
		v = v * base + d;
	}
	if (bad) return -1;
	if (!n || (n > 1 && s[0] == '0')) return -1;
	return v > 0x7fffffff ? -2 : (int)v;
}
static void terms(void) {
	int vt;
#if PLAT == 2
	vt = nd_int("vt");
	int digits = nd_pick("digits", 1, 7);
	VF_ASSUME(vt >= 0 && (digits == 7 || (vt - (vt > 0)) < 1 << 5 * digits) && (digits == 1 || (vt - (vt > 0)) >= 1 << 5 * (digits - 1)));
	const char *pre = "/dev/ttyv";
#else
	/* 16 bits are all the kernel reports */
	static const int some[] = {64, 99, 100, 255, 256, 999, 1000, 9999, 10000, 12345, 32767, 32768, 65534, 65535};
	int k = nd_pick("vt", 0, 63 + (int)(sizeof some / sizeof some[0]));
	vt = k < 64 ? k : some[k - 64];
	const char *pre = PLAT == 1 ? "/dev/tty" : "/dev/ttyE";
#endif
	errno = 0;
	int fd = terminal_open(vt);
	if (fd == -1) {
		int e = errno;
		VF_ASSERT("C29", e != 0, "a terminal that cannot be opened is an error with a reason");
		VF_ASSERT("C29", n_open == 0 || failed, "a terminal fails to open only if it cannot be opened");
		VF_ASSERT("C29", n_open || (PLAT == 2 && vt > 1 << 30), "every terminal has a name");
		if (!n_open) VF_WITNESS("no-name");
		else VF_WITNESS("terminal-failed");
	} else {
		VF_ASSERT("C29", fd == FD && n_open == 1 && !failed, "the terminal opened is the one returned");
		VF_WITNESS("terminal");
	}
	if (n_open) {
		VF_ASSERT("C29", prefix(opened, pre), "terminals have their system's names");
		int want = PLAT == 2 ? vt > 0 ? vt - 1 : 0 : vt;
		int got = number(opened + strlen(pre), PLAT == 2 ? 32 : 10);
		VF_ASSERT("C29", got == want, "the terminal opened is the one with the number asked for");
		VF_ASSERT("C29", (open_flags & O_NOCTTY) && (open_flags & O_ACCMODE) == O_RDWR, "never as controlling terminal, for reading and writing");
	}
	vf_obs("fd", fd);
}

static void operations(void) {
	int op = nd_pick("op", 0, 10), r, vt = 0;
	bool en = nd_bool("enable");
	tio.c_lflag = tio0.c_lflag = (tcflag_t)4 * (nd_u8("lflag") & 15);
	cur_vt = nd_u16("cur");
	errno = 0;
	switch (op) {
	case 0: r = terminal_set_process_switching(FD, en); break;
	case 1: r = terminal_current_vt(FD); break;
	case 2: vt = nd_int("vt"); r = terminal_switch_vt(FD, vt); break;
	case 3: r = terminal_ack_release(FD); break;
	case 4: r = terminal_ack_acquire(FD); break;
	case 5: r = terminal_set_keyboard(FD, en); break;
	case 6: r = terminal_set_graphics(FD, en); break;
	case 7: r = evdev_revoke(FD); break;
	case 8: r = drm_set_master(FD); break;
	case 9: r = drm_drop_master(FD); break;
	default: r = hidraw_revoke(FD); break;
	}
	int e = errno;
	if (failed) {
		VF_ASSERT("C29", r == -1 && e != 0, "a failing request is reported");
		VF_WITNESS("operation-failed");
	} else {
		VF_ASSERT("C29", op == 1 ? r == cur_vt : r == 0, "a request that succeeds is reported as such");
		VF_WITNESS("operation");
	}
	bool none = (op == 7 && PLAT == 3) || (op == 10 && !(PLAT == 1 && HID));
	VF_ASSERT("C29", n_ioctl == !none, "the request is made, once");
	bool ok = !failed;
	switch (op) {
	case 0:
		VF_ASSERT("C29", req == VT_SETMODE, "switching is set with its request");
		if (ok) {
			VF_ASSERT("C29", vtm.mode == (en ? VT_PROCESS : VT_AUTO) && vtm.relsig == (en ? SIGUSR1 : 0) && vtm.acqsig == (en ? SIGUSR2 : 0) && vtm.frsig == FR, "switching is controlled by the daemon's signals, or by the kernel");
		}
		break;
	case 1: VF_ASSERT("C29", req == (PLAT == 2 ? VT_GETACTIVE : VT_GETSTATE), "the terminal in front is asked for with its request"); break;
	case 2: VF_ASSERT("C29", req == VT_ACTIVATE && (int)arg == vt, "the switch asked for is requested"); break;
	case 3: VF_ASSERT("C29", req == VT_RELDISP && arg == 1, "a release is allowed"); break;
	case 4: VF_ASSERT("C29", req == VT_RELDISP && arg == VT_ACKACQ, "an acquisition is acknowledged"); break;
	case 5:
		VF_ASSERT("C29", req == KDSKBMODE && arg == (uintptr_t)(en ? KB_ON : KB_OFF), "the keyboard is given to the console, or taken from it");
		if (PLAT == 2 && ok) VF_ASSERT("C29", n_set == 1 && made == (en ? 2 : 1) && tio.c_lflag == (tio0.c_lflag ^ (en ? 2 : 1)), "and the terminal made sane, or raw");
		break;
	case 6: VF_ASSERT("C29", req == KDSETMODE && arg == (uintptr_t)(en ? KD_GRAPHICS : KD_TEXT), "the console is put into the mode asked for"); break;
	case 7: if (!none) VF_ASSERT("C29", req == (unsigned)EVIOCREVOKE && arg == 0, "an input device is revoked"); break;
	case 8: VF_ASSERT("C29", req == (unsigned)_IO('d', 0x1e), "display master is set with its request"); break;
	case 9: VF_ASSERT("C29", req == (unsigned)_IO('d', 0x1f), "display master is dropped with its request"); break;
	case 10: if (!none) VF_ASSERT("C29", req == (unsigned)_IOW('H', 0x0D, int) && arg == 0, "a hidraw device is revoked"); break;
	}
	if (PLAT != 2 || op != 5) VF_ASSERT("C29", n_get + n_set == 0, "terminal attributes are not touched");
	vf_obs("r", r);
}

int vf_main(void) {
	n_faults = (int)vf_param("faults", 0);
	switch (vf_param("mode", 0)) {
	case 0: paths(); break;
	case 1: terms(); break;
	case 2: operations(); break;
	}
	return 0;
}
