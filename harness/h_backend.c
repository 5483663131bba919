/*
 * libseat.c with the three real backends replaced by stubs that fail or
 * succeed, for every value of LIBSEAT_BACKEND (mode 0); and the no-op backend,
 * reached through it, for every sequence of calls (mode 1).
 */
#define VF_ENV
#include "rename.h"
#include "vf.h"
#include "backend.h"
#include "libseat.h"
#include "log.h"

FILE *env_stderr;
static int faults, n_fault, heap_live;
static int fault_err;
static bool fault(int e) {
	if (faults <= 0 || !nd_bool("fault")) return false;
	faults--;
	n_fault++;
	errno = fault_err = any_errno(e);
	return true;
}
void *env_calloc(size_t n, size_t s) { if (fault(ENOMEM)) return NULL; heap_live++; return calloc(n, s); }
void *env_malloc(size_t n) { if (fault(ENOMEM)) return NULL; heap_live++; return malloc(n); }
void env_free(void *p) { if (p) heap_live--; free(p); }
void _logf(enum libseat_log_level l, const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	vf_log(f, ap);
	va_end(ap);
}
static int n_init;
void log_init(void) { n_init++; }
char *env_strerror(int e) { (void)e; return ""; }
static const char *env_value;
char *env_getenv(const char *n) { return strcmp(n, "LIBSEAT_BACKEND") ? (nd_bool("env") ? "yes" : NULL) : (char *)env_value; }

/* ---------- the stub backends ---------- */
#ifdef SEATD_ENABLED
#define HAVE_S 1
#else
#define HAVE_S 0
#endif
#ifdef LOGIND_ENABLED
#define HAVE_L 1
#else
#define HAVE_L 0
#endif
#ifdef BUILTIN_ENABLED
#define HAVE_B 1
#else
#define HAVE_B 0
#endif
static const bool have[3] = {HAVE_S, HAVE_L, HAVE_B};
static const char *names[3] = {"seatd", "logind", "builtin"};
static bool fails[3];
static int err[3], tried[3], order[3], n_tried;
extern const struct seat_impl noop_impl;
static int lis_seen;
static const struct libseat_seat_listener *cur_lis;
static void *cur_data;
static struct libseat seats[3];
static const struct seat_impl *impl_of(int i);
static struct libseat *try_open(int i, const struct libseat_seat_listener *l, void *d) {
	VF_ASSERT("C22", l == cur_lis && d == cur_data, "the backend is given the caller's listener and data");
	VF_ASSERT("C22", n_init > 0, "logging is ready");
	tried[i]++;
	if (n_tried < 3) order[n_tried] = i;
	n_tried++;
	if (fails[i]) { errno = err[i]; return NULL; }
	errno = nd_range("noise", 0, 200);
	seats[i].impl = impl_of(i);
	return &seats[i];
}
/* calls passed on */
static int c_fn, c_arg, c_ret;
static struct libseat *c_seat;
static const void *c_ptr;
static int *c_fd;
static const char *c_str = "seatX";
#define SAW(f, s) (c_fn = f, c_seat = s)
static int s_disable(struct libseat *s) { SAW(1, s); errno = 9; return c_ret; }
static int s_close(struct libseat *s) { SAW(2, s); return c_ret; }
static const char *s_name(struct libseat *s) { SAW(3, s); return c_str; }
static int s_odev(struct libseat *s, const char *p, int *fd) { SAW(4, s); c_ptr = p; c_fd = fd; return c_ret; }
static int s_cdev(struct libseat *s, int id) { SAW(5, s); c_arg = id; return c_ret; }
static int s_switch(struct libseat *s, int id) { SAW(6, s); c_arg = id; return c_ret; }
static int s_fd(struct libseat *s) { SAW(7, s); return c_ret; }
static int s_disp(struct libseat *s, int t) { SAW(8, s); c_arg = t; return c_ret; }
#define STUB(n, i) \
	static struct libseat *n##_open(const struct libseat_seat_listener *l, void *d) { return try_open(i, l, d); } \
	const struct seat_impl n##_impl = {.open_seat = n##_open, .disable_seat = s_disable, .close_seat = s_close, .seat_name = s_name, .open_device = s_odev, .close_device = s_cdev, .switch_session = s_switch, .get_fd = s_fd, .dispatch = s_disp};
STUB(seatd, 0)
STUB(logind, 1)
STUB(builtin, 2)
static const struct seat_impl *impl_of(int i) { return i == 0 ? &seatd_impl : i == 1 ? &logind_impl : &builtin_impl; }

/* ---------- the no-op backend's environment ---------- */
static int s_open[2], n_sock, n_enable, n_disable, poll_ret, poll_t, n_poll, closed_dev, open_ret;
static bool in_dispatch, dev_open[4], told; /* told: this dispatch delivered the event */
static const char *want_path;
static int want_timeout;
int env_socketpair(int d, int t, int p, int sv[2]) {
	(void)p;
	VF_ASSERT("C24", d == AF_UNIX && (t & SOCK_CLOEXEC), "close-on-exec descriptors");
	if (fault(EMFILE)) return -1;
	sv[0] = 20, sv[1] = 21;
	s_open[0]++, s_open[1]++;
	n_sock++;
	return 0;
}
int env_pipe2(int f[2], int fl) { return env_socketpair(AF_UNIX, (fl & O_CLOEXEC) ? SOCK_CLOEXEC : 0, 0, f); }
int env_close(int fd) {
	if (fd == 20 || fd == 21) {
		VF_ASSERT("C24", s_open[fd - 20] == 1, "only open descriptors are closed, once");
		s_open[fd - 20] = 0;
		return 0;
	}
	VF_ASSERT("C24", 0, "the caller's descriptors are the caller's to close");
	return -1;
}
static int n_open, last_fd;
int env_open(const char *p, int fl, int mode) {
	(void)mode;
	VF_ASSERT("C24", p == want_path || !strcmp(p, want_path), "the path given is opened");
	VF_ASSERT("C24", fl == (O_RDWR | O_NOCTTY | O_NOFOLLOW | O_CLOEXEC | O_NONBLOCK), "read-write, without following links, close-on-exec, non-blocking, never as controlling terminal");
	n_open++;
	if (nd_bool("openfails")) { errno = open_ret = nd_range("operr", 1, 133); return -1; }
	open_ret = 0;
	return last_fd = n_open == 1 && nd_bool("fd0") ? 0 : 40 + n_open; /* standard input may be closed */
}
int env_poll(struct pollfd *f, nfds_t n, int t) {
	VF_ASSERT("C24", in_dispatch && n == 1 && f->fd == 20 && s_open[0], "dispatch waits on the descriptor the caller polls");
	n_poll++;
	poll_t = t;
	VF_ASSERT("C24", t == want_timeout || (told && t == 0), "for as long as it was told");
	VF_ASSERT("C24", !told || t == 0, "dispatch does not wait once it has delivered an event");
	poll_ret = 0;
	f->revents = 0;
	if (nd_bool("pollfails")) {
		poll_ret = errno = nd_bool("intr") ? (nd_bool("again") ? EAGAIN : EINTR) : nd_bool("nomem") ? ENOMEM : EINVAL;
		return -1;
	}
	return 0;
}
static struct libseat *seat;
static void do_open(void) {
	static const char *paths[] = {"/dev/dri/card0", "/dev/input/event1", "", "relative"};
	int fd = -77, n = n_open;
	want_path = paths[nd_pick("path", 0, 3)];
	int r = libseat_open_device(seat, want_path, &fd), e = errno;
	VF_ASSERT("C24", n_open == n + 1, "the path is opened");
	if (open_ret) { VF_ASSERT("C24", r == -1 && e == open_ret, "a failed open is reported with its errno"); VF_WITNESS("device-failed"); }
	else { VF_ASSERT("C24", fd == last_fd && r >= 0, "the descriptor is the file's"); VF_WITNESS("device"); }
}
static void on_enable(struct libseat *s, void *d) {
	n_enable++;
	VF_ASSERT("C24", in_dispatch && s == seat && d == cur_data, "callbacks run in dispatch, with the seat and the caller's data");
	VF_ASSERT("C24", n_enable == 1, "the seat is reported enabled once");
	if (n_enable > 1) return;
	told = true;
	switch (nd_pick("cb", 0, 3)) { /* what applications do on being enabled */
	case 1: VF_ASSERT("C24", libseat_disable_seat(s) == 0, "disabling succeeds"); break;
	case 2: do_open(); break;
	case 3: {
		int t = want_timeout, n = n_poll, p = poll_ret;
		want_timeout = 0;
		libseat_dispatch(s, 0);
		want_timeout = t, n_poll = n, poll_ret = p;
		VF_WITNESS("nested");
	}
	}
}
static void on_disable(struct libseat *s, void *d) { (void)s; (void)d; n_disable++; VF_ASSERT("C24", 0, "the seat is always active"); }

static int select_mode(void) {
	static char name[10];
	static struct libseat_seat_listener lis = {on_enable, on_disable};
	static int data;
	int en = nd_pick("env", 0, 5); /* unset, known names, no-op, arbitrary */
	int len = (int)vf_param("len", 7);
	if (en == 5) for (int i = 0; i < len; i++) name[i] = nd_u8("ch");
	env_value = en == 0 ? NULL : en <= 3 ? names[en - 1] : en == 4 ? "noop" : name;
	for (int i = 0; i < 3; i++) { fails[i] = nd_bool("fails"); err[i] = nd_range("err", 1, 133); }
	int ln = nd_pick("lis", 0, 4);
	if (ln == 1) lis.enable_seat = NULL;
	if (ln == 2) lis.disable_seat = NULL;
	if (ln == 3) lis.enable_seat = NULL, lis.disable_seat = NULL;
	cur_lis = ln == 4 ? NULL : &lis;
	cur_data = nd_bool("data") ? &data : NULL;
	errno = 0;
	seat = libseat_open_seat(cur_lis, cur_data);
	int e = errno;
	vf_obs("got", seat != NULL);
	vf_obs("errno", seat ? 0 : e);
	if (ln) {
		VF_ASSERT("C22", !seat && e == EINVAL && n_tried == 0 && n_sock == 0, "a missing listener or callback is refused before anything is tried");
		VF_WITNESS("no-listener");
		return 0;
	}
	if (env_value) {
		int k = -1;
		bool noop = !strcmp(env_value, "noop");
		for (int i = 0; i < 3; i++) if (!strcmp(env_value, names[i]) && have[i]) k = i;
		if (noop) {
			VF_ASSERT("C22", n_tried == 0 && n_sock + n_fault > 0, "the no-op backend is used when asked for");
			VF_ASSERT("C22", (seat != NULL) == (n_fault == 0), "and its result returned");
			VF_ASSERT("C22,C24", !seat || seat->impl == &noop_impl, "the no-op backend is used when asked for");
			if (!seat) VF_ASSERT("C22,C24", e == fault_err, "with the reason");
			VF_WITNESS("noop");
			return 0;
		}
		VF_ASSERT("C22", n_sock == 0, "the no-op backend is only used when asked for");
		if (k < 0) {
			VF_ASSERT("C22", !seat && e != 0 && n_tried == 0, "an unknown name fails without trying any");
			VF_WITNESS("unknown");
			return 0;
		}
		VF_ASSERT("C22", n_tried == 1 && tried[k] == 1, "exactly the backend named is tried");
		VF_ASSERT("C22", seat == (fails[k] ? NULL : &seats[k]), "its result is returned");
		if (fails[k]) { VF_ASSERT("C22", e == err[k], "with its errno"); VF_WITNESS("named-failed"); } else VF_WITNESS("named");
	} else {
		VF_ASSERT("C22", n_sock == 0, "the no-op backend is only used when asked for");
		int n = 0, won = -1;
		for (int i = 0; i < 3 && won < 0; i++) {
			if (!have[i]) continue;
			VF_ASSERT("C22", n_tried > n && order[n] == i && tried[i] == 1, "backends are tried in order");
			n++;
			if (!fails[i]) won = i;
		}
		VF_ASSERT("C22", n_tried == n, "none is tried after one that opened");
		VF_ASSERT("C22", seat == (won < 0 ? NULL : &seats[won]), "the first that opens wins");
		if (won < 0) { VF_ASSERT("C22", e == ENOSYS, "no backend is an error"); VF_WITNESS("none"); } else VF_WITNESS("first");
	}
	if (!seat) return 0;
	/* every call is passed on */
	int a = nd_int("arg"), f = nd_pick("fn", 1, 8), fd = 0, r = 0;
	c_ret = nd_int("ret");
	static const char path[] = "/dev/x";
	const char *nm = NULL;
	switch (f) {
	case 1: r = libseat_disable_seat(seat); break;
	case 2: r = libseat_close_seat(seat); break;
	case 3: nm = libseat_seat_name(seat); r = c_ret; break;
	case 4: r = libseat_open_device(seat, path, &fd); VF_ASSERT("C22", c_ptr == path && c_fd == &fd, "calls are passed on with their arguments"); break;
	case 5: r = libseat_close_device(seat, a); break;
	case 6: r = libseat_switch_session(seat, a); break;
	case 7: r = libseat_get_fd(seat); break;
	case 8: r = libseat_dispatch(seat, a); break;
	}
	VF_ASSERT("C22", c_fn == f && c_seat == seat && r == c_ret, "calls are passed on to the backend and its result returned");
	if (f == 5 || f == 6 || f == 8) VF_ASSERT("C22", c_arg == a, "calls are passed on with their arguments");
	if (f == 3) VF_ASSERT("C22", nm == c_str, "the name is the backend's");
	return 0;
}

static int noop_mode(void) {
	static struct libseat_seat_listener lis = {on_enable, on_disable};
	static int data;
	env_value = "noop";
	cur_lis = &lis;
	cur_data = &data;
	int rounds = (int)vf_param("rounds", 1); /* the application opens the seat again after closing it */
again:
	n_enable = 0;
	errno = 0;
	seat = libseat_open_seat(&lis, &data);
	int e = errno;
	if (!seat) {
		VF_ASSERT("C24", n_fault > 0 && e == fault_err, "opening fails only with its reason");
		VF_ASSERT("C24", !s_open[0] && !s_open[1] && heap_live == 0, "a failed open releases everything");
		VF_WITNESS("open-failed");
		return 0;
	}
	VF_ASSERT("C24", n_enable == 0, "callbacks run in dispatch");
	int ops = (int)vf_param("ops", 4), disp = 0;
	for (int i = 0; i < ops; i++) {
		errno = 0;
		switch (nd_pick("op", 0, 6)) {
		case 0: {
			want_timeout = nd_int("timeout");
			int before = n_poll, en = n_enable;
			in_dispatch = true;
			told = false;
			int r = libseat_dispatch(seat, want_timeout);
			e = errno;
			in_dispatch = false;
			disp++;
			VF_ASSERT("C24", n_enable == 1 && (disp == 1) == (n_enable > en), "the seat is reported enabled once, on the first dispatch");
			/* a dispatch that had something to report need not wait */
			VF_ASSERT("C24", n_poll - before == 1 || (n_poll == before && (want_timeout == 0 || n_enable > en)), "dispatch waits, once");
			bool bad = n_poll > before && poll_ret && poll_ret != EINTR && poll_ret != EAGAIN;
			VF_ASSERT("C24", (r == -1) == bad && r >= -1, "dispatch fails exactly when waiting failed");
			if (bad) { VF_ASSERT("C24", e == poll_ret, "with its errno"); VF_WITNESS("dispatch-failed"); }
			VF_WITNESS("dispatch");
			break;
		}
		case 1: {
			do_open();
			break;
		}
		case 2: VF_ASSERT("C24", libseat_close_device(seat, nd_int("id")) == 0, "closing a device succeeds"); break;
		case 3: { int r = libseat_switch_session(seat, nd_int("session")); VF_ASSERT("C24", r == -1 && errno != 0, "session switches are refused with an error"); VF_WITNESS("switch"); break; }
		case 4: VF_ASSERT("C24", libseat_disable_seat(seat) == 0, "disabling succeeds"); break;
		case 5: VF_ASSERT("C24", libseat_get_fd(seat) == 20, "the descriptor is pollable"); break;
		case 6: { const char *s = libseat_seat_name(seat); VF_ASSERT("C24", s && s[0], "the seat has a name"); break; }
		}
	}
	VF_ASSERT("C24", libseat_close_seat(seat) == 0, "closing succeeds");
	VF_ASSERT("C24", !s_open[0] && !s_open[1] && heap_live == 0, "closing releases everything");
	VF_WITNESS("closed");
	if (--rounds > 0) { VF_WITNESS("again"); goto again; }
	return 0;
}
int vf_main(void) {
	faults = (int)vf_param("faults", 0);
	return vf_param("mode", 0) ? noop_mode() : select_mode();
}
