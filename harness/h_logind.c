/*
 * libseat's logind backend against a stub of sd-bus, sd-login and logind: a
 * session whose activity changes at any bus call, pause signals of every kind,
 * failure of every call, a bus that breaks. The application is a script of
 * libseat calls with arbitrary arguments; its callbacks may close and open
 * devices.
 */
#define VF_ENV
#include "rename.h"
#include "vf.h"
#include "backend.h"
#include "libseat.h"
#include "log.h"
#include <systemd/sd-bus.h>
#include <systemd/sd-login.h>

extern const struct seat_impl logind_impl;
FILE *env_stderr;
#define DEST "org.freedesktop.login1"
#define SPATH "/s/1"
#define EPATH "/e/0"

/* ---------- faults and memory ---------- */
static void world(void);
static int faults, n_fault, last_fault, heap_live;
static int fault_no[16];
/* errno is that of a call that failed since */
static bool reason(int e, int f0) {
	bool ok = false;
	for (int i = f0; i < n_fault; i++) ok |= fault_no[i] == e;
	return ok;
}
static bool fault(int e) {
	if (faults <= 0 || !nd_bool("fault")) return false;
	faults--;
	e = any_errno(e);
	fault_no[n_fault++] = e;
	last_fault = e;
	errno = e;
	return true;
}
void *env_calloc(size_t n, size_t s) { if (fault(ENOMEM)) return NULL; heap_live++; return calloc(n, s); }
void *env_malloc(size_t n) { if (fault(ENOMEM)) return NULL; heap_live++; return malloc(n); }
void env_free(void *p) { if (p) heap_live--; free(p); }
static char *copy(const char *s) { char *r = malloc(strlen(s) + 1); heap_live++; strcpy(r, s); return r; }
char *env_strdup(const char *s) { if (fault(ENOMEM)) return NULL; return copy(s); }
char *env_strerror(int e) { (void)e; return ""; }
void log_init(void) {}
void _logf(enum libseat_log_level l, const char *f, ...) {
	(void)l;
	va_list ap;
	va_start(ap, f);
	vf_log(f, ap);
	va_end(ap);
}
static const char *env_session, *env_type;
char *env_getenv(const char *n) { return !strcmp(n, "LIBSEAT_BACKEND") ? "logind" : !strcmp(n, "XDG_SESSION_ID") ? (char *)env_session : !strcmp(n, "XDG_SESSION_TYPE") ? (char *)env_type : nd_bool("env") ? "yes" : NULL; }
pid_t env_getpid(void) { return 77; }
uid_t env_getuid(void) { return 1000; }

/* ---------- devices ---------- */
#define NDEV 3
static dev_t rdev[NDEV];
static bool taken[NDEV];
static const char *paths[NDEV] = {"/dev/dri/card0", "/dev/input/event0", "/dev/input/event1"};
#define MSGFD 50
static int dup0 = 60; /* the lowest free descriptor */
#define NDUP 10
static bool dup_open[NDUP];
static int dup_dev[NDUP], n_dup, n_msgfd;
static int msgfd_dev[8];
static bool msgfd_open[8];
static unsigned d_maj(int i) { return gnu_dev_major(rdev[i]); }
static unsigned d_min(int i) { return gnu_dev_minor(rdev[i]); }
int env_stat(const char *p, struct stat *st) {
	if (fault(ENOENT)) return -1;
	for (int i = 0; i < NDEV; i++) if (!strcmp(p, paths[i])) { memset(st, 0, sizeof *st); st->st_rdev = rdev[i]; st->st_dev = 5; st->st_mode = S_IFCHR; return 0; }
	errno = ENOENT;
	return -1;
}
int env_lstat(const char *p, struct stat *st) { return env_stat(p, st); }
int env_fstat(int fd, struct stat *st) {
	if (fault(EBADF)) return -1;
	for (int i = 0; i < n_dup; i++) if (fd == dup0 + i && dup_open[i]) { memset(st, 0, sizeof *st); st->st_rdev = rdev[dup_dev[i]]; st->st_dev = 5; st->st_mode = S_IFCHR; return 0; }
	errno = EBADF;
	return -1;
}
static int dupfd(int fd, bool cloexec) {
	for (int i = 0; i < n_msgfd; i++)
		if (fd == MSGFD + i) {
			VF_ASSERT("C23", msgfd_open[i], "a descriptor is copied while the message that holds it lives");
			VF_ASSERT("C23", cloexec, "the copy is closed on exec");
			if (fault(EMFILE)) return -1;
			VF_ASSUME(n_dup < NDUP);
			dup_open[n_dup] = true;
			dup_dev[n_dup] = msgfd_dev[i];
			return dup0 + n_dup++;
		}
	VF_ASSERT("C23", 0, "only the message's descriptor is copied");
	errno = EBADF;
	return -1;
}
int env_fcntl(int fd, int cmd, int arg) {
	(void)arg;
	if (cmd == F_DUPFD_CLOEXEC || cmd == F_DUPFD) return dupfd(fd, cmd == F_DUPFD_CLOEXEC);
	return 0;
}
int env_dup(int fd) { return dupfd(fd, false); }
int env_close(int fd) {
	for (int i = 0; i < n_dup; i++) if (fd == dup0 + i && dup_open[i]) { dup_open[i] = false; return 0; }
	VF_ASSERT("C23", 0, "only open descriptors of its own are closed");
	return 0;
}

/* ---------- the bus ---------- */
struct sd_bus { int refs; };
struct sd_bus_slot { int refs; sd_bus_message_handler_t fn; void *data; int kind; };
enum mkind { M_REPLY, M_PAUSE, M_PROPS, M_PING, M_OTHER };
struct sd_bus_message {
	int refs;
	enum mkind kind;
	int rk;              /* M_REPLY: 0 empty, 1 device, 2 session path, 3 seat path */
	int dev, fd;         /* M_REPLY device, M_PAUSE device */
	unsigned maj, min;
	const char *type;    /* M_PAUSE */
	const char *iface;   /* M_PROPS */
	int nch, ninv;       /* entries in the dictionary and the list */
	int ch_active, inv_active; /* which of them is Active; -1 */
	int value;
	int pos, ent;        /* reading position */
	bool err;            /* M_PING: an error */
};
static struct sd_bus bus;
static struct sd_bus_slot slots[2];
static int n_slots, n_err, n_replies, app_refs;
static bool broken;
#define NQ 8
static struct sd_bus_message queue[NQ];
static int q_r, q_w;
static struct sd_bus_message replies[6];
static bool in_socket[NQ]; /* not yet read by sd-bus */
static sd_bus_message_handler_t ping_fn;
static void *ping_data;
static int pings;         /* unanswered */
static bool ping_sent;    /* since the last call of the application */
static int n_async;
static bool live_bus(sd_bus *b, const char *what) {
	(void)what;
	VF_ASSERT("C23", b == &bus && bus.refs > 0, "the bus is used only while it is held");
	return true;
}
int sd_bus_default_system(sd_bus **r) {
	if (fault(ECONNREFUSED)) return -last_fault;
	bus.refs++;
	*r = &bus;
	return 1;
}
int sd_bus_open_system(sd_bus **r) { return sd_bus_default_system(r); }
sd_bus *sd_bus_unref(sd_bus *b) {
	if (b) { live_bus(b, "unref"); b->refs--; VF_ASSERT("C23", b->refs >= app_refs, "the caller's own reference to the bus stays"); }
	return NULL;
}
sd_bus *sd_bus_flush_close_unref(sd_bus *b) { VF_ASSERT("C23", !b || app_refs == 0, "a bus the caller uses too is not closed"); return sd_bus_unref(b); }
int sd_bus_flush(sd_bus *b) { live_bus(b, "flush"); return 0; }
sd_bus_slot *sd_bus_slot_unref(sd_bus_slot *s) {
	if (s) { VF_ASSERT("C23", s->refs == 1, "a match is removed once"); s->refs--; }
	return NULL;
}
sd_bus_message *sd_bus_message_unref(sd_bus_message *m) {
	if (!m) return NULL;
	VF_ASSERT("C23", m->refs > 0, "a message is released once");
	m->refs--;
	if (m->refs == 0) {
		if (m->kind == M_REPLY) { n_replies--; if (m->rk == 1) msgfd_open[m->fd - MSGFD] = false; }
	}
	return NULL;
}
static void set_error(sd_bus_error *e) {
	if (!e) return;
	VF_ASSERT("C23", e->name == NULL && e->message == NULL, "an error is reported into an empty place");
	e->name = malloc(2);
	strcpy((char *)e->name, "E");
	e->message = malloc(2);
	strcpy((char *)e->message, "m");
	e->_need_free = 1;
	n_err++;
}
void sd_bus_error_free(sd_bus_error *e) {
	if (e->name) { n_err--; free((void *)e->name); free((void *)e->message); }
	e->name = e->message = NULL;
	e->_need_free = 0;
}
int sd_bus_match_signal(sd_bus *b, sd_bus_slot **ret, const char *sender, const char *path, const char *iface, const char *member, sd_bus_message_handler_t fn, void *data) {
	live_bus(b, "match");
	VF_ASSERT("C23", !sender || !strcmp(sender, DEST), "signals of logind are matched");
	VF_ASSERT("C23", path && !strcmp(path, SPATH), "for this session");
	world(); /* before the match is known to the bus */
	if (fault(EIO)) return -last_fault;
	VF_ASSUME(n_slots < 2);
	struct sd_bus_slot *s = &slots[n_slots++];
	s->refs = 1;
	s->fn = fn;
	s->data = data;
	s->kind = M_OTHER;
	if (!strcmp(member, "PauseDevice")) { s->kind = M_PAUSE; VF_ASSERT("C23", !strcmp(iface, DEST ".Session"), "the signal's interface"); }
	if (!strcmp(member, "PropertiesChanged")) { s->kind = M_PROPS; VF_ASSERT("C23", !strcmp(iface, "org.freedesktop.DBus.Properties"), "the signal's interface"); }
	VF_ASSERT("C23", ret != NULL, "a match can be removed again");
	if (ret) *ret = s;
	return 0;
}

/* ---------- logind ---------- */
static struct libseat *seat;
static bool active;      /* the session's state */
static bool controlled;  /* TakeControl */
static int n_control;
static int evs;          /* events left */
static bool pause_due;   /* a pause was sent, deactivation follows */
static bool matched(int kind) { for (int i = 0; i < n_slots; i++) if (slots[i].refs > 0 && slots[i].kind == kind) return true; return false; }
static struct sd_bus_message *push(enum mkind k) {
	VF_ASSUME(q_w < NQ);
	struct sd_bus_message *m = &queue[q_w];
	memset(m, 0, sizeof *m);
	m->refs = 1;
	m->kind = k;
	in_socket[q_w] = true;
	q_w++;
	return m;
}
static void props(bool inv) {
	if (!matched(M_PROPS)) return;
	struct sd_bus_message *m = push(M_PROPS);
	m->iface = DEST ".Session";
	m->ch_active = m->inv_active = -1;
	m->value = active;
	int extra = vf_param("extra", 1) ? nd_pick("extra", 0, 2) : 0; /* other properties before, after */
	if (inv) { m->ninv = 1 + (extra > 0); m->inv_active = extra == 1; m->nch = extra == 2; }
	else { m->nch = 1 + (extra > 0); m->ch_active = extra == 1; m->ninv = extra == 2; }
}
static void world(void) {
	if (evs <= 0 || broken || (!seat && !vf_param("oe", 0)) || !nd_bool("event")) return;
	evs--;
	switch (vf_param("kind", 9) < 9 ? (int)vf_param("kind", 9) : nd_pick("kind", 0, 4)) {
	case 0: active = !active; props(false); break;
	case 1: active = !active; props(true); break;
	case 2: { /* a pause signal; "pause" announces that the session goes away */
		int d = nd_pick("dev", 0, NDEV - 1), t = nd_pick("type", 0, 2);
		if (!controlled || !taken[d]) return;
		if (t == 2) { if (!active) return; }
		if (matched(M_PAUSE)) {
			struct sd_bus_message *m = push(M_PAUSE);
			m->dev = d;
			m->maj = d_maj(d);
			m->min = d_min(d);
			m->type = t == 0 ? "gone" : t == 1 ? "force" : "pause";
			if (t == 0) taken[d] = false;
			if (t == 2) { active = false; if (nd_bool("second")) { struct sd_bus_message *n = push(M_PAUSE); *n = *m; n->dev = (d + 1) % NDEV; n->maj = d_maj(n->dev); n->min = d_min(n->dev); n->type = nd_bool("force") ? "force" : "pause"; } props(false); }
		}
		break;
	}
	case 3: { /* nothing of interest */
		if (!matched(M_PROPS)) return;
		struct sd_bus_message *m = push(M_PROPS);
		m->ch_active = m->inv_active = -1;
		static const char *others[] = {DEST ".Session", DEST ".Seat", DEST ".SessionManager"};
		m->iface = others[nd_pick("iface", 0, 2)];
		m->nch = 1;
		m->ninv = 1;
		if (strcmp(m->iface, DEST ".Session")) { m->ch_active = 0; m->value = !active; }
		break;
	}
	case 4: { /* the same value again */
		props(nd_bool("inv"));
		break;
	}
	}
}

/* ---------- reports and callbacks ---------- */
static int app;            /* -1 unknown, 0 disabled, 1 enabled */
static int reported;       /* what the backend last heard */
static int in_cb, n_cb, expect_cb, cb_budget;
static bool in_dispatch, first_done;
static int cb_before; /* callbacks run before this dispatch */

static int udata;
static struct sd_bus_message *handling;
static int acks; /* of the message being handled */
static void do_open(int d);
static void do_close(int k);
static void do_dispatch(void);
static bool nest;
static int want_timeout, n_poll, poll_err;
static int n_proc, proc_err, n_processed;
static bool heard_any;
static void report(int v) {
	if (v != reported) expect_cb++;
	reported = v;
	heard_any = true;
}
static void callback(int v, struct libseat *s, void *d) {
	VF_ASSERT("C23", s == seat && d == &udata, "callbacks get the seat and the caller's data");
	VF_ASSERT("C23", in_dispatch && !in_cb, "callbacks run in dispatch, one at a time");
	VF_ASSERT("C23", app != v, "a callback reports a change");
	VF_ASSERT("C23", reported == v, "the callbacks follow the activity reported");
	n_cb++;
	app = v;
	in_cb++;
	if (nest && !handling) { /* a nested dispatch, from the initial callback */
		nest = false;
		int p = n_processed, q = n_poll, w = want_timeout, cb = cb_before;
		in_cb--;
		do_dispatch();
		in_cb++;
		in_dispatch = true;
		n_processed = p;
		n_poll = q;
		cb_before = cb;
		want_timeout = w;
		VF_WITNESS("nested");
	}
	if (cb_budget > 0 && nd_bool("cbacts")) {
		cb_budget--;
		VF_WITNESS("acts");
		if (v) do_open(nd_pick("cbdev", 0, 1));
		else { if (nd_bool("cbclose")) do_close(0); VF_ASSERT("C23", libseat_disable_seat(seat) == 0, "disabling is acknowledged"); }
	}
	in_cb--;
	VF_WITNESS(v ? "enabled" : "disabled");
}
static void on_enable(struct libseat *s, void *d) { callback(1, s, d); }
static void on_disable(struct libseat *s, void *d) { callback(0, s, d); }

static sd_bus_message *reply(int rk) {
	for (int i = 0; i < 6; i++)
		if (replies[i].refs == 0) {
			memset(&replies[i], 0, sizeof replies[i]);
			replies[i].refs = 1;
			replies[i].kind = M_REPLY;
			replies[i].rk = rk;
			n_replies++;
			return &replies[i];
		}
	VF_ASSUME(0);
	return NULL;
}
static int last_bus_err;
static int refuse(sd_bus_error *e, int r) { set_error(e); last_bus_err = -r; return r; }
static int n_switch, sw_arg, n_release, n_take;
int sd_bus_call_method(sd_bus *b, const char *dest, const char *path, const char *iface, const char *member, sd_bus_error *e, sd_bus_message **rep, const char *types, ...) {
	live_bus(b, "call");
	VF_ASSERT("C23", !strcmp(dest, DEST), "logind is called");
	if (rep) *rep = NULL;
	world();
	/* what arrives before the reply is queued */
	for (int i = q_r; i < q_w; i++) in_socket[i] = false;
	if (broken) return refuse(e, -ECONNRESET);
	if (fault(EIO)) return refuse(e, -last_fault);
	bool on_session = !strcmp(path, SPATH) && !strcmp(iface, DEST ".Session");
	va_list ap;
	va_start(ap, types);
	sd_bus_message *m = NULL;
	int r = 1;
	if (!strcmp(member, "GetSession") || !strcmp(member, "GetSeat")) {
		VF_ASSERT("C23", !strcmp(iface, DEST ".Manager") && !strcmp(types, "s"), "the manager is asked");
		const char *a = va_arg(ap, const char *);
		bool sess = !strcmp(member, "GetSession");
		VF_ASSERT("C23", !strcmp(a, sess ? "sess" : "seat7"), "for this session and its seat");
		m = reply(sess ? 2 : 3);
	} else if (!strcmp(member, "TakeControl")) {
		VF_ASSERT("C23", on_session && !strcmp(types, "b") && va_arg(ap, int) == 0, "control is taken without force");
		VF_ASSERT("C23", !controlled, "control is taken once");
		controlled = true;
		n_control++;
		m = reply(0);
	} else if (!strcmp(member, "ReleaseControl")) {
		VF_ASSERT("C23", on_session && controlled, "control that was taken is released");
		controlled = false;
		m = reply(0);
	} else if (!strcmp(member, "SetType")) {
		VF_ASSERT("C23", on_session && !strcmp(types, "s") && env_type && !strcmp(va_arg(ap, const char *), env_type), "the session's type is set as the environment says");
		m = reply(0);
	} else if (!strcmp(member, "TakeDevice") || !strcmp(member, "ReleaseDevice") || !strcmp(member, "PauseDeviceComplete")) {
		VF_ASSERT("C23", on_session && !strcmp(types, "uu") && controlled, "devices are taken and released within the session");
		unsigned ma = va_arg(ap, unsigned), mi = va_arg(ap, unsigned);
		int d = -1;
		for (int i = 0; i < NDEV; i++) if (ma == d_maj(i) && mi == d_min(i)) d = i;
		VF_ASSERT("C23", d >= 0, "by their device numbers");
		VF_ASSUME(d >= 0);
		if (member[0] == 'T') {
			n_take++;
			if (taken[d]) r = refuse(e, -EBUSY);
			else if (!active && nd_bool("inactive")) r = refuse(e, -EPERM);
			else {
				taken[d] = true;
				m = reply(1);
				VF_ASSUME(n_msgfd < 8);
				m->fd = MSGFD + n_msgfd;
				m->dev = d;
				msgfd_open[n_msgfd] = true;
				msgfd_dev[n_msgfd++] = d;
			}
		} else if (member[0] == 'R') {
			n_release++;
			if (!taken[d]) r = refuse(e, -ENODEV);
			else { taken[d] = false; m = reply(0); }
		} else {
			VF_ASSERT("C23", handling && handling->kind == M_PAUSE && !strcmp(handling->type, "pause"), "only a pause that asks for it is acknowledged");
			if (handling) VF_ASSERT("C23", handling->maj == ma && handling->min == mi, "with its device numbers");
			VF_ASSERT("C23", app == 0 && !in_cb, "after the application was told to disable");
			acks++;
			m = reply(0);
			VF_WITNESS("acknowledged");
		}
	} else if (!strcmp(member, "SwitchTo")) {
		VF_ASSERT("C23", !strcmp(path, EPATH) && !strcmp(iface, DEST ".Seat") && !strcmp(types, "u"), "the seat is switched");
		sw_arg = va_arg(ap, int);
		n_switch++;
		m = reply(0);
	} else VF_ASSERT("C23", 0, "a call logind has");
	va_end(ap);
	if (m) { if (rep) *rep = m; else sd_bus_message_unref(m); }
	return r;
}
int sd_bus_get_property_trivial(sd_bus *b, const char *dest, const char *path, const char *iface, const char *member, sd_bus_error *e, char type, void *p) {
	live_bus(b, "property");
	VF_ASSERT("C23", !strcmp(dest, DEST) && !strcmp(path, SPATH) && !strcmp(iface, DEST ".Session") && !strcmp(member, "Active") && type == 'b', "the session's activity is asked for");
	world();
	for (int i = q_r; i < q_w; i++) in_socket[i] = false;
	if (broken) return refuse(e, -ECONNRESET);
	if (fault(EIO)) return refuse(e, -last_fault);
	*(int *)p = active;
	if (first_done || !seat) report(active);
	return 0;
}
int sd_bus_call_method_async(sd_bus *b, sd_bus_slot **slot, const char *dest, const char *path, const char *iface, const char *member, sd_bus_message_handler_t fn, void *data, const char *types, ...) {
	live_bus(b, "async");
	VF_ASSERT("C23", slot == NULL && !strcmp(dest, DEST) && path && iface && member && types, "a call without a slot");
	n_async++;
	ping_sent = true;
	if (fault(EIO)) return -last_fault;
	ping_fn = fn;
	ping_data = data;
	pings++;
	VF_WITNESS("ping");
	return 0;
}
int sd_bus_message_is_method_error(sd_bus_message *m, const char *n) { (void)n; return m->err; }
const sd_bus_error *sd_bus_message_get_error(sd_bus_message *m) { static sd_bus_error e = {"n", "m", 0}; return m->err ? &e : NULL; }
static int n_fd;
int sd_bus_get_fd(sd_bus *b) { live_bus(b, "fd"); if (in_dispatch) return 20; if (fault(ENOLINK)) return -last_fault; return 20; }
int sd_bus_get_n_queued_read(sd_bus *b, uint64_t *r) { live_bus(b, "queue"); uint64_t n = 0; for (int i = q_r; i < q_w; i++) n += !in_socket[i]; *r = n; return 0; }
static int out_queued;
int sd_bus_get_n_queued_write(sd_bus *b, uint64_t *r) { live_bus(b, "queue"); *r = out_queued = vf_param("wq", 0) ? nd_pick("wq", 0, 1) : 0; return 0; }
/* reading */
static bool badmsg(void) { return fault(EBADMSG); }
int sd_bus_message_read(sd_bus_message *m, const char *types, ...) {
	VF_ASSERT("C23", m && m->refs > 0, "a message is read while it is held");
	if (badmsg()) return -last_fault;
	va_list ap;
	va_start(ap, types);
	int r = 1;
	if (m->kind == M_REPLY && m->rk == 1 && !strcmp(types, "hb")) { *va_arg(ap, int *) = m->fd; *va_arg(ap, int *) = !active; }
	else if (m->kind == M_REPLY && m->rk == 1 && !strcmp(types, "h")) *va_arg(ap, int *) = m->fd;
	else if (m->kind == M_REPLY && m->rk >= 2 && !strcmp(types, "o")) *va_arg(ap, const char **) = m->rk == 2 ? SPATH : EPATH;
	else if (m->kind == M_PAUSE && !strcmp(types, "uus")) { *va_arg(ap, uint32_t *) = m->maj; *va_arg(ap, uint32_t *) = m->min; *va_arg(ap, const char **) = m->type; }
	else { VF_ASSERT("C23", 0, "messages are read as they are written"); r = -ENXIO; }
	va_end(ap);
	return r;
}
/* a PropertiesChanged message: 0 interface, 1 a{sv}, 2 between entries, 3 key,
 * 4 variant, 5 value, 6 after value, 7 after variant, 8 as, 9 names, 10 end */
static bool ch_is_active(sd_bus_message *m) { return m->ent == m->ch_active; }
int sd_bus_message_read_basic(sd_bus_message *m, char type, void *p) {
	VF_ASSERT("C23", m && m->refs > 0 && m->kind == M_PROPS, "a message is read while it is held");
	if (badmsg()) return -last_fault;
	if (m->pos == 0 && type == 's') { *(const char **)p = m->iface; m->pos = 1; return 1; }
	if (m->pos == 3 && type == 's') { *(const char **)p = ch_is_active(m) ? "Active" : "ActiveSession"; m->pos = 4; return 1; }
	if (m->pos == 5 && type == 'b') {
		*(int *)p = ch_is_active(m) ? m->value : 0;
		if (ch_is_active(m) && !strcmp(m->iface, DEST ".Session")) report(m->value);
		m->pos = 6;
		return 1;
	}
	if (m->pos == 9 && type == 's') {
		if (m->ent >= m->ninv) return 0;
		*(const char **)p = m->ent == m->inv_active ? "Active" : "ActiveSession";
		m->ent++;
		return 1;
	}
	VF_ASSERT("C23", 0, "messages are read as they are written");
	return -ENXIO;
}
int sd_bus_message_enter_container(sd_bus_message *m, char type, const char *c) {
	VF_ASSERT("C23", m && m->refs > 0 && m->kind == M_PROPS, "a message is read while it is held");
	if (badmsg()) return -last_fault;
	if (m->pos == 1 && type == 'a' && !strcmp(c, "{sv}")) { m->pos = 2; m->ent = 0; return 1; }
	if (m->pos == 2 && type == 'e' && !strcmp(c, "sv")) { if (m->ent >= m->nch) return 0; m->pos = 3; return 1; }
	if (m->pos == 4 && type == 'v' && (!strcmp(c, "b") || !ch_is_active(m))) { m->pos = 5; return 1; }
	if (m->pos == 8 && type == 'a' && !strcmp(c, "s")) { m->pos = 9; m->ent = 0; return 1; }
	VF_ASSERT("C23", 0, "messages are read as they are written");
	return -ENXIO;
}
int sd_bus_message_exit_container(sd_bus_message *m) {
	VF_ASSERT("C23", m && m->refs > 0 && m->kind == M_PROPS, "a message is read while it is held");
	if (badmsg()) return -last_fault;
	if (m->pos == 6) { m->pos = 7; return 1; }
	if (m->pos == 7) { m->pos = 2; m->ent++; return 1; }
	if (m->pos == 2 && m->ent >= m->nch) { m->pos = 8; return 1; }
	if (m->pos == 9 && m->ent >= m->ninv) { m->pos = 10; return 1; }
	VF_ASSERT("C23", 0, "containers are left when they are read");
	return -EBUSY;
}
int sd_bus_message_skip(sd_bus_message *m, const char *t) {
	VF_ASSERT("C23", m && m->refs > 0 && m->kind == M_PROPS, "a message is read while it is held");
	if (badmsg()) return -last_fault;
	if (m->pos == 4 && !strcmp(t, "v")) { m->pos = 7; return 1; }
	if (m->pos == 1 && !strcmp(t, "a{sv}")) { m->pos = 8; return 1; }
	if (m->pos == 8 && !strcmp(t, "as")) { m->pos = 10; return 1; }
	VF_ASSERT("C23", 0, "messages are read as they are written");
	return -ENXIO;
}
int sd_bus_process(sd_bus *b, sd_bus_message **r) {
	live_bus(b, "process");
	VF_ASSERT("C23", in_dispatch && !handling && !in_cb, "messages are processed by dispatch alone");
	if (r) *r = NULL;
	if (++n_proc > 30) VF_ASSERT("C23", 0, "dispatch ends");
	VF_ASSUME(n_proc <= 30);
	proc_err = 0;
	world();
	if (broken) { proc_err = ECONNRESET; return -ECONNRESET; }
	if (fault(ECONNRESET)) { proc_err = last_fault; broken = true; return -last_fault; }
	if (pings && nd_bool("pong")) {
		pings--;
		static struct sd_bus_message pm;
		memset(&pm, 0, sizeof pm);
		pm.refs = 1;
		pm.kind = M_PING;
		pm.err = nd_bool("pingerr");
		ping_fn(&pm, ping_data, NULL);
		n_processed++;
		return 1;
	}
	if (q_r >= q_w) return 0;
	struct sd_bus_message *m = &queue[q_r++];
	n_processed++;
	sd_bus_error e = SD_BUS_ERROR_NULL;
	/* a session that is about to pause is reported inactive by that */
	int f0 = n_fault, cb0 = n_cb;
	handling = m;
	acks = 0;
	expect_cb = 0;
	int app0 = app;
	if (m->kind == M_PAUSE && !strcmp(m->type, "pause")) {
		/* reported when read */
		if (faults <= 0 || true) { report(0); }
	}
	for (int i = 0; i < n_slots; i++)
		if (slots[i].refs > 0 && slots[i].kind == (int)m->kind) {
			int rr = slots[i].fn(m, slots[i].data, &e);
			(void)rr;
		}
	sd_bus_error_free(&e);
	handling = NULL;
	if (n_fault == f0) {
		if (m->kind == M_PAUSE) VF_ASSERT("C23", acks == !strcmp(m->type, "pause"), "a pause request is acknowledged, a forced or gone one is not");
		VF_ASSERT("C23", n_cb - cb0 == expect_cb, "one callback per change, none when nothing changed");
		if (m->kind == M_PROPS && m->ch_active >= 0 && !strcmp(m->iface, DEST ".Session")) VF_ASSERT("C23", app == m->value || m->inv_active >= 0, "the change is reported");
		VF_ASSERT("C23", app == reported, "the application knows what was reported");
	} else if (n_cb == cb0) { VF_ASSERT("C23", app == app0, "state"); reported = app; }
	else reported = app;
	VF_ASSERT("C23", n_replies == 0 && n_err == 0, "handling a signal leaks no message and no error");
	VF_WITNESS("signal");
	return 1;
}
int env_poll(struct pollfd *p, nfds_t n, int t) {
	VF_ASSERT("C23", in_dispatch && n == 1 && p->fd == 20 && (p->events & POLLIN), "the bus is waited for");
	VF_ASSERT("C23", t == want_timeout && t != 0, "for as long as dispatch was told");
	VF_ASSERT("C23", n_processed == 0 && n_poll == 0, "dispatch does not sleep when it processed something");
	VF_ASSERT("C23", n_cb == cb_before, "dispatch does not wait once it has delivered an event");
	n_poll++;
	poll_err = 0;
	world();
	p->revents = 0;
	switch (vf_param("po", 0) ? nd_pick("poll", 0, 3) : 0) {
	case 1: poll_err = errno = nd_bool("again") ? EAGAIN : EINTR; return -1;
	case 2: if (fault(ENOMEM)) { poll_err = ENOMEM; return -1; } break;
	case 3: broken = true; poll_err = -1; p->revents = POLLHUP | (nd_bool("pollerr") ? POLLERR : 0); VF_WITNESS("hangup"); return 1;
	}
	if (q_r < q_w) { p->revents = POLLIN; return 1; }
	return 0;
}

/* ---------- sd-login ---------- */
static int id_from; /* 0 environment, 1 process, 2 user */
int sd_session_is_active(const char *s) { VF_ASSERT("C23", env_session && !strcmp(s, env_session), "the session named is checked"); if (fault(ENXIO)) return -last_fault; return active; }
int sd_pid_get_session(pid_t p, char **s) {
	VF_ASSERT("C23", !env_session && (p == 77 || p == 0), "this process's session is looked up");
	if (id_from == 2) return -ENODATA;
	if (fault(ENOMEM)) { id_from = 2; n_fault--; return -ENOMEM; }
	*s = copy("sess");
	return 0;
}
int sd_uid_get_display(uid_t u, char **s) {
	VF_ASSERT("C23", !env_session && u == 1000 && id_from == 2, "the user's session is the last resort");
	if (fault(ENODATA)) return -last_fault;
	*s = copy("sess");
	return 0;
}
int sd_session_get_seat(const char *s, char **seatp) {
	VF_ASSERT("C23", !strcmp(s, "sess"), "the session's seat is looked up");
	if (fault(ENODATA)) return -last_fault;
	*seatp = copy("seat7");
	return 0;
}

/* ---------- the application ---------- */
static int ids[4], id_dev[4], n_ids;
/* nothing is held, and what waits in the bus wakes the application */
static void after(const char *what, int f0) {
	(void)what;
	VF_ASSERT("C23", n_replies == 0, "every reply is released");
	VF_ASSERT("C23", n_err == 0, "every error is released");
	uint64_t n = 0;
	for (int i = q_r; i < q_w; i++) n += !in_socket[i];
	if (n && !broken && n_fault == f0) { VF_ASSERT("C23", ping_sent || pings, "what waits inside the bus wakes the application"); VF_WITNESS("queued"); }
}
static void do_open(int d) {
	int fd = -77, f0 = n_fault, take0 = n_take;
	bool was = d < NDEV && taken[d];
	ping_sent = false;
	last_bus_err = 0;
	errno = 0;
	int r = libseat_open_device(seat, d < NDEV ? paths[d] : "/dev/none", &fd), e = errno;
	vf_obs("open", (unsigned)r);
	if (r < 0) {
		VF_ASSERT("C23", r == -1 && e > 0, "a failed open sets errno");
		VF_ASSERT("C23", n_fault > f0 || last_bus_err > 0 || d >= NDEV, "an open fails only for a reason");
		if (n_fault > f0) VF_ASSERT("C23", reason(e, f0) || e == last_bus_err, "errno is the reason");
		else if (last_bus_err) VF_ASSERT("C23", e == last_bus_err, "errno is the reason");
		if (n_fault - f0 == 1 && !broken) VF_ASSERT("C23", d >= NDEV || taken[d] == was || !taken[d], "a failed open leaves no device taken");
		VF_WITNESS("open-failed");
	} else {
		VF_ASSERT("C23", n_take == take0 + 1, "the device is taken");
		VF_ASSERT("C23", fd >= dup0 && fd < dup0 + n_dup && dup_open[fd - dup0] && dup_dev[fd - dup0] == d, "the descriptor is the device's, and the caller's own copy");
		if (n_ids < 4) { ids[n_ids] = r; id_dev[n_ids++] = d; }
		VF_WITNESS("opened");
	}
	int nopen = 0;
	for (int i = 0; i < n_dup; i++) nopen += dup_open[i];
	VF_ASSERT("C23", nopen == n_ids, "no descriptor is leaked");
	after("open", f0);
}
static void do_close(int k) {
	if (k >= n_ids) return;
	int f0 = n_fault, rel0 = n_release;
	ping_sent = false;
	last_bus_err = 0;
	errno = 0;
	bool was = taken[id_dev[k]];
	int r = libseat_close_device(seat, ids[k]), e = errno;
	vf_obs("close", (unsigned)r);
	if (n_fault == f0 && !broken) {
		VF_ASSERT("C23", n_release == rel0 + 1 && !taken[id_dev[k]], "the device is released by its numbers");
	}
	VF_ASSERT("C23", r == 0 ? n_release == rel0 + 1 && !taken[id_dev[k]] : n_fault > f0 || last_bus_err, "closing succeeds exactly when logind released it");
	(void)was;
	if (r < 0) VF_ASSERT("C23", r == -1 && e > 0 && (e == last_bus_err || reason(e, f0)), "a failed close sets errno");
	else VF_WITNESS("closed-device");
	/* the descriptor is the caller's */
	VF_ASSERT("C23", dup_open[ids[k] - dup0], "the caller's copy stays the caller's");
	dup_open[ids[k] - dup0] = false;
	for (int i = k + 1; i < n_ids; i++) ids[i - 1] = ids[i], id_dev[i - 1] = id_dev[i];
	n_ids--;
	after("close", f0);
}
static bool seen_first;
static void do_dispatch(void) {
	int f0 = n_fault, cb0 = n_cb;
	want_timeout = first_done && !seen_first ? 0 : nd_pick("t", 0, 2) - 1; /* -1, 0, 1 */
	if (want_timeout == 1) want_timeout = nd_range("ms", 1, 5000);
	in_dispatch = true;
	n_poll = n_processed = n_proc = 0;
	cb_before = n_cb;
	poll_err = proc_err = 0;
	ping_sent = false;
	bool first = !first_done;
	int act0 = reported;
	first_done = true;
	errno = 0;
	if (first) app = -1;
	int q0 = q_r;
	bool was_broken = broken;
	int r = libseat_dispatch(seat, want_timeout), e = errno;
	in_dispatch = false;
	seen_first = true;
	vf_obs("dispatch", (unsigned)r);
	if (first) VF_ASSERT("C23", n_cb > cb0 && (act0 == 0 || act0 == 1), "the first dispatch reports the initial state");
	if (broken || (poll_err && poll_err != EINTR && poll_err != EAGAIN)) {
		VF_ASSERT("C23", r == -1 && e > 0, "a broken bus is reported");
		VF_ASSERT("C23", e == (proc_err ? proc_err : poll_err > 0 ? poll_err : ECONNRESET), "with the reason");
		VF_WITNESS("broken");
	} else {
		VF_ASSERT("C23", r >= 0, "dispatch fails only when the bus does");
		VF_ASSERT("C23", (r > 0) == (n_processed > 0) || first, "dispatch returns whether anything was processed");
		if (want_timeout == 0) VF_ASSERT("C23", n_poll == 0, "a dispatch without waiting does not wait");
		else VF_ASSERT("C23", n_poll == 1 || n_processed > 0 || first, "dispatch waits when there is nothing to do");
		VF_ASSERT("C23", q_r == q_w || q_r > q0 || ping_sent || evs < (int)vf_param("evs", 0), "what has arrived is dispatched");
		if (q_r == q_w && !n_fault) VF_ASSERT("C23", app == active, "when all is heard the application knows the session's activity");
	}
	(void)was_broken;
	after("dispatch", f0);
}
static void do_switch(void) {
	int s = nd_int("session"), n = n_switch, f0 = n_fault;
	ping_sent = false;
	last_bus_err = 0;
	errno = 0;
	int r = libseat_switch_session(seat, s), e = errno;
	if (r == 0) { VF_ASSERT("C23", n_switch == n + 1 && sw_arg == s, "the session asked for is switched to"); VF_WITNESS("switched"); }
	else {
		VF_ASSERT("C23", r == -1 && e > 0, "a failed switch sets errno");
		VF_ASSERT("C23", s <= 0 || n_fault > f0 || broken, "a switch fails only for a reason");
		if (s > 0) VF_ASSERT("C23", e == last_bus_err, "errno is the reason");
		VF_WITNESS("switch-failed");
	}
	after("switch", f0);
}
static void call(char c) {
	switch (c) {
	case 'o': do_open(nd_pick("dev", 0, NDEV)); break;
	case '0': case '1': case '2': do_open(c - '0'); break;
	case 'c': do_close(nd_pick("which", 0, 1)); break;
	case 'd': do_dispatch(); break;
	case 's': do_switch(); break;
	case 'b': { int r = libseat_close_device(seat, nd_pick("bad", 0, 2) - 1); if (r < 0) VF_ASSERT("C23", errno > 0, "a failed close sets errno"); else VF_ASSERT("C23", 0, "closing what is not a device fails"); break; }
	case 'a': VF_ASSERT("C23", libseat_disable_seat(seat) == 0, "disabling is acknowledged"); break;
	case 'n': { const char *n = libseat_seat_name(seat); VF_ASSERT("C23", n && !strcmp(n, "seat7"), "the seat's name is logind's"); break; }
	case 'f': { errno = 0; int r = libseat_get_fd(seat); VF_ASSERT("C23", r == 20 || (r == -1 && errno == last_fault), "the bus's descriptor is polled"); break; }
	}
}
int vf_main(void) {
	faults = (int)vf_param("faults", 0);
	dup0 = (int)vf_param("dup0", 60);
	evs = (int)vf_param("evs", 0);
	cb_budget = (int)vf_param("cb", 0);
	nest = (bool)vf_param("nest", 0);
	int id = (int)vf_param("id", 0);
	env_session = id == 0 ? "sess" : NULL;
	id_from = id;
	env_type = vf_param("type", 0) ? "wayland" : NULL;
	app_refs = bus.refs = (int)vf_param("shared", 0);
	active = nd_bool("active");
	for (int i = 0; i < NDEV; i++) {
		unsigned ma = nd_range("maj", 1, 4095), mi = nd_range("min", 0, 1023);
		if (vf_param("fixdev", 1)) { ma = 13 + i; mi = 64 + i; }
		rdev[i] = gnu_dev_makedev(ma, mi);
	}
	VF_ASSUME((rdev[0] != rdev[1]) & (rdev[1] != rdev[2]) & (rdev[0] != rdev[2]));
	struct libseat_seat_listener lis = {on_enable, on_disable};
	int rounds = (int)vf_param("rounds", 1); /* the application opens the seat again after closing it */
again:
	n_cb = n_control = n_slots = n_err = n_replies = expect_cb = acks = 0;
	pings = q_r = q_w = n_dup = n_msgfd = 0;
	ping_sent = in_dispatch = first_done = heard_any = pause_due = false;
	seat = NULL;
	n_ids = 0;
	seen_first = false;
	for (int i = 0; i < NDEV; i++) taken[i] = false; /* with control */
	controlled = broken = false;
	reported = -1;
	app = -1;
	errno = 0;
	int f0 = n_fault;
	seat = libseat_open_seat(&lis, &udata);
	int e = errno;
	vf_obs("seat", seat != NULL);
	if (!seat) {
		VF_ASSERT("C23", n_fault > f0 && reason(e, f0), "opening fails only for a reason, in errno");
		VF_ASSERT("C23", heap_live == 0 && bus.refs == app_refs && n_replies == 0 && n_err == 0 && slots[0].refs == 0 && slots[1].refs == 0, "a failed open leaves nothing behind");
		VF_ASSERT("C23", !controlled, "a failed open does not keep control");
		VF_WITNESS("not-opened");
		return 0;
	}
	VF_ASSERT("C23", controlled && n_control == 1, "control is taken");
	VF_ASSERT("C23", n_cb == 0, "callbacks run in dispatch");
	VF_ASSERT("C23", matched(M_PAUSE) && matched(M_PROPS), "signals are listened to");
	after("open", f0);
	VF_WITNESS("seat");
	const char *s = vf_str("script");
	for (; *s; s++) call(*s == '*' ? "ocdsabnf"[nd_pick("call", 0, 7)] : *s);
	bool b = broken;
	int f1 = n_fault;
	VF_ASSERT("C23", libseat_close_seat(seat) == 0, "closing succeeds");
	if (!b && n_fault == f1) VF_ASSERT("C23", !controlled, "closing releases control");
	VF_ASSERT("C23", bus.refs == app_refs && n_replies == 0 && n_err == 0, "closing leaves nothing behind");
	VF_ASSERT("C23", slots[0].refs == 0 && slots[1].refs == 0, "no handler stays after closing");
	VF_ASSERT("C23", heap_live == 0, "closing frees everything");
	VF_WITNESS("closed");
	if (--rounds > 0) { VF_WITNESS("again"); goto again; }
	/* on a bus the caller shares, an answer may still arrive */
	if (pings && app_refs) {
		static struct sd_bus_message pm;
		pm.refs = 1;
		pm.kind = M_PING;
		pm.err = nd_bool("late");
		ping_fn(&pm, ping_data, NULL);
		VF_WITNESS("late-ping");
	}
	return 0;
}
