/*
 * libseat's seatd backend against a server stub: one that keeps to the
 * protocol but chooses its replies, the events around them, how the bytes are
 * cut up and when the connection is lost (mode 0), or one that sends arbitrary
 * bytes (mode 1). The application is a script of libseat calls with arbitrary
 * arguments; after each the stub compares what was sent with what was asked,
 * what was returned with what was replied, and the callbacks with the events.
 */
#define VF_ENV
#include "rename.h"
#include "vf.h"
#include "libseat.h"
#include "log.h"
#include "protocol.h"

/* ---------- descriptors and memory ---------- */
#define SOCK 20
#define PAIR 21 /* other end of a socket pair */
#define DEV0 30
#define NDEV 12
static bool is_open[64], dev_used[NDEV];
static int heap_live, faults, n_fault;
static bool fault(int e) {
	if (faults <= 0 || !nd_bool("fault")) return false;
	faults--;
	n_fault++;
	errno = any_errno(e);
	return true;
}
static int open_fds(void) { int n = 0; for (int i = 0; i < 64; i++) n += is_open[i]; return n; }
int env_close(int fd) {
	bool ok = fd >= 0 && fd < 64 && is_open[fd];
	VF_ASSERT("C20,C19", ok, "only open descriptors are closed, once");
	if (!ok) { errno = EBADF; return -1; }
	is_open[fd] = false;
	return 0;
}
void *env_calloc(size_t n, size_t s) { if (fault(ENOMEM)) return NULL; heap_live++; return calloc(n, s); }
void *env_malloc(size_t n) { if (fault(ENOMEM)) return NULL; heap_live++; return malloc(n); }
void *env_realloc(void *p, size_t n) { if (fault(ENOMEM)) return NULL; if (!p) heap_live++; return realloc(p, n); }
void env_free(void *p) { if (p) heap_live--; free(p); }
char *env_strerror(int e) { (void)e; return ""; }
void _logf(enum libseat_log_level l, const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	vf_log(f, ap);
	va_end(ap);
}
void log_init(void) {}
/* 0: short, 1: unset, 2: as long as an address can be, 3: longer */
static char *sock_env(void) {
	static char p[200];
	int k = (int)vf_param("sock", 0), n = k == 2 ? 107 : k == 3 ? 150 : 2;
	memset(p, 's', n);
	if (k != 4) p[0] = '/'; /* 4: a name without a directory */
	p[n] = 0;
	return k == 1 ? NULL : p;
}
char *env_getenv(const char *n) { if (!strcmp(n, "LIBSEAT_BACKEND")) return vf_param("builtin", 0) ? "builtin" : "seatd"; if (!strcmp(n, "SEATD_SOCK")) return sock_env(); return nd_bool("env") ? "yes" : NULL; }

/* ---------- the socket ---------- */
#define NSEG 24
static struct seg { uint8_t b[300]; int n, pos, fd; } segs[NSEG]; /* fd: device index, -1 */
static void server_step(void);
static int seg_r, seg_w; /* read position, write position */
static bool hup;         /* the server is gone */
static bool hup_seen;    /* and libseat could know */
static uint8_t rq[1400];
static int rq_n;
static int frag, shorts, eintrs;
static int mode;
static bool connected;

int env_socket(int d, int t, int p) {
	(void)p;
	VF_ASSERT("C18", d == AF_UNIX && (t & SOCK_STREAM) && (t & SOCK_CLOEXEC), "a close-on-exec stream socket");
	if (fault(EMFILE)) return -1;
	is_open[SOCK] = true;
	return SOCK;
}
int env_socketpair(int d, int t, int p, int sv[2]) {
	(void)p;
	VF_ASSERT("C18,C30", d == AF_UNIX && (t & SOCK_STREAM) && (t & SOCK_CLOEXEC), "a close-on-exec stream socket");
	if (fault(EMFILE)) return -1;
	sv[0] = PAIR; sv[1] = SOCK;
	is_open[PAIR] = is_open[SOCK] = true;
	connected = true;
	return 0;
}
int env_connect(int fd, const struct sockaddr *a, socklen_t l) {
	const struct sockaddr_un *u = (const void *)a;
	VF_ASSERT("C18", fd == SOCK && u->sun_family == AF_UNIX && l > sizeof u->sun_family && l <= sizeof *u, "the socket is connected by its name");
	const char *want = sock_env();
	if (!want) want = SEATD_DEFAULTPATH;
	size_t nl = l - sizeof u->sun_family, wl = strlen(want);
	if (wl < sizeof u->sun_path) VF_ASSERT("C18", nl >= wl && nl <= wl + 1 && !strncmp(u->sun_path, want, nl), "the socket named in the environment is connected, or else the default");
	else if (strncmp(u->sun_path, want, wl)) { n_fault++; errno = ENOENT; return -1; } /* cut off: nothing is there */
	if (fault(ECONNREFUSED)) { if (nd_bool("again")) errno = EAGAIN; return -1; }
	connected = true;
	return 0;
}
static bool child;
pid_t env_fork(void) {
	if (fault(EAGAIN)) { hup = true; return -1; } /* nobody will ever answer */
	if (vf_param("builtin", 0) > 1 && nd_bool("child")) { child = true; return 0; }
	return 1234;
}
#ifdef BUILTIN_ENABLED
#include "server.h"
/* the embedded server, for the forked process that runs it */
static struct server *embedded;
static int serving = -1, n_serve;
int server_init(struct server *s) {
	VF_ASSERT("C22,C30", child, "the server runs in a process of its own");
	if (fault(EMFILE)) return -1;
	embedded = s;
	s->running = true;
	return 0;
}
int server_add_client(struct server *s, int fd) {
	VF_ASSERT("C22,C30", s == embedded && fd == PAIR && is_open[fd], "the server serves the application's socket");
	if (fault(EMFILE)) { env_close(fd); return -1; }
	serving = fd;
	return 0;
}
int poller_poll(struct poller *p) {
	VF_ASSERT("C22,C30", embedded && p == &embedded->poller && serving == PAIR && !is_open[SOCK], "the server runs for its client alone");
	if (fault(EINVAL)) return -1;
	if (++n_serve == 3 || nd_bool("left")) { env_close(serving); serving = -1; embedded->running = false; }
	return 0;
}
void server_finish(struct server *s) {
	VF_ASSERT("C22,C20,C30", embedded && s == embedded, "a server is finished once");
	embedded = NULL;
	if (serving >= 0) env_close(serving);
	serving = -1;
}
void env_exit(int code) {
	VF_ASSERT("C20,C22,C30", child, "the application is never ended");
	VF_ASSERT("C20,C30", open_fds() == 0 && heap_live == 0 && !embedded, "the embedded server leaves nothing behind");
	VF_ASSERT("C22,C30", (code != 0) == (n_fault > 0), "its status says whether it failed");
	VF_WITNESS("embedded");
	vf_end();
}
#endif
int env_fcntl(int fd, int cmd, int arg) { (void)fd; (void)cmd; (void)arg; return 0; }
int env_shutdown(int fd, int how) { (void)fd; (void)how; return 0; }
static bool readable(void) { return seg_r < seg_w; }
static int n_poll;
enum call { NONE, OPEN, CLOSE, DISPATCH, DEVOPEN, DEVCLOSE, SWITCH, DISABLE };
static enum call in_call;
static int n_sent, n_delivered, disp_cb0, sent_before;
static int disp_timeout; /* what dispatch was told */
static bool waited;      /* and that it did so */
static bool recv_failed;
static int n_nested; /* calls made by callbacks */
static bool decided; /* the bytes sent decide the call in progress */
int env_poll(struct pollfd *f, nfds_t n, int timeout) {
	VF_ASSERT("C18", n == 1 && f->fd == SOCK && is_open[SOCK] && (f->events & POLLIN), "the connection is polled");
	f->revents = 0;
	n_poll++;
	if (in_call == DISPATCH) {
		VF_ASSERT("C17", timeout == disp_timeout, "dispatch waits as long as it is told");
		waited = true;
	}
	VF_ASSERT("C19,C18", n_poll < 200, "a call does not loop");
	VF_ASSUME(n_poll < 200);
	if (eintrs > 0 && nd_bool("eintr")) { eintrs--; errno = nd_bool("again") ? EAGAIN : EINTR; return -1; }
	if (fault(EINVAL)) return -1;
	if (in_call == DISPATCH && timeout != 0) VF_ASSERT("C17", n_delivered == disp_cb0, "dispatch does not wait once it has delivered an event");
	if (!readable() && !hup && timeout != 0) server_step();
	if (!readable() && !hup) {
		if (timeout == -1) {
			VF_ASSERT("C19", !decided, "a message that decides the call is not waited for again");
			if (mode == 0) {
				VF_ASSERT("C18", in_call == DISPATCH, "a request does not wait for a reply that has come, or to a request that was not sent");
				VF_ASSERT("C17", n_delivered == n_sent, "dispatch does not sleep on events that have arrived");
			}
			vf_end(); /* nothing will ever come: the caller sleeps */
		}
		return 0;
	}
	if (readable() || hup) f->revents |= POLLIN;
	if (hup) { f->revents |= POLLHUP; }
	return 1;
}
ssize_t env_recvmsg(int fd, struct msghdr *m, int flags) {
	if (fd == -1) { errno = EBADF; return -1; }
	VF_ASSERT("C18,C19", fd == SOCK && is_open[SOCK], "the connection is read");
	VF_ASSERT("C15,C19", flags & MSG_CMSG_CLOEXEC, "received descriptors are close-on-exec");
	size_t ctl = m->msg_controllen;
	if (eintrs > 0 && nd_bool("eintr")) { eintrs--; errno = EINTR; return -1; }
	if (!connected) { errno = ENOTCONN; return -1; }
	if (fault(ECONNRESET)) { recv_failed = true; return -1; }
	if (!readable()) {
		if (hup) { hup_seen = true; m->msg_controllen = m->msg_flags = 0; return 0; }
		VF_ASSERT("C18", flags & MSG_DONTWAIT, "reading does not block");
		errno = EAGAIN;
		return -1;
	}
	m->msg_controllen = 0;
	m->msg_flags = 0;
	size_t room = 0, got = 0;
	for (size_t v = 0; v < m->msg_iovlen; v++) room += m->msg_iov[v].iov_len;
	if (frag && room > (size_t)frag) room = frag;
	size_t v = 0, off = 0;
	int fdsent = -1;
	while (got < room && seg_r < seg_w) {
		struct seg *s = &segs[seg_r];
		if (s->fd >= 0 && got) break; /* descriptors start a new read */
		if (s->fd >= 0) { fdsent = s->fd; s->fd = -1; }
		while (s->pos < s->n && got < room) {
			if (off == m->msg_iov[v].iov_len) { v++; off = 0; continue; }
			((uint8_t *)m->msg_iov[v].iov_base)[off++] = s->b[s->pos++];
			got++;
		}
		if (s->pos == s->n) seg_r++;
		if (fdsent >= 0) break;
	}
	if (fdsent >= 0) {
		VF_ASSERT("C15,C18,C19", ctl >= CMSG_LEN(sizeof(int)), "there is room for the descriptor that arrives");
		if (ctl < CMSG_LEN(sizeof(int))) return got;
		struct cmsghdr *c = m->msg_control;
		c->cmsg_level = SOL_SOCKET;
		c->cmsg_type = SCM_RIGHTS;
		c->cmsg_len = CMSG_LEN(sizeof(int));
		int nf = DEV0 + fdsent;
		memcpy(CMSG_DATA(c), &nf, sizeof nf);
		is_open[nf] = true;
		m->msg_controllen = CMSG_LEN(sizeof(int));
	}
	return got;
}
ssize_t env_sendmsg(int fd, const struct msghdr *m, int flags) {
	if (fd == -1) { errno = EBADF; return -1; }
	VF_ASSERT("C18,C19", fd == SOCK && is_open[SOCK], "the connection is written");
	VF_ASSERT("C18", flags & MSG_NOSIGNAL, "a lost connection does not kill the application");
	VF_ASSERT("C18", !m->msg_control || m->msg_controllen == 0, "no descriptors are sent");
	if (eintrs > 0 && nd_bool("eintr")) { eintrs--; errno = EINTR; return -1; }
	if (!connected) { errno = ENOTCONN; return -1; }
	if (hup) { errno = EPIPE; return -1; }
	if (fault(EPIPE)) { int e = nd_range("errno", 1, 133); VF_ASSUME(e != EINTR); errno = e; return -1; } /* EAGAIN, too: the socket is full */
	size_t total = 0;
	for (size_t v = 0; v < m->msg_iovlen; v++) total += m->msg_iov[v].iov_len;
	if (total > 1 && shorts > 0 && nd_bool("short")) { shorts--; total = nd_pick("len", 1, total - 1 > 3 ? 3 : (int)total - 1); }
	size_t done = 0;
	int at0 = rq_n;
	for (size_t v = 0; v < m->msg_iovlen && done < total; v++)
		for (size_t i = 0; i < m->msg_iov[v].iov_len && done < total; i++, done++) {
			VF_ASSUME(rq_n < (int)sizeof rq);
			rq[rq_n++] = ((uint8_t *)m->msg_iov[v].iov_base)[i];
		}
	if (mode == 0 && at0 == 0 && rq_n >= 2 && (rq[0] | rq[1] << 8) == CLIENT_PING) VF_ASSERT("C18", n_delivered < n_sent, "a call sends nothing but its request, unless events wait to be dispatched");
	if (vf_param("fast", 0)) server_step(); /* a daemon that answers at once */
	return done;
}

/* ---------- the server ---------- */
static bool want;
static uint16_t want_op, want_len;
static uint8_t want_pl[300];
/* the reply given */
static bool replied, reply_ok;
static int reply_val, reply_dev;
static int ev_budget, loss, n_dev, err_budget;
static uint16_t sent_ev[64];
static int n_ping, n_req;
static uint8_t name[70];
static int name_len;

static struct seg *cur;
static void seg_open(int fd) { VF_ASSUME(seg_w < NSEG); cur = &segs[seg_w++]; cur->n = cur->pos = 0; cur->fd = fd; }
static void out(const void *b, int n) { VF_ASSUME(cur->n + n <= (int)sizeof cur->b); memcpy(cur->b + cur->n, b, n); cur->n += n; }
static void out_hdr(uint16_t op, uint16_t size) { struct proto_header h = {op, size}; out(&h, sizeof h); }
static void maybe_event(void) {
	while (ev_budget > 0 && nd_bool("event")) {
		ev_budget--;
		uint16_t op = nd_bool("enable") ? SERVER_ENABLE_SEAT : SERVER_DISABLE_SEAT;
		VF_ASSUME(n_sent < 64);
		sent_ev[n_sent++] = op;
		out_hdr(op, 0);
		VF_WITNESS("event");
	}
}
static bool lose(void) {
	if (hup) return true;
	if (loss <= 0 || !nd_bool("loss")) return false;
	loss--;
	hup = true;
	VF_WITNESS("lost");
	return true;
}
static void reply(uint16_t op) {
	uint16_t rop = op == CLIENT_OPEN_SEAT ? SERVER_SEAT_OPENED : op == CLIENT_CLOSE_SEAT ? SERVER_SEAT_CLOSED : op == CLIENT_OPEN_DEVICE ? SERVER_DEVICE_OPENED :
		op == CLIENT_CLOSE_DEVICE ? SERVER_DEVICE_CLOSED : op == CLIENT_DISABLE_SEAT ? SERVER_SEAT_DISABLED : SERVER_SESSION_SWITCHED;
	reply_ok = !(err_budget > 0 && nd_bool("error"));
	int dev = -1;
	if (reply_ok && op == CLIENT_OPEN_DEVICE) { VF_ASSUME(n_dev < NDEV); dev = n_dev++; reply_dev = dev; }
	bool together = true;
	seg_open(dev);
	maybe_event(); /* before the reply */
	sent_before = n_sent;
	if (!reply_ok) {
		err_budget--;
		reply_val = nd_int("code");
		VF_ASSUME(reply_val != 0);
		out_hdr(SERVER_ERROR, 4);
		out(&reply_val, 4);
	} else if (op == CLIENT_OPEN_SEAT) {
		uint16_t l = name_len;
		out_hdr(rop, 2 + name_len);
		out(&l, 2);
		out(name, name_len);
	} else if (op == CLIENT_OPEN_DEVICE) {
		reply_val = nd_int("id");
		VF_ASSUME(reply_val >= 0);
		out_hdr(rop, 4);
		out(&reply_val, 4);
	} else out_hdr(rop, 0);
	(void)together;
	replied = true;
	maybe_event(); /* after it */
	n_req++;
}
static void server_step(void) {
	if (mode != 0 || hup || !is_open[SOCK]) return; /* once libseat has closed its end nobody answers */
	if (lose()) return;
	/* complete requests */
	int at = 0;
	while (rq_n - at >= 4) {
		uint16_t op, size;
		memcpy(&op, rq + at, 2);
		memcpy(&size, rq + at + 2, 2);
		if (rq_n - at < 4 + size) break;
		if (op == CLIENT_PING) {
			VF_ASSERT("C18", size == 0, "a ping has no payload");
			n_ping++;
			seg_open(-1);
			maybe_event();
			out_hdr(SERVER_PONG, 0);
			maybe_event();
		} else {
			VF_ASSERT("C18", want, "nothing is sent that was not asked for");
			VF_ASSERT("C18", op == want_op && size == want_len, "the request is the one asked for");
			if (!want || op != want_op || size != want_len) vf_end();
			int d = 0;
			for (int i = 0; i < size; i++) d |= rq[at + 4 + i] ^ want_pl[i];
			VF_ASSERT("C18", d == 0, "the request carries exactly the arguments given");
			want = false;
			reply(op);
		}
		at += 4 + size;
	}
	memmove(rq, rq + at, rq_n - at);
	rq_n -= at;
	if (ev_budget > 0) { seg_open(-1); maybe_event(); if (!cur->n) seg_w--; }
	if (at == 0) return;
	if (loss > 0 && nd_bool("gone")) { loss--; hup = true; VF_WITNESS("lost"); }
}

/* ---------- the application ---------- */
static struct libseat *seat;
static bool dead; /* the connection has been seen to be lost */
static int cb_budget;
static void do_disable(void);
static void do_open_device(const char *path, int len);
static void do_close_device(int id);
static void do_switch(int n);
static int do_dispatch(int timeout);
static int fault0;
static void callback(struct libseat *s, void *data, uint16_t op) {
	VF_ASSERT("C17", data == (void *)0x1234 && (!seat || s == seat), "callbacks get the application's data and seat");
	VF_ASSERT("C17", in_call == DISPATCH || in_call == OPEN || in_call == CLOSE, "callbacks come only from dispatch, opening or closing");
	if (mode == 0) {
		VF_ASSERT("C17", n_delivered < n_sent && sent_ev[n_delivered] == op, "callbacks are the daemon's events, in order, once each");
		if (n_delivered >= n_sent) vf_end();
	}
	n_delivered++;
	VF_WITNESS("callback");
	if (cb_budget > 0 && !dead && mode == 0 && nd_bool("nested")) {
		/* what an application does when told: acknowledge, and more */
		cb_budget--;
		n_nested++;
		struct libseat *was_seat = seat;
		enum call was = in_call;
		bool w = want, rp = replied, ok = reply_ok;
		int v = reply_val, dv = reply_dev, f = fault0, np = n_poll;
		seat = s;
		want = false;
		switch (vf_param("cbops", 0) ? nd_pick("op", 0, in_call == DISPATCH ? 4 : 3) : 0) {
		case 0: do_disable(); break;
		case 1: do_open_device("/n", 2); break;
		case 2: do_close_device(7); break;
		case 3: do_switch(3); break;
		case 4: server_step(); do_dispatch(0); break;
		}
		seat = was_seat;
		in_call = was;
		want = w; replied = rp; reply_ok = ok; reply_val = v; reply_dev = dv; fault0 = f; n_poll = np;
		VF_WITNESS("nested");
	}
}
static void on_enable(struct libseat *s, void *d) { callback(s, d, SERVER_ENABLE_SEAT); }
static void on_disable(struct libseat *s, void *d) { callback(s, d, SERVER_DISABLE_SEAT); }
static const struct libseat_seat_listener listener = {on_enable, on_disable};

static int poll0;
static bool hup0;
static void ask(enum call c, uint16_t op, const void *pl, int n) {
	in_call = c;
	want = true;
	want_op = op;
	want_len = n;
	if (n) memcpy(want_pl, pl, n);
	replied = false;
	fault0 = n_fault;
	n_poll = 0;
	hup0 = hup;
	errno = 0;
}
/* common judgement of a request's result; true: it succeeded */
static bool judge(int r, int ok_val, int e) {
	in_call = NONE;
	bool trouble = n_fault > fault0 || hup || dead;
	if (dead) VF_ASSERT("C18", r == -1 && e == ENOTCONN ? 1 : r == -1 && e != 0, "every call on a lost connection fails with errno set");
	if (r == -1) VF_ASSERT("C18,C20", e != 0, "a failure sets errno");
	if (mode != 0) return r != -1;
	if (!trouble) {
		VF_ASSERT("C18", replied && !want, "the request was sent and its reply awaited");
		if (reply_ok) VF_ASSERT("C18", r == ok_val, "the result is the one the daemon gave");
		else {
			VF_ASSERT("C18", r == -1 && e == reply_val, "an error is the one the daemon gave");
			VF_WITNESS("error");
		}
	} else if (r != -1) VF_ASSERT("C18", replied && reply_ok && r == ok_val, "success is reported only when the daemon confirmed it");
	want = false;
	if (!is_open[SOCK] && !dead) { /* given up, possibly while asking to be woken up */
		VF_ASSERT("C18", hup || n_fault > fault0, "the connection is given up only when it is lost");
		dead = true;
		VF_WITNESS("dead");
	}
	if (r == -1 && !replied && hup) VF_ASSERT("C18", dead, "a call that finds the connection lost closes it");
	return r != -1;
}
static void do_open(void) {
	ask(OPEN, CLIENT_OPEN_SEAT, NULL, 0);
	struct libseat *s = libseat_open_seat(&listener, (void *)0x1234);
	int e = errno;
	in_call = NONE;
	VF_ASSERT("C22,C30", !child, "the embedded daemon's process never returns to the application's code");
	if (!s) {
		VF_ASSERT("C20", e != 0, "a failed open sets errno");
		VF_ASSERT("C20,C30", open_fds() == 0 && heap_live == 0, "a failed open leaves nothing behind");
		if (mode == 0) VF_ASSERT("C18,C20", n_fault || hup || (replied && !reply_ok && e == reply_val), "opening fails only when something failed");
		VF_WITNESS("open-failed");
		vf_end();
	}
	dead = !is_open[SOCK];
	VF_ASSERT("C30,C20", !is_open[PAIR], "the application does not keep the daemon's end");
	if (!n_fault && !hup && mode == 0) VF_ASSERT("C18,C20", !dead, "an open seat has its connection");
	if (mode == 0) {
		VF_ASSERT("C18", replied && reply_ok, "opening succeeds only when the daemon agreed");
		const char *n = libseat_seat_name(s);
		int d = 0;
		for (int i = 0; i < name_len; i++) d |= (uint8_t)n[i] ^ name[i];
		VF_ASSERT("C18,C21", d == 0, "the seat has the name the daemon gave");
	}
	want = false;
	seat = s;
	VF_ASSERT("C18", libseat_get_fd(seat) == (dead ? -1 : SOCK), "the seat's descriptor is its connection");
	VF_WITNESS("opened");
}
static void after(void);
static int held_id[8], held_fd[8], n_held;
static void do_open_device(const char *path, int len) {
	uint8_t pl[300];
	uint16_t l = len + 1;
	if (len + 1 <= 256) { memcpy(pl, &l, 2); memcpy(pl + 2, path, len + 1); }
	ask(DEVOPEN, CLIENT_OPEN_DEVICE, pl, len + 1 <= 256 ? 2 + len + 1 : 0);
	int fd = -7, sent0 = rq_n + n_req;
	int r = libseat_open_device(seat, path, &fd);
	int e = errno;
	if (len + 1 > 256) {
		in_call = NONE;
		want = false;
		VF_ASSERT("C18", r == -1 && e != 0 && rq_n + n_req == sent0, "an argument that cannot be sent is refused and sends nothing");
		VF_WITNESS("refused");
		return;
	}
	if (judge(r, reply_val, e)) {
		VF_ASSERT("C18,C15", mode != 0 || (fd == DEV0 + reply_dev && is_open[fd]), "the descriptor is the one that came with the reply");
		if (fd >= DEV0 && fd < DEV0 + NDEV && is_open[fd]) is_open[fd] = false; /* the application's now */
		VF_WITNESS("device");
	}
	after();
}
static void do_close_device(int id) {
	ask(DEVCLOSE, CLIENT_CLOSE_DEVICE, &id, 4);
	int sent0 = rq_n + n_req, r = libseat_close_device(seat, id), e = errno;
	if (id < 0) {
		in_call = NONE;
		want = false;
		VF_ASSERT("C18", r == -1 && e != 0 && rq_n + n_req == sent0, "an argument that cannot be sent is refused and sends nothing");
		return;
	}
	judge(r, 0, e);
	after();
}
static void do_switch(int n) {
	ask(SWITCH, CLIENT_SWITCH_SESSION, &n, 4);
	int sent0 = rq_n + n_req, r = libseat_switch_session(seat, n), e = errno;
	if (n < 0) {
		in_call = NONE;
		want = false;
		VF_ASSERT("C18", r == -1 && e != 0 && rq_n + n_req == sent0, "an argument that cannot be sent is refused and sends nothing");
		return;
	}
	judge(r, 0, e);
	after();
}
static void do_disable(void) {
	ask(DISABLE, CLIENT_DISABLE_SEAT, NULL, 0);
	int r = libseat_disable_seat(seat), e = errno;
	judge(r, 0, e);
	after();
}
static int do_dispatch(int timeout) {
	in_call = DISPATCH;
	int d0 = disp_cb0, t0 = disp_timeout, start = n_delivered, nest0 = n_nested;
	bool w0 = waited;
	disp_cb0 = n_delivered;
	disp_timeout = timeout;
	waited = recv_failed = false;
	fault0 = n_fault;
	n_poll = 0;
	errno = 0;
	bool h0 = hup, was_dead = dead;
	int r = libseat_dispatch(seat, timeout), e = errno;
	in_call = NONE;
	disp_cb0 = d0;
	if (r != -1) {
		VF_ASSERT("C18", (is_open[SOCK] && !recv_failed) || n_nested > nest0, "a dispatch that finds the connection lost or broken fails");
		if (timeout != 0 && mode == 0) VF_ASSERT("C17", waited || r > 0 || n_delivered > start, "a dispatch told to wait waits when there is nothing to do");
		if (timeout == 0) VF_ASSERT("C17", !waited, "a dispatch told not to wait does not");
	}
	disp_timeout = t0;
	waited = w0;
	if (r == -1) {
		VF_ASSERT("C18", e != 0, "a failure sets errno");
		VF_ASSERT("C18,C17", mode != 0 || n_fault > fault0 || hup || was_dead, "dispatch fails only when the connection is lost");
		if (!is_open[SOCK]) dead = true;
	} else VF_ASSERT("C18", r >= 0 && !was_dead, "a dead connection is reported by dispatch");
	(void)h0;
	return r;
}
static void after(void) { }
/* an application that polls the descriptor and dispatches when it is readable */
static void app_loop(void) {
	if (mode != 0) return;
	for (int k = 0; k < 12; k++) {
		server_step();
		if (dead || hup) break;
		if (!readable()) break;
		VF_ASSERT("C17", libseat_get_fd(seat) == SOCK, "the seat's descriptor stays");
		do_dispatch(0);
	}
	if (hup) {
		int r = 0;
		for (int k = 0; k < 4 && r >= 0; k++) r = do_dispatch(0);
		VF_ASSERT("C18", r == -1 || n_fault, "a lost connection is reported even by a dispatch that does not wait");
		return;
	}
	if (!dead && !n_fault) VF_ASSERT("C17", n_delivered == n_sent, "no event is stranded: a polling application receives them all");
}
static void do_close(void) {
	ask(CLOSE, CLIENT_CLOSE_SEAT, NULL, 0);
	struct libseat *s = seat;
	bool was_dead = dead;
	int r = libseat_close_seat(s), e = errno;
	in_call = NONE;
	seat = NULL;
	if (mode == 0) {
		if (was_dead) VF_ASSERT("C18", r == -1 && e != 0, "closing a dead seat says so");
		else if (n_fault == fault0 && !hup) {
			VF_ASSERT("C18", replied && !want, "closing tells the daemon");
			VF_ASSERT("C18", reply_ok ? r == 0 : r == -1 && e == reply_val, "closing returns the daemon's answer");
			VF_ASSERT("C17", n_delivered >= sent_before, "closing delivers what came before the daemon's answer");
		}
		if (r == -1) VF_ASSERT("C18,C20", e != 0, "a failure sets errno");
	}
	VF_WITNESS("closed");
	VF_ASSERT("C20,C19,C30", !is_open[SOCK], "closing releases the connection");
	VF_ASSERT("C20,C19", open_fds() == 0, "closing releases every descriptor");
	VF_ASSERT("C20,C19", heap_live == 0, "closing releases all memory");
}

static void hostile(void);
static void step(char ch) {
	switch (ch) {
	case 'd': { char p[3] = {'/', (char)nd_u8("path"), 0}; VF_ASSUME(p[1] != 0); do_open_device(p, 2); break; }
	case 'l': { static char p[300]; int n = nd_pick("len", 253, 258); memset(p, 'x', n); p[n - 1] = nd_u8("path"); VF_ASSUME(p[n - 1] != 0); p[n] = 0; do_open_device(p, n); break; }
	case 'k': do_close_device(nd_int("device")); break;
	case 's': do_switch(nd_int("session")); break;
	case 'a': do_disable(); break;
	case 'p': do_dispatch(0); break;
	case 'w': do_dispatch(nd_bool("timed") ? 100 : -1); break;
	case 'L': app_loop(); break;
	}
}
int vf_main(void) {
	mode = vf_param("mode", 0);
	ev_budget = vf_param("evs", 0);
	loss = vf_param("loss", 0);
	err_budget = vf_param("errs", 0);
	faults = vf_param("faults", 0);
	frag = vf_param("frag", 0);
	shorts = vf_param("shorts", 0);
	eintrs = vf_param("eintr", 0);
	cb_budget = vf_param("cb", 0);
	name_len = vf_param("name", 6);
	memset(name, 'n', sizeof name);
	if (name_len > 2) name[1] = nd_u8("name");
	if (name_len > 2) VF_ASSUME(name[1] != 0);
	if (name_len) name[name_len - 1] = 0;
	if (vf_param("unterminated", 0)) name[name_len - 1] = 'x'; /* old servers */
	if (mode == 1) { hostile(); return 0; }
	do_open();
	if (!seat) return 0;
	for (const char *s = vf_str("script"); *s; s++) {
		if (*s == '*') {
			static const char all[] = "dksapwL";
			step(all[nd_pick("call", 0, 6)]);
		} else step(*s);
		vf_obs("delivered", n_delivered);
	}
	faults = 0;
	app_loop();
	errno = 0;
	int fd = libseat_get_fd(seat), e = errno;
	VF_ASSERT("C18", dead ? fd == -1 && e != 0 : fd == SOCK, "the seat's descriptor is its connection, while there is one");
	do_close();
	return 0;
}

/* ---------- a server that sends anything ---------- */
static int hs_req;
static void hostile(void) {
	int n = vf_param("bytes", 8), at = vf_param("at", 0); /* at: 0 during open, 1 during a request, 2 during dispatch, 3 during close */
	int nfd = vf_param("fds", 0);
	if (at) {
		mode = 0;
		do_open();
		mode = 1;
		memset(rq, 0, sizeof rq);
		rq_n = 0;
	}
	uint8_t b[80];
	for (int i = 0; i < n; i++) b[i] = nd_u8("byte");
	int skip = vf_param("tail", 0); /* a longer message: the rest is filled in */
	seg_open(nfd ? 0 : -1);
	out(b, n);
	for (int i = 0; i < skip; i++) { uint8_t z = 'z'; if (vf_param("term", 0) && i == skip - 1) z = 0; out(&z, 1); }
	if (nfd) n_dev = 1;
	hup = vf_param("hup", 0); /* the server leaves after its bytes */
	/* what a client must make of these bytes: events, then the reply, then events */
	int call = vf_param("call", 0); /* at 1: which request */
	uint16_t ops[4] = {SERVER_SEAT_OPENED, SERVER_DEVICE_OPENED, 0, SERVER_SEAT_CLOSED}, calls[4] = {SERVER_DEVICE_OPENED, SERVER_DEVICE_CLOSED, SERVER_SESSION_SWITCHED, SERVER_SEAT_DISABLED};
	ops[1] = calls[call];
	enum { BAD, REPLY, ERRREPLY, WAIT } verdict = WAIT;
	int pos = 0, total = n + skip, evs = 0;
	uint8_t *m = cur->b;
	while (total - pos >= 4) {
		uint16_t op = m[pos] | m[pos + 1] << 8, size = m[pos + 2] | m[pos + 3] << 8;
		bool event = op == SERVER_ENABLE_SEAT || op == SERVER_DISABLE_SEAT || op == SERVER_PONG;
		if (event) {
			if (size != 0) { verdict = BAD; break; }
			if (op != SERVER_PONG) evs++;
			pos += 4;
			continue;
		}
		if (at == 2) { verdict = BAD; break; }
		if (op != ops[at] && op != SERVER_ERROR) { verdict = total - pos - 4 >= size ? BAD : WAIT; break; }
		if (total - pos - 4 < size) { verdict = WAIT; break; }
		if (op == SERVER_ERROR) verdict = size == 4 ? ERRREPLY : BAD;
		else if (at == 1 && call) verdict = size == 0 ? REPLY : BAD;
		else if (at == 1) verdict = size == 4 && !(m[pos + 7] & 0x80) ? REPLY : BAD;
		else if (at == 3) verdict = size == 0 ? REPLY : BAD;
		else {
			verdict = BAD;
			if (size >= 2) {
				uint16_t l = m[pos + 4] | m[pos + 5] << 8;
				if (l == size - 2 && l <= 64) {
					int z = 0, last = 1;
					l = vf_conc(l);
					for (int i = 0; i + 1 < l; i++) z |= m[pos + 6 + i] == 0;
					if (l) last = m[pos + 6 + l - 1];
					verdict = z || (l == 64 && last != 0) ? BAD : REPLY;
				}
			}
		}
		break;
	}
	decided = verdict != WAIT && at != 2;
	switch (at) {
	case 0: {
		in_call = OPEN;
		n_poll = 0;
		struct libseat *s = libseat_open_seat(&listener, (void *)0x1234);
		int e = errno;
		in_call = NONE;
		if (verdict == REPLY && !hup) VF_ASSERT("C19,C18", s != NULL, "a proper reply opens the seat");
		if (verdict == BAD || verdict == ERRREPLY) VF_ASSERT("C19,C20", s == NULL && (verdict == ERRREPLY || e != 0), "a malformed reply fails the open");
		if (!s) { VF_ASSERT("C20,C19", open_fds() == 0 && heap_live == 0, "a failed open leaves nothing behind"); VF_WITNESS("hostile-failed"); return; }
		const char *nm = libseat_seat_name(s);
		size_t l = 0;
		while (l < 64 && nm[l]) l++;
		VF_ASSERT("C19", l < 64, "seat names are terminated");
		seat = s;
		VF_WITNESS("hostile-opened");
		hup = true;
		for (int k = 0; k < 4; k++) { n_poll = 0; in_call = DISPATCH; libseat_dispatch(seat, 0); in_call = NONE; }
		break;
	}
	case 1: {
		int fd = -7;
		in_call = DEVOPEN;
		n_poll = 0;
		errno = 0;
		int r = call == 0 ? libseat_open_device(seat, "/x", &fd) : call == 1 ? libseat_close_device(seat, 3) : call == 2 ? libseat_switch_session(seat, 3) : libseat_disable_seat(seat), e = errno;
		in_call = NONE;
		if (call) {
			if (verdict == REPLY && !hup) VF_ASSERT("C19,C18", r == 0, "a proper reply is success");
			if (verdict != REPLY) VF_ASSERT("C19,C18", r == -1 && (e != 0 || verdict == ERRREPLY), "anything else is an error");
			if (verdict == BAD) { VF_ASSERT("C19", !is_open[SOCK], "after a malformed message the connection is closed"); VF_WITNESS("hostile-bad"); }
			break;
		}
		if (r >= 0) VF_ASSERT("C19", verdict == REPLY && nfd && fd == DEV0, "only a proper reply opens a device");
		else VF_ASSERT("C19", e != 0 || verdict == ERRREPLY, "a malformed reply is an error");
		if (verdict == BAD) { VF_ASSERT("C19", r < 0 && !is_open[SOCK], "after a malformed message the connection is closed"); VF_WITNESS("hostile-bad"); }
		if (verdict == REPLY && !nfd) VF_ASSERT("C19", r < 0 && !is_open[SOCK], "a reply without its descriptor is malformed");
		if (r >= 0) is_open[DEV0] = false;
		n_poll = 0;
		in_call = DISPATCH;
		libseat_dispatch(seat, 0);
		in_call = NONE;
		break;
	}
	case 2: {
		in_call = DISPATCH;
		n_poll = 0;
		int d0 = n_delivered;
		disp_timeout = vf_param("timeout", 0);
		errno = 0;
		int r = libseat_dispatch(seat, disp_timeout), e = errno;
		disp_timeout = 0;
		while (r >= 0 && readable()) { n_poll = 0; r = libseat_dispatch(seat, 0); e = errno; } /* an application that polls */
		in_call = NONE;
		if (verdict == BAD) { VF_ASSERT("C19", r == -1 && e != 0 && !is_open[SOCK], "after a malformed message the connection is closed"); VF_WITNESS("hostile-bad"); }
		else if (!hup) { VF_ASSERT("C19,C17", r >= 0 && n_delivered - d0 == evs, "events are delivered"); }
		break;
	}
	case 3: break;
	}
	in_call = CLOSE;
	n_poll = 0;
	if (at != 3) hup = true;
	errno = 0;
	int cr = libseat_close_seat(seat), ce = errno;
	in_call = NONE;
	if (at == 3) {
		if (verdict == BAD) VF_ASSERT("C19", cr == -1 && ce != 0, "a malformed reply is an error");
		if (verdict == ERRREPLY) VF_ASSERT("C19,C18", cr == -1, "an error reply is an error");
		if (verdict == REPLY && !hup) VF_ASSERT("C19,C18", cr == 0, "a proper reply closes the seat");
	}
	VF_ASSERT("C20,C19", open_fds() == 0 && heap_live == 0, "closing releases everything");
	VF_WITNESS("hostile-closed");
	(void)hs_req;
}
