/*
 * An application using libseat's seatd backend against the real daemon: both
 * sides in one encoding, joined by modelled sockets that carry the bytes and
 * descriptors each really sent. Up to two applications, a script of their
 * libseat calls with arbitrary arguments and of VT switches; the daemon runs
 * whenever an application waits, and calls of the other application may fall
 * into that wait.
 */
#define VF_ENV
#include "rename.h"
#define env_close k_close
#define env_poll k_poll
#define env_recvmsg k_recvmsg
#define env_sendmsg k_sendmsg
#define env_realpath k_realpath
#define env_open k_open
#define env_getenv k_getenv
#define env_fcntl k_fcntl
#define env_shutdown k_shutdown
char *k_realpath(const char *p, char *out);
int k_open(const char *p, int f, int m);
int k_close(int fd);
#include "kern.h"
#undef env_close
#undef env_poll
#undef env_recvmsg
#undef env_sendmsg
#undef env_realpath
#undef env_open
#undef env_getenv
#undef env_fcntl
#undef env_shutdown
#include "client.h"
#include "libseat.h"
#include "linked_list.h"
#include "poller.h"
#include "protocol.h"
#include "seat.h"
#include "server.h"

#define NCL 2
#define CLFD 100 /* application k has descriptors CLFD + k * CLN + ... */
#define CLN 40
#define NHOLD 6
static struct app {
	struct libseat *seat;
	int peer;
	bool used; /* has a connection */
	int fds[CLN]; /* 0 closed, -1 unconnected socket, -2 connection, else ofd */
	bool active, pending; /* what the callbacks said */
	bool in_cb; /* a callback is running */
	bool in_call, may_call; /* may_call: callbacks may come */
	int id[NHOLD], ofd[NHOLD], choice[NHOLD], fd[NHOLD], n; /* devices it holds */
	/* the request under way */
	const char *path;
	int path_choice, path_errno, open_errno;
	bool resolved, opened;
	int n_cb;
} app[NCL];
static int owner[NPEER]; /* peer -> application */
static struct rx { uint8_t b[1600]; int len, pos; int fd[8], at[8], nfd, rfd; } rx[NPEER];
static struct server server;
static bool vtb, stopped, ended;
static int listen_fd, base_fds, cfrag, shorts, nest, eintrs, fails;

static void on_send(int p, const uint8_t *b, size_t n) {
	struct rx *r = &rx[p];
	if (app[owner[p]].peer != p) return;
	if (r->pos == r->len && r->rfd == r->nfd) r->pos = r->len = r->rfd = r->nfd = 0;
	VF_ASSUME(r->len + n <= sizeof r->b);
	memcpy(r->b + r->len, b, n);
	r->len += n;
}
static void on_send_fd(int p, int o) {
	struct rx *r = &rx[p];
	if (r->pos == r->len && r->rfd == r->nfd) r->pos = r->len = r->rfd = r->nfd = 0;
	VF_ASSUME(r->nfd < 8);
	r->at[r->nfd] = r->len;
	r->fd[r->nfd++] = o;
}
static void on_vt_ack_release(void) {}
static void on_realpath(const char *p) { (void)p; }
static void on_dev_open(const char *p, int flags, int idx) { (void)p; (void)flags; (void)idx; }

static struct app *of_fd(int fd) { return fd >= CLFD && fd < CLFD + NCL * CLN ? &app[(fd - CLFD) / CLN] : NULL; }
static int *slot(int fd) { return &of_fd(fd)->fds[(fd - CLFD) % CLN]; }
static bool unread(struct app *a) { return a->used && rx[a->peer].pos < rx[a->peer].len; }
static bool lost(struct app *a) { return a->used && peers[a->peer].srv_closed; }

/* ---------- the daemon's side ---------- */
char *env_realpath(const char *p, char *out) {
	VF_ASSERT("C21", acting >= 0, "a path is resolved for a request");
	struct app *a = &app[owner[acting]];
	VF_ASSERT("C21", a->path && !a->resolved, "a path is resolved once, for the application asking");
	if (!a->path) vf_end();
	int d = 0, n = strlen(a->path);
	for (int i = 0; i <= n; i++) d |= p[i] ^ a->path[i];
	VF_ASSERT("C21", d == 0, "the path arrives unchanged");
	a->resolved = true;
	rp_choice = a->path_choice;
	rp_errno = a->path_errno;
	return k_realpath(p, out);
}
int env_open(const char *p, int flags, int mode) {
	if (acting >= 0 && strncmp(p, "/dev/tty", 8)) {
		struct app *a = &app[owner[acting]];
		a->opened = true;
		if (fails > 0 && nd_bool("fail")) {
			fails--;
			a->open_errno = nd_range("errno", 1, 4095);
			errno = a->open_errno;
			VF_WITNESS("open-errno");
			return -1;
		}
	}
	return k_open(p, flags, mode);
}
char *env_getenv(const char *n) {
	if (!strcmp(n, "LIBSEAT_BACKEND")) return "seatd";
	if (!strcmp(n, "SEATD_SOCK")) return "/s";
	return k_getenv(n);
}
int env_fcntl(int fd, int cmd, int arg) { return of_fd(fd) ? 0 : k_fcntl(fd, cmd, arg); }
int env_shutdown(int fd, int how) { return of_fd(fd) ? 0 : k_shutdown(fd, how); }
static void settle(void) {
	if (stopped) return;
	for (int i = 0;; i++) {
		VF_ASSERT("C21", i < 400, "the daemon comes to rest");
		VF_ASSUME(i < 400);
		int r = poller_poll(&server.poller);
		VF_ASSERT("C21", r != -1, "polling works");
		if (poll_blocks) break;
	}
	acting = -1;
}

/* ---------- the application's side ---------- */
static int side; /* application whose libseat call is running */
static void other_call(void);
int env_socket(int d, int t, int p) {
	(void)d; (void)t; (void)p;
	struct app *a = &app[side];
	VF_ASSUME(a->fds[0] == 0);
	a->fds[0] = -1;
	return CLFD + side * CLN;
}
int env_connect(int fd, const struct sockaddr *s, socklen_t l) {
	(void)s; (void)l;
	VF_ASSERT("C21", of_fd(fd) == &app[side] && *slot(fd) == -1, "a socket is connected");
	VF_ASSUME(n_peers < NPEER);
	if (stopped) { errno = ECONNREFUSED; return -1; }
	*slot(fd) = -2;
	app[side].used = true;
	app[side].peer = n_peers;
	owner[n_peers++] = side;
	return 0;
}
int env_close(int fd) {
	struct app *a = of_fd(fd);
	if (!a) return k_close(fd);
	VF_ASSERT("C21,C20", a == &app[side] && *slot(fd) != 0, "an application closes what is open, once");
	if (*slot(fd) == -2) { peers[a->peer].gone = true; a->used = false; }
	else if (*slot(fd) > 0) { ofds[*slot(fd)].cl_refs--; ofd_released(&ofds[*slot(fd)]); }
	*slot(fd) = 0;
	return 0;
}
int env_poll(struct pollfd *f, nfds_t n, int timeout) {
	struct app *a = n == 1 ? of_fd(f[0].fd) : NULL;
	if (!a) return k_poll(f, n, timeout);
	VF_ASSERT("C21", *slot(f[0].fd) == -2 && a == &app[side], "the connection is polled");
	f[0].revents = 0;
	if (timeout != 0 && eintrs > 0 && f_on && nd_bool("eintr")) { eintrs--; errno = EINTR; return -1; }
	if (timeout != 0 && !unread(a)) {
		if (nest > 0 && nd_bool("before")) { nest--; other_call(); }
		settle();
		if (nest > 0 && nd_bool("after")) { nest--; other_call(); settle(); }
		for (int i = 0; i < 4 && !unread(a) && peers[a->peer].blocked; i++) { peers[a->peer].blocked = false; settle(); } /* all was read: there is room */
	}
	if (!unread(a) && !lost(a)) {
		if (timeout < 0) { VF_ASSERT("C21", 0, "an application does not wait for what the daemon will not send"); vf_end(); }
		return 0;
	}
	f[0].revents = (unread(a) || lost(a) ? POLLIN : 0) | (lost(a) ? POLLHUP : 0);
	return 1;
}
ssize_t env_recvmsg(int fd, struct msghdr *m, int flags) {
	struct app *a = of_fd(fd);
	if (!a) {
		struct ofd *o = fd_get(fd);
		if (o && o->kind == K_SOCK) acting = o->obj;
		return k_recvmsg(fd, m, flags);
	}
	VF_ASSERT("C21", *slot(fd) == -2 && a == &app[side], "the connection is read");
	size_t ctl = m->msg_controllen, room = 0, got = 0, v = 0, off = 0;
	struct rx *r = &rx[a->peer];
	if (!unread(a)) {
		if (lost(a)) { m->msg_controllen = m->msg_flags = 0; return 0; }
		errno = EAGAIN;
		return -1;
	}
	m->msg_controllen = 0;
	m->msg_flags = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) room += m->msg_iov[i].iov_len;
	if (cfrag && room > (size_t)cfrag) room = cfrag;
	int start = r->pos;
	if (r->rfd < r->nfd && r->at[r->rfd] == start) {
		VF_ASSERT("C15,C21", ctl >= CMSG_LEN(sizeof(int)), "there is room for the descriptor that arrives");
		VF_ASSUME(ctl >= CMSG_LEN(sizeof(int)));
		int o = r->fd[r->rfd++], k = 1;
		while (k < CLN && a->fds[k]) k++;
		VF_ASSUME(k < CLN);
		a->fds[k] = o;
		int nf = CLFD + (int)(a - app) * CLN + k;
		struct cmsghdr *c = m->msg_control;
		c->cmsg_level = SOL_SOCKET;
		c->cmsg_type = SCM_RIGHTS;
		c->cmsg_len = CMSG_LEN(sizeof(int));
		memcpy(CMSG_DATA(c), &nf, sizeof nf);
		m->msg_controllen = CMSG_LEN(sizeof(int));
	}
	int stop = r->rfd < r->nfd ? r->at[r->rfd] : r->len;
	while (got < room && r->pos < stop) {
		if (off == m->msg_iov[v].iov_len) { v++; off = 0; continue; }
		((uint8_t *)m->msg_iov[v].iov_base)[off++] = r->b[r->pos++];
		got++;
	}
	peers[a->peer].blocked = false;
	return got;
}
ssize_t env_sendmsg(int fd, const struct msghdr *m, int flags) {
	struct app *a = of_fd(fd);
	if (!a) return k_sendmsg(fd, m, flags);
	VF_ASSERT("C21", *slot(fd) == -2 && a == &app[side], "the connection is written");
	if (lost(a)) { errno = EPIPE; return -1; }
	size_t total = 0, done = 0;
	for (size_t v = 0; v < m->msg_iovlen; v++) total += m->msg_iov[v].iov_len;
	if (total > 1 && shorts > 0 && f_on && nd_bool("short")) { shorts--; total = nd_pick("len", 1, total - 1 > 3 ? 3 : (int)total - 1); }
	struct peer *p = &peers[a->peer];
	if (p->in_pos == p->in_len) p->in_pos = p->in_len = 0;
	VF_ASSUME(p->in_len + total <= QLEN);
	for (size_t v = 0; v < m->msg_iovlen && done < total; v++)
		for (size_t i = 0; i < m->msg_iov[v].iov_len && done < total; i++, done++) p->in[p->in_len++] = ((uint8_t *)m->msg_iov[v].iov_base)[i];
	return done;
}

/* ---------- applications ---------- */
static void enter(int k) { side = k; app[k].in_call = true; errno = 0; }
static void leave(int k) { app[k].in_call = app[k].in_cb; }
static int who(void *d) { return (int)((uintptr_t)d & 15); }
static int cbs; /* callbacks that may make a call */
static void callback_acts(struct app *a, struct libseat *s);
static void on_enable(struct libseat *s, void *d) {
	struct app *a = &app[who(d)];
	VF_ASSERT("C21", (!a->seat || a->seat == s) && a->may_call, "a callback comes when it may");
	VF_ASSERT("C21", !a->active && !a->pending, "a session is enabled when it was not");
	for (int i = 0; i < NCL; i++) VF_ASSERT("C21,C01", &app[i] == a || !app[i].seat || !app[i].active || unread(&app[i]) || stopped, "no application believes it is active besides");
	a->active = true;
	a->n_cb++;
	VF_WITNESS("enabled");
	callback_acts(a, s);
}
static void on_disable(struct libseat *s, void *d) {
	struct app *a = &app[who(d)];
	VF_ASSERT("C21", (!a->seat || a->seat == s) && a->may_call, "a callback comes when it may");
	VF_ASSERT("C21", a->active && !a->pending, "a session is disabled when it was enabled");
	a->active = false;
	a->pending = true;
	a->n_cb++;
	VF_WITNESS("disabled");
	callback_acts(a, s);
}
static const struct libseat_seat_listener listener = {on_enable, on_disable};

static bool busy(int k) { return (app[k].in_call && !app[k].in_cb) || !app[k].seat; }
/* nothing is under way between application k and the daemon */
static bool quiet(int k) {
	for (int i = 0; i < NCL; i++) {
		if (i != k && app[i].in_call) return false;
		if (app[i].used && peers[app[i].peer].in_pos != peers[app[i].peer].in_len) return false;
	}
	if (app[k].in_cb) return false; /* events may be waiting inside libseat */
	return !unread(&app[k]) && !pipe_bytes && !f_n && !stopped;
}
static struct client *client_of(int k) {
	for (struct linked_list *l = server.seats.next; l != &server.seats; l = l->next) {
		struct seat *s = (struct seat *)l;
		for (struct linked_list *e = s->clients.next; e != &s->clients; e = e->next) {
			struct client *c = (struct client *)e;
			struct ofd *o = fd_get(c->connection.fd);
			if (o && o->kind == K_SOCK && o->obj == app[k].peer) return c;
		}
	}
	return NULL;
}
static void failed(int k, int r, int e) {
	VF_ASSERT("C21", r == -1 && e != 0, "a failed call sets errno");
	(void)k;
}
static void do_seat(int k) {
	if (app[k].in_call || app[k].seat) return;
	app[k].active = app[k].pending = false;
	enter(k);
	app[k].may_call = true;
	struct libseat *s = libseat_open_seat(&listener, (void *)(uintptr_t)(16 + k));
	int e = errno;
	app[k].may_call = false;
	leave(k);
	if (!s) {
		VF_ASSERT("C21", e != 0, "a failed call sets errno");
		VF_ASSERT("C21", vtb || stopped, "a seat without VTs can always be opened");
		VF_ASSERT("C21", app[k].fds[0] == 0, "a failed open leaves nothing open");
		app[k].active = app[k].pending = false;
		VF_WITNESS("seat-refused");
		return;
	}
	app[k].seat = s;
	VF_ASSERT("C21", !strcmp(libseat_seat_name(s), "seat0"), "the seat's name is the daemon's");
	VF_WITNESS("seat");
}
/* nothing but what applications hold is open in the daemon */
static int held_devices(void) {
	int n = 0;
	for (int k = 0; k < NCL; k++)
		for (int i = 0; i < app[k].n; i++) {
			bool dup = false;
			for (int j = 0; j < i; j++) dup |= app[k].ofd[j] == app[k].ofd[i];
			n += !dup;
		}
	return n;
}
static int conns(void) { int n = 0; for (int k = 0; k < NCL; k++) n += app[k].used && !lost(&app[k]); return n; }
static void check_daemon(void) {
	if (stopped || pipe_bytes) return;
	for (int k = 0; k < NCL; k++) if (app[k].in_call) return;
	if (!f_n) VF_ASSERT("C21", srv_fds() == base_fds + conns() + held_devices(), "the daemon holds open what the applications hold open");
}
static void do_open(int k, const char *path, int choice) {
	if (busy(k)) return;
	struct app *a = &app[k];
	int fd = -7, sent0 = peers[a->peer].in_len, len = strlen(path);
	bool q = quiet(k);
	bool gone = !a->used || lost(a);
	a->path = path;
	a->path_choice = choice;
	a->path_errno = choice < 0 ? nd_range("errno", 1, 4095) : 0;
	a->open_errno = 0;
	a->resolved = a->opened = false;
	bool was = a->active;
	int nest0 = nest;
	enter(k);
	int r = libseat_open_device(a->seat, path, &fd), e = errno;
	leave(k);
	q &= nest == nest0;
	a->path = NULL;
	vf_obs("open", (unsigned)r);
	if (r < 0) {
		failed(k, r, e);
		if (a->open_errno) VF_ASSERT("C21", e == a->open_errno || lost(a), "the daemon's error is the application's");
		else if (a->resolved && choice < 0) { VF_ASSERT("C21", e == a->path_errno || lost(a), "the daemon's error is the application's"); VF_WITNESS("path-errno"); }
		if (len > 255) { VF_ASSERT("C21", !a->resolved && peers[a->peer].in_len == sent0, "a path too long is not sent"); VF_WITNESS("too-long"); return; }
		if (q && !gone) {
			VF_ASSERT("C21", a->resolved || !was, "an application that is active can open devices");
			if (!was) { VF_ASSERT("C21", e == EPERM && !a->resolved, "an application that is not active is told so"); VF_WITNESS("not-active"); }
			else VF_ASSERT("C21", choice < 0 || a->open_errno || dev_kind(choice) == K_OTHER || dev_kind(choice) == K_HIDRAW, "a supported device can be opened");
		}
		check_daemon();
		return;
	}
	VF_ASSERT("C21", len <= 255 && !gone && a->resolved, "a device is opened when the daemon opened it");
	VF_ASSERT("C21", !q || was, "an application that is not active opens nothing");
	VF_ASSERT("C21", of_fd(fd) == a && *slot(fd) > 0, "the application gets a descriptor");
	if (of_fd(fd) != a || *slot(fd) <= 0) vf_end();
	struct ofd *o = &ofds[*slot(fd)];
	VF_ASSERT("C21", o->obj == choice && o->owner == a->peer && o->srv_refs == 1, "the descriptor is the device asked for");
	for (int i = 0; i < a->n; i++) VF_ASSERT("C21", (a->id[i] == r) == (a->ofd[i] == *slot(fd)), "the id stands for the device");
	VF_ASSUME(a->n < NHOLD);
	a->id[a->n] = r;
	a->ofd[a->n] = *slot(fd);
	a->choice[a->n] = choice;
	a->fd[a->n++] = fd;
	VF_WITNESS("opened");
	if (len > 200) VF_WITNESS("long");
	check_daemon();
}
static void do_close_device(int k, int w, int id) {
	if (busy(k)) return;
	struct app *a = &app[k];
	if (w >= a->n) return;
	if (w >= 0) id = a->id[w];
	bool known = false;
	int left = 0, o = 0;
	for (int i = 0; i < a->n; i++) if (a->id[i] == id) { known = true; if (w < 0) w = i; left++; o = a->ofd[i]; }
	bool gone = !a->used || lost(a) || stopped;
	enter(k);
	int r = libseat_close_device(a->seat, id), e = errno;
	leave(k);
	gone |= lost(a) || !a->used;
	vf_obs("close", (unsigned)r);
	if (gone) { failed(k, r, e); return; }
	VF_ASSERT("C21", (r == 0) == known, "closing an id closes the device it stands for, or fails");
	if (r < 0) { failed(k, r, e); VF_WITNESS("close-failed"); check_daemon(); return; }
	if (!known) vf_end();
	VF_ASSERT("C21", ofds[o].srv_refs == (left > 1), "the device is closed when it was closed as often as opened");
	/* the descriptor is the application's */
	w = w < 0 ? 0 : w;
	side = k;
	env_close(a->fd[w]);
	for (int i = w; i + 1 < a->n; i++) { a->id[i] = a->id[i + 1]; a->ofd[i] = a->ofd[i + 1]; a->choice[i] = a->choice[i + 1]; a->fd[i] = a->fd[i + 1]; }
	a->n--;
	VF_WITNESS("closed-device");
	check_daemon();
}
static void do_switch(int k, int n) {
	if (busy(k)) return;
	struct app *a = &app[k];
	bool q = quiet(k), was = a->active;
	int act = n_activate, nest0 = nest;
	struct client *me = client_of(k);
	int session = me ? me->session : 0;
	bool target = false;
	for (int i = 0; i < NCL; i++) { struct client *c = app[i].used ? client_of(i) : NULL; if (c && c->session == n) target = true; }
	enter(k);
	int r = libseat_switch_session(a->seat, n), e = errno;
	leave(k);
	q &= nest == nest0;
	vf_obs("switch", (unsigned)r);
	if (r == -1) failed(k, r, e);
	if (!q || lost(a) || !a->used) return;
	bool ok = was && n > 0 && (vtb || target);
	VF_ASSERT("C21", ok ? r == 0 : r == -1, "a switch succeeds when the application is active and the session exists");
	if (r == 0 && n != session) {
		if (vtb) VF_ASSERT("C21", n_activate == act + 1 && activate_arg == n, "the session number arrives unchanged");
		else { settle(); me = client_of(k); VF_ASSERT("C21", me && me->state == CLIENT_PENDING_DISABLE, "the application is asked to disable"); }
		VF_WITNESS("switched");
	} else VF_ASSERT("C21", n_activate == act, "nothing else is switched to");
}
static void do_disable(int k) {
	if (busy(k)) return;
	struct app *a = &app[k];
	bool q = quiet(k), was = a->pending, gone = lost(a) || !a->used;
	enter(k);
	int r = libseat_disable_seat(a->seat), e = errno;
	leave(k);
	gone |= lost(a) || stopped || !a->used;
	if (r == -1) failed(k, r, e);
	if (gone) return;
	if (was) VF_ASSERT("C21", r == 0, "the daemon expects the acknowledgement the application was asked for");
	else if (q) VF_ASSERT("C21", r == -1, "the daemon expects no other");
	if (was) { a->pending = false; VF_WITNESS("acknowledged"); }
	else if (r == 0) vf_end(); /* acknowledged what it was not told yet */
}
static void do_dispatch(int k) {
	if (busy(k)) return;
	struct app *a = &app[k];
	bool gone = lost(a) || !a->used;
	enter(k);
	a->may_call = true;
	int r = libseat_dispatch(a->seat, 0), e = errno;
	a->may_call = false;
	leave(k);
	if (r < 0) failed(k, r, e);
	VF_ASSERT("C21", r >= 0 || gone || stopped, "the connection holds");
}
static void drain(int k) {
	for (int i = 0; i < 6 && !busy(k); i++) {
		settle();
		if (i && !unread(&app[k])) break;
		do_dispatch(k);
	}
}
static void do_leave(int k) {
	if (busy(k)) return;
	struct app *a = &app[k];
	bool gone = lost(a) || !a->used || stopped;
	enter(k);
	a->may_call = true;
	int r = libseat_close_seat(a->seat), e = errno;
	a->may_call = false;
	leave(k);
	if (r == -1) failed(k, r, e);
	VF_ASSERT("C21", gone || r == 0, "an open seat can be closed");
	VF_ASSERT("C21,C20", a->fds[0] == 0, "closing releases the connection");
	a->seat = NULL;
	a->active = a->pending = false;
	settle();
	/* descriptors it got are its own to close; the daemon keeps none */
	side = k;
	for (int i = 0; i < a->n; i++) { if (!stopped) VF_ASSERT("C21", ofds[a->ofd[i]].srv_refs == 0, "the daemon closes the devices of an application that left"); env_close(a->fd[i]); }
	a->n = 0;
	for (int i = 0; i < CLN; i++) VF_ASSERT("C21,C20", a->fds[i] == 0, "nothing else is left open");
	VF_WITNESS("left");
	check_daemon();
}
/* at rest both sides agree on who is active */
static void probe(void) {
	for (int k = 0; k < NCL; k++) drain(k);
	for (int k = 0; k < NCL; k++) drain(k);
	for (int k = 0; k < NCL; k++) {
		struct app *a = &app[k];
		if (busy(k) || lost(a) || !a->used || stopped || f_n) continue;
		struct client *c = client_of(k);
		VF_ASSERT("C21", c != NULL, "the daemon knows the application");
		VF_ASSERT("C21", a->active == (c->state == CLIENT_ACTIVE) && a->pending == (c->state == CLIENT_PENDING_DISABLE), "both sides agree whether the session is active");
		if (a->active) VF_WITNESS("agree-active"); else VF_WITNESS("agree-inactive");
	}
}
static void do_vt(int v) {
	if (!vtb || v == vt_active) return;
	vt_request(v);
	if (!nd_bool("late")) settle();
	VF_WITNESS("vt");
}
static void stop(void) {
	if (stopped) return;
	for (int k = 0; k < NCL; k++) if (app[k].in_call) return;
	settle();
	k_close(listen_fd);
	server_finish(&server);
	stopped = true;
	acting = -1;
	VF_ASSERT("C21", srv_fds() == 0, "the daemon closes everything");
	for (int k = 0; k < NCL; k++) {
		if (!app[k].seat) continue;
		int r = 0;
		for (int i = 0; i < 4 && r >= 0; i++) {
			enter(k);
			app[k].may_call = true;
			r = libseat_dispatch(app[k].seat, 0);
			int e = errno;
			app[k].may_call = false;
			leave(k);
			if (r < 0) failed(k, r, e);
		}
		VF_ASSERT("C21", r == -1, "an application hears that the daemon is gone");
	}
	VF_WITNESS("stopped");
}
static const char *short_path(int *choice) {
	static char b[NCL][16];
	char *p = b[side];
	int n = (int)vf_param("plen", 2);
	p[0] = '/';
	for (int i = 1; i < n; i++) { p[i] = (char)nd_u8("path"); VF_ASSUME(p[i] != 0); }
	p[n] = 0;
	*choice = nd_pick("choice", -1, 4);
	return p;
}
static void any_of(int k) {
	side = k;
	switch (nd_pick("call", 0, 7)) {
	case 0: do_seat(k); break;
	case 1: { int c; if (busy(k)) break; const char *p = short_path(&c); do_open(k, p, c); break; }
	case 2: if (nd_bool("held")) do_close_device(k, nd_pick("which", 0, 1), 0); else do_close_device(k, -1, nd_int("id") & INT_MAX); break;
	case 3: do_switch(k, nd_int("session") & INT_MAX); break;
	case 4: do_disable(k); break;
	case 5: do_dispatch(k); break;
	case 6: drain(k); break;
	case 7: do_leave(k); break;
	}
}
static void callback_acts(struct app *a, struct libseat *s) {
	if (cbs <= 0 || a->in_cb || stopped) return;
	int c = nd_pick("acts", 0, 5), k = (int)(a - app);
	if (!c) return;
	cbs--;
	struct app was = *a;
	a->seat = s;
	a->in_cb = true;
	a->may_call = false;
	switch (c) {
	case 1: do_open(k, "/a", 0); break;
	case 2: do_close_device(k, 0, 0); break;
	case 3: do_switch(k, nd_int("session") & INT_MAX); break;
	case 4: do_disable(k); break;
	case 5: do_dispatch(k); break;
	}
	a->in_cb = false;
	a->seat = was.seat;
	a->may_call = was.may_call;
	a->in_call = true;
	a->path = was.path;
	a->path_choice = was.path_choice;
	a->path_errno = was.path_errno;
	a->open_errno = was.open_errno;
	a->resolved = was.resolved;
	a->opened = was.opened;
	VF_WITNESS("acts");
}
static void other_call(void) {
	int was = side;
	int e = errno;
	any_of(1 - side);
	side = was;
	errno = e;
	VF_WITNESS("nested");
}
int vf_main(void) {
	vtb = vf_param("vtb", 0);
	vt_env = vtb ? "1" : "0";
	frag = (int)vf_param("frag", 0);
	cfrag = (int)vf_param("cfrag", 0);
	shorts = (int)vf_param("shorts", 0);
	nest = (int)vf_param("nest", 0);
	cbs = (int)vf_param("cb", 0);
	eintrs = (int)vf_param("eintr", 0);
	fails = (int)vf_param("fails", 0);
	f_max = (int)vf_param("sends", 0);
	f_mask = FM_SEND_AGAIN | FM_SHORT;
	VF_ASSERT("C21", server_init(&server) == 0, "the server starts");
	listen_fd = fd_install(ofd_new(K_LISTEN, 0));
	VF_ASSERT("C21", poller_add_fd(&server.poller, listen_fd, EVENT_READABLE, server_handle_connection, &server) != NULL, "the socket is polled");
	base_fds = srv_fds();
	int keep = nest;
	nest = 0;
	for (const char *s = vf_str("script"); *s; s++) {
		int k = s[1] == '1';
		switch (*s) {
		case '!': nest = keep; f_on = true; continue;
		case '*': { int w = nd_pick("who", 0, vtb ? NCL : NCL - 1); if (w == NCL) do_vt(nd_pick("vt", 1, 3)); else any_of(w); continue; }
		case 'P': probe(); continue;
		case 'Q': stop(); continue;
		case 'v': do_vt(*++s - '0'); continue;
		case 'o': side = k; do_seat(k); break;
		case 'd': { int c = s[2] - '0'; side = k; do_open(k, c == 0 ? "/a" : "/b", c); s++; break; }
		case 'l': {
			static char p[300];
			side = k;
			int n = nd_pick("len", 253, 258);
			memset(p, 'x', n);
			p[0] = '/';
			p[n - 1] = (char)nd_u8("path");
			p[200] = (char)nd_u8("path");
			VF_ASSUME((p[n - 1] != 0) & (p[200] != 0));
			p[n] = 0;
			do_open(k, p, 0);
			break;
		}
		case 'k': do_close_device(k, s[2] - '0', 0); s++; break;
		case 's': { side = k; struct client *c = app[1 - k].used ? client_of(1 - k) : NULL; do_switch(k, c ? c->session : 1); break; }
		case 'a': do_disable(k); break;
		case 'p': drain(k); break;
		case 'i': any_of(k); break;
		case 'x': do_leave(k); break;
		}
		s++;
	}
	nest = 0;
	f_on = false;
	VF_WITNESS("end");
	if (!stopped) { settle(); probe(); }
	int first = nd_bool("first");
	do_leave(first);
	if (!stopped) probe();
	do_leave(1 - first);
	if (!stopped) {
		k_close(listen_fd);
		server_finish(&server);
	}
	VF_ASSERT("C21,C20", heap_live == 0, "both sides free everything");
	return 0;
}
