/*
 * The daemon twice over the same history: first with every request delivered
 * whole and on its own and every send complete, then with the bytes arriving
 * in fragments or batches and leaving through a socket that takes part of
 * them, fills up and drains later. What each client receives must be the same
 * byte for byte, descriptor for descriptor.
 */
#define QLEN 1600
#define REALPATH_BY_NAME
#include "kern.h"
#include "poller.h"
#include "protocol.h"
#include "server.h"

static struct server server;
static int run, listen_fd;
static bool vtb;
#define MAXEV 16
static struct ev { int kind, client, a, b; } evs[MAXEV];
static int n_ev;
static int mark[MAXEV][NPEER]; /* what each client had received after each event */
#define SLEN 1400
#ifndef MAXSFD
#define MAXSFD 8
#endif
static struct strm { uint8_t b[SLEN]; int n; int fd[MAXSFD], fd_at[MAXSFD], nfd; bool closed; } st[2][NPEER];

static void on_send(int p, const uint8_t *b, size_t n) {
	struct strm *s = &st[run][p];
	VF_ASSUME(s->n + n <= SLEN);
	memcpy(s->b + s->n, b, n);
	s->n += n;
}
static void on_send_fd(int p, int o) {
	struct strm *s = &st[run][p];
	VF_ASSUME(s->nfd < MAXSFD);
	s->fd[s->nfd] = ofds[o].kind * 16 + ofds[o].obj;
	s->fd_at[s->nfd++] = s->n;
}
static void on_vt_ack_release(void) {}
static void on_realpath(const char *p) { (void)p; }
static void on_dev_open(const char *path, int flags, int idx) { (void)path; (void)flags; (void)idx; }

static uint8_t msg[1300];
static int msg_n;
static void put(const void *b, size_t n) { VF_ASSUME(msg_n + n <= sizeof msg); memcpy(msg + msg_n, b, n); msg_n += n; }
static void put_hdr(uint16_t op, uint16_t size) { struct proto_header h = {op, size}; put(&h, sizeof h); }
static void deliver(int c, int from, int n) { VF_ASSUME(peers[c].in_len + n <= QLEN); memcpy(peers[c].in + peers[c].in_len, msg + from, n); peers[c].in_len += n; }
static bool ready(void) {
	if (pipe_bytes || backlog < n_peers) return true;
	for (int i = 0; i < n_peers; i++) if (peers[i].exists && !peers[i].srv_closed && sock_readable(i)) return true;
	return false;
}
static int drain_budget;
static void drain(int i) {
	if (!peers[i].blocked || peers[i].srv_closed) return;
	peers[i].blocked = false;
	poller_poll(&server.poller); /* the daemon must be waiting for room */
	VF_WITNESS("drained");
}
static void settle(void) {
	int rounds = 0;
	while (ready()) {
		VF_ASSERT("C09,C10", rounds < 1400, "the daemon consumes what it is woken up for");
		VF_ASSUME(rounds < 1400);
		rounds++;
		VF_ASSERT("C09", poller_poll(&server.poller) == 0, "polling works");
		if (!server.running) return;
	}
	bool f = f_on;
	f_on = false;
	for (int i = 0; server.running; i++) {
		poller_poll(&server.poller);
		if (poll_blocks) break;
		VF_ASSERT("C09,C10", i < 6, "the daemon sleeps when there is nothing to do");
		VF_ASSUME(i < 6);
	}
	f_on = f;
	if (run == 1) for (int i = 0; i < n_peers; i++)
		if (peers[i].blocked && drain_budget > 0 && nd_bool("drain")) {
			drain_budget--;
			if (vf_param("late", 0) && nd_bool("unnoticed")) { peers[i].blocked = false; VF_WITNESS("drained"); } /* ... until the next event */
			else drain(i);
		}
}
/* the device a request names is the first letter of its path */
#define NREQDEV 5
static const char *reqpath(int d) { static char p[3]; p[0] = '/'; p[1] = 'a' + d; p[2] = 0; return p; }

static bool is_req(struct ev *e) { return (e->kind >= 1 && e->kind <= 7) || e->kind == 10 || e->kind == 11 || e->kind == 12; }
static void encode(struct ev *e) {
	msg_n = 0;
	switch (e->kind) {
	case 1: put_hdr(CLIENT_OPEN_SEAT, 0); break;
	case 2: put_hdr(CLIENT_CLOSE_SEAT, 0); break;
	case 3: { uint16_t l = 3; put_hdr(CLIENT_OPEN_DEVICE, 2 + 3); put(&l, 2); put(reqpath(e->a), 3); break; }
	case 4: put_hdr(CLIENT_CLOSE_DEVICE, 4); put(&e->a, 4); break;
	case 5: put_hdr(CLIENT_SWITCH_SESSION, 4); put(&e->a, 4); break;
	case 6: put_hdr(CLIENT_DISABLE_SEAT, 0); break;
	case 7: put_hdr(CLIENT_PING, 0); break;
	case 10: { /* a long request, to move the ring position */
		uint16_t l = 250;
		char b[250];
		memset(b, 'x', 249); b[0] = '/'; b[1] = 'a'; b[249] = 0;
		put_hdr(CLIENT_OPEN_DEVICE, 2 + 250); put(&l, 2); put(b, 250);
		break;
	}
	case 12: for (int i = 0; i < e->a; i++) { uint16_t l = 3; put_hdr(CLIENT_OPEN_DEVICE, 2 + 3); put(&l, 2); put(reqpath(0), 3); } break;
	case 11: for (int i = 0; i < e->a; i++) put_hdr(CLIENT_PING, 0); break; /* a burst */
	}
}
static bool alive(int c) { return c < n_peers && !peers[c].gone && !peers[c].half; }
/* from: bytes of this request that were delivered early */
static void apply(struct ev *e, bool more, int from) {
	int c = e->client;
	if (e->kind != 0 && e->kind != 9 && !alive(c)) { if (run == 0) VF_ASSUME(0); return; }
	if (is_req(e)) { encode(e); deliver(c, from, msg_n - from); }
	switch (e->kind) {
	case 0: VF_ASSUME(n_peers < NPEER); n_peers++; break;
	case 8: if (e->a) peers[c].half = true; else peers[c].gone = true; break;
	case 9: VF_ASSUME(vtb); vt_request(e->a); break;
	}
	if (e->kind == 12 && run == 1 && vf_param("full", 0)) peers[c].blocked = true; /* its socket is full by now */
	if (!more) settle();
}
static void record(struct ev e) { VF_ASSUME(n_ev < MAXEV); evs[n_ev++] = e; }
static bool restricted;
static void any_event(void) {
	struct ev e = {0};
	e.kind = nd_pick("event", 0, 9);
	if (e.kind != 0 && e.kind != 9) e.client = nd_pick("client", 0, restricted ? 1 : 2);
	if (e.kind == 3) e.a = nd_pick("path", 0, 2);
	if (e.kind == 4) e.a = nd_int("device");
	if (e.kind == 5) e.a = nd_int("session");
	if (e.kind == 8) e.a = nd_bool("half");
	if (e.kind == 9) { VF_ASSUME(vtb); e.a = nd_pick("vt", 1, 3); }
	record(e);
}
/* where the message the k-th descriptor belongs to ends */
static int msg_end(struct strm *s, int k) {
	int at = 0;
	while (at + 4 <= s->n) {
		uint16_t op, size;
		memcpy(&op, s->b + at, 2);
		memcpy(&size, s->b + at + 2, 2);
		at += 4 + size;
		if (op == SERVER_DEVICE_OPENED && k-- == 0) return at;
	}
	return 0;
}

int vf_main(void) {
	vtb = vf_param("vtb", 0);
	vt_env = vtb ? "1" : "0";
	restricted = vf_param("two", 1);
	int sends = vf_param("sends", 0), fr = vf_param("frag", 0), batch = vf_param("batch", 0);
	for (const char *s = vf_str("script"); *s; s++) {
		struct ev e = {0};
		switch (*s) {
		case '*': any_event(); continue;
		case 'c': break;
		case 'o': e.kind = 1; e.client = *++s - '0'; break;
		case 'x': e.kind = 2; e.client = *++s - '0'; break;
		case 'd': e.kind = 3; e.client = *++s - '0'; e.a = *++s - '0'; break;
		case 'k': e.kind = 4; e.client = *++s - '0'; e.a = *++s - '0'; break;
		case 's': e.kind = 5; e.client = *++s - '0'; e.a = *++s - '0'; break;
		case 'a': e.kind = 6; e.client = *++s - '0'; break;
		case 'p': e.kind = 7; e.client = *++s - '0'; break;
		case 'h': e.kind = 8; e.client = *++s - '0'; break;
		case 'v': e.kind = 9; e.a = *++s - '0'; break;
		case 'L': e.kind = 10; e.client = *++s - '0'; break;
		case 'P': e.kind = 11; e.client = *++s - '0'; e.a = vf_param("burst", 20); break;
		case 'O': e.kind = 12; e.client = *++s - '0'; e.a = vf_param("burst", 20); break;
		default: VF_ASSUME(0);
		}
		record(e);
	}
	for (run = 0; run < 2; run++) {
		kern_reset();
		int r = server_init(&server);
		VF_ASSERT("*", r == 0, "the server starts");
		listen_fd = fd_install(ofd_new(K_LISTEN, 0));
		VF_ASSERT("*", poller_add_fd(&server.poller, listen_fd, EVENT_READABLE, server_handle_connection, &server) != NULL, "the listening socket is polled");
		frag = 0;
		f_mask = 0;
		if (run == 1) {
			frag = fr ? nd_pick("frag", 1, fr) : 0;
			f_mask = vf_param("serr", 0) ? FM_SEND_ERR : FM_SEND_AGAIN | FM_SHORT;
			f_max = sends;
			f_on = sends > 0;
			drain_budget = vf_param("drains", 1);
		}
		int grp = 0, splits = run == 1 ? vf_param("split", 0) : 0, early = 0;
		for (int i = 0; i < n_ev; i++) {
			bool more = run == 1 && batch && i + 1 < n_ev && is_req(&evs[i]) && is_req(&evs[i + 1]) && evs[i].client == evs[i + 1].client && grp < 6 && !(vtb && evs[i].kind == 5); /* the VT moves between the two */
			if (more && batch == 2) more = nd_bool("together");
			if (more) { grp++; VF_WITNESS("batched"); } else grp = 0;
			int e = early;
			early = 0;
			/* the first bytes of the next request may come before this event */
			if (splits && !more && i + 1 < n_ev && is_req(&evs[i + 1]) && alive(evs[i + 1].client) && (evs[i].kind == 9 || evs[i].client != evs[i + 1].client) && nd_bool("early")) {
				splits--;
				encode(&evs[i + 1]);
				early = nd_pick("bytes", 1, msg_n > 12 ? 12 : msg_n - 1);
				deliver(evs[i + 1].client, 0, early);
				settle();
				VF_WITNESS("split");
			}
			/* ... or together with this request of the same client */
			bool glue = splits && !more && !early && is_req(&evs[i]) && i + 1 < n_ev && is_req(&evs[i + 1]) && evs[i].client == evs[i + 1].client && alive(evs[i].client) && nd_bool("glued");
			apply(&evs[i], more || glue, e);
			if (glue) {
				splits--;
				encode(&evs[i + 1]);
				early = nd_pick("bytes", 1, msg_n > 12 ? 12 : msg_n - 1);
				deliver(evs[i].client, 0, early);
				settle();
				VF_WITNESS("glued");
			}
			if (run == 0) for (int p = 0; p < NPEER; p++) mark[i][p] = st[0][p].n;
			else if (!more && !sends && !vf_param("full", 0)) for (int p = 0; p < n_peers; p++)
				if (!st[0][p].closed) VF_ASSERT("C09", st[1][p].n >= mark[i][p], "a complete request is answered without waiting for more bytes");
		}
		f_on = false;
		for (int k = 0; k < 3; k++) for (int i = 0; i < n_peers; i++) drain(i);
		settle();
		if (run == 0) VF_WITNESS("plain");
		for (int i = 0; i < n_peers; i++) st[run][i].closed = peers[i].srv_closed;
		server_finish(&server);
		VF_ASSERT("C10,C11", heap_live == 0, "shutdown frees all memory");
		VF_ASSERT("C10,C11,C15", srv_fds() == 1, "shutdown closes all descriptors");
	}
	/* one that could not be sent to is disconnected, and got nothing else before */
	for (int p = 0; p < n_peers; p++) {
		struct strm *a = &st[0][p], *b = &st[1][p];
		if (!peers[p].send_err) continue;
		VF_ASSERT("C09", b->closed, "a client that bytes were lost for is disconnected");
		VF_ASSERT("C09", b->n <= a->n && b->nfd <= a->nfd, "a client receives the same bytes however they travel");
		for (int i = 0; i < b->n && i < a->n; i++) VF_ASSERT("C09", a->b[i] == b->b[i], "a client receives the same bytes however they travel");
		VF_WITNESS("send-failed");
		return 0;
	}
	/* one that let its replies pile up beyond what is kept for it is disconnected */
	for (int p = 0; p < n_peers; p++) {
		struct strm *a = &st[0][p], *b = &st[1][p];
		if (a->closed || !b->closed || a->n - b->n <= 500) continue;
		VF_WITNESS("overflowed");
		return 0;
	}
	for (int p = 0; p < n_peers; p++) {
		struct strm *a = &st[0][p], *b = &st[1][p];
		VF_ASSERT("C09,C10", a->closed == b->closed, "how the bytes travel does not decide who stays connected");
		bool whole = !a->closed;
		VF_ASSERT("C09", whole ? a->n == b->n : b->n <= a->n, "a client receives the same bytes however they travel");
		int n = a->n < b->n ? a->n : b->n;
		for (int i = 0; i < n; i++) VF_ASSERT("C09", a->b[i] == b->b[i], "a client receives the same bytes however they travel");
		VF_ASSERT("C09,C15", whole ? a->nfd == b->nfd : b->nfd <= a->nfd, "a client receives the same descriptors however they travel");
		int m = a->nfd < b->nfd ? a->nfd : b->nfd;
		for (int i = 0; i < m; i++) {
			VF_ASSERT("C09,C15", a->fd[i] == b->fd[i], "a client receives the same descriptors however they travel");
			VF_ASSERT("C09,C15", b->fd_at[i] < msg_end(a, i), "a descriptor travels no later than its message");
			VF_ASSERT("C09,C15", a->fd_at[i] < msg_end(a, i), "a descriptor travels no later than its message");
			VF_WITNESS("fd-compared");
		}
		if (a->n) VF_WITNESS("compared");
		vf_obs("bytes", a->n);
	}
	return 0;
}
