/*
 * The whole daemon - server.c, client.c, seat.c, poller.c, connection.c and
 * the device and terminal helpers, all real - driven through its sockets and
 * the kernel model by histories of client requests, disconnections and VT
 * switches. A history is a script; each '*' in it is one arbitrary event with
 * arbitrary arguments. An independent account of the seat (below, "ghost") is
 * advanced from what was requested and what left the daemon, and every
 * observable consequence is compared with it.
 */
#ifdef EMBED /* the daemon inside the library, for one application */
#include "vf.h"
#undef VF_ASSERT
#define VF_ASSERT(props, cond, msg) do { int ok_ = !!(cond); vf_assert_(ok_, props, msg); vf_assert_(ok_, "C30", msg); } while (0)
#endif
#include "kern.h"
#include "client.h"
#include "linked_list.h"
#include "poller.h"
#include "protocol.h"
#include "seat.h"
#include "server.h"

enum gst { G_OUT, G_NEW, G_ENABLED, G_PENDING, G_DISABLED, G_LEAVING };
#ifndef MAXDEV
#define MAXDEV 5
#endif
#ifndef NHELD
#define NHELD (MAXDEV * 2)
#endif
struct gdev { int id, ref, ofd, path; };
struct ghost {
	bool conn;   /* connected */
	bool used;   /* has been a member once */
	enum gst st; /* G_OUT: not a member */
	int session;
	struct gdev dev[MAXDEV];
	int ndev;
	/* what the daemon sent */
	uint8_t buf[96];
	int buflen;
	int rx_fd, rx_nfd; /* descriptor received and not matched to a message */
	uint16_t op[4];    /* messages received in this step */
	int val[4];
	int nmsg;
	int held[NHELD]; /* ofds this client has received and kept */
	int nheld;
};
static struct ghost g[NPEER];
static struct server server;
static bool vtb;
static int req_client = -1; /* client whose request is being served */
static bool leaving; /* the request in service ends the membership of its client */
static int queued = -1;     /* non-VT: target of the switch in progress */
static int listen_fd;
static int base_fds, base_heap;

static int holder(void) {
	for (int i = 0; i < NPEER; i++) if (g[i].st == G_ENABLED || g[i].st == G_PENDING) return i;
	return -1;
}
static bool enabled(int i) { return i >= 0 && g[i].st == G_ENABLED; }

/* no client other than `except` can use an input device or drive a display */
static void check_revoked(int except, const char *when) {
	(void)when;
	for (int i = 1; i < n_ofd; i++) {
		struct ofd *o = &ofds[i];
		if (o->owner < 0 || o->owner == except || o->stuck) continue;
		if (o->kind == K_EVDEV || o->kind == K_HIDRAW) VF_ASSERT("C02", o->revoked || o->cl_refs + o->srv_refs == 0, "an input device opened for a client that is not enabled is still usable");
		if (o->kind == K_DRM) VF_ASSERT("C02", !o->master, "a client that is not enabled is still DRM master");
	}
}
static void on_vt_ack_release(void) {
	VF_WITNESS("vt-release-ack");
	check_revoked(-1, "VT release");
	for (int i = 0; i < NPEER; i++) VF_ASSERT("C06,C01", !enabled(i) || peers[i].send_err || (leaving && i == req_client), "a VT is handed back only after its client was told to stop");
}
static const char *req_path; /* the path requested */
static void on_realpath(const char *p) { VF_ASSERT("C03", req_path && !strcmp(p, req_path), "the path that is resolved is the one requested"); }
static bool pre(const char *s, int n) { /* sym_path starts with s */
	int d = 0;
	for (int i = 0; i < n; i++) d |= sym_path[i] ^ s[i];
	return d == 0;
}
static bool sym_class(void) {
	bool r = pre("/dev/input/event", 16) | pre("/dev/dri/", 9);
#ifdef HAVE_HIDRAW
	r |= pre("/dev/hidraw", 11);
#endif
	return r;
}
static bool sym_tried;
static void on_dev_open(const char *path, int flags, int idx) {
	(void)path;
	VF_WITNESS("device-open");
	VF_ASSERT("C03", enabled(req_client), "a device is opened only for the enabled client");
	if (idx == SYMDEV) {
		sym_tried = true;
		int d = 0, n = strlen(sym_path);
		for (int i = 0; i <= n; i++) d |= path[i] ^ sym_path[i];
		VF_ASSERT("C03", d == 0, "the path opened is the canonical one");
	}
	VF_ASSERT("C03", rp_choice >= 0 && idx == rp_choice, "the path opened is the canonical one");
	VF_ASSERT("C03", idx >= 0 && (idx == SYMDEV ? sym_class() : dev_kind(idx) != K_OTHER), "only device nodes of a supported class are opened");
	VF_ASSERT("C03", (flags & (O_NOFOLLOW | O_CLOEXEC | O_NOCTTY)) == (O_NOFOLLOW | O_CLOEXEC | O_NOCTTY), "devices are opened without following links, close-on-exec and not as controlling terminal");
	VF_ASSERT("C03", (flags & O_ACCMODE) == O_RDWR, "devices are opened for reading and writing");
}
static void on_send_fd(int p, int o) {
	VF_ASSERT("C15,C03", g[p].rx_nfd == 0, "one descriptor per device reply");
	VF_ASSERT("C03,C15", p == req_client && enabled(p), "a device descriptor goes only to the client that asked, while it is enabled");
	g[p].rx_fd = o;
	g[p].rx_nfd++;
	VF_ASSUME(g[p].nheld < NHELD);
	g[p].held[g[p].nheld++] = o;
	ofds[o].handed = true;
}
static struct client *find_client(int p) {
	struct linked_list *l;
	for (l = server.idle_clients.next; l != &server.idle_clients; l = l->next) {
		struct client *c = (struct client *)l;
		struct ofd *o = fd_get(c->connection.fd);
		if (o && o->kind == K_SOCK && o->obj == p) return c;
	}
	struct seat *s = server_get_seat(&server, "seat0");
	for (l = s->clients.next; l != &s->clients; l = l->next) {
		struct client *c = (struct client *)l;
		struct ofd *o = fd_get(c->connection.fd);
		if (o && o->kind == K_SOCK && o->obj == p) return c;
	}
	return NULL;
}

static bool valid_reply(uint16_t op) { return op == SERVER_SEAT_OPENED || op == SERVER_SEAT_CLOSED || op == SERVER_DEVICE_OPENED || op == SERVER_DEVICE_CLOSED || op == SERVER_PONG || op == SERVER_SESSION_SWITCHED || op == SERVER_SEAT_DISABLED || op == SERVER_ERROR; }
static uint16_t exp_reply; /* reply the request must get, 0: none or undetermined */
static int n_replies;
static bool tearing;

static void got_message(int p, uint16_t op, uint16_t size, const uint8_t *pl) {
	struct ghost *c = &g[p];
	int v = 0;
	if (size == 4) memcpy(&v, pl, 4);
	VF_ASSUME(c->nmsg < 4);
	c->op[c->nmsg] = op;
	c->val[c->nmsg++] = v;
	vf_obs("msg", (uint64_t)p << 32 | op);
	if (op == SERVER_ENABLE_SEAT) {
		VF_ASSERT("C09", size == 0, "enable event has no payload");
		/* the acting client may be leaving: it must be gone when the event is over */
		if (holder() >= 0 && holder() != p && (tearing || holder() == req_client)) g[holder()].st = G_LEAVING;
		VF_ASSERT("C01", holder() == -1, "a client is enabled only when no other holds the seat");
		VF_ASSERT("C01,C09", c->st == G_NEW || c->st == G_DISABLED, "only a member that is not enabled is enabled");
		if (!(f_kinds & (FM_TTY))) VF_ASSERT("C06,C01", !vtb || c->session == vt_active, "on a VT-bound seat the client enabled is the one whose VT is in front");
		check_revoked(p, "enable");
		c->st = G_ENABLED;
		VF_WITNESS("enabled");
		return;
	}
	if (op == SERVER_DISABLE_SEAT) {
		VF_ASSERT("C09", size == 0, "disable event has no payload");
		VF_ASSERT("C09,C01", c->st == G_ENABLED, "only the enabled client is asked to disable");
		c->st = G_PENDING;
		VF_WITNESS("disable-event");
		return;
	}
	VF_ASSERT("C09", valid_reply(op), "a message of the protocol");
	VF_ASSERT("C09", p == req_client, "a reply goes to the client that asked");
	n_replies++;
	VF_ASSERT("C09", n_replies == 1, "one reply per request");
	switch (op) {
	case SERVER_SEAT_OPENED:
		VF_ASSERT("C09", size == 8 && pl[0] == 6 && pl[1] == 0 && !memcmp(pl + 2, "seat0", 6), "the reply names the seat");
		break;
	case SERVER_DEVICE_OPENED: case SERVER_ERROR:
		VF_ASSERT("C09", size == 4, "reply size");
		if (op == SERVER_ERROR) VF_ASSERT("C09", v != 0, "an error reply carries a reason");
		break;
	default:
		VF_ASSERT("C09", size == 0, "reply size");
	}
}
static void on_send(int p, const uint8_t *b, size_t n) {
	struct ghost *c = &g[p];
	VF_ASSUME(c->buflen + n <= sizeof c->buf);
	memcpy(c->buf + c->buflen, b, n);
	c->buflen += n;
	for (;;) {
		if (c->buflen < 4) return;
		uint16_t op, size;
		memcpy(&op, c->buf, 2);
		memcpy(&size, c->buf + 2, 2);
		VF_ASSERT("C09", size <= 80, "message size");
		VF_ASSUME(size <= 80);
		if (c->buflen < 4 + size) return;
		uint8_t pl[96];
		memcpy(pl, c->buf + 4, size);
		memmove(c->buf, c->buf + 4 + size, c->buflen - 4 - size);
		c->buflen -= 4 + size;
		got_message(p, op, size, pl);
	}
}

/* ---------- running the daemon until it would block ---------- */
static bool ready(void) {
	if (pipe_bytes || backlog < n_peers) return true;
	for (int i = 0; i < n_peers; i++) if (peers[i].exists && !peers[i].srv_closed && sock_readable(i)) return true;
	return false;
}
static void settle(void) {
	int rounds = 0;
	while (ready()) {
		VF_ASSERT("C09,C10,C12", rounds < (frag ? 300 : 16), "the daemon consumes what it is woken up for");
		VF_ASSUME(rounds < 300);
		rounds++;
		int r = poller_poll(&server.poller);
		if (r == -1) VF_ASSERT("*", f_kinds & FM_ALLOC, "polling works");
		if (!server.running) return;
	}
}
/* nothing more to do: the daemon sleeps */
static void idle(void) {
	bool f = f_on;
	f_on = false;
	for (int i = 0; server.running; i++) {
		poller_poll(&server.poller);
		if (poll_blocks) break;
		VF_ASSERT("C09,C10,C12", i < 4, "the daemon sleeps when there is nothing to do");
		VF_ASSUME(i < 4);
	}
	f_on = f;
}
static void drop_held(int p) {
	for (int i = 0; i < g[p].nheld; i++) { ofds[g[p].held[i]].cl_refs--; ofd_released(&ofds[g[p].held[i]]); }
	g[p].nheld = 0;
}
/* client p stops keeping descriptor ofd */
static void unhold(int p, int o) {
	for (int i = 0; i < g[p].nheld; i++) {
		if (g[p].held[i] != o) continue;
		ofds[o].cl_refs--;
		ofd_released(&ofds[o]);
		g[p].held[i] = g[p].held[--g[p].nheld];
		return;
	}
}

/* ---------- the ghost's view of consequences ---------- */
static int n_enabled_before;
static void left_seat(int p) { /* p is no longer a member */
	if (g[p].st == G_OUT) return;
	g[p].st = G_OUT;
	for (int i = 0; i < g[p].ndev; i++) {
		struct ofd *o = &ofds[g[p].dev[i].ofd];
		VF_ASSERT("C11,C04", o->srv_refs == 0, "the devices of a client that left are closed");
		if (!o->stuck) {
			if (o->kind == K_EVDEV || o->kind == K_HIDRAW) VF_ASSERT("C02,C11", o->revoked, "the input devices of a client that left are revoked");
			if (o->kind == K_DRM) VF_ASSERT("C02,C11", !o->master, "a client that left is not DRM master");
		}
	}
	g[p].ndev = 0;
	if (queued == p) queued = -1;
	if (vtb && !vt_read_failed) {
		int v = g[p].session;
		bool taken = false;
		for (int i = 0; i < NPEER; i++) if (i != p && g[i].st != G_OUT && g[i].session == v) taken = true;
		if (!taken) {
			VF_ASSERT("C07,C11", (!vts[v].graphics || vts[v].f_gfx || vts[v].f_open) && (!(vts[v].kbd_off || vts[v].raw) || vts[v].f_kbd || vts[v].f_open), "the console of a VT is restored when its client leaves");
			VF_WITNESS("vt-restored");
		}
	}
}
/* at rest: everything that must hold between events */
static void check_stash(void);
static int stash_fds(int c);
static void check_rest(void) {
#ifdef EMBED
	VF_ASSERT("C30", server.running == g[0].conn, "the embedded daemon runs exactly as long as its application is connected");
	if (server.running) VF_WITNESS("serving"); else VF_WITNESS("application-left");
#else
	VF_ASSERT("C10,C11,C27", server.running, "the daemon serves on whatever its clients do");
#endif
	int holders = 0, members = 0, conns = 0, devices = 0;
	for (int i = 0; i < NPEER; i++) {
		struct ghost *c = &g[i];
		if (c->conn) conns++;
		if (c->st != G_OUT) members++;
		if (c->st == G_ENABLED || c->st == G_PENDING) holders++;
		devices += c->ndev;
		if (c->conn && !peers[i].blocked) VF_ASSERT("C09", c->buflen == 0, "no partial message is left unsent");
	}
	VF_ASSERT("C01", holders <= 1, "at most one client holds the seat");
	int h = holder();
	check_revoked(enabled(h) ? h : -1, "rest");
	/* descriptors and memory: one socket per client, one descriptor per open device */
	check_stash();
	VF_ASSERT("C04,C11", srv_fds() - stash_fds(-1) == base_fds + conns + devices, "the daemon's open descriptors are those of its clients and their open devices");
	for (int i = 0; i < NPEER; i++) {
		struct ghost *c = &g[i];
		for (int d = 0; d < c->ndev; d++) {
			struct ofd *o = &ofds[c->dev[d].ofd];
			VF_ASSERT("C04", o->srv_refs == 1, "an open device is kept open exactly once");
			if (o->kind == K_DRM && !f_n) {
				bool other = false;
				for (int k = 1; k < n_ofd; k++) if (&ofds[k] != o && ofds[k].kind == K_DRM && ofds[k].obj == o->obj && ofds[k].owner == i && ofds[k].srv_refs) other = true;
				if (!other) VF_ASSERT("C02", o->master == (c->st == G_ENABLED), "a client has DRM master on its open display device exactly while enabled");
			}
			if ((o->kind == K_EVDEV || o->kind == K_HIDRAW) && c->st == G_ENABLED && !f_n) { /* opened in this activation: usable */ }
		}
	}
	if (vtb && enabled(h) && !vt_read_failed) {
		int v = g[h].session;
		VF_ASSERT("C07", (vts[v].graphics || vts[v].f_gfx) && ((vts[v].kbd_off && (PLAT != 2 || vts[v].raw)) || vts[v].f_kbd), "console output and keyboard are off on the enabled client's VT");
	}
	if (vtb && f_n && !(f_kinds & FM_TTY)) {
		VF_ASSERT("C06", vt_pending == 0 && n_rel_ack == n_rel_sig, "a VT release is acknowledged whatever fails");
		VF_ASSERT("C06", n_acq_ack == n_acq_sig, "a VT acquisition is acknowledged whatever fails");
	}
	if (f_n > f_send) return;
	/* liveness: the seat is not left unused */
	if (h == -1 && members) {
		if (!vtb) VF_ASSERT("C11,C05", 0, "with members and nobody holding the seat, one is enabled");
		else for (int i = 0; i < NPEER; i++) if (g[i].st != G_OUT) VF_ASSERT("C06,C11", g[i].session != vt_active, "the member whose VT is in front is enabled when the seat is free");
	}
	if (f_n) return;
	if (vtb) {
		VF_ASSERT("C06", vt_pending == 0 && n_rel_ack == n_rel_sig, "every VT release is acknowledged");
		VF_ASSERT("C06", n_acq_ack == n_acq_sig, "every VT acquisition is acknowledged");
		if (enabled(h)) {
			int v = g[h].session;
			VF_ASSERT("C06,C01", v == vt_active, "the enabled client's VT is in front");
			VF_ASSERT("C07", vts[v].graphics && vts[v].kbd_off && (PLAT != 2 || vts[v].raw), "console output and keyboard are off on the enabled client's VT");
			VF_ASSERT("C06", vts[v].process, "switching away from the enabled client's VT is under the daemon's control");
		}
		for (int v = 1; v <= NVT; v++) {
			bool m = false;
			for (int i = 0; i < NPEER; i++) if (g[i].st != G_OUT && g[i].session == v) m = true;
			if (!m) VF_ASSERT("C07,C11", !vts[v].graphics && !vts[v].kbd_off && !vts[v].raw, "a VT without a client has its text console and keyboard");
		}
	} else {
		VF_ASSERT("C05,C07", n_activate == 0 && n_rel_ack == 0 && n_acq_ack == 0, "a seat without VTs does not touch VTs");
		for (int v = 1; v <= NVT; v++) VF_ASSERT("C07", !vts[v].graphics && !vts[v].kbd_off && !vts[v].raw && !vts[v].process, "a seat without VTs does not touch VTs");
	}
	/* sessions are distinct and selectable */
	for (int i = 0; i < NPEER; i++)
		if (g[i].st != G_OUT) {
			VF_ASSERT("C08,C05", g[i].session > 0, "a session has a positive number");
			for (int j = 0; j < i; j++) if (g[j].st != G_OUT) VF_ASSERT("C08", g[i].session != g[j].session, "members have distinct sessions");
		}
}

static void begin(int c) {
	req_client = c;
	for (int v = 0; v <= NVT; v++) vts[v].f_open = false;
	raced = leaving = false;
	for (int i = 0; i < n_peers; i++) if (peers[i].in_pos == peers[i].in_len) peers[i].in_pos = peers[i].in_len = 0;
	acting = c;
	n_replies = 0;
	for (int i = 0; i < NPEER; i++) g[i].nmsg = 0;
}
static bool disconnected(int c) { return peers[c].srv_closed; }
static void note_disconnects(void) {
	for (int i = 0; i < NPEER; i++) {
		if (g[i].conn && peers[i].srv_closed) {
			g[i].conn = false;
			left_seat(i);
			drop_held(i);
		}
	}
}
static void finish(void) {
	idle();
	for (int i = 0; i < NPEER; i++)
		if (i != req_client && g[i].conn && !f_n) VF_ASSERT("C09,C10,C11", !peers[i].srv_closed, "a client other than the one acting is never disconnected");
	note_disconnects();
	for (int i = 0; i < NPEER; i++) VF_ASSERT("C01", g[i].st != G_LEAVING, "a client is enabled only when no other holds the seat");
	req_client = acting = -1;
	check_rest();
	vf_obs("vt", vt_active);
	vf_obs("holder", holder());
	vf_obs("fds", srv_fds());
}
static void put(int c, const void *b, size_t n) { VF_ASSUME(peers[c].in_len + n <= QLEN); memcpy(peers[c].in + peers[c].in_len, b, n); peers[c].in_len += n; }
static void put_hdr(int c, uint16_t op, uint16_t size) { struct proto_header h = {op, size}; put(c, &h, sizeof h); }
static void put_int(int c, int v) { put(c, &v, 4); }

/* a fault, or the user switching away, changes what the request may do */
#define ODD (f_n || raced)
/* outcome of the request: reply op, or 0 and disconnected */
static void expect(int c, bool disc, uint16_t op, const char *props) {
	if (ODD) return;
	if (disc) {
		VF_ASSERT(props, disconnected(c) && n_replies == 0, "a request out of order ends that client's connection");
		return;
	}
	VF_ASSERT(props, !disconnected(c), "a valid request does not end the connection");
	VF_ASSERT("C09", n_replies == 1, "a request gets a reply");
	int r = -1;
	for (int i = 0; i < g[c].nmsg; i++) if (valid_reply(g[c].op[i])) r = g[c].op[i];
	VF_ASSERT(props, r == op, "the request succeeds or fails as it must");
}
static int last_reply(int c, int *val) {
	for (int i = 0; i < g[c].nmsg; i++)
		if (valid_reply(g[c].op[i])) { if (val) *val = g[c].val[i]; return g[c].op[i]; }
	return 0;
}
static int n_events(int c, uint16_t op) { int n = 0; for (int i = 0; i < g[c].nmsg; i++) n += g[c].op[i] == op; return n; }

/* ---------- events ---------- */
static void ev_connect(void) {
#ifdef EMBED
	VF_ASSUME(0);
#endif
	VF_ASSUME(n_peers < NPEER);
	begin(n_peers);
	int p = n_peers++;
	peers[p].uid = nd_u32("uid");
	settle();
	if (peers[p].srv_closed || !peers[p].exists) { VF_ASSERT("C08", ODD, "a connection is accepted"); finish(); return; }
	g[p].conn = true;
	struct client *c = find_client(p);
	VF_ASSERT("C08", c && (c->uid == peers[p].uid || (PLAT == 3 && f_n)), "the client is known by its socket credentials");
	for (int i = FD0; i < NFD; i++) if (fdtab[i] && ofds[fdtab[i]].kind == K_SOCK) VF_ASSERT("C10", fd_cloexec[i] && fd_nonblock[i], "client sockets are non-blocking and close-on-exec");
	finish();
}
static int issued[400], n_issued; /* session numbers given out so far */
static void ev_open_seat(int c) {
	VF_ASSUME(g[c].conn);
	begin(c);
	int h = holder();
	bool dup = false;
	for (int i = 0; i < NPEER; i++) if (g[i].st != G_OUT && g[i].session == vt_active) dup = true;
	bool disc = g[c].st != G_OUT || g[c].used || (vtb && (enabled(h) || dup));
	put_hdr(c, CLIENT_OPEN_SEAT, 0);
	struct ghost before = g[c];
	/* membership starts with the request: the enable event may come with the reply */
	leaving = disc;
	if (!disc) { g[c].st = G_NEW; g[c].used = true; g[c].session = vt_active; }
	settle();
	if (disc) {
		expect(c, true, 0, "C08");
		VF_WITNESS("open-refused");
		finish();
		return;
	}
	if (disconnected(c)) { VF_ASSERT("C08", ODD, "an eligible client is admitted"); g[c].st = before.st == G_OUT && g[c].st == G_NEW ? G_OUT : g[c].st; finish(); return; }
	expect(c, false, SERVER_SEAT_OPENED, "C08");
	struct client *cl = find_client(c);
	if (!vtb) {
		g[c].session = cl ? cl->session : -1;
		for (int i = 0; i < n_issued; i++) VF_ASSERT("C08", issued[i] != g[c].session, "a session number is given to one client only");
		if (n_issued < 400) issued[n_issued++] = g[c].session;
	}
	else VF_ASSERT("C08", cl && cl->session == g[c].session, "the session on a VT-bound seat is the VT in front");
	if (!ODD) {
		VF_ASSERT("C11,C01", n_events(c, SERVER_ENABLE_SEAT) == (h == -1), "a new member is enabled at once exactly when the seat is free");
		if (h == -1) {
			VF_ASSERT("C09", g[c].nmsg == 2 && g[c].op[0] == SERVER_SEAT_OPENED, "the reply to opening the seat precedes the enable event");
			VF_WITNESS("open-enabled");
		} else VF_WITNESS("open-waiting");
	}
	finish();
}
/* the seat lost its holder: who must be enabled now */
static void check_handover(int old_queued, int leaver) {
	if (ODD) return;
	if (!vtb && old_queued >= 0 && old_queued != leaver) {
		VF_ASSERT("C05", n_events(old_queued, SERVER_ENABLE_SEAT) == 1, "the client switched to is the one enabled");
		VF_WITNESS("queued-enabled");
	}
}
static void ev_close_seat(int c) {
	VF_ASSUME(g[c].conn);
	begin(c);
	bool disc = g[c].st == G_OUT;
	bool was = holder() == c;
	int q = queued;
	put_hdr(c, CLIENT_CLOSE_SEAT, 0);
	leaving = true;
	settle();
	if (disconnected(c)) { expect(c, disc, SERVER_SEAT_CLOSED, "C09"); finish(); return; }
	expect(c, disc, SERVER_SEAT_CLOSED, "C09");
	left_seat(c);
	if (was) { queued = -1; check_handover(q, c); VF_WITNESS("holder-closed"); }
	finish();
}
/* how: 0 closes its end, 1 shuts down its sending side, 2 closes with data unread */
static void ev_hangup(int c, int how) {
	VF_ASSUME(g[c].conn && !peers[c].gone && !peers[c].half);
	begin(c);
	bool was = holder() == c;
	int q = queued;
	leaving = true;
	if (how == 1) peers[c].half = true; else { peers[c].gone = true; peers[c].err = how == 2; drop_held(c); }
	settle();
	VF_ASSERT("C11,C09", disconnected(c), "a client whose connection ended is removed");
	note_disconnects();
	if (was) { queued = -1; check_handover(q, c); VF_WITNESS("holder-hangup"); }
	finish();
}
static void open_device_as(int c, int choice, const char *rq, int rqlen);
static void ev_open_device(int c, int choice) {
	static char rq[4] = "/d";
	rq[2] = 'a' + (choice & 15);
	open_device_as(c, choice, rq, 3);
}
/* the device is asked for by any name at all, which resolves to a device, to something else or to nothing */
static void ev_open_alias(int c, int n) {
	static char rq[64];
	VF_ASSUME(n < (int)sizeof rq);
	for (int i = 0; i < n; i++) { rq[i] = nd_u8("asked"); VF_ASSUME(rq[i] != 0); }
	rq[n] = 0;
	open_device_as(c, nd_pick("path", -1, NDEVS - 1), rq, n);
	VF_WITNESS("alias");
}
static void open_device_as(int c, int choice, const char *rq, int rqlen) {
	VF_ASSUME(g[c].conn);
	begin(c);
	rp_choice = choice;
	rp_errno = ENOENT;
	open_errno = 0;
	req_path = rq;
	uint16_t l = rqlen + 1;
	put_hdr(c, CLIENT_OPEN_DEVICE, 2 + l);
	put(c, &l, 2);
	put(c, rq, l);
	enum gst st = g[c].st;
	int nopen = n_dev_open, fds = srv_fds();
	/* same path already open and usable: same device */
	int same = -1;
	for (int i = 0; i < g[c].ndev; i++) {
		struct ofd *o = &ofds[g[c].dev[i].ofd];
		if (g[c].dev[i].path == choice && !o->revoked) same = i;
	}
	settle();
	if (st == G_OUT) { expect(c, true, 0, "C09,C03"); finish(); return; }
	bool ok_class = choice >= 0 && dev_kind(choice) != K_OTHER;
#ifndef HAVE_HIDRAW
	if (choice >= 0 && dev_kind(choice) == K_HIDRAW) ok_class = false;
#endif
	if (disconnected(c)) { VF_ASSERT("C09", ODD, "a valid request does not end the connection"); finish(); return; }
	int val = 0;
	int r = last_reply(c, &val);
	if (st != G_ENABLED || !ok_class) {
		if (!ODD) VF_ASSERT("C03,C09", r == SERVER_ERROR && val == (st != G_ENABLED ? EPERM : choice < 0 ? ENOENT : val), "opening is refused with the reason");
		VF_ASSERT("C03", n_dev_open == nopen && srv_fds() == fds && g[c].rx_nfd == 0, "a refused open opens nothing");
		VF_ASSERT("C03", r != SERVER_DEVICE_OPENED, "a refused open opens nothing");
		VF_WITNESS("device-refused");
		finish();
		return;
	}
	if (g[c].ndev >= 128 && same < 0) {
		VF_ASSERT("C04", r == SERVER_ERROR && val != 0 && srv_fds() == fds && n_dev_open == nopen, "no client holds more than 128 devices");
		VF_WITNESS("limit");
		finish();
		return;
	}
	if (!ODD) VF_ASSERT("C03,C04", r == SERVER_DEVICE_OPENED, "the enabled client can open a supported device");
	if (r == SERVER_DEVICE_OPENED) {
		VF_ASSERT("C03,C15", g[c].rx_nfd == 1, "a descriptor comes with the reply");
		int o = g[c].rx_fd;
		g[c].rx_nfd = 0;
		VF_ASSERT("C03", ofds[o].obj == choice && ofds[o].owner == c && (raced || !ofds[o].revoked), "the descriptor is the device asked for, usable");
		VF_ASSERT("C04", val > 0, "device ids are positive");
		if (same >= 0) {
			VF_ASSERT("C04", val == g[c].dev[same].id && o == g[c].dev[same].ofd && n_dev_open == nopen, "opening an open path again gives the same device");
			g[c].dev[same].ref++;
			VF_WITNESS("device-reopened");
		} else {
			for (int i = 0; i < g[c].ndev; i++) VF_ASSERT("C04", val != g[c].dev[i].id, "a new device has an id of its own");
			VF_ASSERT("C03", n_dev_open == nopen + 1, "the device is opened once");
			VF_ASSUME(g[c].ndev < MAXDEV);
			g[c].dev[g[c].ndev++] = (struct gdev){.id = val, .ref = 1, .ofd = o, .path = choice};
			VF_WITNESS("device-opened");
		}
	} else {
		VF_ASSERT("C03,C09", r == SERVER_ERROR && g[c].rx_nfd == 0, "a failed open is reported as an error");
		if (open_errno) VF_ASSERT("C09,C03", val == open_errno, "the error is the one of the failing call");
		VF_ASSERT("C03,C04", srv_fds() == fds, "a failed open leaves nothing open");
		VF_WITNESS("device-failed");
	}
	finish();
}
static void ev_close_device(int c, int id) {
	VF_ASSUME(g[c].conn);
	begin(c);
	put_hdr(c, CLIENT_CLOSE_DEVICE, 4);
	put_int(c, id);
	enum gst st = g[c].st;
	settle();
	if (st == G_OUT) { expect(c, true, 0, "C09"); finish(); return; }
	int k = -1;
	for (int i = 0; i < g[c].ndev; i++) if (g[c].dev[i].id == id) k = i;
	expect(c, false, k >= 0 ? SERVER_DEVICE_CLOSED : SERVER_ERROR, "C04");
	if (disconnected(c)) { VF_ASSERT("C09", ODD, "connection kept"); finish(); return; }
	if (k >= 0) {
		struct gdev *d = &g[c].dev[k];
		struct ofd *o = &ofds[d->ofd];
		if (--d->ref == 0) {
			VF_ASSERT("C04", o->srv_refs == 0, "closing a device as often as it was opened closes it");
			if (!o->stuck) {
				if (o->kind == K_EVDEV || o->kind == K_HIDRAW) VF_ASSERT("C02,C04", o->revoked, "a closed input device is revoked");
				if (o->kind == K_DRM) VF_ASSERT("C02,C04", !o->master, "DRM master is dropped on close");
			}
			/* the client may keep its descriptor; it must be of no use */
			for (int i = k; i + 1 < g[c].ndev; i++) g[c].dev[i] = g[c].dev[i + 1];
			g[c].ndev--;
			VF_WITNESS("device-closed");
		} else {
			VF_ASSERT("C04", o->srv_refs == 1 && (!(st == G_ENABLED) || (o->kind != K_EVDEV) || !o->revoked || ODD), "a device stays open until closed as often as opened");
			VF_WITNESS("device-deref");
		}
	}
	finish();
}
static void ev_switch(int c, int n) {
	VF_ASSUME(g[c].conn);
	begin(c);
	put_hdr(c, CLIENT_SWITCH_SESSION, 4);
	put_int(c, n);
	enum gst st = g[c].st;
	int act0 = n_activate, rel0 = n_rel_sig;
	int h = holder();
	settle();
	if (st == G_OUT) { expect(c, true, 0, "C09"); finish(); return; }
	int target = -1;
	for (int i = 0; i < NPEER; i++) if (g[i].st != G_OUT && g[i].session == n) target = i;
	(void)h;
	bool bad = st != G_ENABLED || n <= 0 || (!vtb && target < 0);
	expect(c, false, bad ? SERVER_ERROR : SERVER_SESSION_SWITCHED, "C05");
	if (disconnected(c)) { VF_ASSERT("C09", ODD, "connection kept"); finish(); return; }
	if (bad || n == g[c].session) {
		VF_ASSERT("C05", n_activate == act0 && (raced || (g[c].st == st && n_rel_sig == rel0)), "a refused switch, or one to the current session, changes nothing");
		if (bad) VF_WITNESS("switch-refused"); else VF_WITNESS("switch-same");
	} else if (vtb) {
		if (!f_n) VF_ASSERT("C05,C06", n_activate == act0 + 1 && activate_arg == n, "switching session on a VT-bound seat requests that VT");
		/* the request alone disables nobody: that waits for the kernel to announce the switch */
		if (n_rel_sig == rel0 && !raced) VF_ASSERT("C05,C06", g[c].st == st && n_events(c, SERVER_DISABLE_SEAT) == 0, "a client keeps its VT-bound seat until the kernel announces the switch");
		VF_WITNESS("switch-vt");
	} else {
		VF_ASSERT("C05", g[c].st == G_PENDING && n_events(c, SERVER_DISABLE_SEAT) == 1, "switching asks the current client to disable");
		queued = target;
		VF_WITNESS("switch-queued");
	}
	finish();
}
static void ev_ack(int c) {
	VF_ASSUME(g[c].conn);
	begin(c);
	put_hdr(c, CLIENT_DISABLE_SEAT, 0);
	enum gst st = g[c].st;
	int q = queued;
	if (st == G_PENDING) g[c].st = G_DISABLED;
	settle();
	if (st == G_OUT) { expect(c, true, 0, "C09"); finish(); return; }
	expect(c, false, st == G_PENDING ? SERVER_SEAT_DISABLED : SERVER_ERROR, "C09,C01");
	if (disconnected(c)) { VF_ASSERT("C09", ODD, "connection kept"); finish(); return; }
	if (st == G_PENDING) {
		queued = -1;
		check_handover(q, -1);
		VF_WITNESS("ack");
	} else VF_ASSERT("C01", g[c].st == st || (raced && st == G_ENABLED && g[c].st == G_PENDING), "an unexpected acknowledgement changes nothing");
	finish();
}
static void ev_ping(int c) {
	VF_ASSUME(g[c].conn);
	begin(c);
	put_hdr(c, CLIENT_PING, 0);
	settle();
	expect(c, false, SERVER_PONG, "C09");
	finish();
}
static void ev_vt(int v) {
	VF_ASSUME(v >= 1 && v <= NVT && v != vt_active);
	begin(-1);
	int h = holder();
	bool was = enabled(h);
	bool ctl = vts[vt_active].process;
	vt_request(v);
	settle();
	if (!ODD && ctl) {
		VF_ASSERT("C06", vt_active == v, "a VT switch proceeds");
		if (was) VF_ASSERT("C06", n_events(h, SERVER_DISABLE_SEAT) == 1 && g[h].st == G_PENDING, "the enabled client is asked to disable when its VT is left");
		VF_WITNESS("vt-switched");
	}
	finish();
}
static void ev_terminate(int s) {
	begin(-1);
	VF_ASSERT("C11,C13,C27", sig_handler[s] && sig_handler[s] != SIG_DFL && sig_handler[s] != SIG_IGN, "the signals that stop the daemon are watched");
	raise_sig(s);
	settle();
	VF_ASSERT("C13,C27", !server.running, "the daemon stops when told to");
	VF_WITNESS("stopped");
}
static void ev_unblock(int c) {
	VF_ASSUME(g[c].conn && peers[c].blocked);
	begin(c);
	n_replies = -3; /* queued replies may arrive */
	peers[c].blocked = false;
	/* the daemon must be waiting for writability if it has something to send */
	poller_poll(&server.poller);
	settle();
	finish();
}

/* ---------- hostile clients ---------- */
static int stash_fds(int c) { /* descriptors the daemon holds that client c sent along */
	int n = 0;
	for (int i = FD0; i < NFD; i++) if (fdtab[i] && ofds[fdtab[i]].kind == K_CLIENTFD && (c < 0 || ofds[fdtab[i]].obj == c)) n++;
	return n;
}
static void attach_fds(int c, int n) {
	VF_ASSUME(n + peers[c].n_infds <= 8);
	while (n--) {
		int o = ofd_new(K_CLIENTFD, c);
		ofds[o].cl_refs = 1;
		peers[c].infds[peers[c].n_infds++] = o;
	}
}
static void check_stash(void) {
	for (int i = 0; i < NPEER; i++) if (!g[i].conn) VF_ASSERT("C10,C15", stash_fds(i) == 0, "descriptors a client sent along are closed when it is gone");
	for (int i = FD0; i < NFD; i++) if (fdtab[i] && ofds[fdtab[i]].kind == K_CLIENTFD) VF_ASSERT("C10,C15", fd_cloexec[i], "received descriptors are close-on-exec");
}
/* a message that is not one of the protocol: len bytes of payload arrive with an arbitrary header */
static void ev_malformed(int c, int len) {
	VF_ASSUME(g[c].conn);
	begin(c);
	uint16_t op = nd_u16("op"), size = nd_u16("size"), pl = 0;
	uint8_t body[600];
	memset(body, 0, sizeof body);
	int k = len < 8 ? len : 8;
	for (int i = 0; i < k; i++) body[i] = nd_u8("body");
	if (len > 100) memset(body + 2, 'a', len - 2);
	if (len >= 2) memcpy(&pl, body, 2);
	if (len > 100) VF_ASSUME((op != 3) | (size > 258) | (size <= 6));
	/* what the protocol permits */
	bool possible = ((op == 1 || op == 2 || op == 5 || op == 7) && size == 0) || ((op == 4 || op == 6) && size == 4) || (op == 3 && size >= 3 && size <= 2 + 256);
	bool full = size <= len, wf = possible;
	if (possible && op == 3) {
		wf = pl == size - 2;
		if (full) {
			int term = 0, n = (int)vf_conc(size) - 2;
			for (int i = 0; i < n - 1; i++) term |= body[2 + i] == 0;
			wf = wf & !term & (body[2 + n - 1] == 0);
		}
	}
	VF_ASSUME(!(full && wf));
	leaving = true;
	put_hdr(c, op, size);
	if (len) put(c, body, len);
	bool was = holder() == c;
	int q = queued;
	settle();
	if (full) {
		VF_ASSERT("C10,C09", disconnected(c), "a malformed message ends the connection of its sender");
		VF_WITNESS("malformed");
	} else {
		if (possible && op != 3) VF_ASSERT("C10,C09", ODD || !disconnected(c), "an incomplete message is waited for");
		if (!disconnected(c)) {
			VF_WITNESS("incomplete");
			peers[c].half = true;
			settle();
		}
		VF_ASSERT("C10,C11", disconnected(c), "a client that stops in the middle of a message is removed");
	}
	VF_ASSERT("C09,C10", n_replies == 0, "a malformed message gets no reply");
	note_disconnects();
	if (was) { queued = -1; check_handover(q, c); }
	finish();
}
/* an open request with a path of n bytes of which two are arbitrary */
static void ev_long_path(int c, int n) {
	VF_ASSUME(g[c].conn && g[c].st == G_ENABLED);
	begin(c);
	static char path[300];
	memset(path, 'x', sizeof path);
	path[0] = '/';
	path[n - 1] = nd_u8("last");
	path[n - 2] = nd_u8("before");
	rp_choice = 0;
	req_path = path;
	uint16_t l = n;
	put_hdr(c, CLIENT_OPEN_DEVICE, 2 + n);
	put(c, &l, 2);
	put(c, path, n);
	bool ok = n <= 256 && path[n - 1] == 0 && path[n - 2] != 0;
	int fds = srv_fds();
	settle();
	if (!ok) {
		VF_ASSERT("C10,C09", disconnected(c) && n_replies == 0, "a malformed message ends the connection of its sender");
		finish();
		return;
	}
	int val = 0;
	VF_ASSERT("C03,C09,C10", !disconnected(c) && last_reply(c, &val) == SERVER_DEVICE_OPENED, "every path up to 255 characters can be requested");
	if (disconnected(c) || !g[c].rx_nfd) vf_end();
	(void)fds;
	g[c].dev[g[c].ndev++] = (struct gdev){.id = val, .ref = 1, .ofd = g[c].rx_fd, .path = 0};
	g[c].rx_nfd = 0;
	VF_WITNESS("long-path");
	finish();
}
/* a device whose canonical name is any string */
static void ev_open_named(int c, int n) {
	VF_ASSUME(g[c].conn && g[c].st == G_ENABLED && n <= SYMLEN);
	begin(c);
	for (int i = 0; i < n; i++) { sym_path[i] = nd_u8("name"); VF_ASSUME(sym_path[i] != 0); }
	sym_path[n] = 0;
	rp_choice = SYMDEV;
	sym_tried = false;
	req_path = "/dev";
	uint16_t l = 5;
	put_hdr(c, CLIENT_OPEN_DEVICE, 2 + 5);
	put(c, &l, 2);
	put(c, "/dev", 5);
	int fds = srv_fds(), val = 0;
	settle();
	VF_ASSERT("C09,C03", !disconnected(c) && last_reply(c, &val) == SERVER_ERROR && val != 0 && srv_fds() == fds && g[c].rx_nfd == 0, "a device that is refused or cannot be opened is an error and leaves nothing open");
	/* a usual name of a supported class is tried */
	bool digits = true;
	if (n > 16) for (int i = 16; i < n; i++) digits &= (sym_path[i] >= '0') & (sym_path[i] <= '9');
	if (n > 16) VF_ASSERT("C03", !(pre("/dev/input/event", 16) & digits) | sym_tried, "event devices can be opened");
	digits = true;
	if (n > 13) for (int i = 13; i < n; i++) digits &= (sym_path[i] >= '0') & (sym_path[i] <= '9');
	if (n > 13) VF_ASSERT("C03", !(pre("/dev/dri/card", 13) & digits) | sym_tried, "display devices can be opened");
	if (sym_tried) VF_WITNESS("named-tried"); else VF_WITNESS("named-refused");
	finish();
}

static void any_event(void) {
	int e = nd_range("event", 0, 11);
	int c = 0;
	if (e != 0 && e != 9) c = nd_pick("client", 0, n_peers > 0 ? n_peers - 1 : 0);
	switch (e) {
	case 0: ev_connect(); break;
	case 1: ev_open_seat(c); break;
	case 2: ev_close_seat(c); break;
	case 3: ev_open_device(c, nd_pick("path", -1, NDEVS - 1)); break;
	case 4: ev_close_device(c, nd_int("device")); break;
	case 5: ev_switch(c, nd_int("session")); break;
	case 6: ev_ack(c); break;
	case 7: ev_ping(c); break;
	case 8: ev_hangup(c, nd_pick("how", 0, 2)); break;
	case 9: VF_ASSUME(vtb); ev_vt(nd_pick("vt", 1, 3)); break;
	case 10: ev_unblock(c); break;
	default: break;
	}
}

/* an event that moves the seat on: what clients and users do, without the noise */
static void a_step(void) {
	int h = holder(), c;
	switch (nd_pick("step", 0, 5)) {
	case 0:
		ev_connect();
		ev_open_seat(n_peers - 1);
		break;
	case 1:
		VF_ASSUME(h >= 0 && g[h].st == G_PENDING);
		ev_ack(h);
		break;
	case 2:
		c = nd_pick("client", 0, n_peers > 0 ? n_peers - 1 : 0);
		VF_ASSUME(g[c].st != G_OUT);
		ev_close_seat(c);
		break;
	case 3:
		c = nd_pick("client", 0, n_peers > 0 ? n_peers - 1 : 0);
		VF_ASSUME(g[c].st != G_OUT);
		ev_hangup(c, 0);
		break;
	case 4:
		if (vtb) { ev_vt(nd_pick("vt", 1, 2)); break; }
		VF_ASSUME(enabled(h));
		c = nd_pick("target", 0, n_peers - 1);
		VF_ASSUME(c != h && g[c].st != G_OUT);
		ev_switch(h, g[c].session);
		break;
	case 5:
		VF_ASSUME(enabled(h));
		ev_open_device(h, nd_pick("path", 0, 1));
		break;
	}
}
int vf_main(void) {
	vtb = vf_param("vtb", 1);
	f_max = vf_param("faults", 0);
	f_mask = vf_param("fmask", 0);
	frag = vf_param("frag", 0);
	race = vf_param("race", 0);
	vt_env = vtb ? vf_param("noenv", 0) ? NULL : "1" : "0";
	f_on = vf_param("finit", 0); /* the start fails, too */
	int r = server_init(&server);
	if (r == -1 && f_n) {
		for (int sg = 1; sg < 32; sg++) VF_ASSERT("C11,C13", sig_handler[sg] == NULL || sig_handler[sg] == SIG_DFL, "a daemon that cannot start leaves the signal handlers alone");
		VF_ASSERT("C11", heap_live == 0, "a daemon that cannot start frees its memory");
		VF_WITNESS("not-started");
		return 0;
	}
	VF_ASSERT("*", r == 0, "the server starts");
#ifdef EMBED
	n_peers = backlog = 1;
	peers[0].exists = true;
	peers[0].uid = nd_u32("uid");
	int sock = fd_install(ofd_new(K_SOCK, 0));
	if (server_add_client(&server, sock) == -1) {
		VF_ASSERT("C30", f_n, "the embedded daemon serves its application");
		VF_ASSERT("C30", peers[0].srv_closed, "a socket that cannot be served is closed");
		server_finish(&server);
		VF_ASSERT("C30", heap_live == 0 && srv_fds() == 0, "an embedded daemon that cannot serve leaves nothing behind");
		VF_WITNESS("not-served");
		return 0;
	}
	VF_ASSERT("C30", server.running, "the embedded daemon waits for its application's requests");
	g[0].conn = true;
#else
	f_on = false;
	listen_fd = fd_install(ofd_new(K_LISTEN, 0));
	VF_ASSERT("*", poller_add_fd(&server.poller, listen_fd, EVENT_READABLE, server_handle_connection, &server) != NULL, "the listening socket is polled");
#endif
	f_on = false;
#ifndef EMBED
	VF_ASSERT("C27,C10", server.running, "the daemon runs once started");
#endif
	vt_active = (int)vf_param("vt0", 1);
	base_fds = srv_fds();
#ifdef EMBED
	base_fds--;
#endif
	/* scripts separated by '|' */
	const char *s = vf_str("script");
	int nscripts = 1;
	for (const char *p = s; *p; p++) if (*p == '|') nscripts++;
	int k = nd_pick("script", 0, nscripts - 1);
	while (k) if (*s++ == '|') k--;
	const char *loop = NULL;
	int times = 0;
	for (; *s && *s != '|'; s++) {
		switch (*s) {
		case '*': any_event(); break;
		case '?': a_step(); break;
		case '[': loop = s; times = (int)vf_param("times", 1); break;
		case ']': if (--times > 0) s = loop; break;
		case 'R': /* the last connection is over: its place is free */
			VF_ASSUME(n_peers > 1 && !g[n_peers - 1].conn);
			backlog = --n_peers;
			memset(&peers[n_peers], 0, sizeof peers[0]);
			memset(&g[n_peers], 0, sizeof g[0]);
			break;
		case 'K': { int c = *++s - '0'; VF_ASSUME(g[c].ndev); ev_close_device(c, g[c].dev[g[c].ndev - 1].id); break; }
		case 'c': ev_connect(); break;
		case 'o': ev_open_seat(*++s - '0'); break;
		case 'x': ev_close_seat(*++s - '0'); break;
		case 'd': { int c = *++s - '0'; ev_open_device(c, *++s - '0'); break; }
		case 'k': { int c = *++s - '0'; ev_close_device(c, *++s - '0'); break; }
		case 's': { /* switch to the session of client n */ int c = *++s - '0'; ev_switch(c, g[*++s - '0'].session); break; }
		case 'a': ev_ack(*++s - '0'); break;
		case 'h': ev_hangup(*++s - '0', false); break;
		case 'v': ev_vt(*++s - '0'); break;
		case '!': f_on = true; break;
		case 'm': { int c = *++s - '0'; ev_malformed(c, (int)vf_param("len", 6)); break; }
		case 'f': { int c = *++s - '0'; attach_fds(c, *++s - '0'); break; }
		case 'l': { int c = *++s - '0'; ev_long_path(c, nd_pick("len", vf_param("lmin", 254), vf_param("lmax", 258))); break; }
		case 'n': { int c = *++s - '0'; ev_open_named(c, (int)vf_param("nlen", 18)); break; }
		case 'N': { int c = *++s - '0'; ev_open_alias(c, (int)vf_param("nlen", 18)); break; }
		case 't': ev_terminate(nd_bool("int") ? SIGINT : SIGTERM); break;
		case 'p': ev_ping(*++s - '0'); break;
		case 'D': { int c = *++s - '0', n = (int)vf_param("many", 127); for (int i = 0; i < n; i++) ev_open_device(c, MANY0 + i); break; }
		case 'B': { /* an open or close around the limit */
			int c = *++s - '0', n = (int)vf_param("many", 127);
			if (nd_bool("open")) { /* also the oldest ones again */ int k = nd_pick("path", 0, 4); ev_open_device(c, MANY0 + (k < 2 ? k : n - 3 + k)); break; }
			int id = nd_int("device");
			VF_ASSUME(id <= 2 || id >= n - 1);
			ev_close_device(c, id);
			break;
		}
		default: VF_ASSUME(0);
		}
		if (!server.running) break;
	}
	f_on = false;
	VF_WITNESS("end");
	/* everyone leaves, then shutdown: nothing may remain */
	if (vf_param("teardown", 1)) {
		begin(-1);
		acting = -1;
		tearing = true;
		server_finish(&server);
		for (int i = 0; i < NPEER; i++) { g[i].conn = false; if (g[i].st != G_OUT) left_seat(i); }
		VF_ASSERT("C11", heap_live == 0, "shutdown frees all memory");
#ifdef EMBED
		VF_ASSERT("C11", srv_fds() == 0, "shutdown closes all descriptors");
#else
		VF_ASSERT("C11", srv_fds() == 1 && fdtab[listen_fd], "shutdown closes all descriptors");
#endif
		for (int sg = 1; sg < 32; sg++) VF_ASSERT("C11,C13", sig_handler[sg] == NULL || sig_handler[sg] == SIG_DFL, "shutdown restores the signal handlers");
		for (int i = 1; i < n_ofd; i++) if (ofds[i].handed && !ofds[i].stuck) {
			if (ofds[i].kind == K_EVDEV || ofds[i].kind == K_HIDRAW) VF_ASSERT("C02,C11", ofds[i].revoked, "shutdown revokes input devices");
			if (ofds[i].kind == K_DRM) VF_ASSERT("C02,C11", !ofds[i].master, "shutdown drops DRM master");
		}
		if (vtb && !f_n) for (int v = 1; v <= NVT; v++) VF_ASSERT("C07,C11", !vts[v].graphics && !vts[v].kbd_off && !vts[v].raw, "shutdown restores every console");
		VF_WITNESS("shutdown");
	}
	return 0;
}
