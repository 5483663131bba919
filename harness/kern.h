/*
 * Model of the kernel the daemon runs on: descriptors and open file
 * descriptions, evdev revocation, DRM mastership, virtual terminals with the
 * release/acquire signal handshake, sockets with descriptor passing, poll,
 * signals. Used identically by the symbolic run and the native replay.
 *
 * What the daemon can ask for is checked here; what the world can do to it is
 * chosen by the harness.
 */
#ifndef KERN_H
#define KERN_H
#define VF_ENV
#include "rename.h"
#include "vf.h"
#include <linux/input.h>
/* PLAT: the system the daemon is built for; 1 Linux, 2 FreeBSD, 3 NetBSD */
#ifndef PLAT
#define PLAT 1
#endif
#if PLAT == 1
#include <linux/kd.h>
#include <linux/vt.h>
#else
#include "bsd/plat.h"
#include "bsd/freebsd/sys/ucred.h"
#include "bsd/netbsd/sys/un.h"
#define K_OFF K_RAW
#endif

#ifndef HIDIOCREVOKE
#define HIDIOCREVOKE _IOW('H', 0x0D, int)
#endif
#define DRM_SET 0x641e
#define DRM_DROP 0x641f

enum kind { K_NONE, K_SOCK, K_LISTEN, K_TTY, K_EVDEV, K_DRM, K_HIDRAW, K_PIPER, K_PIPEW, K_OTHER, K_CLIENTFD, K_WSCONS };
struct ofd {
	uint8_t kind;
	bool revoked, master;
	bool stuck; /* taking the device away from the client failed in the kernel */
	int obj;      /* sock: peer; tty: vt; device: path index; pipe: index */
	int srv_refs; /* descriptors of the daemon */
	int cl_refs;  /* descriptors handed to clients */
	int owner;    /* client that asked for it, -1 */
	bool handed;  /* ever sent to a client */
};
#ifndef NOFD
#define NOFD 48
#define NFD 48
#endif
static struct ofd ofds[NOFD];
static int n_ofd = 1;
static int fdtab[NFD]; /* ofd index, 0 = closed */
static bool fd_cloexec[NFD], fd_nonblock[NFD];
#define FD0 5

/* fault injection: at most F faults of the kinds in FM per history */
enum { FM_ALLOC = 1, FM_TTY = 2, FM_OPEN = 4, FM_DUP = 8, FM_SEND_AGAIN = 16, FM_SEND_ERR = 32, FM_REVOKE = 64, FM_RECV = 128, FM_CONN = 256, FM_REALPATH = 512, FM_SHORT = 1024 };
static int f_max, f_mask, f_n, f_send;
static bool f_on;
static int f_kinds; /* kinds injected so far */
static bool fault(int kind, int e) {
	if (!f_on || !(f_mask & kind) || f_n >= f_max) return false;
	if (!nd_bool("fault")) return false;
	f_n++;
	f_send += kind == FM_SEND_ERR;
	f_kinds |= kind;
	errno = any_errno(e);
	return true;
}

#ifndef NPEER
#define NPEER 4
#endif
#ifndef QLEN
#define QLEN 1024
#endif
/* hooks a harness provides */
static void on_send(int peer, const uint8_t *b, size_t n);  /* bytes left the daemon */
static void on_send_fd(int peer, int ofd);                  /* descriptor left the daemon */
static void on_vt_ack_release(void);
static void on_dev_open(const char *path, int flags, int idx);

struct peer {
	bool exists, gone; /* gone: the peer closed its end */
	bool half;         /* the peer shut down its sending side */
	bool send_err;     /* sending to it failed for good */
	bool err;          /* it closed its end with data unread */
	bool shut;         /* the daemon shut the connection down */
	bool srv_closed;   /* the daemon closed its end */
	bool blocked;      /* socket buffer full: sends fail with EAGAIN */
	uint8_t in[QLEN];
	int in_len, in_pos;
	int infds[8], n_infds; /* descriptors sent along (ofds) */
	uint32_t uid, gid;
};
static struct peer peers[NPEER];
static int n_peers;
static int backlog; /* peers connected and not accepted: index of next to accept */

static int ofd_new(int kind, int obj) {
	VF_ASSUME(n_ofd < NOFD);
	ofds[n_ofd].kind = kind;
	ofds[n_ofd].obj = obj;
	ofds[n_ofd].owner = -1;
	return n_ofd++;
}
static int fd_install(int o) {
	for (int i = FD0; i < NFD; i++) {
		if (!fdtab[i]) {
			fdtab[i] = o;
			fd_cloexec[i] = fd_nonblock[i] = false;
			ofds[o].srv_refs++;
			return i;
		}
	}
	VF_ASSUME(0);
	return -1;
}
static struct ofd *fd_get(int fd) {
	if (fd < 0 || fd >= NFD || !fdtab[fd]) return NULL;
	return &ofds[fdtab[fd]];
}
static void ofd_released(struct ofd *o) {
	if (o->srv_refs + o->cl_refs == 0) o->master = false;
}
static int bad_close;
int env_close(int fd) {
	struct ofd *o = fd_get(fd);
	if (!o) {
		if (fd >= 0) { bad_close++; VF_ASSERT("*", 0, "close() of a descriptor the daemon does not own"); }
		errno = EBADF;
		return -1;
	}
	fdtab[fd] = 0;
	o->srv_refs--;
	if (o->srv_refs == 0 && o->kind == K_SOCK) peers[o->obj].srv_closed = true;
	ofd_released(o);
	return 0;
}
int env_dup(int fd) {
	struct ofd *o = fd_get(fd);
	if (!o) { errno = EBADF; return -1; }
	if (fault(FM_DUP, EMFILE)) return -1;
	return fd_install(fdtab[fd]);
}
int env_fcntl(int fd, int cmd, int arg) {
	if (!fd_get(fd)) { errno = EBADF; return -1; }
	if (fault(FM_CONN, EBADF)) return -1;
	switch (cmd) {
	case F_GETFD: return fd_cloexec[fd] ? FD_CLOEXEC : 0;
	case F_SETFD: fd_cloexec[fd] = arg & FD_CLOEXEC; return 0;
	case F_GETFL: return O_RDWR | (fd_nonblock[fd] ? O_NONBLOCK : 0);
	case F_SETFL: fd_nonblock[fd] = arg & O_NONBLOCK; return 0;
	case F_DUPFD: case F_DUPFD_CLOEXEC: {
		if (fault(FM_DUP, EMFILE)) return -1;
		int n = fd_install(fdtab[fd]);
		fd_cloexec[n] = cmd == F_DUPFD_CLOEXEC;
		return n;
	}
	}
	errno = EINVAL;
	return -1;
}

/* ---------- devices ---------- */
static const struct { const char *path; int kind; } devs[] = {
#if PLAT == 3
	{"/dev/wskbd0", K_WSCONS},
	{"/dev/dri/card0", K_DRM},
	{"/dev/wsmouse1", K_WSCONS},
#else
	{"/dev/input/event0", K_EVDEV},
	{PLAT == 2 ? "/dev/drm/0" : "/dev/dri/card0", K_DRM},
	{"/dev/input/event1", K_EVDEV},
#endif
	{"/dev/hidraw0", K_HIDRAW},
	{"/dev/sda", K_OTHER},
	{"/dev/input/mice", K_OTHER},
	{PLAT == 3 ? "/dev/input/event0" : "/dev/tty1", K_OTHER},
};
/* how terminal n is called */
#if PLAT == 2
#define TTYPRE "/dev/ttyv"
#define TTYNUM(s) (1 + atoi(s))
#elif PLAT == 3
#define TTYPRE "/dev/ttyE"
#define TTYNUM(s) atoi(s)
#else
#define TTYPRE "/dev/tty"
#define TTYNUM(s) atoi(s)
#endif
#define TTYPN ((int)sizeof TTYPRE - 1)
#define NDEVS ((int)(sizeof devs / sizeof devs[0]))
#define MANY0 100 /* device MANY0+k is /dev/input/event<k+10> */
static int dev_kind(int i) { return i >= MANY0 ? K_EVDEV : devs[i].kind; }
#define SYMDEV 50 /* a device whose canonical name is arbitrary */
#ifndef SYMLEN
#define SYMLEN 18
#endif
static char sym_path[SYMLEN + 1];
static int heap_live;
void *env_malloc(size_t n);
static void on_realpath(const char *p);
static int rp_choice;      /* what realpath() of the requested name is; -1 fails */
static int rp_errno, open_errno; /* errno of an injected or chosen failure */
static int acting = -1;    /* client whose request is being served */
static int n_dev_open;
char *env_realpath(const char *p, char *out) {
#ifdef REALPATH_BY_NAME /* "/a.." is device 0, "/b.." device 1, ... */
	rp_choice = p[0] == '/' && p[1] >= 'a' && p[1] < 'a' + NDEVS ? p[1] - 'a' : -1;
	rp_errno = ENOENT;
#endif
	on_realpath(p);
	if (rp_choice >= 0 && fault(FM_REALPATH, ELOOP)) rp_errno = errno, rp_choice = -1;
	if (rp_choice < 0) { errno = rp_errno; return NULL; }
	bool mine = out == NULL;
	if (mine) out = env_malloc(PATH_MAX);
	if (!out) return NULL;
	if (rp_choice == SYMDEV) strcpy(out, sym_path);
	else if (rp_choice >= MANY0) env_snprintf(out, 40, "/dev/input/event%d", rp_choice - MANY0 + 10);
	else strcpy(out, devs[rp_choice].path);
	return out;
}

/* ---------- virtual terminals ---------- */
#define NVT 6
static int vt_active = 1;
static int vt_pending; /* switch waiting for the release ack of the active VT */
static struct { bool process, graphics, kbd_off, raw, f_gfx, f_kbd, f_open; /* f_: the last attempt to change it failed */ } vts[NVT + 1];
static bool vt_read_failed; /* the VT in front could not be determined */
static int n_rel_sig, n_rel_ack, n_acq_sig, n_acq_ack, n_activate, activate_arg, n_vt_fail;
static void raise_sig(int s);
static void vt_do_switch(int v) {
	vt_active = v;
	if (vts[v].process) { n_acq_sig++; raise_sig(SIGUSR2); }
}
static void vt_request(int v) {
	if (v < 1 || v > NVT || v == vt_active || vt_pending) return;
	if (vts[vt_active].process) {
		vt_pending = v;
		n_rel_sig++;
		raise_sig(SIGUSR1);
	} else vt_do_switch(v);
}

/* the user switches away while a request is being served; the VT is under the
 * daemon's control, so the kernel waits for it */
static int race;
static bool raced;
static void maybe_race(void) {
	if (race <= 0 || !f_on || !vts[vt_active].process || vt_pending) return;
	if (!nd_bool("race")) return;
	race--;
	raced = true;
	vt_request(vt_active == 1 ? 2 : 1);
	VF_WITNESS("race");
}
int env_open(const char *path, int flags, int mode) {
	(void)mode;
	maybe_race();
	if (!strncmp(path, TTYPRE, TTYPN) && path[TTYPN] >= '0' && path[TTYPN] <= '9') {
		int v = TTYNUM(path + TTYPN);
		VF_ASSERT("*", v >= 0, "tty number");
		if (fault(FM_TTY, EMFILE)) { n_vt_fail++; if (v == 0) vt_read_failed = true; else if (v <= NVT) vts[v].f_open = true; return -1; }
		if (v > NVT) { errno = ENXIO; return -1; }
		int fd = fd_install(ofd_new(K_TTY, v ? v : vt_active));
		fd_cloexec[fd] = flags & O_CLOEXEC;
		VF_ASSERT("*", flags & O_NOCTTY, "a terminal is opened with O_NOCTTY");
		return fd;
	}
	int idx = -1;
	if (rp_choice == SYMDEV) { on_dev_open(path, flags, SYMDEV); errno = open_errno = ENXIO; return -1; }
	for (int i = 0; i < NDEVS; i++) if (!strcmp(path, devs[i].path)) idx = i;
	if (idx < 0 && rp_choice >= MANY0 && !strncmp(path, "/dev/input/event", 16)) idx = MANY0 + atoi(path + 16) - 10;
	on_dev_open(path, flags, idx);
	if (idx < 0) { errno = ENOENT; return -1; }
	if (fault(FM_OPEN, EACCES)) { open_errno = errno; return -1; }
	n_dev_open++;
	int o = ofd_new(dev_kind(idx), idx);
	ofds[o].owner = acting;
	if (dev_kind(idx) == K_DRM) {
		bool other = false;
		for (int i = 1; i < o; i++) if (ofds[i].kind == K_DRM && ofds[i].obj == idx && ofds[i].master) other = true;
		ofds[o].master = !other; /* the opener becomes master when there is none */
	}
	int fd = fd_install(o);
	fd_cloexec[fd] = flags & O_CLOEXEC;
	return fd;
}
int env_ioctl(int fd, unsigned long req, void *arg) {
	struct ofd *f = fd_get(fd);
	if (!f) { VF_ASSERT("*", 0, "ioctl on a descriptor the daemon does not own"); errno = EBADF; return -1; }
	uint32_t r = (uint32_t)req;
	maybe_race();
	if (f->kind == K_TTY) {
		int v = f->obj;
		if (fault(FM_TTY, EIO)) {
			n_vt_fail++;
			if (r == VT_GETSTATE) vt_read_failed = true;
			if (r == KDSKBMODE) vts[v].f_kbd = true;
			if (r == KDSETMODE) vts[v].f_gfx = true;
			return -1;
		}
		switch (r) {
#if PLAT == 2
		case VT_GETACTIVE: *(int *)arg = vt_active; return 0;
#else
		case VT_GETSTATE: memset(arg, 0, sizeof(struct vt_stat)); ((struct vt_stat *)arg)->v_active = vt_active; return 0;
#endif
		case VT_SETMODE: {
			struct vt_mode *m = arg;
			vts[v].process = m->mode == VT_PROCESS;
			if (m->mode == VT_PROCESS) VF_ASSERT("C06", m->relsig == SIGUSR1 && m->acqsig == SIGUSR2, "VT switching signals are the ones the daemon handles");
			return 0;
		}
		case VT_ACTIVATE: n_activate++; activate_arg = (int)(uintptr_t)arg; vt_request(activate_arg); return 0;
		case VT_RELDISP:
			if ((uintptr_t)arg == 1) {
				n_rel_ack++;
				VF_ASSERT("C06", vt_pending, "a release is acknowledged only when one is pending");
				if (!vt_pending) { errno = EINVAL; return -1; }
				VF_ASSERT("C06", v == vt_active, "the release of the VT being left is acknowledged");
				on_vt_ack_release();
				int t = vt_pending;
				vt_pending = 0;
				vt_do_switch(t);
			} else if ((uintptr_t)arg == VT_ACKACQ) {
				n_acq_ack++;
			} else if ((uintptr_t)arg == 0) {
				VF_ASSERT("C06", 0, "a VT switch is never refused");
				vt_pending = 0;
			}
			return 0;
		case KDSKBMODE: vts[v].f_kbd = false; vts[v].kbd_off = (uintptr_t)arg == K_OFF; return 0;
		case KDSETMODE: vts[v].f_gfx = false; vts[v].graphics = (uintptr_t)arg == KD_GRAPHICS; return 0;
		}
		errno = EINVAL;
		return -1;
	}
	if (f->kind == K_EVDEV && r == (uint32_t)EVIOCREVOKE) {
		if (fault(FM_REVOKE, EIO)) { f->stuck = true; return -1; }
		f->revoked = true;
		return 0;
	}
	if (f->kind == K_HIDRAW && r == (uint32_t)HIDIOCREVOKE) {
		if (fault(FM_REVOKE, EIO)) { f->stuck = true; return -1; }
		f->revoked = true;
		return 0;
	}
	if (f->kind == K_DRM && r == DRM_SET) {
		for (int i = 1; i < n_ofd; i++)
			if (&ofds[i] != f && ofds[i].kind == K_DRM && ofds[i].obj == f->obj && ofds[i].master) { errno = EBUSY; return -1; }
		if (fault(FM_REVOKE, EIO)) return -1;
		f->master = true;
		return 0;
	}
	if (f->kind == K_DRM && r == DRM_DROP) {
		if (fault(FM_REVOKE, EIO)) { f->stuck = true; return -1; }
		if (!f->master) { errno = EINVAL; return -1; }
		f->master = false;
		return 0;
	}
	errno = ENOTTY;
	return -1;
}

#if PLAT == 2
int env_tcgetattr(int fd, struct termios *t) {
	struct ofd *f = fd_get(fd);
	VF_ASSERT("*", f && f->kind == K_TTY, "terminal settings are read from a terminal");
	if (fault(FM_TTY, EIO)) { n_vt_fail++; vts[f->obj].f_kbd = true; return -1; }
	memset(t, 0, sizeof *t);
	t->c_lflag = vts[f->obj].raw;
	return 0;
}
int env_tcsetattr(int fd, int how, const struct termios *t) {
	struct ofd *f = fd_get(fd);
	(void)how;
	VF_ASSERT("*", f && f->kind == K_TTY, "terminal settings are changed on a terminal");
	if (fault(FM_TTY, EIO)) { n_vt_fail++; vts[f->obj].f_kbd = true; return -1; }
	vts[f->obj].raw = t->c_lflag & 1;
	return 0;
}
void env_cfmakeraw(struct termios *t) { t->c_lflag = 1; }
void env_cfmakesane(struct termios *t) { t->c_lflag = 0; }
#endif

/* ---------- pipes, signals, poll ---------- */
static int pipe_bytes;
static int n_pipes;
int env_pipe(int p[2]) {
	if (fault(FM_CONN, EMFILE)) return -1;
	n_pipes++;
	p[0] = fd_install(ofd_new(K_PIPER, n_pipes));
	p[1] = fd_install(ofd_new(K_PIPEW, n_pipes));
	return 0;
}
int env_pipe2(int p[2], int flags) {
	if (env_pipe(p) == -1) return -1;
	for (int i = 0; i < 2; i++) fd_cloexec[p[i]] = flags & O_CLOEXEC, fd_nonblock[p[i]] = flags & O_NONBLOCK;
	return 0;
}
ssize_t env_write(int fd, const void *b, size_t n) {
	struct ofd *o = fd_get(fd);
	(void)b;
	if (!o || o->kind != K_PIPEW) { errno = EBADF; return -1; }
	if (pipe_bytes + n > 64) { errno = EAGAIN; return -1; }
	pipe_bytes += n;
	return n;
}
ssize_t env_read(int fd, void *b, size_t n) {
	struct ofd *o = fd_get(fd);
	if (!o || o->kind != K_PIPER) { errno = EBADF; return -1; }
	if (!pipe_bytes) {
		VF_ASSERT("*", fd_nonblock[fd], "the signal pipe is read without blocking");
		errno = EAGAIN;
		return -1;
	}
	size_t k = n < (size_t)pipe_bytes ? n : (size_t)pipe_bytes;
	memset(b, 0, k);
	pipe_bytes -= k;
	return k;
}
static void (*sig_handler[32])(int);
int env_sigemptyset(sigset_t *s) { memset(s, 0, sizeof *s); return 0; }
int env_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
	if (o) { memset(o, 0, sizeof *o); o->sa_handler = sig_handler[s]; }
	if (a) sig_handler[s] = a->sa_handler;
	return 0;
}
static int sig_lost;
static void raise_sig(int s) {
	if (sig_handler[s] && sig_handler[s] != SIG_DFL && sig_handler[s] != SIG_IGN) sig_handler[s](s);
	else sig_lost++;
}
static bool sock_readable(int p) { return peers[p].in_pos < peers[p].in_len || peers[p].gone || peers[p].half || peers[p].shut; }
static int n_polls;
static bool poll_blocks;
int env_poll(struct pollfd *fds, nfds_t n, int timeout) {
	(void)timeout;
	int r = 0;
	n_polls++;
	for (nfds_t i = 0; i < n; i++) {
		fds[i].revents = 0;
		struct ofd *o = fd_get(fds[i].fd);
		VF_ASSERT("*", o, "a closed descriptor is polled");
		if (!o) continue;
		short e = 0;
		if (o->kind == K_PIPER && pipe_bytes) e |= POLLIN;
		if (o->kind == K_LISTEN && backlog < n_peers) e |= POLLIN;
		if (o->kind == K_SOCK) {
			if (sock_readable(o->obj)) e |= POLLIN;
			if (!peers[o->obj].blocked) e |= POLLOUT;
			if (peers[o->obj].gone || peers[o->obj].shut) e |= PLAT == 3 ? POLLIN : POLLHUP; /* NetBSD reports the end of a socket as readable */
			if (peers[o->obj].err) e |= POLLERR;
		}
		e &= fds[i].events | POLLHUP | POLLERR;
		fds[i].revents = e;
		if (e) r++;
	}
	poll_blocks = r == 0;
	return r;
}

/* ---------- sockets ---------- */
int env_accept(int fd, struct sockaddr *a, socklen_t *l) {
	(void)a; (void)l;
	struct ofd *o = fd_get(fd);
	if (!o || o->kind != K_LISTEN || backlog >= n_peers) { errno = EAGAIN; return -1; }
	if (fault(FM_CONN, EMFILE)) { backlog++; return -1; }
	int p = backlog++;
	peers[p].exists = true;
	return fd_install(ofd_new(K_SOCK, p));
}
int env_shutdown(int fd, int how) {
	struct ofd *o = fd_get(fd);
	if (!o || (o->kind != K_SOCK && o->kind != K_LISTEN)) { errno = o ? ENOTSOCK : EBADF; return -1; }
	if (o->kind == K_SOCK && how == SHUT_RDWR) peers[o->obj].shut = true;
	return 0;
}
#if PLAT == 3
pid_t env_getpid(void) { return 1; }
uid_t env_getuid(void) { return 0; }
gid_t env_getgid(void) { return 0; }
#endif
int env_getsockopt(int fd, int l, int o, void *v, socklen_t *n) {
	struct ofd *f = fd_get(fd);
#if PLAT == 2
	if (!f || l != 0 || o != LOCAL_PEERCRED || *n < sizeof(struct xucred)) { errno = EINVAL; return -1; }
	if (fault(FM_CONN, ENOPROTOOPT)) return -1;
	struct xucred *x = v;
	memset(x, 0, sizeof *x);
	x->cr_uid = peers[f->obj].uid;
	x->cr_ngroups = 1;
	x->cr_groups[0] = peers[f->obj].gid;
	return 0;
#elif PLAT == 3
	if (!f || l != 0 || o != LOCAL_PEEREID || *n < sizeof(struct unpcbid)) { errno = EINVAL; return -1; }
	if (fault(FM_CONN, ENOPROTOOPT)) return -1;
	*(struct unpcbid *)v = (struct unpcbid){100 + f->obj, peers[f->obj].uid, peers[f->obj].gid};
	return 0;
#endif
	if (!f || l != SOL_SOCKET || o != SO_PEERCRED || *n < sizeof(struct ucred)) { errno = EINVAL; return -1; }
	if (fault(FM_CONN, ENOPROTOOPT)) return -1;
	struct ucred *c = v;
	c->pid = 100 + f->obj;
	c->uid = peers[f->obj].uid;
	c->gid = peers[f->obj].gid;
	return 0;
}
static int frag; /* 0: everything available is received at once, else at most frag bytes */
ssize_t env_recvmsg(int fd, struct msghdr *m, int flags) {
	struct ofd *o = fd_get(fd);
	(void)flags;
	maybe_race();
	if (!o || o->kind != K_SOCK) { errno = EBADF; return -1; }
	struct peer *p = &peers[o->obj];
	if (fault(FM_RECV, ECONNRESET)) return -1;
	if (p->err) { p->err = false; errno = ECONNRESET; return -1; }
	int avail = p->in_len - p->in_pos;
	if (frag && avail > frag) avail = frag;
	size_t ctl = m->msg_controllen;
	if (!avail) {
		if (p->gone || p->half || p->shut) { m->msg_controllen = m->msg_flags = 0; return 0; }
		errno = EAGAIN;
		return -1;
	}
	m->msg_controllen = 0;
	m->msg_flags = 0;
	int n = 0;
	for (size_t v = 0; v < m->msg_iovlen; v++) {
		size_t k = m->msg_iov[v].iov_len;
		if (k > (size_t)(avail - n)) k = avail - n;
		memcpy(m->msg_iov[v].iov_base, p->in + p->in_pos, k);
		p->in_pos += k;
		n += k;
	}
	if (p->n_infds) {
		VF_ASSERT("C10", flags & MSG_CMSG_CLOEXEC, "received descriptors are close-on-exec");
		size_t need = CMSG_LEN(p->n_infds * sizeof(int));
		struct cmsghdr *c = m->msg_control;
		int fit = ctl >= need ? p->n_infds : ctl >= CMSG_LEN(0) ? (ctl - CMSG_LEN(0)) / sizeof(int) : 0;
		for (int i = fit; i < p->n_infds; i++) { /* the kernel drops what there is no room for */
			ofds[p->infds[i]].cl_refs--;
			m->msg_flags |= MSG_CTRUNC;
		}
		p->n_infds = fit;
		if (!fit) return n;
		need = CMSG_LEN(fit * sizeof(int));
		c->cmsg_level = SOL_SOCKET;
		c->cmsg_type = SCM_RIGHTS;
		c->cmsg_len = need;
		for (int i = 0; i < p->n_infds; i++) {
			int nf = fd_install(p->infds[i]);
			fd_cloexec[nf] = flags & MSG_CMSG_CLOEXEC;
			ofds[p->infds[i]].cl_refs--;
			memcpy(CMSG_DATA(c) + i * sizeof(int), &nf, sizeof nf);
		}
		m->msg_controllen = need;
		p->n_infds = 0;
	}
	return n;
}
ssize_t env_sendmsg(int fd, const struct msghdr *m, int flags) {
	maybe_race();
	struct ofd *o = fd_get(fd);
	if (!o || o->kind != K_SOCK) { errno = EBADF; return -1; }
	int pi = o->obj;
	struct peer *p = &peers[pi];
	VF_ASSERT("*", flags & MSG_NOSIGNAL, "sending to a closed socket cannot kill the daemon");
	VF_ASSERT("*", (flags & MSG_DONTWAIT) || fd_nonblock[fd], "sending does not block the daemon");
	if (p->gone || p->shut) { errno = EPIPE; return -1; }
	if (p->blocked) { errno = EAGAIN; return -1; }
	if (fault(FM_SEND_AGAIN, EAGAIN)) { p->blocked = true; return -1; }
	if (fault(FM_SEND_ERR, EPIPE)) { p->send_err = true; return -1; }
	size_t total = 0, done = 0;
	for (size_t v = 0; v < m->msg_iovlen; v++) total += m->msg_iov[v].iov_len;
	size_t lim = total;
	if (total > 1 && fault(FM_SHORT, 0)) lim = (size_t)nd_pick("short", 1, total - 1 > 3 ? 3 : total - 1);
	if (m->msg_control && m->msg_controllen >= CMSG_LEN(0)) {
		const struct cmsghdr *c = m->msg_control;
		VF_ASSERT("*", c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS && c->cmsg_len <= m->msg_controllen, "control message is SCM_RIGHTS");
		int k = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int);
		for (int i = 0; i < k; i++) {
			int f;
			memcpy(&f, CMSG_DATA(c) + i * sizeof(int), sizeof f);
			struct ofd *d = fd_get(f);
			VF_ASSERT("*", d, "a descriptor the daemon does not own is sent");
			if (!d) { errno = EBADF; return -1; }
			d->cl_refs++;
			on_send_fd(pi, fdtab[f]);
		}
	}
	for (size_t v = 0; v < m->msg_iovlen && done < lim; v++) {
		size_t k = m->msg_iov[v].iov_len;
		if (k > lim - done) k = lim - done;
		on_send(pi, m->msg_iov[v].iov_base, k);
		done += k;
	}
	if (done < total) p->blocked = true;
	return done;
}

/* ---------- memory ---------- */
void *env_calloc(size_t n, size_t s) {
	if (fault(FM_ALLOC, ENOMEM)) return NULL;
	heap_live++;
	return calloc(n, s);
}
void *env_malloc(size_t n) {
	if (fault(FM_ALLOC, ENOMEM)) return NULL;
	heap_live++;
	return malloc(n);
}
void *env_realloc(void *p, size_t n) {
	if (fault(FM_ALLOC, ENOMEM)) return NULL;
	if (!p) heap_live++;
	return realloc(p, n);
}
void env_free(void *p) { if (p) heap_live--; free(p); }
char *env_strdup(const char *s) {
	if (fault(FM_ALLOC, ENOMEM)) return NULL;
	heap_live++;
	size_t n = strlen(s) + 1;
	char *p = malloc(n);
	memcpy(p, s, n);
	return p;
}
char *env_strerror(int e) { (void)e; return ""; }
int env_snprintf(char *b, size_t n, const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	int r = vsnprintf(b, n, f, ap);
	va_end(ap);
	return r;
}
#ifndef KERN_REAL_LOG
void _logf(int level, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	vf_log(fmt, ap);
	va_end(ap);
}
void log_init(void) {}
#endif
static const char *vt_env;
char *env_getenv(const char *n) { return !strcmp(n, "SEATD_VTBOUND") ? (char *)vt_env : nd_bool("env") ? "yes" : NULL; }
static int srv_fds(void) { int n = 0; for (int i = FD0; i < NFD; i++) n += fdtab[i] != 0; return n; }
static void kern_reset(void) {
	memset(ofds, 0, sizeof ofds);
	n_ofd = 1;
	memset(fdtab, 0, sizeof fdtab);
	memset(peers, 0, sizeof peers);
	n_peers = backlog = 0;
	memset(vts, 0, sizeof vts);
	vt_active = 1;
	vt_pending = n_rel_sig = n_rel_ack = n_acq_sig = n_acq_ack = n_activate = activate_arg = n_vt_fail = 0;
	pipe_bytes = n_pipes = n_polls = n_dev_open = heap_live = 0;
	memset(sig_handler, 0, sizeof sig_handler);
	f_n = f_send = f_kinds = 0;
	acting = -1;
}
#endif
