// A small stage for demonstrations: the daemon of /repo in this process, with
// clients on socket pairs, made-up devices (memory files holding their path)
// and made-up VTs. Nothing outside this process is touched.
#define _GNU_SOURCE
#include <assert.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/kd.h>
#include <linux/vt.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>
#include "client.h"
#include "log.h"
#include "poller.h"
#include "protocol.h"
#include "seat.h"
#include "server.h"

#define CHECK(c) do { if (!(c)) { fprintf(stderr, "DEMO: %s:%d: %s\n", __FILE__, __LINE__, #c); exit(1); } } while (0)

int __real_open(const char *p, int f, ...);
int __real_close(int fd);
int __real_dup(int fd);
int __real_ioctl(int fd, unsigned long req, ...);

static struct desc { int dev; char path[300]; bool tty, revoked, master; int opens, refs, revokes; int flags; } D[4096];
static int nD = 1, fdD[4096];
static bool revoke_fails_once, dup_fails_once, kbd_fails_once;
static char last_open[300];
static int last_flags, n_opens;

static struct { bool proc, gfx, kbd_off; int touched; } VT[16];
static int front = 1, vt_pending, n_rel_ack, n_rel_refused, n_acq_ack, vt_fail_state;

__attribute__((unused)) static struct desc *desc_of(const char *path) {
	for (int i = nD - 1; i > 0; i--) if (strcmp(D[i].path, path) == 0) return &D[i];
	return NULL;
}
int __wrap_open(const char *p, int f, ...) {
	if (strncmp(p, "/dev/", 5) != 0) return __real_open(p, f, 0600);
	int fd = memfd_create("dev", 0);
	CHECK(fd >= 0);
	CHECK(write(fd, p, strlen(p)) == (ssize_t)strlen(p));
	struct desc *d = &D[nD];
	snprintf(d->path, sizeof d->path, "%s", p);
	d->tty = strncmp(p, "/dev/tty", 8) == 0;
	if (!d->tty) { snprintf(last_open, sizeof last_open, "%s", p); last_flags = f; n_opens++; }
	d->flags = f;
	d->refs = 1;
	fdD[fd] = nD++;
	return fd;
}
int __wrap_close(int fd) {
	if (fd >= 0 && fd < 4096 && fdD[fd]) { D[fdD[fd]].refs--; fdD[fd] = 0; }
	return __real_close(fd);
}
int __wrap_dup(int fd) {
	if (dup_fails_once) { dup_fails_once = false; errno = EMFILE; return -1; }
	int n = __real_dup(fd);
	if (n >= 0 && fdD[fd]) { fdD[n] = fdD[fd]; D[fdD[n]].refs++; }
	return n;
}
char *__wrap_realpath(const char *p, char *out) {
	if (strncmp(p, "/dev/", 5) != 0 || strstr(p, "missing")) { errno = ENOENT; return NULL; }
	if (strncmp(p, "/dev/link-", 10) == 0) {
		int n = 0;
		strcpy(out, "/dev/");
		for (const char *s = p + 10; *s; s++) out[5 + n++] = *s == '-' ? '/' : *s;
		out[5 + n] = 0;
		return out;
	}
	const char *up = strstr(p, "/../");
	if (up) { sprintf(out, "/dev%s", up + 3); return out; }
	strcpy(out, p);
	return out;
}
static void vt_try(int to) {
	if (to == front) return;
	if (VT[front].proc) { vt_pending = to; raise(SIGUSR1); return; }
	front = to;
	if (VT[front].proc) raise(SIGUSR2);
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	unsigned long arg = va_arg(ap, unsigned long);
	va_end(ap);
	if (fd < 0 || fd >= 4096 || !fdD[fd]) { errno = EBADF; return -1; }
	struct desc *d = &D[fdD[fd]];
	if (!d->tty) {
		if (strncmp(d->path, "/dev/dri/", 9) == 0) {
			if ((req & 0xff) == 0x1e) d->master = true; else d->master = false;
		} else {
			if (revoke_fails_once) { revoke_fails_once = false; errno = EIO; return -1; }
			d->revoked = true; d->revokes++;
		}
		return 0;
	}
	int vt = atoi(d->path + 8);
	if (vt == 0) vt = front;
	CHECK(vt < 16);
	switch (req) {
	case VT_GETSTATE:
		if (vt_fail_state > 0) { vt_fail_state--; errno = EIO; return -1; }
		((struct vt_stat *)arg)->v_active = front;
		return 0;
	case VT_SETMODE: VT[vt].proc = ((struct vt_mode *)arg)->mode == VT_PROCESS; VT[vt].touched++; return 0;
	case VT_ACTIVATE: vt_try((int)arg); return 0;
	case VT_RELDISP:
		if (arg == VT_ACKACQ) { n_acq_ack++; return 0; }
		if (arg == 0) { n_rel_refused++; vt_pending = 0; return 0; }
		n_rel_ack++;
		if (vt_pending) { front = vt_pending; vt_pending = 0; if (VT[front].proc) raise(SIGUSR2); }
		return 0;
	case KDSKBMODE:
		if (kbd_fails_once) { kbd_fails_once = false; errno = EIO; return -1; }
		VT[vt].kbd_off = (int)arg == 4; VT[vt].touched++; return 0;
	case KDSETMODE: VT[vt].gfx = (int)arg == KD_GRAPHICS; VT[vt].touched++; return 0;
	}
	errno = EINVAL;
	return -1;
}

static struct server server;
static struct event_source_fd *ticker;
static int tickp[2];
static int tick(int fd, uint32_t mask, void *data) {
	(void)mask; (void)data; char c;
	return read(fd, &c, 1) == 1 ? 0 : -1;
}
static void start(bool vtbound) {
	setvbuf(stderr, NULL, _IONBF, 0);
	signal(SIGALRM, SIG_DFL);
	alarm(60);
	setenv("SEATD_VTBOUND", vtbound ? "1" : "0", 1);
	log_init();
	libseat_set_log_level(LIBSEAT_LOG_LEVEL_SILENT);
	CHECK(server_init(&server) == 0);
	CHECK(pipe(tickp) == 0);
	ticker = poller_add_fd(&server.poller, tickp[0], EVENT_READABLE, tick, NULL);
}
__attribute__((unused)) static void step(int n) {
	while (n-- > 0) { CHECK(write(tickp[1], "", 1) == 1); CHECK(poller_poll(&server.poller) == 0); }
}
#define SETTLE() step(8)
__attribute__((unused)) static int connect_client(void) {
	int s[2];
	CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, s) == 0);
	CHECK(server_add_client(&server, s[0]) == 0);
	fcntl(s[1], F_SETFL, O_NONBLOCK);
	return s[1];
}
__attribute__((unused)) static void raw(int fd, const void *b, size_t n) { CHECK(write(fd, b, n) == (ssize_t)n); }
__attribute__((unused)) static void req(int fd, uint16_t op, const void *b, size_t n) {
	char m[600];
	struct proto_header h = {.opcode = op, .size = (uint16_t)n};
	memcpy(m, &h, sizeof h);
	if (n) memcpy(m + sizeof h, b, n);
	raw(fd, m, sizeof h + n);
}
__attribute__((unused)) static void req_int(int fd, uint16_t op, int v) { req(fd, op, &v, sizeof v); }
__attribute__((unused)) static void req_open(int fd, const char *path) {
	char m[400];
	uint16_t l = (uint16_t)(strlen(path) + 1);
	memcpy(m, &l, 2);
	memcpy(m + 2, path, l);
	req(fd, CLIENT_OPEN_DEVICE, m, 2 + l);
}
// next message from the daemon: its opcode, 0 if none is there, -1 if the connection ended
static int last_fd = -1;
static char last_body[600];
static int last_size;
__attribute__((unused)) static int take(int fd) {
	struct proto_header h;
	char c[CMSG_SPACE(4 * sizeof(int))];
	struct iovec v = {&h, sizeof h};
	struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1, .msg_control = c, .msg_controllen = sizeof c};
	last_fd = -1;
	ssize_t n = recvmsg(fd, &m, MSG_DONTWAIT);
	if (n == 0) return -1;
	if (n < 0) return errno == EAGAIN ? 0 : -1;
	CHECK(n == sizeof h);
	struct cmsghdr *cm = CMSG_FIRSTHDR(&m);
	if (cm) memcpy(&last_fd, CMSG_DATA(cm), sizeof(int));
	last_size = h.size;
	if (h.size) CHECK(read(fd, last_body, h.size) == h.size);
	return h.opcode;
}
__attribute__((unused)) static int body_int(void) { int v; memcpy(&v, last_body, sizeof v); return v; }
__attribute__((unused)) static int count_fds(void) {
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	while (readdir(d)) n++;
	closedir(d);
	return n;
}
// open the seat and take the two messages
__attribute__((unused)) static int join(void) {
	int c = connect_client();
	req(c, CLIENT_OPEN_SEAT, NULL, 0);
	SETTLE();
	return c;
}
__attribute__((unused)) static int join_active(void) {
	int c = join();
	CHECK(take(c) == SERVER_SEAT_OPENED);
	CHECK(take(c) == SERVER_ENABLE_SEAT);
	return c;
}
__attribute__((unused)) static int open_dev(int c, const char *p) {
	req_open(c, p);
	SETTLE();
	CHECK(take(c) == SERVER_DEVICE_OPENED);
	return body_int();
}
__attribute__((unused)) static void stop(void) { server_finish(&server); }
