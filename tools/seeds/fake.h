/* libseat's seatd backend against a server that does what the demo says */
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
#include "libseat.h"
#include "protocol.h"
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "DEMO: %s:%d: %s\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
static int lfd;
static void put(int c, const void *b, int n) { send(c, b, n, MSG_NOSIGNAL); }
static void msg(int c, uint16_t op, const void *pl, uint16_t n) {
	uint8_t b[600];
	memcpy(b, &op, 2);
	memcpy(b + 2, &n, 2);
	memcpy(b + 4, pl, n);
	put(c, b, 4 + n);
}
static void msg_fd(int c, uint16_t op, const void *pl, uint16_t n, int fd) {
	uint8_t b[600];
	memcpy(b, &op, 2);
	memcpy(b + 2, &n, 2);
	memcpy(b + 4, pl, n);
	char ctl[CMSG_SPACE(sizeof(int))] = {0};
	struct iovec v = {b, 4 + n};
	struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1, .msg_control = ctl, .msg_controllen = sizeof ctl};
	struct cmsghdr *h = CMSG_FIRSTHDR(&m);
	h->cmsg_level = SOL_SOCKET;
	h->cmsg_type = SCM_RIGHTS;
	h->cmsg_len = CMSG_LEN(sizeof(int));
	memcpy(CMSG_DATA(h), &fd, sizeof fd);
	sendmsg(c, &m, MSG_NOSIGNAL);
}
static void serve(int c, uint16_t op, uint8_t *pl, int n);
static void usual(int c, uint16_t op) {
	static int id;
	switch (op) {
	case CLIENT_OPEN_SEAT: msg(c, SERVER_SEAT_OPENED, "\6\0seat0", 8); break;
	case CLIENT_CLOSE_SEAT: msg(c, SERVER_SEAT_CLOSED, "", 0); break;
	case CLIENT_OPEN_DEVICE: { int fd = open("/dev/null", O_RDWR), i = ++id; msg_fd(c, SERVER_DEVICE_OPENED, &i, 4, fd); close(fd); break; }
	case CLIENT_CLOSE_DEVICE: msg(c, SERVER_DEVICE_CLOSED, "", 0); break;
	case CLIENT_DISABLE_SEAT: msg(c, SERVER_SEAT_DISABLED, "", 0); break;
	case CLIENT_SWITCH_SESSION: msg(c, SERVER_SESSION_SWITCHED, "", 0); break;
	case CLIENT_PING: msg(c, SERVER_PONG, "", 0); break;
	}
}
static void *thread(void *d) {
	for (;;) {
		int c = accept(lfd, NULL, NULL);
		if (c < 0) return NULL;
		for (;;) {
			uint16_t h[2];
			uint8_t pl[65536];
			if (recv(c, h, 4, MSG_WAITALL) != 4) break;
			if (h[1] && recv(c, pl, h[1], MSG_WAITALL) != h[1]) break;
			serve(c, h[0], pl, h[1]);
		}
		close(c);
	}
}
static void start(void) {
	struct sockaddr_un a = {.sun_family = AF_UNIX};
	snprintf(a.sun_path, sizeof a.sun_path, "%s/fake", SCRATCH);
	lfd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
	CHECK(bind(lfd, (void *)&a, sizeof a) == 0 && listen(lfd, 4) == 0);
	setenv("LIBSEAT_BACKEND", "seatd", 1);
	setenv("SEATD_SOCK", a.sun_path, 1);
	alarm(30);
	pthread_t t;
	pthread_create(&t, NULL, thread, NULL);
}
static int readable(int fd, int ms) { struct pollfd p = {fd, POLLIN}; return poll(&p, 1, ms) == 1; }
