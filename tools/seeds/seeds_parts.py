PRE = '''#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>
#include "connection.h"
#include "linked_list.h"
#include "poller.h"
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "DEMO: %s:%d: %s\\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
'''
POLL = dict(pre=PRE, files=['demo_unit.sh'], write={'sources': 'seatd/poller.c common/linked_list.c\n'})
CONN = dict(pre=PRE, files=['demo_unit.sh'], write={'sources': 'common/connection.c\n'})
LIST = dict(pre=PRE, files=['demo_unit.sh'], write={'sources': 'common/linked_list.c\n'})
SEEDS = [
dict(POLL, id='c12-stale-index', property='C12',
 edits=[('seatd/poller.c', 'if (bpfd->pollfd_idx == -1 || bpfd->killed) {', 'if (bpfd->killed) {')],
 needs='a source added from inside a signal handler',
 breaks='the new source is dispatched with an index outside the poll array',
 demo='''
struct poller p;
int b[2], late;
int h2(int fd, uint32_t m, void *d) { late++; return 0; }
int h1(int sig, void *d) {
	for (int i = 0; i < 3; i++) poller_add_fd(&p, b[0], EVENT_READABLE, h2, NULL);
	return 0;
}
int main(void) {
	pipe(b);
	alarm(20);
	poller_init(&p);
	poller_add_signal(&p, SIGUSR1, h1, NULL);
	raise(SIGUSR1);
	poller_poll(&p);
	CHECK(late == 0);
	return 0;
}
'''),
dict(POLL, id='c12-reused-array', property='C12',
 edits=[('seatd/poller.c', '''	while (poll(poller->pollfds, poller->fd_event_sources, -1) == -1) {''', '''	while (poll(poller->pollfds, poller->pollfds_len, -1) == -1) {''')],
 needs='more sources once than now, the removed one still open and readable',
 breaks='a descriptor whose source was destroyed keeps waking up the loop, which then calls nobody',
 demo='''
struct poller p;
int a[2], b[2], called;
int h(int fd, uint32_t m, void *d) { called++; return 0; }
int main(void) {
	pipe(a); pipe(b);
	alarm(20);
	poller_init(&p);
	struct event_source_fd *s = poller_add_fd(&p, b[0], EVENT_READABLE, h, NULL);
	poller_add_fd(&p, a[0], EVENT_READABLE, h, NULL);
	write(a[1], "x", 1);
	poller_poll(&p);
	CHECK(called == 1);
	char c; read(a[0], &c, 1);
	event_source_fd_destroy(s);
	write(b[1], "x", 1);
	if (fork() == 0) { usleep(300000); write(a[1], "x", 1); _exit(0); }
	poller_poll(&p);
	CHECK(called == 2);
	return 0;
}
'''),
dict(POLL, id='c13-handler-killed-by-last', property='C13',
 edits=[('seatd/poller.c', 'if (b->signal == bps->signal && !b->killed) {', 'if (b->signal == bps->signal && b != bps) {')],
 needs='two handlers of the same signal that are both removed before the next iteration',
 breaks='the default action of the signal is not restored',
 demo='''
struct poller p;
int h(int s, void *d) { return 0; }
int main(void) {
	poller_init(&p);
	struct event_source_signal *x = poller_add_signal(&p, SIGUSR1, h, NULL), *y = poller_add_signal(&p, SIGUSR1, h, NULL);
	event_source_signal_destroy(x);
	event_source_signal_destroy(y);
	struct sigaction sa;
	sigaction(SIGUSR1, NULL, &sa);
	CHECK(sa.sa_handler == SIG_DFL);
	return 0;
}
'''),
dict(POLL, id='c13-one-handler-per-round', property='C13',
 edits=[('seatd/poller.c', '''		while (read(poller->signal_fds[0], &garbage, sizeof garbage) != -1) {
		}
''', '''		ssize_t n = read(poller->signal_fds[0], &garbage, sizeof garbage);
'''), ('seatd/poller.c', '''			if (!bps->raised || bps->killed) {
				continue;
			}
''', '''			if (n <= 0 || !bps->raised || bps->killed) {
				continue;
			}
			n--;
''')],
 needs='a signal that is raised again before its handler ran, after which another handler of two is due',
 breaks='handlers are counted by bytes in the pipe: with two handlers of one signal the second one is not called',
 demo='''
struct poller p;
int n;
int h(int s, void *d) { n++; return 0; }
int main(void) {
	alarm(20);
	poller_init(&p);
	poller_add_signal(&p, SIGUSR1, h, NULL);
	poller_add_signal(&p, SIGUSR1, h, NULL);
	raise(SIGUSR1);
	poller_poll(&p);
	CHECK(n == 2);
	return 0;
}
'''),
dict(CONN, id='c14-put-eagain', property='C14',
 edits=[('common/connection.c', '''	if (connection_buffer_size(&connection->out) + count > CONNECTION_BUFFER_SIZE) {
		connection->want_flush = 1;
		if (connection_flush(connection) == -1) {
			return -1;
		}
	}
''', '''	if (connection_buffer_size(&connection->out) + count > CONNECTION_BUFFER_SIZE) {
		connection->want_flush = 1;
		if (connection_flush(connection) == -1 && errno != EAGAIN) {
			return -1;
		}
	}
''')],
 needs='a put that does not fit while the socket is full',
 breaks='bytes that wait to be sent are overwritten',
 demo='''
int main(void) {
	int s[2];
	socketpair(AF_UNIX, SOCK_STREAM, 0, s);
	struct connection c = {.fd = s[0]};
	char b[500];
	memset(b, 'a', sizeof b);
	while (send(s[0], b, sizeof b, MSG_DONTWAIT) > 0) {}
	CHECK(connection_put(&c, b, 500) == 0);
	CHECK(connection_put(&c, b, 100) == -1);
	return 0;
}
'''),
dict(CONN, id='c14-copy-boundary', property='C14',
 edits=[('common/connection.c', '''	memcpy(data, b->data + tail, size);
	memcpy((char *)data + size, b->data, count - size);
}
/*''', '''	memcpy(data, b->data + tail, size);
	memcpy((char *)data + size, b->data + (b->head == b->tail + count), count - size);
}
/*''')],
 needs='a message that wraps around the end of the ring and is the last one in it',
 breaks='the bytes after the wrap are shifted by one',
 demo='''
int main(void) {
	int s[2];
	socketpair(AF_UNIX, SOCK_STREAM, 0, s);
	struct connection c = {.fd = s[0]};
	char b[600], o[600];
	memset(b, 'a', sizeof b);
	write(s[1], b, 500);
	CHECK(connection_read(&c) == 500 && connection_get(&c, o, 500) == 500);
	for (int i = 0; i < 40; i++) b[i] = 'A' + i;
	write(s[1], b, 40);
	CHECK(connection_read(&c) == 40 && connection_get(&c, o, 40) == 40);
	CHECK(memcmp(b, o, 40) == 0);
	return 0;
}
'''),
dict(CONN, id='c15-fds-closed-on-error', property='C15',
 edits=[('common/connection.c', '''				close(((int *)CMSG_DATA(cmsg))[idx]);''', '''				if (idx < max / sizeof(int)) {
					close(((int *)CMSG_DATA(cmsg))[idx]);
				}''')],
 needs='more descriptors in one message than there is room left for',
 breaks='the descriptors beyond the room left are leaked',
 demo='''
#include <dirent.h>
int count(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
void sendfds(int s, int n) {
	int fds[128];
	for (int i = 0; i < n; i++) fds[i] = 0;
	char x = 'x', cm[CMSG_SPACE(sizeof fds)];
	struct iovec v = {&x, 1};
	struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1, .msg_control = cm, .msg_controllen = CMSG_LEN(n * 4)};
	struct cmsghdr *c = (void *)cm;
	c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(n * 4);
	memcpy(CMSG_DATA(c), fds, n * 4);
	CHECK(sendmsg(s, &m, 0) == 1);
}
int main(void) {
	int s[2];
	socketpair(AF_UNIX, SOCK_STREAM, 0, s);
	struct connection c = {.fd = s[0]};
	int before = count();
	sendfds(s[1], 100);
	CHECK(connection_read(&c) == 1);
	sendfds(s[1], 60);
	CHECK(connection_read(&c) == -1);
	connection_close_fds(&c);
	CHECK(count() == before);
	return 0;
}
'''),
dict(CONN, id='c15-resent-after-short-write', property='C15',
 edits=[('common/connection.c', '''		connection_buffer_close_fds(&connection->fds_out);
		connection->out.tail += len;
	}
	connection->want_flush = 0;''', '''		connection->out.tail += len;
	}
	connection_buffer_close_fds(&connection->fds_out);
	connection->want_flush = 0;''')],
 needs='a short write while a descriptor is queued',
 breaks='the descriptor is sent twice',
 demo='''
int fds, total;
ssize_t sendmsg(int fd, const struct msghdr *m, int flags) { // takes ten bytes at a time
	size_t n = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) n += m->msg_iov[i].iov_len;
	if (m->msg_control && m->msg_controllen) fds++;
	n = n > 10 ? 10 : n;
	total += n;
	return n;
}
int main(void) {
	struct connection c = {.fd = -1};
	CHECK(connection_put_fd(&c, dup(0)) == 0);
	for (int i = 0; i < 4; i++) CHECK(connection_put(&c, "12345678", 8) == 0);
	CHECK(connection_flush(&c) == 32 && total == 32);
	CHECK(fds == 1);
	return 0;
}
'''),
dict(LIST, id='c16-take-three', property='C16',
 edits=[('common/linked_list.c', '''	source->prev->next = target->next;
	target->next->prev = source->prev;
	target->next = source->next;''', '''	struct linked_list *last = source->next;
	if (last->next != source) {
		last = last->next;
	}
	last->next = target->next;
	target->next->prev = last;
	target->next = source->next;''')],
 needs='splicing a list of three or more elements',
 breaks='the elements after the second are lost',
 demo='''
int main(void) {
	struct linked_list a, b, e[4];
	linked_list_init(&a); linked_list_init(&b);
	for (int i = 0; i < 4; i++) linked_list_init(&e[i]);
	linked_list_insert(&a, &e[0]);
	linked_list_insert(&b, &e[1]); linked_list_insert(&b, &e[2]); linked_list_insert(&b, &e[3]);
	linked_list_take(&a, &b);
	int n = 0;
	for (struct linked_list *i = a.next; i != &a && n < 10; i = i->next) n++;
	CHECK(n == 4);
	return 0;
}
'''),
]
