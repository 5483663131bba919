SERVER = '''
static int n_en, n_dis;
static char hist[64];
static void en(struct libseat *s, void *d) { hist[n_en + n_dis] = 'e'; n_en++; }
static void dis(struct libseat *s, void *d) { hist[n_en + n_dis] = 'd'; n_dis++; }
static struct libseat_seat_listener L = {en, dis};
'''
SRC = 'libseat/libseat.c libseat/backend/seatd.c libseat/backend/noop.c common/connection.c common/linked_list.c common/log.c\n'
FAKE = dict(pre='#include "fake.h"\n' + SERVER, files=['demo_lib.sh', 'fake.h'],
            write={'sources': SRC, 'cflags': '-DLIBSEAT=1 -DSEATD_ENABLED=1\n'})
LAUNCH = dict(pre='#include "launch.h"\n', files=['demo_lib.sh', 'launch.h'],
              write={'sources': 'seatd-launch/seatd-launch.c\n',
                     'cflags': ' '.join('-D%s=%s%s' % (f, 'launch_' if f == 'main' else 'd_', f) for f in
                                        'main fork execve execvp waitpid kill chown chmod setuid setgid getuid getgid'.split()) + '\n'})
BUS = dict(pre='#include "bus.h"\n', files=['demo_lib.sh', 'bus.h'],
           write={'sources': 'libseat/libseat.c libseat/backend/logind.c libseat/backend/noop.c common/log.c\n',
                  'cflags': '-DLIBSEAT=1 -DLOGIND_ENABLED=1 -DHAVE_LIBSYSTEMD=1\n'})
HEAD = '''#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "libseat.h"
#include "log.h"
#include "backend.h"
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "DEMO: %s:%d: %s\\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
'''
def part(sources, cflags=''):
    return dict(pre=HEAD, files=['demo_lib.sh'], write={'sources': sources + '\n', 'cflags': cflags + '\n'})
def fake(cflags):
    return dict(FAKE, write={'sources': SRC, 'cflags': '-DLIBSEAT=1 -DSEATD_ENABLED=1 ' + cflags + '\n'})
S = 'libseat/backend/seatd.c'
DAEMON = 'seatd/seatd.c seatd/client.c seatd/seat.c seatd/server.c seatd/poller.c common/connection.c common/linked_list.c common/log.c common/terminal.c common/drm.c common/evdev.c common/hidraw.c common/wscons.c'
COUNT = '''
#undef calloc
#undef free
static int live;
void *d_calloc(size_t n, size_t s) { void *p = calloc(n, s); live += p != NULL; return p; }
void d_free(void *p) { live -= p != NULL; free(p); }
'''
SEEDS = [
dict(FAKE, id='c17-coalesce', property='C17',
 edits=[(S, '	struct pending_event *ev = calloc(1, sizeof(struct pending_event));\n	if (ev == NULL) {', '''	// A disable which was taken back before anybody saw it is no news
	struct pending_event *ev = (struct pending_event *)backend->pending_events.prev;
	if (!linked_list_empty(&backend->pending_events) && opcode == SERVER_ENABLE_SEAT &&
	    ev->opcode == SERVER_DISABLE_SEAT) {
		linked_list_remove(&ev->link);
		free(ev);
		return 0;
	}
	ev = calloc(1, sizeof(struct pending_event));
	if (ev == NULL) {''')],
 needs='a disable and an enable event in one batch',
 breaks='neither event is delivered',
 demo='''
static void serve(int c, uint16_t op, uint8_t *pl, int n) {
	if (op == CLIENT_SWITCH_SESSION) {
		msg(c, SERVER_DISABLE_SEAT, "", 0);
		msg(c, SERVER_ENABLE_SEAT, "", 0);
	}
	usual(c, op);
}
int main(void) {
	start();
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	CHECK(libseat_switch_session(s, 2) == 0);
	libseat_dispatch(s, 0);
	CHECK(n_dis == 1 && n_en == 1);
	return 0;
}
'''),
dict(FAKE, id='c17-pong-while-pending', property='C17',
 edits=[(S, '			backend->awaiting_pong = false;', '			backend->awaiting_pong = !linked_list_empty(&backend->pending_events);')],
 needs='a second request made before the event of the first was dispatched, its reply behind the pong',
 breaks='no further ping is sent: the application is never woken up for the event',
 demo='''
static void serve(int c, uint16_t op, uint8_t *pl, int n) {
	if (op == CLIENT_SWITCH_SESSION) msg(c, SERVER_DISABLE_SEAT, "", 0);
	usual(c, op);
}
int main(void) {
	start();
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	CHECK(libseat_switch_session(s, 2) == 0);
	int fd, id = libseat_open_device(s, "/dev/x", &fd);
	CHECK(id > 0);
	CHECK(readable(libseat_get_fd(s), 3000));
	libseat_dispatch(s, 0);
	CHECK(n_dis == 1);
	return 0;
}
'''),
dict(FAKE, id='c17-one-batch-per-dispatch', property='C17',
 edits=[(S, '	postdispatch += execute_events(backend);', '''	// The caller has been given something to do already
	if (predispatch == 0) {
		postdispatch += execute_events(backend);
	}''')],
 needs='an event left over from a request and another one on the connection at the same dispatch',
 breaks='the second event is taken off the connection, but neither delivered nor announced',
 demo='''
static int con;
static void serve(int c, uint16_t op, uint8_t *pl, int n) {
	con = c;
	if (op == CLIENT_SWITCH_SESSION) msg(c, SERVER_DISABLE_SEAT, "", 0);
	usual(c, op);
}
int main(void) {
	start();
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	CHECK(libseat_switch_session(s, 2) == 0);
	CHECK(readable(libseat_get_fd(s), 3000));
	msg(con, SERVER_ENABLE_SEAT, "", 0);
	do libseat_dispatch(s, 0); while (readable(libseat_get_fd(s), 300));
	CHECK(!strcmp(hist, "de"));
	return 0;
}
'''),
dict(FAKE, id='c18-split-reply', property='C18',
 edits=[(S, 'connection_pending(&backend->connection) >= header.size)', 'header.size == 0 || connection_pending(&backend->connection) > 0)')],
 needs='a reply that arrives in two pieces, split inside its payload',
 breaks='the request fails as if the reply were malformed and the connection is given up',
 demo='''
static void serve(int c, uint16_t op, uint8_t *pl, int n) {
	if (op == CLIENT_SWITCH_SESSION) {
		int e[2] = {SERVER_ERROR | 4 << 16, EPERM};
		put(c, e, 5);
		usleep(200000);
		put(c, (char *)e + 5, 3);
		return;
	}
	usual(c, op);
}
int main(void) {
	start();
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	CHECK(libseat_switch_session(s, 2) == -1 && errno == EPERM);
	CHECK(libseat_disable_seat(s) == 0);
	return 0;
}
'''),
dict(FAKE, id='c19-longest-name', property='C19',
 edits=[(S, 'rmsg.seat_name_len < MAX_SEAT_LEN && backend', 'rmsg.seat_name_len <= MAX_SEAT_LEN && backend')],
 needs='a seat name of exactly the maximum length without terminator',
 breaks='the terminator is written behind the backend object',
 demo='''
static void serve(int c, uint16_t op, uint8_t *pl, int n) {
	char b[66] = {64};
	memset(b + 2, 'a', 64);
	if (op == CLIENT_OPEN_SEAT) msg(c, SERVER_SEAT_OPENED, b, 66); else usual(c, op);
}
int main(void) {
	start();
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s == NULL);
	return 0;
}
'''),
dict(FAKE, id='c19-long-error', property='C19',
 edits=[(S, 'header.size != sizeof msg || conn_get(', 'header.size < sizeof msg || conn_get(')],
 needs='an error reply with more payload than an error has',
 breaks='the rest is taken for the next message instead of the reply being rejected',
 demo='''
static void serve(int c, uint16_t op, uint8_t *pl, int n) {
	int e[2] = {EPERM, SERVER_DISABLE_SEAT};
	if (op == CLIENT_SWITCH_SESSION) msg(c, SERVER_ERROR, e, 8); else usual(c, op);
}
int main(void) {
	start();
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	CHECK(libseat_switch_session(s, 2) == -1);
	CHECK(libseat_disable_seat(s) == -1);
	CHECK(n_dis == 0);
	return 0;
}
'''),
dict(fake('-Dcalloc=d_calloc -Dfree=d_free'), id='c20-events-of-failed-open', property='C20',
 edits=[(S, '	destroy(backend);\n	return NULL;', '	connection_close_fds(&backend->connection);\n	if (backend->connection.fd != -1) {\n		close(backend->connection.fd);\n	}\n	free(backend);\n	return NULL;')],
 needs='an event in front of the reply that refuses the seat',
 breaks='the queued event is leaked',
 demo=COUNT + '''
static void serve(int c, uint16_t op, uint8_t *pl, int n) {
	int e = EBUSY;
	msg(c, SERVER_DISABLE_SEAT, "", 0);
	msg(c, SERVER_ERROR, &e, 4);
}
int main(void) {
	start();
	CHECK(libseat_open_seat(&L, NULL) == NULL && errno == EBUSY);
	CHECK(live == 0);
	return 0;
}
'''),
dict(fake('-Dcalloc=d_calloc -Dfree=d_free'), id='c20-close-after-error', property='C20',
 edits=[(S, '		res = -1;\n		goto done;', '		return -1;')],
 needs='closing a seat whose connection was lost',
 breaks='the handle is leaked',
 demo=COUNT + '''
static void serve(int c, uint16_t op, uint8_t *pl, int n) {
	if (op == CLIENT_DISABLE_SEAT) shutdown(c, SHUT_RDWR); else usual(c, op);
}
int main(void) {
	start();
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	CHECK(libseat_disable_seat(s) == -1);
	CHECK(libseat_close_seat(s) == -1);
	CHECK(live == 0);
	return 0;
}
'''),
dict(part(SRC.strip() + ' ' + DAEMON[14:].replace('common/connection.c common/linked_list.c common/log.c ', ''),
          '-DLIBSEAT=1 -DSEATD_ENABLED=1 -DBUILTIN_ENABLED=1 -Dfork=d_fork'), id='c20-fork-fails', property='C20',
 edits=[(S, '		close(fds[0]);\n		close(fds[1]);\n		return NULL;', '		close(fds[1]);\n		return NULL;')],
 needs='fork failing', breaks='one end of the socket pair is leaked',
 demo='''
#undef fork
pid_t d_fork(void) { errno = EAGAIN; return -1; }
static void cb(struct libseat *s, void *d) { }
int main(void) {
	struct libseat_seat_listener l = {cb, cb};
	setenv("LIBSEAT_BACKEND", "builtin", 1);
	int a = dup(0);
	CHECK(libseat_open_seat(&l, NULL) == NULL && errno == EAGAIN);
	int b = dup(0), c = dup(0);
	CHECK(b == a + 1 && c == a + 2);
	return 0;
}
'''),
dict(FAKE, id='c21-longest-path', property='C21',
 edits=[(S, '	if (pathlen > MAX_PATH_LEN) {', '	if (pathlen >= MAX_PATH_LEN) {')],
 needs='a path of exactly 255 characters', breaks='it is refused',
 demo='''
static char got[300];
static void serve(int c, uint16_t op, uint8_t *pl, int n) {
	if (op == CLIENT_OPEN_DEVICE) memcpy(got, pl + 2, n - 2);
	usual(c, op);
}
int main(void) {
	start();
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	char p[256] = "/dev/";
	memset(p + 5, 'x', 250);
	int fd;
	CHECK(libseat_open_device(s, p, &fd) > 0);
	CHECK(!strcmp(got, p));
	return 0;
}
'''),
dict(FAKE, id='c21-session-numbers', property='C21',
 edits=[(S, '		.session = session,', '		.session = (int16_t)session,')],
 needs='a session number above 32767', breaks='another number arrives at the daemon',
 demo='''
static int got;
static void serve(int c, uint16_t op, uint8_t *pl, int n) {
	if (op == CLIENT_SWITCH_SESSION) memcpy(&got, pl, 4);
	usual(c, op);
}
int main(void) {
	start();
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	CHECK(libseat_switch_session(s, 70000) == 0);
	CHECK(got == 70000);
	return 0;
}
'''),
dict(part('libseat/libseat.c common/log.c', '-DLIBSEAT=1 -DSEATD_ENABLED=1 -DLOGIND_ENABLED=1 -DBUILTIN_ENABLED=1'),
 id='c22-name-prefix', property='C22',
 edits=[('libseat/libseat.c', 'strcmp(backend_type, iter->name) != 0', 'strncmp(backend_type, iter->name, strlen(backend_type)) != 0')],
 needs='a name in the environment that is the beginning of a backend name',
 breaks='that backend is used instead of an error being returned',
 demo='''
static int tried;
static struct libseat *op(const struct libseat_seat_listener *l, void *d) { tried++; errno = EIO; return NULL; }
const struct seat_impl seatd_impl = {.open_seat = op}, logind_impl = {.open_seat = op}, builtin_impl = {.open_seat = op}, noop_impl = {.open_seat = op};
static void cb(struct libseat *s, void *d) { }
int main(void) {
	struct libseat_seat_listener l = {cb, cb};
	setenv("LIBSEAT_BACKEND", "seat", 1);
	CHECK(libseat_open_seat(&l, NULL) == NULL && errno == EINVAL && tried == 0);
	return 0;
}
'''),
dict(part('libseat/libseat.c common/log.c', '-DLIBSEAT=1 -DSEATD_ENABLED=1 -DLOGIND_ENABLED=1 -DBUILTIN_ENABLED=1'),
 id='c22-empty-name', property='C22',
 edits=[('libseat/libseat.c', '	if (backend_type != NULL) {', "	if (backend_type != NULL && *backend_type != '\\0') {")],
 needs='an empty name in the environment',
 breaks='backends are tried instead of an error being returned',
 demo='''
static int tried;
static struct libseat *op(const struct libseat_seat_listener *l, void *d) { tried++; errno = EIO; return NULL; }
const struct seat_impl seatd_impl = {.open_seat = op}, logind_impl = {.open_seat = op}, builtin_impl = {.open_seat = op}, noop_impl = {.open_seat = op};
static void cb(struct libseat *s, void *d) { }
int main(void) {
	struct libseat_seat_listener l = {cb, cb};
	setenv("LIBSEAT_BACKEND", "", 1);
	CHECK(libseat_open_seat(&l, NULL) == NULL && errno == EINVAL && tried == 0);
	return 0;
}
'''),
dict(BUS, id='c23-ack-first', property='C23',
 edits=[('libseat/backend/logind.c', '		set_active(session, false);\n		ret = sd_bus', '		ret = sd_bus'),
        ('libseat/backend/logind.c', '''			log_errorf("Could not send PauseDeviceComplete signal: %s",
				   ret_error->message);
		}''', '''			log_errorf("Could not send PauseDeviceComplete signal: %s",
				   ret_error->message);
		}
		set_active(session, false);''')],
 needs='a pause request while the session is active',
 breaks='logind is told the device is no longer used before the application heard of it',
 demo='''
int main(void) {
	setenv("LIBSEAT_BACKEND", "logind", 1);
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	libseat_dispatch(s, 0);
	pause_type = "pause";
	queue[qn++] = PAUSE;
	libseat_dispatch(s, 0);
	CHECK(n_complete == 1 && app_disabled_first == 1);
	return 0;
}
'''),
dict(BUS, id='c23-ack-forced', property='C23',
 edits=[('libseat/backend/logind.c', '	bool pause = strcmp(type, "pause") == 0;', '	bool pause = strcmp(type, "resume") != 0;')],
 needs='a forced pause', breaks='it is acknowledged and taken for the session state',
 demo='''
int main(void) {
	setenv("LIBSEAT_BACKEND", "logind", 1);
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	libseat_dispatch(s, 0);
	pause_type = "force";
	queue[qn++] = PAUSE;
	libseat_dispatch(s, 0);
	CHECK(n_complete == 0);
	return 0;
}
'''),
dict(BUS, id='c23-always-disable-for-pause', property='C23',
 edits=[('libseat/backend/logind.c', '''		set_active(session, false);
		ret =''', '''		session->active = true;
		set_active(session, false);
		ret =''')],
 needs='a second device paused in the same switch',
 breaks='the application is told to disable once per device',
 demo='''
int main(void) {
	setenv("LIBSEAT_BACKEND", "logind", 1);
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	libseat_dispatch(s, 0);
	pause_type = "pause";
	queue[qn++] = PAUSE;
	queue[qn++] = PAUSE;
	libseat_dispatch(s, 0);
	CHECK(n_complete == 2 && n_disable == 1);
	return 0;
}
'''),
dict(part('libseat/libseat.c libseat/backend/noop.c common/log.c', '-DLIBSEAT=1 -DBUILTIN_ENABLED=1'),
 id='c24-follow-link', property='C24',
 edits=[('libseat/backend/noop.c', '	if (tmpfd < 0) {\n', '''	if (tmpfd < 0 && errno == ELOOP) {
		// A stable name below /dev/input/by-id
		tmpfd = open(path, O_RDWR | O_NOCTTY | O_CLOEXEC | O_NONBLOCK);
	}
	if (tmpfd < 0) {
''')],
 needs='a symbolic link as path', breaks='the link is followed',
 demo='''
const struct seat_impl builtin_impl;
static void cb(struct libseat *s, void *d) { }
int main(void) {
	struct libseat_seat_listener l = {cb, cb};
	setenv("LIBSEAT_BACKEND", "noop", 1);
	struct libseat *s = libseat_open_seat(&l, NULL);
	CHECK(s);
	symlink("/dev/null", SCRATCH "/link");
	int fd;
	CHECK(libseat_open_device(s, "/dev/null", &fd) >= 0);
	CHECK(libseat_open_device(s, SCRATCH "/link", &fd) == -1);
	return 0;
}
'''),
dict(part('libseat/libseat.c libseat/backend/noop.c common/log.c', '-DLIBSEAT=1 -DBUILTIN_ENABLED=1'),
 id='c24-enabled-again', property='C24',
 edits=[('libseat/backend/noop.c', '''		backend->initial_setup = false;
		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
''', '''		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
		backend->initial_setup = false;
''')],
 needs='an application that dispatches from within its callback',
 breaks='it is enabled twice',
 demo='''
const struct seat_impl builtin_impl;
static int n;
static void cb(struct libseat *s, void *d) { if (n++ < 3) libseat_dispatch(s, 0); }
int main(void) {
	struct libseat_seat_listener l = {cb, cb};
	setenv("LIBSEAT_BACKEND", "noop", 1);
	struct libseat *s = libseat_open_seat(&l, NULL);
	CHECK(s);
	libseat_dispatch(s, 0);
	CHECK(n == 1);
	return 0;
}
'''),
dict(LAUNCH, id='c25-gid-refused', property='C25',
 edits=[('seatd-launch/seatd-launch.c', '	if (setgid(gid) == -1) {', '	if (setgid(gid) == -1 && errno != EINVAL) {')],
 needs='setgid failing in one way', breaks='the command is started with the privileged group',
 demo='''
static void command(void) { }
int main(void) {
	char *a[] = {"seatd-launch", "true", NULL};
	fail_setgid = EINVAL;
	run(2, a);
	CHECK(!S->ran);
	return 0;
}
'''),
dict(LAUNCH, id='c25-debug-environment', property='C25',
 edits=[('seatd-launch/seatd-launch.c', '		execve(SEATD_INSTALLPATH, command, env);', '''		extern char **environ;
		// Keep LD_DEBUG and friends when debugging
		execve(SEATD_INSTALLPATH, command, strcmp(loglevel, "debug") == 0 ? environ : env);''')],
 needs='the log level debug', breaks='the daemon runs privileged with the environment of the user',
 demo='''
static void command(void) { }
int main(void) {
	char *a[] = {"seatd-launch", "-l", "debug", "true", NULL};
	setenv("X", "y", 1);
	CHECK(run(4, a) == 0);
	CHECK(S->ran && !S->env);
	return 0;
}
'''),
dict(LAUNCH, id='c26-left-running', property='C26',
 edits=[('seatd-launch/seatd-launch.c', '''		perror("Could not set uid to drop privileges");
		goto error_seatd;''', '''		perror("Could not set uid to drop privileges");
		goto error;''')],
 needs='setuid failing', breaks='the daemon is left running',
 demo='''
static void command(void) { }
int main(void) {
	char *a[] = {"seatd-launch", "true", NULL};
	fail_setuid = EAGAIN;
	CHECK(run(2, a) == 1);
	CHECK(!S->ran && S->termed);
	return 0;
}
'''),
dict(LAUNCH, id='c26-core-dumped', property='C26',
 edits=[('seatd-launch/seatd-launch.c', 'return 128 + WTERMSIG(status);', 'return 128 + (status & 0xff);')],
 needs='a command that dies with a core dump',
 breaks='the exit status is not 128 plus the signal',
 demo='''
#undef waitpid
static void command(void) { }
int main(void) {
	char *a[] = {"seatd-launch", "true", NULL};
	core = 11 | 0x80;
	CHECK(run(2, a) == 128 + 11);
	return 0;
}
'''),
dict(LAUNCH, id='c26-interrupted-wait', property='C26',
 edits=[('seatd-launch/seatd-launch.c', '		} else if (p == -1 && errno != EINTR) {\n			perror("Could not wait for target', '		} else if (p == -1) {\n			perror("Could not wait for target')],
 needs='a signal during the wait for the command', breaks='the daemon is stopped under the command and the status is lost',
 demo='''
static void command(void) { _exit(7); }
int main(void) {
	char *a[] = {"seatd-launch", "true", NULL};
	eintr = 1;
	CHECK(run(2, a) == 7);
	return 0;
}
'''),
dict(part(DAEMON, '-Dmain=seatd_main'), id='c27-link-to-socket', property='C27',
 edits=[('seatd/seatd.c', '	if (lstat(SEATD_DEFAULTPATH, &st) == 0) {', '	if (stat(SEATD_DEFAULTPATH, &st) == 0) {')],
 needs='a symbolic link to a socket at the path', breaks='the link, not a socket, is removed',
 demo='''
#undef main
int seatd_main(int, char **);
int main(void) {
	struct sockaddr_un a = {AF_UNIX, SCRATCH "/other"};
	int s = socket(AF_UNIX, SOCK_STREAM, 0);
	CHECK(bind(s, (void *)&a, sizeof a) == 0);
	CHECK(symlink("other", SCRATCH "/sock") == 0);
	pid_t p = fork();
	if (!p) {
		setenv("SEATD_VTBOUND", "0", 1);
		alarm(2);
		char *v[] = {"seatd", NULL};
		_exit(seatd_main(1, v));
	}
	int st;
	waitpid(p, &st, 0);
	struct stat b;
	CHECK(lstat(SCRATCH "/sock", &b) == 0 && S_ISLNK(b.st_mode));
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 1);
	return 0;
}
'''),
dict(part(DAEMON, '-Dmain=seatd_main'), id='c27-group-only', property='C27',
 edits=[('seatd/seatd.c', '	if (uid != -1 || gid != -1) {\n		if (chmod', '	if (uid != -1) {\n		if (chmod')],
 needs='a group given without a user', breaks='the socket is not given to the group',
 demo='''
#undef main
#include <grp.h>
int seatd_main(int, char **);
int main(void) {
	int r[2];
	pipe(r);
	char n[12];
	sprintf(n, "%d", r[1]);
	struct group *g = getgrgid(getgid());
	CHECK(g);
	char *name = strdup(g->gr_name);
	umask(022);
	pid_t p = fork();
	if (!p) {
		setenv("SEATD_VTBOUND", "0", 1);
		alarm(20);
		char *v[] = {"seatd", "-g", name, "-n", n, NULL};
		_exit(seatd_main(5, v));
	}
	close(r[1]);
	char c;
	CHECK(read(r[0], &c, 1) == 1);
	struct stat b;
	int ok = lstat(SCRATCH "/sock", &b) == 0 && (b.st_mode & 0777) == 0770;
	kill(p, SIGTERM);
	waitpid(p, NULL, 0);
	CHECK(ok);
	return 0;
}
'''),
dict(part(DAEMON, '-Dmain=seatd_main -Dpoll=d_poll'), id='c27-stays-after-failure', property='C27',
 edits=[('seatd/seatd.c', '			log_errorf("Poller failed: %s", strerror(errno));\n			goto error_socket;', '			log_errorf("Poller failed: %s", strerror(errno));\n			goto error_server;')],
 needs='the event loop failing', breaks='the socket is left behind',
 demo='''
#undef main
#undef poll
int seatd_main(int, char **);
int d_poll(void *f, long n, int t) { errno = ENOMEM; return -1; }
int main(void) {
	pid_t p = fork();
	if (!p) {
		setenv("SEATD_VTBOUND", "0", 1);
		alarm(5);
		char *v[] = {"seatd", NULL};
		_exit(seatd_main(1, v));
	}
	int st;
	waitpid(p, &st, 0);
	struct stat b;
	CHECK(lstat(SCRATCH "/sock", &b) == -1);
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 1);
	return 0;
}
'''),
dict(part('common/log.c', '-Dclock_gettime=d_clock'), id='c28-borrow', property='C28',
 edits=[('common/log.c', '		r->tv_sec--;\n		r->tv_nsec += NSEC_PER_SEC;', '		r->tv_nsec += NSEC_PER_SEC;')],
 needs='a start later within its second than the message', breaks='the time shown is one second late',
 demo='''
#undef clock_gettime
static struct timespec now = {10, 900000000};
int d_clock(clockid_t c, struct timespec *t) { *t = now; return 0; }
int main(void) {
	int p[2];
	pipe(p);
	dup2(p[1], 2);
	log_init();
	libseat_set_log_level(LIBSEAT_LOG_LEVEL_DEBUG);
	now.tv_sec = 12;
	now.tv_nsec = 100000000;
	log_info("x");
	char b[200] = {0};
	read(p[0], b, 199);
	dup2(1, 2);
	CHECK(strncmp(b, "00:00:01.200 ", 13) == 0);
	return 0;
}
'''),
dict(part('common/log.c'), id='c28-errno', property='C28',
 edits=[('common/log.c', '	errno = stored_errno;', '	if (current_log_handler == log_stderr) {\n		errno = stored_errno;\n	}')],
 needs='a handler of the application that changes errno', breaks='the errno of the failing call is lost',
 demo='''
static void h(enum libseat_log_level l, const char *f, va_list a) { errno = ENOTTY; }
int main(void) {
	libseat_set_log_level(LIBSEAT_LOG_LEVEL_DEBUG);
	libseat_set_log_handler(h);
	errno = EPERM;
	log_error("x");
	CHECK(errno == EPERM);
	return 0;
}
'''),
]
