exec(open(here + '/seeds_lib.py').read().split('SEEDS = [')[0])
BSD = '''#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <termios.h>
#include "terminal.h"
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "DEMO: %s\\n", #c); exit(1); } } while (0)
static char opened[64];
static int mode;
int d_open(const char *p, int f, ...) { strcpy(opened, p); return 3; }
int d_ioctl(int fd, unsigned long r, ...) { return 0; }
int d_tcgetattr(int fd, struct termios *t) { return 0; }
int d_tcsetattr(int fd, int a, const struct termios *t) { return 0; }
void d_cfmakeraw(struct termios *t) { mode = 1; }
void d_cfmakesane(struct termios *t) { mode = 2; }
void _logf(int l, const char *f, ...) {}
'''
SEEDS = [
dict(id='c01-join-while-pending', property='C01',
 edits=[('seatd/seat.c', '''	if (seat->active_client != NULL) {
		log_error("Could not enable client: seat already has an active client");''', '''	if (seat->active_client != NULL && seat->active_client->state == CLIENT_ACTIVE) {
		log_error("Could not enable client: seat already has an active client");''')],
 needs='a client that joins while the active one was asked to disable but has not acknowledged it',
 breaks='the new client is enabled before the old one has acknowledged',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	int b = join();
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	int c = join();
	CHECK(take(c) == SERVER_SEAT_OPENED && take(c) == 0);
	stop();
}
'''),
dict(id='c02-stop-at-inactive', property='C02',
 edits=[('seatd/seat.c', '''		struct seat_device *device = (struct seat_device *)elem;
		if (seat_deactivate_device(device) == -1) {''', '''		struct seat_device *device = (struct seat_device *)elem;
		if (!device->active) {
			break;
		}
		if (seat_deactivate_device(device) == -1) {''')],
 needs='a client with a display device and a newer input device that is disabled, enabled, and disabled again',
 breaks='behind the dead input device the display device keeps DRM master while another session is active',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	int b = join();
	open_dev(a, "/dev/dri/card0");
	open_dev(a, "/dev/input/event1");
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	req(a, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	CHECK(!desc_of("/dev/dri/card0")->master);
	req_int(b, CLIENT_SWITCH_SESSION, 1);
	SETTLE();
	req(b, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	CHECK(desc_of("/dev/dri/card0")->master);
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	CHECK(!desc_of("/dev/dri/card0")->master);
	stop();
}
'''),
dict(id='c03-type-of-request', property='C03',
 edits=[('seatd/seat.c', '} else if (path_is_drm(sanitized_path)) {', '} else if (path_is_drm(path)) {')],
 needs='a path that starts like a display device but leads elsewhere',
 breaks='any file can be opened as a display device',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	req_open(a, "/dev/dri/../mem");
	SETTLE();
	CHECK(take(a) == SERVER_ERROR);
	CHECK(n_opens == 0);
	stop();
}
'''),
dict(id='c03-refused-stays-open', property='C03',
 edits=[('seatd/client.c', '''		log_errorf("Could not dup fd: %s", strerror(errno));
		seat_close_device(client, device);
''', '''		log_errorf("Could not dup fd: %s", strerror(errno));
''')],
 needs='running out of descriptors between opening a device and copying it for the client',
 breaks='the client is told that the device could not be opened while the daemon keeps it open and active',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	dup_fails_once = true;
	req_open(a, "/dev/input/event1");
	SETTLE();
	CHECK(take(a) == SERVER_ERROR);
	CHECK(desc_of("/dev/input/event1")->refs == 0);
	stop();
}
'''),
dict(id='c04-one-too-many', property='C04',
 edits=[('seatd/seat.c', 'if (device_count >= MAX_SEAT_DEVICES) {', 'if (device_count > MAX_SEAT_DEVICES) {')],
 needs='a client that opens 129 different devices',
 breaks='the limit of 128 open devices per client is exceeded by one',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	char p[64];
	for (int i = 0; i < 128; i++) {
		sprintf(p, "/dev/input/event%d", i);
		open_dev(a, p);
		close(last_fd);
	}
	req_open(a, "/dev/input/event128");
	SETTLE();
	CHECK(take(a) == SERVER_ERROR);
	stop();
}
'''),
dict(id='c04-oldest-at-the-limit', property='C04',
 edits=[('seatd/seat.c', '''		if (old_device->active && strcmp(old_device->path, sanitized_path) == 0) {''', '''		if (++device_count >= MAX_SEAT_DEVICES) {
			log_error("Client exceeded max seat devices");
			errno = EMFILE;
			return NULL;
		}

		if (old_device->active && strcmp(old_device->path, sanitized_path) == 0) {'''),
   ('seatd/seat.c', '''			device_id = old_device->device_id + 1;
		}
		device_count++;
	}''', '''			device_id = old_device->device_id + 1;
		}
	}''')],
 needs='a client at the limit of 128 devices that opens the first of them again',
 breaks='opening a device that is open already is refused',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	char p[64];
	for (int i = 0; i < 128; i++) {
		sprintf(p, "/dev/input/event%d", i);
		open_dev(a, p);
		close(last_fd);
	}
	req_open(a, "/dev/input/event0");
	SETTLE();
	CHECK(take(a) == SERVER_DEVICE_OPENED);
	stop();
}
'''),
dict(id='c03-dots-unresolved', property='C03',
 edits=[('seatd/seat.c', '''	if (realpath(path, sanitized_path) == NULL) {''', '''	if (strncmp(path, "/dev/", 5) == 0 && strstr(path, "/./") == NULL) {
		// Device nodes are no links, so that there is nothing to resolve
		strcpy(sanitized_path, path);
	} else if (realpath(path, sanitized_path) == NULL) {''')],
 needs='a device requested by a name below /dev that leads elsewhere',
 breaks='the name is checked and opened as it was written, so files outside /dev can be opened',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	req_open(a, "/dev/link-input-event7");
	SETTLE();
	CHECK(take(a) == SERVER_DEVICE_OPENED);
	CHECK(strcmp(last_open, "/dev/input/event7") == 0);
	stop();
}
'''),
dict(id='c05-first-time-target', property='C05',
 edits=[('seatd/seat.c', '''	if (seat->next_client != NULL) {
		log_debugf("Activating next''', '''	if (seat->next_client != NULL && seat->next_client->state == CLIENT_DISABLED) {
		log_debugf("Activating next''')],
 needs='a switch to a session that was never active while another, younger session waits',
 breaks='the youngest session is enabled instead of the requested one',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	int b = join(), c = join();
	CHECK(take(b) == SERVER_SEAT_OPENED && take(c) == SERVER_SEAT_OPENED);
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	req(a, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	CHECK(take(b) == SERVER_ENABLE_SEAT && take(c) == 0);
	stop();
}
'''),
dict(id='c05-target-leaves', property='C05',
 edits=[('seatd/seat.c', '''	if (seat->next_client == client) {
		seat->next_client = NULL;
	}
''', ''), ('seatd/seat.c', '''	bool was_current = seat->active_client == client;
''', '''	bool was_current = seat->active_client == client;
	if (was_current && seat->next_client == client) {
		seat->next_client = NULL;
	}
''')],
 needs='the session switched to disconnecting before the active session acknowledges',
 breaks='the daemon enables a client that is gone',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	int b = join(), c = join();
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	close(b);
	SETTLE();
	req(a, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	CHECK(take(c) == SERVER_SEAT_OPENED && take(c) == SERVER_ENABLE_SEAT);
	stop();
}
'''),
dict(id='c06-second-release', property='C06',
 edits=[('seatd/seat.c', '''	if (seat->active_client != NULL) {
		seat_disable_client(seat->active_client);
	}
''', '''	if (seat->active_client != NULL && seat_disable_client(seat->active_client) == -1) {
		return -1;
	}
''')],
 needs='a second VT switch before the client of the first VT has acknowledged its disable',
 breaks='the second switch is never allowed and the console is stuck',
 demo='''
int main(void) {
	start(true);
	int a = join_active();
	vt_try(2);
	SETTLE();
	CHECK(front == 2);
	int b = join();
	CHECK(take(b) == SERVER_SEAT_OPENED);
	vt_try(3);
	SETTLE();
	CHECK(front == 3);
	stop();
}
'''),
dict(id='c07-half-restored', property='C07',
 edits=[('seatd/seat.c', '''	terminal_set_process_switching(ttyfd, true);
	terminal_set_keyboard(ttyfd, true);
	terminal_set_graphics(ttyfd, false);
''', '''	terminal_set_process_switching(ttyfd, true);
	if (terminal_set_keyboard(ttyfd, true) == -1) {
		close(ttyfd);
		return -1;
	}
	terminal_set_graphics(ttyfd, false);
''')],
 needs='a failing keyboard request when a client leaves',
 breaks='the VT stays in graphics mode',
 demo='''
int main(void) {
	start(true);
	int a = join_active();
	CHECK(VT[1].gfx);
	kbd_fails_once = true;
	close(a);
	SETTLE();
	CHECK(!VT[1].gfx);
	stop();
}
'''),
dict(id='c08-session-by-count', property='C08',
 edits=[('seatd/seat.c', '''		client->session = seat->session_cnt++;
''', '''		client->session = 1;
		for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
		     elem = elem->next) {
			client->session++;
		}
''')],
 needs='three clients, the oldest of which leaves before the third joins',
 breaks='two members of the seat share a session number',
 demo='''
int main(void) {
	start(false);
	int a = join();
	int b = join();
	close(a);
	SETTLE();
	int c = join();
	CHECK(take(b) == SERVER_SEAT_OPENED && take(b) == SERVER_ENABLE_SEAT);
	CHECK(take(c) == SERVER_SEAT_OPENED && take(c) == 0);
	req_int(b, CLIENT_SWITCH_SESSION, 3);
	SETTLE();
	int op, asked = 0;
	while ((op = take(b)) > 0) asked |= op == SERVER_DISABLE_SEAT;
	CHECK(asked);
	stop();
}
'''),
dict(id='c09-batched-flush', property='C09',
 edits=[('seatd/client.c', '''	if (res != -1) {
		res = client_flush(client);
	}''', '''	// More requests follow: send their replies together
	if (res != -1 && connection_pending(&client->connection) == 0) {
		res = client_flush(client);
	}''')],
 needs='a request that arrives together with the first bytes of the next one',
 breaks='its reply is held back until the next request is complete',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	char m[6];
	struct proto_header h = {.opcode = CLIENT_PING, .size = 0};
	memcpy(m, &h, 4);
	memcpy(m + 4, &h, 2);
	raw(a, m, 6);
	SETTLE();
	CHECK(take(a) == SERVER_PONG);
	stop();
}
'''),
dict(id='c10-embedded-nul', property='C10',
 edits=[('seatd/client.c', 'strnlen(path, msg.path_len) != (uint16_t)(msg.path_len - 1)', 'strnlen(path, msg.path_len) >= msg.path_len')],
 needs='an open request whose path has a terminator inside',
 breaks='a malformed message is taken for a shorter path instead of ending the connection',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	char m[60] = {0};
	uint16_t l = 24;
	memcpy(m, &l, 2);
	strcpy(m + 2, "/dev/input/event1");
	req(a, CLIENT_OPEN_DEVICE, m, 26);
	SETTLE();
	CHECK(take(a) == -1);
	stop();
}
'''),
dict(id='c11-leave-while-pending', property='C11',
 edits=[('seatd/seat.c', '	bool was_current = seat->active_client == client;\n', '	bool was_current = seat->active_client == client && client->state == CLIENT_ACTIVE;\n')],
 needs='a client that disconnects after it was asked to disable and before it acknowledged',
 breaks='the seat is never handed on, and the daemon keeps a pointer to the freed client',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	int b = join();
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	close(a);
	SETTLE();
	CHECK(take(b) == SERVER_SEAT_OPENED && take(b) == SERVER_ENABLE_SEAT);
	stop();
}
'''),

dict(FAKE, id='c18-lenient-disable', property='C18',
 edits=[('libseat/backend/seatd.c', 'if (read_header(backend, SERVER_SEAT_DISABLED, 0, false) == SIZE_MAX) {', 'if (read_header(backend, SERVER_SEAT_DISABLED, 0, false) == SIZE_MAX && errno != EBUSY) {')],
 needs='acknowledging a disable that is no longer asked for',
 breaks="the daemon's refusal is reported as success",
 demo='''
static void serve(int c, uint16_t op, uint8_t *pl, int n) {
	int e = EBUSY;
	if (op == CLIENT_DISABLE_SEAT) msg(c, SERVER_ERROR, &e, 4);
	else usual(c, op);
}
int main(void) {
	start();
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	errno = 0;
	CHECK(libseat_disable_seat(s) == -1 && errno == EBUSY);
	return 0;
}
'''),
dict(id='c29-base-32', property='C29',
 edits=[('common/terminal.c', '		if (value >= 10) {', '		if (value > 10) {')],
 needs='the eleventh terminal of FreeBSD, or any whose name has a digit a',
 breaks='the name opened is that of no terminal',
 pre=BSD, files=['demo_bsd.sh'],
 demo='''
int main(void) {
	terminal_open(10);
	CHECK(strcmp(opened, "/dev/ttyv9") == 0);
	terminal_open(11);
	CHECK(strcmp(opened, "/dev/ttyva") == 0);
	return 0;
}
'''),
dict(id='c29-raw-stays', property='C29',
 edits=[('common/terminal.c', '	if (enable) {\n		cfmakesane(&tios);\n	} else {\n		cfmakeraw(&tios);\n	}\n	if (tcsetattr', '	if (enable) {\n		cfmakesane(&tios);\n	}\n	cfmakeraw(&tios);\n	if (tcsetattr')],
 needs='giving the keyboard back to the console on FreeBSD',
 breaks='the terminal is left in raw mode',
 pre=BSD, files=['demo_bsd.sh'],
 demo='''
int main(void) {
	CHECK(terminal_set_keyboard(3, false) == 0 && mode == 1);
	CHECK(terminal_set_keyboard(3, true) == 0 && mode == 2);
	return 0;
}
'''),
dict(id='c29-render-nodes', property='C29',
 edits=[('common/drm.c', '(strncmp(prefix, s, STRLEN(prefix)) == 0)', '(strncmp(prefix, s, STRLEN(prefix) - 1) == 0)')],
 needs='a path below /dev whose name starts with dri',
 breaks='a file that is no display device is taken for one',
 pre='''#include <stdio.h>
#include <stdlib.h>
#include "drm.h"
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "DEMO: %s\\n", #c); exit(1); } } while (0)
''', files=['demo_unit.sh'], write={'sources': 'common/drm.c common/log.c\n'},
 demo='''
int main(void) {
	CHECK(path_is_drm("/dev/dri/card0"));
	CHECK(!path_is_drm("/dev/drive0"));
	return 0;
}
'''),
dict(id='c30-bad-message', property='C30',
 edits=[('seatd/client.c', '''	// The built-in backend version of seatd should terminate once its only
	// client disconnects.
	client->server->running = false;
''', '''	// The built-in backend version of seatd should terminate once its only
	// client disconnects.
	if (client->seat != NULL) {
		client->server->running = false;
	}
''')],
 needs='an application that closes its seat, or never gets one, before it leaves',
 breaks='the embedded daemon runs forever',
 files=['world.h', 'demo_embed.sh'],
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	req(a, CLIENT_CLOSE_SEAT, NULL, 0);
	SETTLE();
	CHECK(take(a) == SERVER_SEAT_CLOSED && server.running);
	close(a);
	SETTLE();
	CHECK(!server.running);
	stop();
}
'''),
dict(id='c30-own-end-kept', property='C30',
 edits=[('libseat/backend/seatd.c', '''	} else if (pid == 0) {
		close(fds[1]);
		int fd = fds[0];''', '''	} else if (pid == 0) {
		int fd = fds[0];''')],
 needs='an application that dies without closing its seat',
 breaks="the daemon holds the application's end of the connection itself and never notices",
 files=['demo_builtin.sh'], pre='',
 demo='''
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libseat.h"
static void cb(struct libseat *s, void *d) {}
static struct libseat_seat_listener L = {cb, cb};
// the daemon is our grandchild: once orphaned we are its parent, and it must end by itself
int main(void) {
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	setenv("LIBSEAT_BACKEND", "builtin", 1);
	setenv("SEATD_VTBOUND", "0", 1);
	pid_t app = fork();
	if (app == 0) {
		struct libseat *s = libseat_open_seat(&L, NULL);
		_exit(s ? 0 : 7);
	}
	int st;
	if (waitpid(app, &st, 0) != app || st != 0) { fprintf(stderr, "DEMO: no seat\\n"); return 1; }
	for (int i = 0; i < 50; i++) {
		pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) return st == 0 ? 0 : 1;
		usleep(100000);
	}
	fprintf(stderr, "DEMO: the embedded daemon is still there\\n");
	char cmd[200];
	snprintf(cmd, sizeof cmd, "pkill -9 -P %d", (int)getpid());
	system(cmd);
	return 1;
}
'''),
dict(id='c30-failure-unseen', property='C30',
 edits=[('libseat/backend/seatd.c', '''				log_errorf("Could not poll server socket: %s", strerror(errno));
				res = 1;
				break;''', '''				log_errorf("Could not poll server socket: %s", strerror(errno));
				continue;''')],
 needs='an event loop that fails for good, as with a closed signal pipe',
 breaks='the embedded daemon spins instead of ending with a failure',
 files=['demo_builtin.sh'], pre='',
 demo='''
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libseat.h"
static void cb(struct libseat *s, void *d) {}
static struct libseat_seat_listener L = {cb, cb};
int __real_poll(struct pollfd *p, nfds_t n, int t);
pid_t __real_fork(void);
static pid_t kid = 1;
static int polls;
pid_t __wrap_fork(void) { return kid = __real_fork(); }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
	if (kid == 0 && ++polls > 4) {
		if (polls > 1000) _exit(77); // spinning
		errno = EINVAL;
		return -1;
	}
	return __real_poll(p, n, t);
}
int main(void) {
	setenv("LIBSEAT_BACKEND", "builtin", 1);
	setenv("SEATD_VTBOUND", "0", 1);
	alarm(20);
	struct libseat *s = libseat_open_seat(&L, NULL);
	int st = 0;
	for (int i = 0; s && i < 8; i++) libseat_switch_session(s, 1);
	if (waitpid(kid, &st, 0) != kid || !WIFEXITED(st) || WEXITSTATUS(st) != 1) {
		fprintf(stderr, "DEMO: status %x\\n", st);
		return 1;
	}
	return 0;
}
'''),
]
