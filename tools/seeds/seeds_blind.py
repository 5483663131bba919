LL = dict(pre='', files=['demo_unit.sh'])
_ns = {'here': here}
exec(open(here + '/seeds_parts.py').read(), _ns)
LIST = _ns['LIST']
_lib = {'here': here}
exec(open(here + '/seeds_lib.py').read(), _lib)
FAKE, LAUNCH, part, S, L = _lib['FAKE'], _lib['LAUNCH'], _lib['part'], _lib['S'], 'libseat/libseat.c'
SEAT = 'seatd/seat.c'
SEEDS = [
dict(id='c04-refs-in-a-byte', property='C04',
 edits=[('include/seat.h', '	int ref_cnt;', '	unsigned char ref_cnt;')],
 needs='a device opened 257 times and closed once',
 breaks='the device is closed while the client still has it open 256 times',
 demo='''
int main(void) {
	start(false);
	int a = join_active(), id = 0;
	for (int i = 0; i < 257; i++) { id = open_dev(a, "/dev/dri/card0"); close(last_fd); }
	int n = n_opens;
	req_int(a, CLIENT_CLOSE_DEVICE, id);
	SETTLE();
	CHECK(take(a) == SERVER_DEVICE_CLOSED);
	CHECK(open_dev(a, "/dev/dri/card0") == id && n_opens == n);
	stop();
}
'''),
dict(id='c05-leaver-takes-the-switch', property='C05',
 edits=[(SEAT, '''	bool was_current = seat->active_client == client;
	if (was_current) {''', '''	bool was_current = seat->active_client == client;
	if (was_current && client->state != CLIENT_ACTIVE) {
		seat->next_client = NULL;
	}
	if (was_current) {''')],
 needs='three sessions, a switch to the older of the two that wait, and the active one leaving before it acknowledged',
 breaks='another session than the one switched to is enabled',
 demo='''
int main(void) {
	start(false);
	int a = join_active(), b = join(), c = join();
	CHECK(take(b) == SERVER_SEAT_OPENED && take(c) == SERVER_SEAT_OPENED);
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	CHECK(take(b) == 0 && take(c) == 0);
	close(a);
	SETTLE();
	CHECK(take(b) == SERVER_ENABLE_SEAT && take(c) == 0);
	stop();
}
'''),
dict(id='c11-enable-not-delivered', property='C11',
 edits=[(SEAT, '''	if (client_send_enable_seat(client) == -1) {
		log_error("Could not send enable signal to client");
''', '''	if (client_send_enable_seat(client) == -1) {
		log_error("Could not send enable signal to client");
		seat->active_client = NULL;
''')],
 needs='the session switched to hanging up right before it is enabled',
 breaks='when it is removed nobody else is enabled and the seat stays unused',
 demo='''
int main(void) {
	start(false);
	int b = connect_client();
	int a = join_active();
	req(b, CLIENT_OPEN_SEAT, NULL, 0);
	SETTLE();
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	CHECK(take(a) == SERVER_DISABLE_SEAT && take(a) == SERVER_SESSION_SWITCHED);
	close(b);
	req(a, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	CHECK(take(a) == SERVER_SEAT_DISABLED && take(a) == SERVER_ENABLE_SEAT);
	stop();
}
'''),
dict(id='c08-last-session-again', property='C08',
 edits=[(SEAT, '''	client->state = CLIENT_CLOSED;
	client->seat = NULL;
''', '''	client->state = CLIENT_CLOSED;
	client->seat = NULL;
	if (!seat->vt_bound && client->session == seat->session_cnt - 1) {
		seat->session_cnt--;
	}
''')],
 needs='the youngest session leaving before another joins',
 breaks='a session number is given out a second time',
 demo='''
int main(void) {
	start(false);
	int a = join_active(), b = join();
	close(b);
	SETTLE();
	int c = join();
	CHECK(take(c) == SERVER_SEAT_OPENED);
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	CHECK(take(a) == SERVER_ERROR);
	stop();
}
'''),
dict(id='c04-limit-of-active', property='C04',
 edits=[(SEAT, '''		device_count++;
	}''', '''		device_count += old_device->active;
	}''')],
 needs='a client with 128 devices that is disabled and enabled again before it opens another one',
 breaks='it gets more devices than the limit',
 demo='''
int main(void) {
	start(false);
	int a = join_active(), b = join();
	char p[40];
	for (int i = 0; i < 128; i++) { sprintf(p, "/dev/input/event%d", i); open_dev(a, p); close(last_fd); }
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	req(a, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	req_int(b, CLIENT_SWITCH_SESSION, 1);
	SETTLE();
	req(b, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	while (take(a) != 0);
	req_open(a, "/dev/input/event500");
	SETTLE();
	CHECK(take(a) == SERVER_ERROR);
	stop();
}
'''),
dict(id='c06-release-of-the-dead', property='C06',
 edits=[(SEAT, '''	if (seat->active_client != NULL) {
		seat_disable_client(seat->active_client);
	}

	vt_ack(seat, true);''', '''	if (seat->active_client != NULL && seat_disable_client(seat->active_client) == -1 &&
	    errno == EPIPE) {
		return -1;
	}

	vt_ack(seat, true);''')],
 needs='a VT switch at the moment the client in front has died, before the daemon has noticed',
 breaks='the release of the VT is never acknowledged and the user cannot switch',
 demo='''
int main(void) {
	start(true);
	int a = join_active();
	close(a);
	vt_try(2);
	SETTLE();
	CHECK(front == 2);
	stop();
}
'''),
dict(LIST, id='c16-old-tail', property='C16',
 edits=[('common/linked_list.c', '''	linked_list_init(source);
}''', '''	source->next = source;
}''')],
 needs='an element added at the end of a list that was emptied by splicing',
 breaks='the element ends up in the other list',
 demo='''
int main(void) {
	struct linked_list a, b, e[3];
	linked_list_init(&a); linked_list_init(&b);
	for (int i = 0; i < 3; i++) linked_list_init(&e[i]);
	linked_list_insert(&b, &e[0]); linked_list_insert(&b, &e[1]);
	linked_list_take(&a, &b);
	linked_list_insert(b.prev, &e[2]);
	CHECK(b.next == &e[2] && b.prev == &e[2]);
	int n = 0;
	for (struct linked_list *i = a.next; i != &a && n < 10; i = i->next) n++;
	CHECK(n == 2);
	return 0;
}
'''),
dict(FAKE, id='c17-waits-after-events', property='C17',
 edits=[(S, 'if (predispatch > 0 || timeout == 0) {', 'if (timeout == 0) {')],
 needs='a dispatch that may wait while an event is left over from a request',
 breaks='the dispatch delivers the event and then sleeps although it has made progress',
 demo='''
static void serve(int c, uint16_t op, uint8_t *pl, int n) {
	if (op == CLIENT_SWITCH_SESSION) msg(c, SERVER_DISABLE_SEAT, "", 0);
	if (op == CLIENT_PING) return;
	usual(c, op);
}
int main(void) {
	start();
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	CHECK(libseat_switch_session(s, 2) == 0);
	alarm(5);
	CHECK(libseat_dispatch(s, -1) >= 0 && n_dis == 1);
	return 0;
}
'''),
dict(FAKE, id='c18-relative-socket', property='C18',
 edits=[(S, '	if (path == NULL) {\n		path = SEATD_DEFAULTPATH;', "	if (path == NULL || path[0] != '/') {\n		path = SEATD_DEFAULTPATH;")],
 needs='a relative name in SEATD_SOCK',
 breaks='the daemon asked for is not the one that is used',
 demo='''
static void serve(int c, uint16_t op, uint8_t *pl, int n) { usual(c, op); }
int main(void) {
	start();
	CHECK(chdir(SCRATCH) == 0);
	setenv("SEATD_SOCK", "fake", 1);
	struct libseat *s = libseat_open_seat(&L, NULL);
	CHECK(s);
	return 0;
}
'''),
dict(part('libseat/libseat.c common/log.c', '-DLIBSEAT=1 -DSEATD_ENABLED=1 -DLOGIND_ENABLED=1 -DBUILTIN_ENABLED=1'),
 id='c22-noop-for-launched', property='C22',
 edits=[(L, '''		if (iter->backend == &noop_impl) {
			continue;''', '''		if (iter->backend == &noop_impl && getenv("SEATD_SOCK") == NULL) {
			continue;''')],
 needs='every backend failing under seatd-launch',
 breaks='the application gets the backend that does nothing without having asked for it',
 demo='''
static int tried;
static struct libseat *op(const struct libseat_seat_listener *l, void *d) { errno = EIO; return NULL; }
static struct libseat *no(const struct libseat_seat_listener *l, void *d) { tried++; errno = EIO; return NULL; }
const struct seat_impl seatd_impl = {.open_seat = op}, logind_impl = {.open_seat = op}, builtin_impl = {.open_seat = op}, noop_impl = {.open_seat = no};
static void cb(struct libseat *s, void *d) { }
int main(void) {
	struct libseat_seat_listener l = {cb, cb};
	unsetenv("LIBSEAT_BACKEND");
	setenv("SEATD_SOCK", "/nowhere", 1);
	CHECK(libseat_open_seat(&l, NULL) == NULL && tried == 0);
	return 0;
}
'''),
dict(LAUNCH, id='c26-stopped-command', property='C26',
 edits=[('seatd-launch/seatd-launch.c', 'waitpid(child, &status, 0)', 'waitpid(child, &status, WUNTRACED)')],
 needs='a command that is stopped',
 breaks='seatd-launch takes it for dead, stops the daemon and aborts',
 demo='''
static void command(void) {
	pid_t p = getpid();
	if (fork() == 0) { sleep(1); kill(p, SIGCONT); _exit(0); }
	raise(SIGSTOP);
	_exit(7);
}
int main(void) {
	char *a[] = {"seatd-launch", "true", NULL};
	CHECK(run(2, a) == 7);
	return 0;
}
'''),
]
