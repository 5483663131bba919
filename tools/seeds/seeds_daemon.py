SEEDS = [
dict(id='c01-ack-from-active', property='C01',
 edits=[('seatd/seat.c', 'if (client->state != CLIENT_PENDING_DISABLE) {\n\t\tlog_error("Could not ack disable',
  'if (client->state != CLIENT_PENDING_DISABLE && client->state != CLIENT_ACTIVE) {\n\t\tlog_error("Could not ack disable')],
 needs='an active client that acknowledges a disable nobody asked for while another session waits on the seat',
 breaks='the unasked acknowledgement deactivates the session without revoking its devices and enables the next one',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	int b = join();
	CHECK(take(b) == SERVER_SEAT_OPENED && take(b) == 0);
	req(a, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	CHECK(take(a) == SERVER_ERROR);
	CHECK(take(b) == 0 && take(a) == 0);
	stop();
}
'''),
dict(id='c02-one-failed-revoke', property='C02',
 edits=[('seatd/seat.c', 'log_errorf("Could not deactivate %s: %s", device->path, strerror(errno));\n\t\t}',
  'log_errorf("Could not deactivate %s: %s", device->path, strerror(errno));\n\t\t\tbreak;\n\t\t}')],
 needs='a session switch away from a client with several devices, one of which has just been unplugged so that revoking it fails',
 breaks='the remaining input devices stay usable by the session that was asked to disable',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	int b = join();
	open_dev(a, "/dev/input/event1");
	open_dev(a, "/dev/input/event2");
	revoke_fails_once = true;
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	CHECK(desc_of("/dev/input/event1")->revoked || desc_of("/dev/input/event2")->revoked);
	stop();
}
'''),
dict(id='c02-drm-master-on-reopen', property='C02',
 edits=[('seatd/seat.c', '''		seat_device->active = true;
		break;
	case SEAT_DEVICE_TYPE_EVDEV:
		errno = EINVAL;''', '''		break;
	case SEAT_DEVICE_TYPE_EVDEV:
		errno = EINVAL;''')],
 needs='a client with a display device that is disabled, enabled again and disabled a second time',
 breaks='the display device keeps DRM master after the second disable',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	int b = join();
	open_dev(a, "/dev/dri/card0");
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	req(a, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	CHECK(!desc_of("/dev/dri/card0")->master);
	req_int(b, CLIENT_SWITCH_SESSION, 1);
	SETTLE();
	req(b, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	CHECK(desc_of("/dev/dri/card0")->master);
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	CHECK(!desc_of("/dev/dri/card0")->master);
	stop();
}
'''),
dict(id='c03-open-the-given-path', property='C03',
 edits=[('seatd/seat.c', 'int fd = open(sanitized_path, O_RDWR', 'int fd = open(path, O_RDWR')],
 needs='a device requested through a path that is not its canonical one',
 breaks='what is opened is the path as the client wrote it, not the canonical form that was checked',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	req_open(a, "/dev/link-input-event7");
	SETTLE();
	take(a);
	CHECK(strcmp(last_open, "/dev/input/event7") == 0);
	stop();
}
'''),
dict(id='c04-id-by-count', property='C04',
 edits=[('seatd/seat.c', '''		if (old_device->device_id >= device_id) {
			device_id = old_device->device_id + 1;
		}
		device_count++;''', '''		device_count++;
		device_id = (int)device_count + 1;''')],
 needs='three devices opened, one that is not the last closed, and another one opened',
 breaks='two open devices of a client share a device id',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	int d1 = open_dev(a, "/dev/input/event1");
	int d2 = open_dev(a, "/dev/input/event2");
	int d3 = open_dev(a, "/dev/input/event3");
	req_int(a, CLIENT_CLOSE_DEVICE, d2);
	SETTLE();
	CHECK(take(a) == SERVER_DEVICE_CLOSED);
	int d4 = open_dev(a, "/dev/input/event4");
	CHECK(d4 != d1 && d4 != d3);
	stop();
}
'''),
dict(id='c05-switch-while-queued', property='C05',
 edits=[('seatd/seat.c', '''	seat->next_client = target;
	seat_disable_client(seat->active_client);
	return 0;''', '''	if (target->state != CLIENT_CLOSED) {
		seat_disable_client(seat->active_client);
	}
	if (target->link.next != &seat->clients) {
		seat->next_client = target;
	}
	return 0;''')],
 needs='a switch to the oldest of at least three sessions',
 breaks='after the switch is acknowledged the newest session is enabled instead of the requested one',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	int b = join();
	int c = join();
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	req(a, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	CHECK(take(b) == SERVER_SEAT_OPENED && take(b) == SERVER_ENABLE_SEAT);
	req_int(b, CLIENT_SWITCH_SESSION, 1);
	SETTLE();
	req(b, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	CHECK(take(a) == SERVER_DISABLE_SEAT || true);
	int seen = 0, op;
	while ((op = take(a)) > 0) seen |= op == SERVER_ENABLE_SEAT;
	CHECK(seen);
	stop();
}
'''),
dict(id='c06-acquire-ack-only-when-free', property='C06',
 edits=[('seatd/seat.c', '''	vt_ack(seat, false);
	if (seat->active_client == NULL) {
		seat_activate(seat);
	}''', '''	if (seat->active_client == NULL) {
		vt_ack(seat, false);
		seat_activate(seat);
	}''')],
 needs='a VT switch to a watched VT while a client that was asked to disable has not acknowledged it',
 breaks='the acquire signal of that VT is never acknowledged to the kernel',
 demo='''
int main(void) {
	start(true);
	int a = join_active();
	vt_try(2);
	SETTLE();
	CHECK(n_rel_ack == 1 && front == 2);
	int b = join();
	CHECK(VT[2].proc);
	vt_try(1);
	SETTLE();
	CHECK(front == 1 && n_rel_ack == 2);
	CHECK(n_acq_ack == 1);
	stop();
}
'''),
dict(id='c07-cleanup-only-in-front', property='C07',
 edits=[('seatd/seat.c', '''	terminal_set_process_switching(ttyfd, true);
	terminal_set_keyboard(ttyfd, true);
	terminal_set_graphics(ttyfd, false);''', '''	terminal_set_process_switching(ttyfd, true);
	terminal_set_graphics(ttyfd, false);
	if (terminal_current_vt(ttyfd) == vt) {
		terminal_set_keyboard(ttyfd, true);
	}''')],
 needs='a client that leaves while its VT is in the background',
 breaks='the keyboard of its VT stays off',
 demo='''
int main(void) {
	start(true);
	int a = join_active();
	vt_try(2);
	SETTLE();
	close(a);
	SETTLE();
	CHECK(!VT[1].gfx && !VT[1].kbd_off);
	stop();
}
'''),
dict(id='c08-rejoin', property='C08',
 edits=[('seatd/seat.c', '''	if (client->session != -1) {''', '''	if (client->session != -1 && client->state != CLIENT_CLOSED) {''')],
 needs='a client that closes the seat and opens it again on the same connection',
 breaks='the connection joins the seat a second time instead of being refused',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	req(a, CLIENT_CLOSE_SEAT, NULL, 0);
	SETTLE();
	CHECK(take(a) == SERVER_SEAT_CLOSED);
	req(a, CLIENT_OPEN_SEAT, NULL, 0);
	SETTLE();
	CHECK(take(a) == -1);
	stop();
}
'''),
dict(id='c09-one-request-per-read', property='C09',
 edits=[('seatd/client.c', '''			if (client_handle_opcode(client, header.opcode, header.size) == -1) {
				goto fail;
			}''', '''			if (client_handle_opcode(client, header.opcode, header.size) == -1) {
				goto fail;
			}
			if (client->connection.out.head != client->connection.out.tail) {
				break;
			}''')],
 needs='several requests that arrive together while the client does not read its replies',
 breaks='requests left in the buffer when the socket is full are not answered until more bytes arrive',
 demo='''
int main(void) {
	start(false);
	int a = connect_client();
	int small = 1;
	setsockopt(server.poller.fds.next ? a : a, SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
	// fill the way to the client with pongs
	char p[400];
	for (int i = 0; i < 100; i++) { struct proto_header h = {CLIENT_PING, 0}; memcpy(p + 4 * i, &h, 4); }
	int sent = 0;
	for (int r = 0; r < 4000; r++) {
		ssize_t n = write(a, p, sizeof p);
		if (n == -1) break;
		sent += n / 4;
		step(2);
		struct pollfd pf = {a, POLLOUT};
		CHECK(n % 4 == 0);
		poll(&pf, 1, 0);
		if (((struct client *)server.idle_clients.next)->connection.out.head !=
		    ((struct client *)server.idle_clients.next)->connection.out.tail) {
			// the socket is full: a few more and wait for them
			if (write(a, p, 80) == 80) sent += 20;
			step(3);
			break;
		}
	}
	int got = 0;
	for (int i = 0; i < 100; i++) {
		int op;
		while ((op = take(a)) == SERVER_PONG) got++;
		CHECK(op == 0);
		step(3);
	}
	CHECK(got == sent);
	stop();
}
'''),
dict(id='c10-path-length', property='C10',
 edits=[('seatd/client.c', '''		if (msg.path_len == 0 || strnlen(path, msg.path_len) != (uint16_t)(msg.path_len - 1)) {''',
  '''		if (msg.path_len == 0 || memchr(path, '\\0', msg.path_len) == NULL) {''')],
 needs='a device path with a NUL character in its middle',
 breaks='a malformed message is answered instead of ending the connection of its sender',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	char m[] = "\\x12\\0/dev/missing\\0abcde";
	req(a, CLIENT_OPEN_DEVICE, m, 2 + 0x12);
	SETTLE();
	CHECK(take(a) == -1);
	stop();
}
'''),
dict(id='c11-close-leaves-queue', property='C11',
 edits=[('seatd/seat.c', '''	if (seat->next_client == client) {
		seat->next_client = NULL;
	}

	linked_list_remove(&client->link);''', '''	if (seat->next_client == client && client->state != CLIENT_NEW) {
		seat->next_client = NULL;
	}

	linked_list_remove(&client->link);''')],
 needs='a session that was never enabled, is the target of a queued switch and disconnects before the switch is acknowledged',
 breaks='the seat still refers to the freed client and uses it when the switch is acknowledged',
 demo='''
int main(void) {
	start(false);
	int a = join_active();
	int b = join();
	req_int(a, CLIENT_SWITCH_SESSION, 2);
	SETTLE();
	close(b);
	SETTLE();
	req(a, CLIENT_DISABLE_SEAT, NULL, 0);
	SETTLE();
	stop();
}
'''),
]
