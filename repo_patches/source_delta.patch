From 2755b86126b2ea40dd6ce2f01ea3b564f3309fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 01/42] fix: seat: return the existing device when a path is
 reopened

seat_open_device took a reference on the already open device and then
returned NULL, so the client got an error (with a stale errno) and the
reference leaked. Return the open device instead. A device that was
revoked in the meantime cannot be reused, so a new one is opened then.
---
 seatd/seat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 700bb63..34ea5c4 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -358,9 +358,9 @@ struct seat_device *seat_open_device(struct client *client, const char *path) {
 	     elem = elem->next) {
 		struct seat_device *old_device = (struct seat_device *)elem;
 
-		if (strcmp(old_device->path, sanitized_path) == 0) {
+		if (old_device->active && strcmp(old_device->path, sanitized_path) == 0) {
 			old_device->ref_cnt++;
-			return device;
+			return old_device;
 		}
 
 		if (old_device->device_id >= device_id) {
-- 
2.43.0


From b8caf1069047f9bc6e1c7863a439f02962cb76dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 02/42] fix: seat: clean up the VT of the client being removed

When the current client was removed, the VT cleaned up was the seat's
current VT. While a VT switch is in progress this is -1, which aborts
seatd, or the VT switched to, which left the VT of the removed client in
graphics mode with its keyboard off.
---
 seatd/seat.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 34ea5c4..a7a8b2a 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -270,18 +270,11 @@ void seat_remove_client(struct client *client) {
 		seat_activate(seat);
 	}
 
-	if (seat->vt_bound) {
-		if (was_current && seat->active_client == NULL) {
-			// This client was current, but there were no clients
-			// waiting to take this VT, so clean it up.
-			log_debug("Closing active VT");
-			vt_close(seat->cur_vt);
-		} else if (!was_current && client->state != CLIENT_CLOSED) {
-			// This client was not current, but as the client was
-			// running, we need to clean up the VT.
-			log_debug("Closing inactive VT");
-			vt_close(client->session);
-		}
+	if (seat->vt_bound && (seat->active_client == NULL ||
+			       seat->active_client->session != client->session)) {
+		// No client took over the VT of this client, so clean it up.
+		log_debugf("Closing VT %d", client->session);
+		vt_close(client->session);
 	}
 
 	client->state = CLIENT_CLOSED;
-- 
2.43.0


From 26b00a858391edbddf2e843143c737c01cb661bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 03/42] fix: seat: number the sessions of a seat without VTs
 from 1

seat_set_next_session rejects session 0, so the first client on a seat
that is not VT-bound could never be switched to.
---
 seatd/seat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index a7a8b2a..3984b51 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -38,6 +38,7 @@ struct seat *seat_create(const char *seat_name, bool vt_bound) {
 	}
 	linked_list_init(&seat->clients);
 	seat->vt_bound = vt_bound;
+	seat->session_cnt = 1;
 	seat->seat_name = strdup(seat_name);
 	seat->cur_vt = 0;
 	if (seat->seat_name == NULL) {
-- 
2.43.0


From b2f7714256e3d05d95b18d87a3f39191125e4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 04/42] fix: poller: close the signal pipe in poller_finish

---
 seatd/poller.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seatd/poller.c b/seatd/poller.c
index ceadb24..a977647 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -111,6 +111,8 @@ int poller_finish(struct poller *poller) {
 		free(bps);
 	}
 	free(poller->pollfds);
+	close(poller->signal_fds[0]);
+	close(poller->signal_fds[1]);
 	global_poller = NULL;
 	return 0;
 }
-- 
2.43.0


From f001791c10c52d59a1d212a347eeaeefb3873d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 05/42] fix: seat: do not abort on a VT signal when the VT is
 not known

seat->cur_vt is -1 while a VT switch is in progress or if the VT could
not be read, and terminal_open asserts on it. Use tty0, which is the
VT in front, in that case.
---
 seatd/seat.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 3984b51..d99e324 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -103,7 +103,7 @@ static int vt_close(int vt) {
 }
 
 static int vt_switch(struct seat *seat, int vt) {
-	int ttyfd = terminal_open(seat->cur_vt);
+	int ttyfd = terminal_open(seat->cur_vt == -1 ? 0 : seat->cur_vt);
 	if (ttyfd == -1) {
 		log_errorf("Could not open terminal to switch to VT %d: %s", vt, strerror(errno));
 		return -1;
@@ -115,7 +115,7 @@ static int vt_switch(struct seat *seat, int vt) {
 }
 
 static int vt_ack(struct seat *seat, bool release) {
-	int tty0fd = terminal_open(seat->cur_vt);
+	int tty0fd = terminal_open(seat->cur_vt == -1 ? 0 : seat->cur_vt);
 	if (tty0fd == -1) {
 		log_errorf("Could not open tty0 to ack VT signal: %s", strerror(errno));
 		return -1;
-- 
2.43.0


From 13b98e71748c8690e8e167cebeb50e7dcb368562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 06/42] fix: seat: do not use a stale VT when the current VT
 cannot be read

If tty0 could not be opened, seat->cur_vt kept its old value (0 for a new
seat), and a client could be added to the seat with that session.
---
 seatd/seat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index d99e324..36b3f8b 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -69,6 +69,7 @@ static void seat_update_vt(struct seat *seat) {
 	int tty0fd = terminal_open(0);
 	if (tty0fd == -1) {
 		log_errorf("Could not open tty0 to update VT: %s", strerror(errno));
+		seat->cur_vt = -1;
 		return;
 	}
 	seat->cur_vt = terminal_current_vt(tty0fd);
-- 
2.43.0


From 1a081d08559708650b49b8aa65f2a7561a7bcb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 07/42] fix: seat: notice VT switches away from the VT of a
 waiting client

A client added while another is pending disable has to wait. Its VT was
not in process switching mode before it was opened, so if the user
switched away from it in the meantime, no signal was received and the
client was enabled on a background VT.
---
 seatd/seat.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index 36b3f8b..6ac04be 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -103,6 +103,17 @@ static int vt_close(int vt) {
 	return 0;
 }
 
+static int vt_watch(int vt) {
+	int ttyfd = terminal_open(vt);
+	if (ttyfd == -1) {
+		log_errorf("Could not open terminal to watch VT %d: %s", vt, strerror(errno));
+		return -1;
+	}
+	terminal_set_process_switching(ttyfd, true);
+	close(ttyfd);
+	return 0;
+}
+
 static int vt_switch(struct seat *seat, int vt) {
 	int ttyfd = terminal_open(seat->cur_vt == -1 ? 0 : seat->cur_vt);
 	if (ttyfd == -1) {
@@ -229,6 +240,9 @@ int seat_add_client(struct seat *seat, struct client *client) {
 				}
 			}
 		}
+		// The client may have to wait for another client to disable,
+		// so make sure that we notice if this VT is left meanwhile.
+		vt_watch(seat->cur_vt);
 		client->session = seat->cur_vt;
 	} else {
 		client->session = seat->session_cnt++;
-- 
2.43.0


From 07b24a105c4c01c05edc2e6b157553c041d475c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 08/42] fix: seat: never accept two clients on one VT

The check for another client on the VT was only made while a client was
current, so that a second client could join the VT of a client that was
not (yet) enabled.
---
 seatd/seat.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 6ac04be..5927776 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -229,15 +229,13 @@ int seat_add_client(struct seat *seat, struct client *client) {
 			errno = EINVAL;
 			return -1;
 		}
-		if (seat->active_client != NULL) {
-			for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
-			     elem = elem->next) {
-				struct client *client = (struct client *)elem;
-				if (client->session == seat->cur_vt) {
-					log_error("Could not add client: seat is VT-bound and already has pending client");
-					errno = EBUSY;
-					return -1;
-				}
+		for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
+		     elem = elem->next) {
+			struct client *client = (struct client *)elem;
+			if (client->session == seat->cur_vt) {
+				log_error("Could not add client: seat is VT-bound and already has pending client");
+				errno = EBUSY;
+				return -1;
 			}
 		}
 		// The client may have to wait for another client to disable,
-- 
2.43.0


From 2384cdd44b1c957a0ab85a0f834e903cb5c79b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 09/42] fix: client: wait for writability when an event cannot
 be sent

If the socket buffer of a client was full, enable and disable events
stayed in the output buffer without waiting for writability. Enabling
was treated as failed too, closing the VT of a client that is active.
---
 seatd/client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seatd/client.c b/seatd/client.c
index ef5d625..02aed36 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -464,7 +464,7 @@ int client_send_disable_seat(struct client *client) {
 		.size = 0,
 	};
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
+	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
 		return -1;
 	}
@@ -477,7 +477,7 @@ int client_send_enable_seat(struct client *client) {
 		.size = 0,
 	};
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
+	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
 		return -1;
 	}
-- 
2.43.0


From 3d752bd1877086118f50936465f846ecbe5b7b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 10/42] fix: connection: report end of file with a partial
 message buffered

connection_read returned the amount of buffered data, so a peer that
closed its connection within a message was not noticed.
---
 common/connection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/connection.c b/common/connection.c
index ab79e0e..dcb89fd 100644
--- a/common/connection.c
+++ b/common/connection.c
@@ -207,6 +207,9 @@ int connection_read(struct connection *connection) {
 	if (decode_cmsg(&connection->fds_in, &msg) != 0) {
 		return -1;
 	}
+	if (len == 0) {
+		return 0;
+	}
 	connection->in.head += len;
 
 	return connection_buffer_size(&connection->in);
-- 
2.43.0


From 9485f88450d9be8128f1ebcdcac401e1846c0a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 11/42] fix: poller: do not lose a signal raised while it is
 handled

The raised flag was cleared after calling the handler, discarding a
signal that came in meanwhile.
---
 seatd/poller.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index a977647..1c6cd6d 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -289,8 +289,8 @@ static void dispatch(struct poller *poller) {
 			if (!bps->raised || bps->killed) {
 				continue;
 			}
-			bps->func(bps->signal, bps->data);
 			bps->raised = false;
+			bps->func(bps->signal, bps->data);
 		}
 	}
 
-- 
2.43.0


From 57e1887811b5f31dcea0afeee774e7d700d37035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 12/42] fix: poller: restore the default action of an unused
 signal

event_source_signal_destroy counted the source being destroyed as a user
of the signal.
---
 seatd/poller.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index 1c6cd6d..3005331 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -180,6 +180,8 @@ int event_source_signal_destroy(struct event_source_signal *event_source) {
 	struct event_source_signal *bps = (struct event_source_signal *)event_source;
 	struct poller *poller = bps->poller;
 
+	bps->killed = true;
+
 	int refcnt = 0;
 	for (struct linked_list *elem = poller->signals.next; elem != &poller->signals;
 	     elem = elem->next) {
@@ -198,7 +200,6 @@ int event_source_signal_destroy(struct event_source_signal *event_source) {
 	}
 
 	poller->dirty = true;
-	bps->killed = true;
 	return 0;
 }
 
-- 
2.43.0


From ef9379833f82c85f4b4034939e15d888165e8068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 13/42] fix: connection: make room for a message with the
 longest path

A path of MAX_PATH_LEN bytes together with its headers did not fit in
the connection buffer.
---
 include/connection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/connection.h b/include/connection.h
index d32e766..a726f48 100644
--- a/include/connection.h
+++ b/include/connection.h
@@ -4,7 +4,7 @@
 #include <stddef.h>
 #include <stdint.h>
 
-#define CONNECTION_BUFFER_SIZE 256
+#define CONNECTION_BUFFER_SIZE 512
 
 #define MAX_FDS (CONNECTION_BUFFER_SIZE / sizeof(int))
 
-- 
2.43.0


From c3ecc94aa01494b80b754cfed2b26ad159328632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 14/42] fix: libseat: deliver queued events in the order they
 arrived

queue_event inserted at the head of the list and execute_events ran the
list from its head, so that events read together were delivered in reverse:
an application seeing a disable followed by an enable ended up believing
that its enabled seat was disabled.
---
 libseat/backend/seatd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 90dd7f7..88cef9b 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -187,7 +187,7 @@ static int queue_event(struct backend_seatd *backend, int opcode) {
 	}
 
 	ev->opcode = opcode;
-	linked_list_insert(&backend->pending_events, &ev->link);
+	linked_list_insert(backend->pending_events.prev, &ev->link);
 	return 0;
 }
 
-- 
2.43.0


From 7952fca419ee6f92b73fb35cbc630c75a13712a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 15/42] fix: libseat: keep the error sent by seatd in errno

check_pending_events runs between the response being read and the return to
the application, and always ends with a failing connection_get that sets
errno to EAGAIN, which replaced the error code seatd had sent.
---
 libseat/backend/seatd.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 88cef9b..33c17fa 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -481,14 +481,16 @@ static int send_ping(struct backend_seatd *backend) {
 }
 
 static void check_pending_events(struct backend_seatd *backend) {
+	// The caller may be about to return the error from its request
+	int stored_errno = errno;
 	if (read_and_queue(backend, NULL) == -1) {
-		return;
+		goto done;
 	}
 	if (linked_list_empty(&backend->pending_events)) {
-		return;
+		goto done;
 	}
 	if (backend->awaiting_pong) {
-		return;
+		goto done;
 	}
 
 	// We have events pending execution, so a dispatch is required.
@@ -497,9 +499,12 @@ static void check_pending_events(struct backend_seatd *backend) {
 	// user will be woken up by its response.
 	if (send_ping(backend) == -1) {
 		log_errorf("Could not send ping request: %s", strerror(errno));
-		return;
+		goto done;
 	}
 	backend->awaiting_pong = true;
+
+done:
+	errno = stored_errno;
 }
 
 static int open_device(struct libseat *base, const char *path, int *fd) {
-- 
2.43.0


From db1dccf847e969b3f794c74e66bb8a27787d0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 16/42] fix: libseat: do not close the connection twice when
 opening fails

destroy already closes the connection. The second close could hit an
unrelated file descriptor opened by another thread in the meantime, and
replaced the errno of the failure with EBADF.
---
 libseat/backend/seatd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 33c17fa..fdf4416 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -424,6 +424,7 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 
 backend_error:
 	destroy(backend);
+	return NULL;
 alloc_error:
 	close(fd);
 	return NULL;
-- 
2.43.0


From 2471ce4c38de7cbb308e9f767b789b3ab229e949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 17/42] fix: libseat: report a closed connection from a
 non-blocking dispatch

When dispatch did not wait, it read from the connection without checking
for end of file, and so returned 0 forever once seatd had gone away, with
the connection fd always readable. Share the handling of read results with
poll_connection. This also makes a spurious wakeup while waiting for a
response continue waiting instead of failing the request and leaving its
response to be taken for that of the next one.
---
 libseat/backend/seatd.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index fdf4416..0f117b9 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -262,6 +262,21 @@ static int read_and_queue(struct backend_seatd *backend, int *opcode) {
 	return packets;
 }
 
+static int read_connection(struct backend_seatd *backend) {
+	int len = connection_read(&backend->connection);
+	if (len == 0) {
+		set_error(backend);
+		errno = EIO;
+		return -1;
+	} else if (len == -1) {
+		if (errno == EAGAIN) {
+			return 0;
+		}
+		set_error(backend);
+	}
+	return len;
+}
+
 static int poll_connection(struct backend_seatd *backend, int timeout) {
 	struct pollfd fd = {
 		.fd = backend->connection.fd,
@@ -278,20 +293,11 @@ static int poll_connection(struct backend_seatd *backend, int timeout) {
 		return -1;
 	}
 
-	int len = 0;
 	if (fd.revents & POLLIN) {
-		len = connection_read(&backend->connection);
-		if (len == 0) {
-			set_error(backend);
-			errno = EIO;
-			return -1;
-		} else if (len == -1 && errno != EAGAIN) {
-			set_error(backend);
-			return -1;
-		}
+		return read_connection(backend);
 	}
 
-	return len;
+	return 0;
 }
 
 static int read_until_response(struct backend_seatd *backend) {
@@ -339,14 +345,14 @@ static int dispatch(struct libseat *base, int timeout) {
 	// like to read anything pending.
 	int read = 0;
 	if (predispatch > 0 || timeout == 0) {
-		read = connection_read(&backend->connection);
+		read = read_connection(backend);
 	} else {
 		read = poll_connection(backend, timeout);
 	}
 
 	if (read == 0) {
 		return predispatch;
-	} else if (read == -1 && errno != EAGAIN) {
+	} else if (read == -1) {
 		log_errorf("Could not read from connection: %s", strerror(errno));
 		goto error;
 	}
-- 
2.43.0


From d0785a2ab168e6572e018ed7ee31e007b1858c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 18/42] fix: logind: read D-Bus booleans into an int

sd-bus stores a 'b' as an int, so that reading one into a bool wrote past
the end of the variable: over the stack, or over initial_setup and the
padding of the backend.
---
 libseat/backend/logind.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index b5eeed2..99b87c6 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -280,11 +280,14 @@ static const char *seat_name(struct libseat *base) {
 
 static int session_get_active(struct backend_logind *session, bool *active) {
 	sd_bus_error error = SD_BUS_ERROR_NULL;
+	int value = 0; // sd-bus stores booleans as int
 	int ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1", session->path,
 					      "org.freedesktop.login1.Session", "Active", &error,
-					      'b', active);
+					      'b', &value);
 	if (ret < 0) {
 		log_errorf("Could not check if session is active: %s", error.message);
+	} else {
+		*active = value;
 	}
 
 	sd_bus_error_free(&error);
@@ -434,7 +437,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 				goto error;
 			}
 
-			bool value;
+			int value; // sd-bus stores booleans as int
 			ret = sd_bus_message_read_basic(msg, 'b', &value);
 			if (ret < 0) {
 				goto error;
@@ -479,7 +482,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 			sd_bus_error error = SD_BUS_ERROR_NULL;
 			const char *obj = "org.freedesktop.login1.Session";
 			const char *field = "Active";
-			bool value;
+			int value; // sd-bus stores booleans as int
 			ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1",
 							  session->path, obj, field, &error, 'b',
 							  &value);
-- 
2.43.0


From 844daa0022cd350e4321daf63829d38969d17cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 19/42] fix: logind: do not leak the reply to
 PauseDeviceComplete

The reply was stored in the parameter holding the signal, and nothing
released it.
---
 libseat/backend/logind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 99b87c6..cb5b138 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -391,7 +391,7 @@ static int handle_pause_device(sd_bus_message *msg, void *userdata, sd_bus_error
 		set_active(session, false);
 		ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
 					 "org.freedesktop.login1.Session", "PauseDeviceComplete",
-					 ret_error, &msg, "uu", major, minor);
+					 ret_error, NULL, "uu", major, minor);
 		if (ret < 0) {
 			log_errorf("Could not send PauseDeviceComplete signal: %s",
 				   ret_error->message);
-- 
2.43.0


From 1f5731ad97a28885d6733091751f8a5e6d3b1170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 20/42] fix: logind: set errno when a request fails

libseat promises it, but the error of the D-Bus call was dropped and errno
left as it happened to be.
---
 libseat/backend/logind.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index cb5b138..70cc750 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -138,6 +138,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	// so we just clone it.
 	tmpfd = fcntl(tmpfd, F_DUPFD_CLOEXEC, 0);
 	if (tmpfd < 0) {
+		ret = -errno;
 		log_errorf("Could not duplicate fd: %s", strerror(errno));
 		tmpfd = -1;
 		goto out;
@@ -149,6 +150,9 @@ out:
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
+	if (tmpfd == -1) {
+		errno = -ret;
+	}
 	return tmpfd;
 }
 
@@ -179,7 +183,11 @@ static int close_device(struct libseat *base, int device_id) {
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
-	return ret < 0 ? -1 : 0;
+	if (ret < 0) {
+		errno = -ret;
+		return -1;
+	}
+	return 0;
 }
 
 static int switch_session(struct libseat *base, int s) {
@@ -202,7 +210,11 @@ static int switch_session(struct libseat *base, int s) {
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
-	return ret < 0 ? -1 : 0;
+	if (ret < 0) {
+		errno = -ret;
+		return -1;
+	}
+	return 0;
 }
 
 static int disable_seat(struct libseat *base) {
-- 
2.43.0


From 190f03d772895e69161f60e2bdb2dd155be7b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 21/42] fix: logind: report a broken connection from dispatch

Errors from sd_bus_process were ignored, so that a dispatch that did not
wait returned 0 forever once the bus connection was lost.
---
 libseat/backend/logind.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 70cc750..f3c4c71 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -272,6 +272,9 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 	while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 		total_dispatched += dispatched;
 	}
+	if (dispatched < 0) {
+		goto error;
+	}
 	if (total_dispatched == 0 && timeout != 0) {
 		if (poll_connection(backend, timeout) == -1) {
 			log_errorf("Could not poll connection: %s", strerror(errno));
@@ -280,9 +283,17 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 		while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 			total_dispatched += dispatched;
 		}
+		if (dispatched < 0) {
+			goto error;
+		}
 	}
 	check_pending_events(backend);
 	return total_dispatched;
+
+error:
+	log_errorf("Could not process D-Bus messages: %s", strerror(-dispatched));
+	errno = -dispatched;
+	return -1;
 }
 
 static const char *seat_name(struct libseat *base) {
-- 
2.43.0


From 263b507d575510174e84d92cf1a28bd7a583df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 22/42] fix: logind: handle strdup failures when opening a seat

The first one hit an assertion, the others passed NULL on to sd-bus.
---
 libseat/backend/logind.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index f3c4c71..abaa4c2 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -580,6 +580,9 @@ static int manager_get_session_path(struct backend_logind *session, char **sessi
 	}
 	free(*session_path);
 	*session_path = strdup(path);
+	if (*session_path == NULL) {
+		ret = -ENOMEM;
+	}
 
 out:
 	sd_bus_error_free(&error);
@@ -609,6 +612,9 @@ static int manager_get_seat_path(struct backend_logind *session, char **seat_pat
 	}
 	free(*seat_path);
 	*seat_path = strdup(path);
+	if (*seat_path == NULL) {
+		ret = -ENOMEM;
+	}
 
 out:
 	sd_bus_error_free(&error);
@@ -630,6 +636,10 @@ static int get_display_session(char **session_id) {
 			goto error;
 		}
 		*session_id = strdup(xdg_session_id);
+		if (*session_id == NULL) {
+			ret = -ENOMEM;
+			goto error;
+		}
 		goto success;
 	}
 
-- 
2.43.0


From 43a2c9b50706cb8df4d5acf76c944944bde4fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 23/42] fix: libseat: set errno wherever -1 is returned

get_fd and close_seat on a lost seatd connection, and switch_session of the
no-op backend, returned -1 with whatever errno happened to be.
---
 libseat/backend/noop.c  | 1 +
 libseat/backend/seatd.c | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 18f26c3..7d07281 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -72,6 +72,7 @@ static int switch_session(struct libseat *base, int s) {
 	(void)base;
 	(void)s;
 	log_errorf("No-op backend cannot switch to session %d", s);
+	errno = ENOSYS;
 	return -1;
 }
 
diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 0f117b9..c6c4946 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -323,6 +323,10 @@ static int read_until_response(struct backend_seatd *backend) {
 
 static int get_fd(struct libseat *base) {
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
+	if (backend->error) {
+		errno = ENOTCONN;
+		return -1;
+	}
 	return backend->connection.fd;
 }
 
@@ -449,6 +453,7 @@ static int close_seat(struct libseat *base) {
 	int res = 0;
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
 	if (backend->error) {
+		errno = ENOTCONN;
 		res = -1;
 		goto done;
 	}
-- 
2.43.0


From 270d69fe69437f645376d14a8bc82cdb9906f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 24/42] fix: logind: remove the signal matches with the backend

sd_bus_default_system returns a bus shared with the rest of the thread,
which lives on if the application holds a reference, and so did the matches
pointing to the freed backend.
---
 libseat/backend/logind.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index abaa4c2..4925181 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -34,6 +34,8 @@ struct backend_logind {
 	void *seat_listener_data;
 
 	sd_bus *bus;
+	sd_bus_slot *pause_slot;
+	sd_bus_slot *properties_slot;
 	char *id;
 	char *seat;
 	char *path;
@@ -52,6 +54,8 @@ static struct backend_logind *backend_logind_from_libseat_backend(struct libseat
 
 static void destroy(struct backend_logind *backend) {
 	assert(backend);
+	sd_bus_slot_unref(backend->pause_slot);
+	sd_bus_slot_unref(backend->properties_slot);
 	if (backend->bus != NULL) {
 		sd_bus_unref(backend->bus);
 	}
@@ -542,15 +546,16 @@ static int add_signal_matches(struct backend_logind *backend) {
 	static const char *property_interface = "org.freedesktop.DBus.Properties";
 	int ret;
 
-	ret = sd_bus_match_signal(backend->bus, NULL, logind, backend->path, session_interface,
-				  "PauseDevice", handle_pause_device, backend);
+	ret = sd_bus_match_signal(backend->bus, &backend->pause_slot, logind, backend->path,
+				  session_interface, "PauseDevice", handle_pause_device, backend);
 	if (ret < 0) {
 		log_errorf("Could not add D-Bus match: %s", strerror(-ret));
 		return ret;
 	}
 
-	ret = sd_bus_match_signal(backend->bus, NULL, logind, backend->path, property_interface,
-				  "PropertiesChanged", handle_properties_changed, backend);
+	ret = sd_bus_match_signal(backend->bus, &backend->properties_slot, logind, backend->path,
+				  property_interface, "PropertiesChanged",
+				  handle_properties_changed, backend);
 	if (ret < 0) {
 		log_errorf("Could not add D-Bus match: %s", strerror(-ret));
 		return ret;
-- 
2.43.0


From 45ce72f7218b82db97812ee39a0f5b2f38d6ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:48 +0000
Subject: [PATCH 25/42] fix: libseat: close the connection when polling it
 fails

The reply to a request whose wait failed would otherwise be taken for the
reply to the next request.
---
 libseat/backend/seatd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index c6c4946..58f8f08 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -284,7 +284,11 @@ static int poll_connection(struct backend_seatd *backend, int timeout) {
 	};
 
 	if (poll(&fd, 1, timeout) == -1) {
-		return (errno == EAGAIN || errno == EINTR) ? 0 : -1;
+		if (errno == EAGAIN || errno == EINTR) {
+			return 0;
+		}
+		set_error(backend);
+		return -1;
 	}
 
 	if (fd.revents & (POLLERR | POLLHUP)) {
-- 
2.43.0


From 468644857223d5a05d94581a76b792f0e826e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:48 +0000
Subject: [PATCH 26/42] fix: libseat: refuse events with a payload

The payload was taken for the next message.
---
 libseat/backend/seatd.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 58f8f08..d70fc58 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -227,6 +227,14 @@ static int read_and_queue(struct backend_seatd *backend, int *opcode) {
 	struct proto_header header;
 	while (connection_get(&backend->connection, &header, sizeof header) != -1) {
 		packets++;
+		bool event = header.opcode == SERVER_PONG || header.opcode == SERVER_DISABLE_SEAT ||
+			     header.opcode == SERVER_ENABLE_SEAT;
+		if (event && header.size != 0) {
+			log_errorf("Invalid message: unexpected event size %d", header.size);
+			set_error(backend);
+			errno = EBADMSG;
+			return -1;
+		}
 		switch (header.opcode) {
 		case SERVER_PONG:
 			// We care about whether or not the answer has been
-- 
2.43.0


From 9241cf4bf5fecb52d36d7898a14834fbe67fbad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 27/42] fix: libseat: refuse a reply with opcode 0

It was taken for no reply, and waited for another one forever.
---
 libseat/backend/seatd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index d70fc58..1b0f888 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -317,12 +317,12 @@ static int read_until_response(struct backend_seatd *backend) {
 		return -1;
 	}
 	while (true) {
-		int opcode = 0;
+		int opcode = -1;
 		if (read_and_queue(backend, &opcode) == -1) {
 			log_errorf("Could not dispatch pending messages: %s", strerror(errno));
 			return -1;
 		}
-		if (opcode != 0) {
+		if (opcode != -1) {
 			break;
 		}
 		if (poll_connection(backend, -1) == -1) {
-- 
2.43.0


From c42a9e18535515042d439b8089b8e9e6ec4fb131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 28/42] fix: libseat: refuse a negative device id

The caller takes it for a failure and never closes the descriptor.
---
 libseat/backend/seatd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 1b0f888..154287a 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -559,7 +559,14 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	int res = 0;
 	struct proto_server_device_opened rmsg;
 	if (read_header(backend, SERVER_DEVICE_OPENED, sizeof rmsg, false) == SIZE_MAX ||
-	    conn_get(backend, &rmsg, sizeof rmsg) == -1 || conn_get_fd(backend, fd)) {
+	    conn_get(backend, &rmsg, sizeof rmsg) == -1) {
+		res = -1;
+	} else if (rmsg.device_id < 0) {
+		log_errorf("Invalid message: device id %d", rmsg.device_id);
+		set_error(backend);
+		errno = EBADMSG;
+		res = -1;
+	} else if (conn_get_fd(backend, fd) == -1) {
 		res = -1;
 	} else {
 		res = rmsg.device_id;
-- 
2.43.0


From 5462d562c57c1ae6e01ae8c8c826327e7a04764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:12 +0000
Subject: [PATCH 29/42] fix: libseat: wake up the application for events that
 follow the seat

An enable event that arrives together with the reply to opening the seat
is left in the buffer, where nothing tells a polling application about it.
---
 libseat/backend/seatd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 154287a..10e14fd 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -386,6 +386,8 @@ error:
 	return -1;
 }
 
+static void check_pending_events(struct backend_seatd *backend);
+
 static struct libseat *_open_seat(const struct libseat_seat_listener *listener, void *data, int fd) {
 	assert(listener != NULL);
 	assert(listener->enable_seat != NULL && listener->disable_seat != NULL);
@@ -442,6 +444,7 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 	}
 
 	execute_events(backend);
+	check_pending_events(backend);
 	return &backend->base;
 
 backend_error:
-- 
2.43.0


From e2f389cc66455a459ae3be7abe48cd29f2100fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:14 +0000
Subject: [PATCH 30/42] fix: builtin: do not close the client socket twice

The embedded server closes it with its client, and when adding it fails.
---
 libseat/backend/seatd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 10e14fd..43596bb 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -700,9 +700,11 @@ static struct libseat *builtin_open_seat(const struct libseat_seat_listener *lis
 		struct server server = {0};
 		if (server_init(&server) == -1) {
 			log_errorf("Could not init embedded seatd server: %s", strerror(errno));
+			close(fd);
 			res = 1;
 			goto error;
 		}
+		// The server owns the socket from here on
 		if (server_add_client(&server, fd) == -1) {
 			log_errorf("Could not add client to embedded seatd server: %s",
 				   strerror(errno));
@@ -720,7 +722,6 @@ static struct libseat *builtin_open_seat(const struct libseat_seat_listener *lis
 	server_error:
 		server_finish(&server);
 	error:
-		close(fd);
 		log_info("Stopped embedded seatd");
 		exit(res);
 	} else {
-- 
2.43.0


From ad1661bdeb5ebad93bec2bde0ac73016a3fc07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 31/42] fix: seatd-launch: do not signal a seatd that was
 already reaped

Once waitpid has returned seatd's pid it may belong to another process.
---
 seatd-launch/seatd-launch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index 65d4f33..cd0d441 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -77,7 +77,7 @@ int main(int argc, char *argv[]) {
 		pid_t p = waitpid(seatd_child, NULL, WNOHANG);
 		if (p == seatd_child) {
 			fprintf(stderr, "seatd exited prematurely\n");
-			goto error_seatd;
+			goto error;
 		} else if (p == -1 && (errno != EINTR && errno != ECHILD)) {
 			perror("Could not wait for seatd process");
 			goto error_seatd;
-- 
2.43.0


From 2b7892255b15039d18267a19c619f457aaa385ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 32/42] fix: seatd-launch: do not spin when the readiness pipe
 is closed

When seatd closes its end without signalling, poll returns immediately
every time, and seatd-launch looped at full speed until seatd exited.
---
 seatd-launch/seatd-launch.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index cd0d441..d755981 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -106,6 +106,9 @@ int main(int argc, char *argv[]) {
 			} else if (n > 0) {
 				break;
 			}
+		} else if (fd.revents & (POLLHUP | POLLERR)) {
+			fprintf(stderr, "seatd closed its notification fd without being ready\n");
+			goto error_seatd;
 		}
 	}
 	close(readiness_pipe[0]);
-- 
2.43.0


From f2cf9b74666cdbf11e1023e7207aaa52fd919cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 33/42] fix: seatd: remove the socket when starting fails after
 binding it

A socket file left behind makes seatd -z, and so seatd-launch, refuse to
start until someone removes it.
---
 seatd/seatd.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seatd/seatd.c b/seatd/seatd.c
index f88e6c9..07c243b 100644
--- a/seatd/seatd.c
+++ b/seatd/seatd.c
@@ -37,20 +37,22 @@ static int open_socket(const char *path, int uid, int gid) {
 	}
 	if (listen(fd, LISTEN_BACKLOG) == -1) {
 		log_errorf("Could not listen on socket: %s", strerror(errno));
-		goto error;
+		goto error_unlink;
 	}
 	if (uid != -1 || gid != -1) {
 		if (chmod(path, 0770) == -1) {
 			log_errorf("Could not chmod socket: %s", strerror(errno));
-			goto error;
+			goto error_unlink;
 		}
 		if (chown(path, uid, gid) == -1) {
 			log_errorf("Could not chown socket to uid %d, gid %d: %s", uid, gid,
 				   strerror(errno));
-			goto error;
+			goto error_unlink;
 		}
 	}
 	return fd;
+error_unlink:
+	unlink(path);
 error:
 	close(fd);
 	return -1;
-- 
2.43.0


From 9a0cda8ad1c8fa501390417e1ed1621a56d0ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 34/42] fix: logind: free the error when the Active property
 cannot be read

---
 libseat/backend/logind.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 4925181..d357aac 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -515,6 +515,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 							  &value);
 			if (ret < 0) {
 				log_errorf("Could not get '%s' property: %s", field, error.message);
+				sd_bus_error_free(&error);
 				continue;
 			}
 
-- 
2.43.0


From 7e57a54346e0278e91a2542e3b911d38ac87415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 35/42] fix: logind: release a device that was taken but could
 not be handed over

When the descriptor in the reply cannot be read or duplicated, opening
fails. logind kept the device taken, so opening it again failed with
EBUSY for as long as the session was controlled.
---
 libseat/backend/logind.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index d357aac..fc5d1dd 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -107,6 +107,21 @@ static void check_pending_events(struct backend_logind *backend) {
 	}
 }
 
+static int release_device(struct backend_logind *session, dev_t rdev) {
+	sd_bus_message *msg = NULL;
+	sd_bus_error error = SD_BUS_ERROR_NULL;
+	int ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
+				     "org.freedesktop.login1.Session", "ReleaseDevice", &error,
+				     &msg, "uu", major(rdev), minor(rdev));
+	if (ret < 0) {
+		log_errorf("Could not close device: %s", error.message);
+	}
+
+	sd_bus_error_free(&error);
+	sd_bus_message_unref(msg);
+	return ret;
+}
+
 static int open_device(struct libseat *base, const char *path, int *fd) {
 	struct backend_logind *session = backend_logind_from_libseat_backend(base);
 
@@ -135,6 +150,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	if (ret < 0) {
 		log_errorf("Could not parse D-Bus response: %s", strerror(-ret));
 		tmpfd = -1;
+		release_device(session, st.st_rdev);
 		goto out;
 	}
 
@@ -145,6 +161,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 		ret = -errno;
 		log_errorf("Could not duplicate fd: %s", strerror(errno));
 		tmpfd = -1;
+		release_device(session, st.st_rdev);
 		goto out;
 	}
 
@@ -175,17 +192,7 @@ static int close_device(struct libseat *base, int device_id) {
 		return -1;
 	}
 
-	sd_bus_message *msg = NULL;
-	sd_bus_error error = SD_BUS_ERROR_NULL;
-	int ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
-				     "org.freedesktop.login1.Session", "ReleaseDevice", &error,
-				     &msg, "uu", major(st.st_rdev), minor(st.st_rdev));
-	if (ret < 0) {
-		log_errorf("Could not close device: %s", error.message);
-	}
-
-	sd_bus_error_free(&error);
-	sd_bus_message_unref(msg);
+	int ret = release_device(session, st.st_rdev);
 	check_pending_events(session);
 	if (ret < 0) {
 		errno = -ret;
-- 
2.43.0


From 4a10a72514ace9f65cb76222e292cc31d5840764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 36/42] fix: client: end the connection of a client that cannot
 be sent an event

---
 seatd/client.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seatd/client.c b/seatd/client.c
index 02aed36..f399be2 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -466,6 +466,8 @@ int client_send_disable_seat(struct client *client) {
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
 	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
+		// A client that missed an event cannot continue, so hang up.
+		shutdown(client->connection.fd, SHUT_RDWR);
 		return -1;
 	}
 	return 0;
@@ -479,6 +481,8 @@ int client_send_enable_seat(struct client *client) {
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
 	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
+		// A client that missed an event cannot continue, so hang up.
+		shutdown(client->connection.fd, SHUT_RDWR);
 		return -1;
 	}
 	return 0;
-- 
2.43.0


From 20659ffb29543bf307cf7e05bfb643415cfbf73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 37/42] fix: wscons: compare wsmux paths with the length of
 wsmux

---
 common/wscons.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/wscons.c b/common/wscons.c
index 33c757e..288b513 100644
--- a/common/wscons.c
+++ b/common/wscons.c
@@ -17,7 +17,7 @@ int path_is_wscons(const char *path) {
 	static const char wsmux[] = "/dev/wsmux";
 	return strncmp(path, wskbd, STRLEN(wskbd)) == 0 ||
 	       strncmp(path, wsmouse, STRLEN(wsmouse)) == 0 ||
-	       strncmp(path, wsmux, STRLEN(wsmouse)) == 0;
+	       strncmp(path, wsmux, STRLEN(wsmux)) == 0;
 }
 #else
 int path_is_wscons(const char *path) {
-- 
2.43.0


From 9da9d10e0d283d1c157cdb6ddac3c7b9a1d21683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 38/42] fix: libseat: keep errno of a failed close across event
 handlers

---
 libseat/backend/seatd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 43596bb..70002de 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -466,6 +466,7 @@ static struct libseat *open_seat(const struct libseat_seat_listener *listener, v
 
 static int close_seat(struct libseat *base) {
 	int res = 0;
+	int stored_errno;
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
 	if (backend->error) {
 		errno = ENOTCONN;
@@ -486,8 +487,11 @@ static int close_seat(struct libseat *base) {
 	}
 
 done:
+	// Event handlers may make calls of their own
+	stored_errno = errno;
 	execute_events(backend);
 	destroy(backend);
+	errno = stored_errno;
 	return res;
 }
 
-- 
2.43.0


From 8a6c6146d08841a51da15e6ff190ad9f2674df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:58 +0000
Subject: [PATCH 39/42] fix: libseat: keep events in order when an event
 handler dispatches

---
 libseat/backend/seatd.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 70002de..26e8351 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -192,12 +192,11 @@ static int queue_event(struct backend_seatd *backend, int opcode) {
 }
 
 static int execute_events(struct backend_seatd *backend) {
-	struct linked_list list;
-	linked_list_init(&list);
-	linked_list_take(&list, &backend->pending_events);
 	int executed = 0;
-	while (!linked_list_empty(&list)) {
-		struct pending_event *ev = (struct pending_event *)list.next;
+	// An event handler may dispatch, so the events that are left must stay
+	// queued ahead of those that arrive meanwhile
+	while (!linked_list_empty(&backend->pending_events)) {
+		struct pending_event *ev = (struct pending_event *)backend->pending_events.next;
 		int opcode = ev->opcode;
 		linked_list_remove(&ev->link);
 		free(ev);
-- 
2.43.0


From 0b68e1d61f0577b4baaad105e7b102869378030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:13 +0000
Subject: [PATCH 40/42] fix: mark wscons devices active again when a client is
 re-enabled

---
 seatd/seat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seatd/seat.c b/seatd/seat.c
index 5927776..15e672e 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -519,6 +519,7 @@ static int seat_activate_device(struct seat_device *seat_device) {
 		return -1;
 	case SEAT_DEVICE_TYPE_WSCONS:
 		// Nothing to do here
+		seat_device->active = true;
 		break;
 	default:
 		log_errorf("Invalid seat device type: %d", seat_device->type);
-- 
2.43.0


From 2ec412f59dee3eba0d668f4068b55276c8d2e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:10 +0000
Subject: [PATCH 41/42] fix: noop: do not wait once the enable event has been
 delivered

---
 libseat/backend/noop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 7d07281..c0c01d6 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -87,6 +87,8 @@ static int dispatch_background(struct libseat *base, int timeout) {
 	if (backend->initial_setup) {
 		backend->initial_setup = false;
 		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
+		// Do not block, as the caller might be waiting for the event
+		return 1;
 	}
 
 	struct pollfd fd = {
-- 
2.43.0


From d980e726bc0baff2b45e91e13fb8651d0ca89fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:10 +0000
Subject: [PATCH 42/42] fix: logind: do not wait once the initial event has
 been delivered

---
 libseat/backend/logind.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index fc5d1dd..63f79cc 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -267,6 +267,7 @@ static int poll_connection(struct backend_logind *backend, int timeout) {
 
 static int dispatch_and_execute(struct libseat *base, int timeout) {
 	struct backend_logind *backend = backend_logind_from_libseat_backend(base);
+	int total_dispatched = 0;
 	if (backend->initial_setup) {
 		backend->initial_setup = false;
 		if (backend->active) {
@@ -276,9 +277,10 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 			backend->seat_listener->disable_seat(&backend->base,
 							     backend->seat_listener_data);
 		}
+		// Do not block below, as the caller might be waiting for the event
+		total_dispatched++;
 	}
 
-	int total_dispatched = 0;
 	int dispatched = 0;
 	while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 		total_dispatched += dispatched;
-- 
2.43.0

