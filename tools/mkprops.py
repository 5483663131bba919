#!/usr/bin/env python3
"""Writes properties.jsonl. The statements live here, one block per property."""
import json, os
P = []


def p(id, title, statement, over, quant, why, files, mech, state=(), obs=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(obs), "hook_needed": None}})


NOT = "The existing tests exercise the byte buffer, the list and the event loop in isolation with fixed inputs; "

p("C01", "At most one session of a seat is active",
  "At any moment at most one client of a seat is active: from the enable event sent to a client until that client acknowledges a disable, closes the seat or disconnects, no other client is sent an enable event. An enable event goes only to a client that has opened the seat and is not already active, and on a VT-bound seat only to the client whose VT is in front. An acknowledgement nobody asked for changes nothing.",
  "histories inputs schedules fault_sequences", "all histories of connects, requests, acknowledgements, disconnects and VT switches by several clients",
  NOT + "no test runs two clients against a seat.", "seatd/seat.c seatd/client.c seatd/server.c",
  [("activation", "seat.c:seat_activate, seat_open_client"), ("handover", "seat.c:seat_ack_disable_client, seat_remove_client")],
  [("active_client", "the client that holds the seat", "seat.c"), ("state", "new, active, pending disable, disabled, closed", "client.h")], ("enable/disable events on the client sockets",))
p("C02", "A session that is not active cannot use the devices it was given",
  "As soon as a client is asked to disable, closes a device or the seat, or disconnects, every input device it was given is revoked (NetBSD's wscons devices cannot be) and every display device has lost DRM master - before the VT is handed over and before any other client is told it is active. When a client becomes active again, the display devices it kept open regain DRM master.",
  "histories schedules fault_sequences", "all histories over several clients and devices of every class, each device possibly opened more than once, clients keeping their descriptors",
  NOT + "revocation needs devices, several clients and a particular order of events.", "seatd/seat.c common/evdev.c common/drm.c common/hidraw.c",
  [("deactivate before disable", "seat.c:seat_disable_client, seat_deactivate_device"), ("deactivate on close", "seat.c:seat_close_device"), ("reactivate", "seat.c:seat_activate_device")], (), ("EVIOCREVOKE, HIDIOCREVOKE, DRM_IOCTL_SET/DROP_MASTER",))
p("C03", "Devices are opened only for the active client, only of supported classes",
  "The daemon opens a file for a client only while that client is active, only at the canonical form of the requested path, and only if that form is an event, DRM or (where supported) hidraw or wscons device node by name; it opens it without following a final link, close-on-exec and never as its controlling terminal. The descriptor is handed to the requesting client alone, together with the reply that names its device id. Every other request is refused with an error, opens nothing and leaves nothing open.",
  "inputs histories fault_sequences", "every path string within the bound, every resolution of it, every client state, failure of any system call on the way",
  NOT + "the path checks and the state checks have no tests.", "seatd/seat.c seatd/client.c common/evdev.c common/drm.c common/hidraw.c",
  [("open", "seat.c:seat_open_device"), ("class tests", "evdev.c:path_is_evdev, drm.c:path_is_drm, hidraw.c:path_is_hidraw")], (), ("realpath, open, descriptors sent",))
p("C04", "Open devices are counted per client and closed exactly once",
  "Opening a device that the client already has open and usable yields the same device id and descriptor; it stays open until closed as many times as it was opened, and is then revoked and closed exactly once. Ids are positive and distinct among a client's open devices, an id only ever refers to the requesting client's own devices, and closing an unknown id is an error that changes nothing. No client can hold more than 128 devices open.",
  "histories inputs fault_sequences", "all interleavings of open and close with every device id value",
  NOT + "nothing tests device reference counts.", "seatd/seat.c seatd/client.c",
  [("reuse", "seat.c:seat_open_device"), ("reference count", "seat.c:seat_close_device"), ("lookup", "seat.c:seat_find_device")], [("ref_cnt", "opens minus closes", "seat.h")])
p("C05", "Session switching hands the seat to the requested session",
  "On a seat without VTs, a switch requested by the active client to the session of another client of the seat asks the requester to disable, and when it has acknowledged, closed or disconnected the requested client - if still there - is the one enabled. On a VT-bound seat the request becomes a request to the kernel for exactly that VT, and disables nobody until the kernel announces the switch. A switch requested by a client that is not active, or to a number that is not positive or (without VTs) not a session of the seat, is refused with an error and changes nothing; one to the current session succeeds and changes nothing.",
  "histories inputs", "every 32-bit session number, any client in any state, any later history",
  NOT + "no test covers switching.", "seatd/seat.c seatd/client.c", [("switch", "seat.c:seat_set_next_session"), ("choice", "seat.c:seat_activate")], [("next_client", "queued target", "seat.c")])
p("C06", "VT switches are always released and acquired, and tracked",
  "On a VT-bound seat every release and acquire the kernel signals is acknowledged exactly once and never refused, so a VT switch always completes; before a VT is handed back its active client has been asked to disable and its devices are revoked. While a client is active, switching away from its VT is under the daemon's control. When a VT comes to the front while the seat is free, the client of that VT is enabled.",
  "schedules histories fault_sequences", "VT switches at every point of every history, including while the previous holder has not acknowledged, and failures of terminal calls",
  NOT + "VT handling has no tests.", "seatd/seat.c seatd/server.c common/terminal.c",
  [("signals", "server.c:server_handle_vt_acq, server_handle_vt_rel"), ("release/acquire", "seat.c:seat_vt_release, seat_vt_activate, vt_ack"), ("process switching", "terminal.c:terminal_set_process_switching")])
p("C07", "Every console is graphics-muted while in use and restored afterwards",
  "While a client is active on a VT-bound seat its VT is in graphics mode with the keyboard off. When the client leaves - by closing, disconnecting or daemon shutdown, whether or not its VT is in front - its VT is back in text mode with the keyboard on unless another client has taken it over; VTs no client uses, and all VTs of a seat without VTs, are never touched.",
  "histories schedules crash_points", "all histories, with the client leaving in any state and with any VT in front",
  NOT + "console state needs a VT and several clients.", "seatd/seat.c common/terminal.c",
  [("setup", "seat.c:vt_open"), ("cleanup", "seat.c:vt_close, vt_close_fd"), ("console calls", "terminal.c:terminal_set_graphics, terminal_set_keyboard")], (), ("KDSETMODE, KDSKBMODE, VT_SETMODE",))
p("C08", "A client joins the seat once, with a session of its own",
  "A client may open the seat once per connection; on a VT-bound seat it gets the VT in front as its session and is refused while another client is active or already has that VT, and on other seats it gets a fresh number. Sessions of the members are positive and pairwise distinct. A refused client is disconnected without any effect on the members.",
  "histories inputs", "all orders of opening, closing, reopening and VT switching by several clients with arbitrary credentials",
  NOT + "admission has no tests.", "seatd/seat.c seatd/client.c seatd/server.c", [("admission", "seat.c:seat_add_client"), ("request", "client.c:handle_open_seat"), ("credentials", "client.c:get_peer")], [("session", "VT or ordinal", "client.h")])
p("C09", "Each request gets its one reply, in order, however the bytes are split",
  "Every valid request is answered by exactly one reply of its kind or by one error with a non-zero reason, to the requester only and in request order, and the reply to opening a seat precedes the enable event. How the bytes arrive (fragments, batches) and leave (short writes, a full socket that drains later) never changes the bytes a connected client receives.",
  "inputs schedules fault_sequences histories", "all splits of the input, short sends and full sockets at every point",
  NOT + "the protocol handlers have no tests and no test makes a send block.", "seatd/client.c common/connection.c seatd/poller.c",
  [("dispatch", "client.c:client_handle_connection, client_handle_opcode"), ("flush", "client.c:client_flush"), ("buffers", "connection.c")], (), ("bytes received by each client",))
p("C10", "No byte sequence from a client can harm the daemon or other clients",
  "Whatever bytes, descriptors and disconnects a client produces, the daemon neither crashes, hangs, spins, reads or writes out of bounds nor leaks, and other clients keep their connection, state and devices. A malformed or out-of-place message ends the connection of its sender only; descriptors a client sends along are closed.",
  "inputs schedules fault_sequences", "every byte sequence within the bound in every client state, any fragmentation, disconnects at any byte",
  NOT + "no test feeds malformed messages to the daemon.", "seatd/client.c common/connection.c seatd/server.c",
  [("parsing", "client.c:client_handle_opcode"), ("size checks", "client.c:handle_*"), ("disconnect", "client.c:client_destroy")])
p("C11", "A client that leaves frees everything and lets the next one in",
  "When a client closes the seat, disconnects or crashes in any state, all its devices are revoked and closed, its memory and descriptors are freed, and if it was the active one the next eligible client is enabled at once. Daemon shutdown in any state closes every descriptor, frees all memory and restores signal handlers.",
  "histories crash_points fault_sequences", "disconnect or shutdown after every step of every history",
  NOT + "no test closes a client while it holds the seat.", "seatd/client.c seatd/seat.c seatd/server.c seatd/poller.c",
  [("teardown", "client.c:client_destroy, seat.c:seat_remove_client, seat_destroy"), ("shutdown", "server.c:server_finish, poller.c:poller_finish")])
p("C12", "The event loop calls exactly the handlers that are due, and survives changes",
  "One iteration calls the handler of each live fd source whose awaited conditions (or hangup or error) are reported, once, with exactly those conditions, and no other. Sources may be added, destroyed or given new masks from inside any handler: a destroyed source is never called or touched again, a new or changed one is honoured from the next iteration at the latest, and nothing leaks.",
  "schedules programs inputs", "every set of ready descriptors and every mutation performed by handlers, up to the bound on sources and iterations",
  "The tests mutate the loop in three fixed ways; the combinations of readiness, order and mutation are not covered.", "seatd/poller.c",
  [("iteration", "poller.c:poller_poll, dispatch"), ("removal", "poller.c:event_source_fd_destroy, killed/dirty"), ("poll set", "poller.c:regenerate")], [("dirty", "poll set must be rebuilt", "poller.h")])
p("C13", "No signal is lost, and handlers run outside signal context",
  "Each watched signal that is raised - before, during or between iterations, also while its own handler runs - makes its handler run at least once afterwards, in the loop and never from signal context, and never for a signal that was not raised. Signal delivery does not disturb errno, does not block when many arrive, and removing the last handler of a signal restores its default action.",
  "schedules histories", "signal arrivals at every system call of the loop and inside handlers",
  "The tests raise one signal synchronously between iterations.", "seatd/poller.c",
  [("handler", "poller.c:signal_handler"), ("dispatch", "poller.c:dispatch, check_signals"), ("removal", "poller.c:event_source_signal_destroy")], [("raised", "pending", "poller.c")])
p("C14", "The connection buffers deliver bytes in order, none lost or invented",
  "Bytes put into a connection arrive in order and exactly once, whatever the sizes, wrap-arounds, short writes, short reads and errors in between; a read never returns more than arrived and an unread restore returns the same bytes again. Operations that do not fit fail without changing anything, and no memory outside the buffers is touched.",
  "inputs histories fault_sequences", "all sequences of put, flush, read, get and restore with symbolic sizes and buffer positions",
  "The tests use fixed sizes on an empty buffer, no short writes and no errors.", "common/connection.c",
  [("ring", "connection.c:connection_buffer_*"), ("I/O", "connection.c:connection_read, connection_flush")], [("head, tail", "free-running ring indices", "connection.h")])
p("C15", "Passed descriptors have exactly one owner",
  "A descriptor queued for sending is sent exactly once, no later than the bytes queued after it, and then closed on the sending side; one received is delivered once in arrival order, close-on-exec. Descriptors still queued when a connection ends, or that do not fit, are closed; none is leaked, closed twice or sent twice, also across short writes and errors.",
  "histories fault_sequences inputs", "all interleavings of queued descriptors, sends, failures and closes",
  "The tests pass a fixed number of descriptors once over a healthy socket.", "common/connection.c seatd/client.c",
  [("control messages", "connection.c:build_cmsg, decode_cmsg"), ("closing", "connection.c:connection_buffer_close_fds, connection_close_fds")])
p("C16", "The intrusive list keeps its order and links under every operation",
  "Inserting, removing, splicing and testing lists preserves exactly the expected sequence of elements in both directions; removed elements are detached and can be inserted again, and splicing moves all elements in order and leaves the source empty.",
  "programs histories", "all operation sequences up to the bound over several lists",
  "The tests run fixed sequences on up to three elements.", "common/linked_list.c", [("operations", "linked_list.c:linked_list_insert, linked_list_remove, linked_list_take, linked_list_empty")])
p("C17", "libseat delivers seat events exactly once, in order, and never strands them",
  "The application's enable and disable callbacks are called once per event sent by the daemon, in the order sent, only from within dispatch, opening or closing a seat. Dispatch waits as long as it is told when there is nothing to do, and not after delivering an event; closing delivers what arrived before the daemon's answer. Events that arrive together with the reply to a request are not lost: the next dispatch delivers them, and the connection becomes readable so that a polling application is woken up.",
  "schedules histories inputs", "all interleavings of events with replies and all split points of the byte stream",
  NOT + "no test runs the libseat client.", "libseat/backend/seatd.c common/linked_list.c",
  [("queue", "seatd.c:queue_event, execute_events"), ("wake-up", "seatd.c:check_pending_events, send_ping")], [("awaiting_pong", "a ping is outstanding", "seatd.c")])
p("C18", "libseat requests are encoded exactly and their results relayed exactly",
  "Each libseat call sends exactly the one request it stands for with the given arguments (a ping follows only when events wait to be dispatched), to the socket named in the environment or else the default one, and returns the result of the reply to that request: device id and descriptor, success, or -1 with errno set to the daemon's error code. Arguments that cannot be sent are refused with an errno and send nothing. A lost or broken connection makes the current and every later call fail with errno set, including a dispatch that does not wait.",
  "inputs schedules fault_sequences", "all argument values and paths within the bound, every reply and error code, every fragmentation, connection loss at every point",
  NOT + "no test runs the libseat client.", "libseat/backend/seatd.c", [("requests", "seatd.c:open_device, close_device, switch_session, disable_seat, close_seat"), ("replies", "seatd.c:read_header, read_until_response"), ("errors", "seatd.c:set_error")])
p("C19", "libseat survives any bytes from the daemon's socket",
  "Whatever bytes and descriptors arrive on the connection, libseat neither accesses memory out of bounds nor crashes nor loops, returns only terminated seat names, and reports malformed messages as an error after which the connection is closed.",
  "inputs schedules", "every byte sequence within the bound as answer to every call, any fragmentation",
  NOT + "no test feeds malformed answers to libseat.", "libseat/backend/seatd.c common/connection.c", [("parsing", "seatd.c:read_header, read_and_queue, _open_seat")])
p("C20", "libseat handles own nothing after close and nothing after a failed open",
  "A failed open of a seat returns no handle, sets errno and leaves no descriptor or memory behind; closing a seat releases its connection, queued events and memory in every state, including after errors and with events pending. No descriptor is closed twice.",
  "fault_sequences histories", "failure of every allocation and system call, close after every history",
  NOT + "no test opens or closes a libseat handle.", "libseat/backend/seatd.c libseat/backend/noop.c", [("cleanup", "seatd.c:cleanup, destroy"), ("open", "seatd.c:_open_seat, seatd_connect")])
p("C21", "libseat and seatd agree on the wire",
  "An application using libseat against the daemon sees what it asked for: every path up to the documented limit of 255 characters arrives unchanged and opens that device, the descriptor it gets is that device, ids, session numbers and error codes arrive unchanged, and the seat name is the daemon's. Both sides end in the same idea of whether the session is active, over any history of calls.",
  "inputs histories schedules", "all call sequences up to the bound with symbolic arguments, library and daemon joined over a socket",
  NOT + "no test joins the two sides.", "libseat/backend/seatd.c seatd/client.c include/protocol.h common/connection.c", [("messages", "protocol.h"), ("both ends", "backend/seatd.c, client.c")])
p("C22", "libseat chooses the backend it is told to, or the first that works",
  "With a backend named in the environment exactly that backend is tried and its result and errno are returned; an unknown name fails with an error without trying any. Otherwise the built-in order seatd, logind, builtin is followed, the first that opens wins and later ones are not tried, and the no-op backend is never chosen unasked. A missing listener or callback is refused before any backend is tried. Every later call is passed to the chosen backend unchanged.",
  "configurations inputs", "every environment value within the bound, every combination of backends failing",
  NOT + "backend selection has no tests.", "libseat/libseat.c", [("selection", "libseat.c:libseat_open_seat")])
p("C23", "The logind backend mirrors logind's session state",
  "With logind, the application's callbacks follow the session's reported activity: one call per change, none when nothing changed, the first dispatch reporting the initial state without waiting for more. Devices are taken and released by their device numbers and the descriptor is the caller's own copy; a pause request is acknowledged after the application was told to disable, a forced or gone one is not acknowledged. Failures set errno, and an open that fails leaves no device taken. What arrives during a request wakes the application. A broken bus is reported, closing releases control, and nothing is leaked or used after close.",
  "schedules inputs fault_sequences", "all orders of property changes and pause signals, and failure of every bus call",
  NOT + "the logind backend has no tests and no logind runs here.", "libseat/backend/logind.c", [("signals", "logind.c:handle_properties_changed, handle_pause_device, set_active"), ("requests", "logind.c:open_device, close_device, switch_session"), ("setup", "logind.c:logind_open_seat")])
p("C24", "The no-op backend behaves as a seat that is always active",
  "The no-op backend reports the seat enabled once, on the first dispatch, which does not wait; opens files directly without following links, close-on-exec, non-blocking and never as controlling terminal; refuses session switches with an error; and releases everything on close. Its dispatch honours the timeout and reports errors.",
  "inputs fault_sequences histories", "all call sequences up to the bound, failure of every system call",
  NOT + "the no-op backend has no tests.", "libseat/backend/noop.c", [("backend", "noop.c")])
p("C25", "seatd-launch runs its command only without privileges",
  "The command is started only after the real user's uid and gid have been set successfully, group first, and after the socket was given to that user with access for nobody else; if any of these steps fails the command is not started. The daemon itself is started from its installed path with an empty environment, inheriting only its end of the readiness pipe; the command inherits neither end.",
  "fault_sequences inputs", "failure of every system call, every uid and gid, every command line within the bound",
  "seatd-launch has no tests; it needs set-user-id root.", "seatd-launch/seatd-launch.c", [("drop", "seatd-launch.c:main")], (), ("order of chown, chmod, setgid, setuid, exec",))
p("C26", "seatd-launch waits for readiness, relays the exit status, stops the daemon",
  "The command starts only after the daemon has signalled readiness; if the daemon dies first, it is never started. The exit status is the command's, or 128 plus the signal that killed it; whenever seatd-launch ends after starting the daemon it has told it to terminate, unless the daemon ended before, and interrupted waits are retried. The daemon is given the readiness descriptor, the log level and the option to refuse an existing file; the command gets the daemon's socket in SEATD_SOCK.",
  "schedules fault_sequences", "every wait status, every order of daemon and command events, interruptions and failures of every call",
  "seatd-launch has no tests.", "seatd-launch/seatd-launch.c", [("readiness", "seatd-launch.c:main"), ("status", "seatd-launch.c:main")])
p("C27", "The daemon's start and stop treat the socket path safely",
  "The daemon never removes anything but a socket at its path, refuses to start over anything else, and with the launcher's option refuses to start over any existing file. It signals readiness only once the socket accepts connections with the ownership and mode asked for (both left alone when no user or group is given); it serves with the socket restricted to that owner and group before being ready, and removes its socket when it stops, as SIGINT and SIGTERM make it do, also when starting fails after it was created. A failing step makes it exit with failure. It logs at the level asked for.",
  "configurations fault_sequences inputs", "every combination of options, file type at the path, and failure of each call",
  "seatd's main has no tests.", "seatd/seatd.c", [("startup", "seatd.c:main, open_socket")])
p("C28", "Logging delivers exactly the levels asked for and disturbs nothing",
  "A message reaches the handler if and only if its level is at most the level set, once, with its text and arguments; the handler is the last one set, or the default after resetting it. Logging never changes errno, and the default handler writes one line, prefixed with the time since start and the level.",
  "inputs histories", "every level and handler value, every sequence of settings",
  NOT + "logging has no tests.", "common/log.c", [("filter", "log.c:_logf"), ("settings", "log.c:libseat_set_log_handler, libseat_set_log_level")])

p("C29", "Devices and terminals are named and driven as each system requires",
  "On Linux, FreeBSD and NetBSD a path counts as DRM (/dev/dri/, on FreeBSD also /dev/drm/), evdev (/dev/input/event, not on NetBSD), wscons (NetBSD's /dev/wskbd, /dev/wsmouse, /dev/wsmux) or hidraw (/dev/hidraw, where the system can revoke it) exactly if it starts with such a name. Opening terminal n opens the device that system names so (Linux /dev/ttyN; FreeBSD /dev/ttyvX, X being n-1 in base 32 digits; NetBSD /dev/ttyEn) or fails, never another one. Each terminal and device operation makes its system's request with the right value on the given descriptor, on FreeBSD also makes the terminal raw and sane again, and fails exactly if a call it makes fails.",
  "inputs configurations fault_sequences", "every path and terminal number within the bound, all supported systems, failure of each call",
  "Tests run on one system, with no terminals or devices.", "common/terminal.c common/drm.c common/evdev.c common/hidraw.c common/wscons.c",
  [("classification", "drm.c:path_is_drm, evdev.c:path_is_evdev, wscons.c:path_is_wscons, hidraw.c:path_is_hidraw"), ("terminals", "terminal.c:get_tty_path, terminal_open, terminal_set_keyboard")])
p("C30", "The embedded daemon serves its application and ends with it",
  "With the builtin backend, the daemon runs in a process of its own and serves exactly the application that started it, as the daemon would: same replies, devices and terminal handling. It keeps running as long as the application is connected, and ends when the application leaves or is disconnected, having revoked its devices, restored the console and freed everything; its exit status says whether it failed. Neither process keeps the other's end of the connection, and a child that cannot start makes the open fail.",
  "histories fault_sequences schedules", "all histories of one application up to the bound, failure of every call on starting",
  NOT + "no test runs the builtin backend.", "libseat/backend/seatd.c seatd/server.c seatd/client.c seatd/seat.c",
  [("start", "backend/seatd.c:builtin_open_seat"), ("serving", "server.c:server_add_client"), ("ending", "client.c:client_destroy")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
