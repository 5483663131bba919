/*
 * One end of a connection: any sequence of operations against a socket that
 * sends and receives any part of what it is asked to, or fails. The bytes are
 * symbolic and differ by position; ring positions include both wrap-arounds
 * (of the buffer and of the 32-bit counters). mode 0: sending, 1: receiving.
 */
#define VF_ENV
#include "rename.h"
#include "vf.h"
#include "connection.h"

#define SZ CONNECTION_BUFFER_SIZE
static struct connection c;
#define SOCK 3
#define MAXS 4096
static uint8_t key[8];
static uint8_t byte_at(unsigned i) { return key[i & 7] ^ (uint8_t)(i * 31 + (i >> 3) * 5 + (i >> 8)); }

/* descriptors: index -> state */
enum { F_NONE, F_OURS, F_QUEUED, F_CLOSED, F_TRANSIT };
#define FDB 100
#define NF 300
static uint8_t fst[NF];
static bool fsent[NF];
static unsigned fpos[NF];
static int nfd;
int env_close(int fd) {
	VF_ASSERT("C15", fd >= FDB && fd < FDB + nfd && (fst[fd - FDB] == F_OURS || fst[fd - FDB] == F_QUEUED), "only a descriptor the connection owns is closed, once");
	if (fd < FDB || fd >= FDB + nfd) return -1;
	fst[fd - FDB] = F_CLOSED;
	return 0;
}

/* ---- sending ---- */
static unsigned put_pos, sent_pos, fd_sent, fd_put;
static int last_err, intr, budget;
ssize_t env_sendmsg(int fd, const struct msghdr *m, int flags) {
	VF_ASSERT("C14,C15", fd == SOCK, "the connection's socket is used");
	VF_ASSERT("C14", (flags & (MSG_NOSIGNAL | MSG_DONTWAIT)) == (MSG_NOSIGNAL | MSG_DONTWAIT), "sending neither blocks nor raises SIGPIPE");
	size_t total = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) total += m->msg_iov[i].iov_len;
	VF_ASSERT("C14", total > 0 && total == put_pos - sent_pos, "everything pending is offered");
	VF_ASSUME(total > 0);
	int r = nd_pick("send", 0, budget > 0 ? 4 : 2);
	if (r == 3) { VF_ASSUME(intr < 1); intr++; errno = EINTR; return -1; }
	if (r == 4) { budget--; r = 0; }
	else if (r == 1) { errno = last_err = EAGAIN; return -1; }
	else if (r == 2) { errno = last_err = EPIPE; return -1; }
	else r = -1; /* all */
	size_t lim = total;
	if (r == 0) { /* short */
		VF_ASSUME(total > 1);
		int k = nd_pick("short", 0, 3);
		lim = k == 0 ? 1 : k == 1 ? total - 1 : k == 2 ? m->msg_iov[0].iov_len : total / 2;
		VF_ASSUME(lim > 0 && lim < total);
	}
	intr = 0;
	if (m->msg_control && m->msg_controllen) {
		const struct cmsghdr *cm = m->msg_control;
		VF_ASSERT("C15", cm->cmsg_level == SOL_SOCKET && cm->cmsg_type == SCM_RIGHTS && cm->cmsg_len <= m->msg_controllen, "descriptors are sent as SCM_RIGHTS");
		int k = (cm->cmsg_len - CMSG_LEN(0)) / sizeof(int);
		for (int i = 0; i < k; i++) {
			int f;
			memcpy(&f, CMSG_DATA(cm) + i * sizeof(int), sizeof f);
			VF_ASSERT("C15", f == FDB + (int)fd_sent && fd_sent < fd_put, "descriptors are sent in order, once");
			if (f != FDB + (int)fd_sent || fd_sent >= fd_put) vf_end();
			VF_ASSERT("C15", fst[fd_sent] == F_QUEUED, "a descriptor is still open when sent");
			VF_ASSERT("C15", sent_pos <= fpos[fd_sent], "a descriptor is sent no later than the bytes queued after it");
			fsent[fd_sent++] = true;
		}
		VF_WITNESS("fd-sent");
	}
	for (unsigned i = 0; i < fd_put; i++) if (!fsent[i] && fpos[i] < sent_pos + lim) VF_ASSERT("C15", fst[i] != F_QUEUED, "a descriptor is sent no later than the bytes queued after it");
	size_t done = 0;
	for (size_t i = 0; i < m->msg_iovlen && done < lim; i++) {
		const uint8_t *b = m->msg_iov[i].iov_base;
		for (size_t j = 0; j < m->msg_iov[i].iov_len && done < lim; j++, done++) {
			VF_ASSERT("C14", b[j] == byte_at(sent_pos), "bytes are sent in order, unchanged");
			sent_pos++;
		}
	}
	if (lim < total) VF_WITNESS("short");
	if (m->msg_iovlen > 1) VF_WITNESS("wrapped");
	return lim;
}
static int pick_size(const char *n) {
	static const int s[] = {4, SZ - 2, 264, SZ + 1, 1, SZ};
	return s[nd_pick(n, 0, vf_param("sizes", 4) - 1)];
}
static uint32_t base;
static void start(struct connection_buffer *b) {
	static const uint32_t bases[] = {0, SZ - 2, 0u - 1, 0u - SZ + 3, SZ / 2};
	static bool chosen;
	if (!chosen) base = bases[nd_pick("base", 0, vf_param("bases", 4) - 1)];
	chosen = true;
	b->head = b->tail = base;
}
static void check_sent_fds(void) {
	for (unsigned i = 0; i < fd_put; i++)
		if (fsent[i]) VF_ASSERT("C15", fst[i] == F_CLOSED, "a descriptor is closed once sent");
		else VF_ASSERT("C15", fst[i] == F_QUEUED, "a descriptor is kept open until sent");
}
static void out_main(int ops) {
	start(&c.out);
	start(&c.fds_out);
	budget = vf_param("short", 1);
	for (int k = 0; k < ops; k++) {
		int e0 = errno;
		switch (nd_pick("op", 0, 2)) {
		case 0: {
			int n = pick_size("size");
			uint8_t buf[SZ + 1];
			for (int i = 0; i < n; i++) buf[i] = byte_at(put_pos + i);
			unsigned was = put_pos - sent_pos;
			errno = last_err = 0;
			int r = connection_put(&c, buf, n);
			if (r == -1) {
				VF_ASSERT("C14", errno != 0, "a failed put has a reason");
				VF_ASSERT("C14", n > SZ || was + n > SZ, "bytes that fit are accepted");
				VF_ASSERT("C14", n <= SZ || last_err || errno == EOVERFLOW, "too much at once is refused");
				if (last_err) VF_ASSERT("C14", errno == last_err, "the error is the one of the failing send");
				VF_WITNESS("put-refused");
			} else {
				VF_ASSERT("C14", r == 0 && n <= SZ, "bytes that do not fit are refused");
				put_pos += n;
				VF_ASSERT("C14", put_pos - sent_pos <= SZ, "no more is held than fits");
			}
			break;
		}
		case 1: {
			int f = FDB + fd_put;
			nfd = fd_put + 1;
			fst[fd_put] = F_OURS;
			int r = connection_put_fd(&c, f);
			VF_ASSERT("C15", r == 0, "a descriptor can be queued");
			fst[fd_put] = F_QUEUED;
			fpos[fd_put++] = put_pos;
			break;
		}
		case 2: {
			unsigned was = sent_pos;
			errno = last_err = 0;
			int r = connection_flush(&c);
			if (r == -1) VF_ASSERT("C14", errno == last_err && last_err != 0, "a failed flush reports the error of the send");
			else {
				VF_ASSERT("C14", sent_pos == put_pos, "a successful flush has sent everything");
				VF_ASSERT("C14", r == (int)(sent_pos - was), "flush reports the bytes sent");
				VF_WITNESS("flushed");
			}
			break;
		}
		}
		(void)e0;
		check_sent_fds();
	}
	vf_obs("sent", sent_pos);
	connection_close_fds(&c);
	for (unsigned i = 0; i < fd_put; i++) VF_ASSERT("C15", fst[i] == F_CLOSED, "no descriptor is left open when the connection ends");
}
/* the descriptor queue filled to the brim */
static void out_full(void) {
	start(&c.fds_out);
	int n = MAX_FDS + 2;
	nfd = n;
	for (int i = 0; i < n; i++) {
		fst[i] = F_OURS;
		errno = 0;
		int r = connection_put_fd(&c, FDB + i);
		if (i < (int)MAX_FDS) { VF_ASSERT("C15", r == 0, "descriptors are queued up to the limit"); fst[i] = F_QUEUED; fpos[i] = 0; fd_put++; }
		else VF_ASSERT("C15", r == -1 && errno == EOVERFLOW && fst[i] == F_OURS, "more descriptors than fit are refused");
	}
	VF_WITNESS("fd-full");
	if (nd_bool("send")) {
		uint8_t b = byte_at(0);
		connection_put(&c, &b, 1);
		put_pos = 1;
		int r = connection_flush(&c);
		check_sent_fds();
		if (r != -1) VF_ASSERT("C15", fd_sent == fd_put, "all queued descriptors are sent");
	}
	connection_close_fds(&c);
	for (unsigned i = 0; i < fd_put; i++) VF_ASSERT("C15", fst[i] == F_CLOSED, "no descriptor is left open when the connection ends");
}

/* ---- receiving ---- */
static unsigned avail, rd_pos, got_pos, fd_in_total, fd_got; /* bytes the peer sent, received, consumed */
static int plan_fds;
static bool in_eof;
static int overflowed;
ssize_t env_recvmsg(int fd, struct msghdr *m, int flags) {
	VF_ASSERT("C14,C15", fd == SOCK, "the connection's socket is used");
	VF_ASSERT("C14", flags & MSG_DONTWAIT, "receiving does not block");
	size_t cap = 0, ctl = m->msg_controllen;
	for (size_t i = 0; i < m->msg_iovlen; i++) cap += m->msg_iov[i].iov_len;
	VF_ASSERT("C14", cap == SZ - (rd_pos - got_pos), "all free room is offered, and no more");
	int r = nd_pick("recv", 0, plan_fds ? 1 : 4);
	if (r == 1) { errno = last_err = EAGAIN; return -1; }
	if (r == 2) { errno = last_err = ECONNRESET; return -1; }
	if (r == 3) { VF_ASSUME(intr < 1); intr++; errno = EINTR; return -1; }
	m->msg_controllen = 0;
	m->msg_flags = 0;
	if (r == 4) { in_eof = true; return 0; }
	intr = 0;
	size_t n;
	switch (nd_pick("chunk", 0, plan_fds ? 1 : 3)) {
	case 0: n = 1; break;
	case 1: n = 7; break;
	case 2: n = cap - 1; break;
	default: n = cap;
	}
	VF_ASSUME(n >= 1 && n <= cap && rd_pos + n <= MAXS);
	size_t done = 0;
	for (size_t i = 0; i < m->msg_iovlen && done < n; i++) {
		uint8_t *b = m->msg_iov[i].iov_base;
		for (size_t j = 0; j < m->msg_iov[i].iov_len && done < n; j++, done++) b[j] = byte_at(rd_pos + done);
	}
	if (m->msg_iovlen > 1 && n > m->msg_iov[0].iov_len) VF_WITNESS("wrapped");
	if (plan_fds) {
		static const int cnt[] = {0, 1, 2, 127, 128};
		int k = cnt[nd_pick("fds", 0, plan_fds > 1 ? 2 : 4)];
		VF_ASSUME(nfd + k <= NF);
		char *p = m->msg_control;
		size_t used = 0;
		if (plan_fds > 1 && nd_bool("cred")) { /* another control message comes first */
			struct cmsghdr *cm = (struct cmsghdr *)p;
			cm->cmsg_level = SOL_SOCKET;
			cm->cmsg_type = SCM_CREDENTIALS;
			cm->cmsg_len = CMSG_LEN(12);
			used = CMSG_SPACE(12);
			k = k > 2 ? 2 : k;
		}
		if (k) {
			VF_ASSERT("C15", flags & MSG_CMSG_CLOEXEC, "received descriptors are close-on-exec");
			/* too small a buffer makes the kernel drop descriptors: only fine for those that would not fit anyway */
			if (!used && CMSG_LEN(k * sizeof(int)) > ctl) VF_ASSERT("C15", fd_in_total - fd_got + k > MAX_FDS, "there is room for all descriptors that can arrive");
			VF_ASSUME(used + CMSG_LEN(k * sizeof(int)) <= ctl);
			struct cmsghdr *cm = (struct cmsghdr *)(p + used);
			cm->cmsg_level = SOL_SOCKET;
			cm->cmsg_type = SCM_RIGHTS;
			cm->cmsg_len = CMSG_LEN(k * sizeof(int));
			for (int i = 0; i < k; i++) {
				int f = FDB + nfd;
				fst[nfd++] = F_OURS;
				memcpy(CMSG_DATA(cm) + i * sizeof(int), &f, sizeof f);
			}
			used += CMSG_SPACE(k * sizeof(int));
			if (used > ctl) used = ctl;
			if (fd_in_total - fd_got + k > MAX_FDS) overflowed = k;
			else fd_in_total += k;
			VF_WITNESS("fd-received");
		}
		m->msg_controllen = used;
	}
	if (!overflowed) rd_pos += n;
	return n;
}
static void in_main(int ops) {
	start(&c.in);
	start(&c.fds_in);
	int restorable = 0;
	for (int k = 0; k < ops; k++) {
		VF_ASSERT("C14", connection_pending(&c) == rd_pos - got_pos, "what is pending is what arrived and was not taken");
		switch (nd_pick("op", 0, plan_fds ? 2 : 3)) {
		case 0: {
			errno = last_err = 0;
			in_eof = false;
			unsigned was = rd_pos;
			bool full = rd_pos - got_pos == SZ;
			int r = connection_read(&c);
			if (full) {
				VF_ASSERT("C14", r == -1 && errno == EOVERFLOW && rd_pos == was, "a full buffer refuses to read");
				VF_WITNESS("in-full");
			} else if (overflowed) {
				VF_ASSERT("C15", r == -1 && errno == EOVERFLOW, "more descriptors than fit end the connection");
				for (int i = nfd - overflowed; i < nfd; i++) VF_ASSERT("C15", fst[i] == F_CLOSED, "descriptors that do not fit are closed");
				VF_WITNESS("fd-overflow");
				connection_close_fds(&c);
				for (int i = 0; i < nfd; i++) VF_ASSERT("C15", i < (int)fd_got ? fst[i] == F_OURS : fst[i] == F_CLOSED, "descriptors not taken are closed with the connection");
				return;
			} else if (last_err) VF_ASSERT("C14", r == -1 && errno == last_err, "a failed read reports its error");
			else if (in_eof) VF_ASSERT("C14", r == 0, "end of file is reported, whatever is pending");
			else VF_ASSERT("C14", r > 0 && r == (int)(rd_pos - got_pos), "a read reports what is pending");
			restorable = 0;
			break;
		}
		case 1: {
			int n = pick_size("size");
			if (n == SZ - 2) n = rd_pos - got_pos; /* exactly what is there */
			VF_ASSUME(n > 0);
			uint8_t buf[SZ + 2];
			memset(buf, 0xa5, sizeof buf);
			errno = 0;
			int r = connection_get(&c, buf, n);
			if ((unsigned)n > rd_pos - got_pos) {
				VF_ASSERT("C14", r == -1 && errno == EAGAIN, "taking more than arrived is refused");
				VF_ASSERT("C14", buf[0] == 0xa5, "a refused get changes nothing");
				VF_WITNESS("get-refused");
				restorable = restorable;
			} else {
				VF_ASSERT("C14", r == n, "get returns what was asked for");
				for (int i = 0; i < n; i++) VF_ASSERT("C14", buf[i] == byte_at(got_pos + i), "bytes are received in order, unchanged");
				VF_ASSERT("C14", buf[n] == 0xa5, "no more than asked for is written");
				got_pos += n;
				restorable = n;
				VF_WITNESS("got");
			}
			break;
		}
		case 2: {
			int f = -1;
			errno = 0;
			int r = connection_get_fd(&c, &f);
			if (fd_got == fd_in_total) VF_ASSERT("C15", r == -1 && errno == EAGAIN && f == -1, "no descriptor is invented");
			else {
				VF_ASSERT("C15", r == 0 && f == FDB + (int)fd_got, "descriptors are delivered in order");
				fd_got++;
				VF_WITNESS("fd-got");
			}
			break;
		}
		case 3: {
			VF_ASSUME(restorable > 0);
			connection_restore(&c, restorable);
			got_pos -= restorable;
			restorable = 0;
			VF_WITNESS("restored");
			break;
		}
		}
	}
	vf_obs("pending", connection_pending(&c));
	connection_close_fds(&c);
	for (int i = 0; i < nfd; i++) VF_ASSERT("C15", i < (int)fd_got ? fst[i] == F_OURS : fst[i] == F_CLOSED, "descriptors not taken are closed with the connection, the others are the caller's");
}

int vf_main(void) {
	for (int i = 0; i < 8; i++) key[i] = nd_u8("key");
	memset(&c, 0, sizeof c);
	c.fd = SOCK;
	plan_fds = vf_param("fds", 0);
	int ops = vf_param("ops", 3);
	switch (vf_param("mode", 0)) {
	case 0: out_main(ops); break;
	case 1: in_main(ops); break;
	case 2: out_full(); break;
	}
	return 0;
}
