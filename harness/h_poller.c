/*
 * The event loop against an arbitrary environment: every descriptor reports
 * an arbitrary set of conditions in every iteration, handlers add, change and
 * destroy sources and raise signals at will (within a budget), signals arrive
 * at any system call, poll is interrupted or fails, allocations fail.
 */
#define VF_ENV
#include "rename.h"
#include "vf.h"
#include "linked_list.h"
#include "poller.h"

#define P0 10 /* signal pipe */
#define P1 11
#define FD(i) (20 + (i))
#define MAXSRC 48
#define MAXSIG 5
#define PIPECAP 4
static struct poller poller;
static bool p_open[2], p_nonblock[2];
static int pipe_bytes, heap_live;
static int budget, faults, iter;

static struct src { struct event_source_fd *es; int fd; uint32_t mask, polled_mask; bool alive, polled, due, called, changed; short revents; } src[MAXSRC];
static int nsrc;
static struct sgn { struct event_source_signal *es; int sig; bool alive; bool due; int raises; } sg[MAXSIG];
static int nsg;
static void (*installed[3])(int); /* SIGUSR1, SIGUSR2, SIGTERM */
static const int signo[3] = {SIGUSR1, SIGUSR2, SIGTERM};
static bool in_handler_ctx, in_poll_call;
static int depth; /* inside a callback */

static int sig_budget;
static bool sig_any, mutating; /* mutating: a source is being added or removed */
static int sidx(int s) { for (int i = 0; i < 3; i++) if (signo[i] == s) return i; return -1; }
static void raise_sig(int s) {
	int k = sidx(s);
	bool watched = false;
	for (int i = 0; i < nsg; i++) if (sg[i].alive && sg[i].sig == s) { sg[i].due = true; sg[i].raises++; watched = true; }
	if (mutating && nsg < MAXSIG && sg[nsg].sig == s) sg[nsg].raises++; /* the one being added may see it */
	if (mutating) ;
	else if (watched) VF_ASSERT("C13", installed[k] && installed[k] != SIG_DFL && installed[k] != SIG_IGN, "a watched signal is caught");
	else VF_ASSERT("C13", installed[k] == NULL || installed[k] == SIG_DFL, "a signal nobody watches has its default action");
	if (installed[k] && installed[k] != SIG_DFL && installed[k] != SIG_IGN) {
		bool was = in_handler_ctx;
		in_handler_ctx = true;
		int e = errno;
		errno = 77;
		installed[k](s);
		VF_ASSERT("C13", errno == 77, "signal delivery does not disturb errno");
		errno = e;
		in_handler_ctx = was;
		VF_WITNESS("signal");
	}
}
/* a signal may arrive at any system call */

static void maybe_signal(void) {
	if (in_handler_ctx || sig_budget <= 0 || nsg == 0) return;
	if (!nd_bool("sig")) return;
	sig_budget--;
	int i = sig_any ? nd_pick("which", 0, nsg - 1) : 0;
	if (!sg[i].alive) VF_ASSUME(0);
	raise_sig(sg[i].sig);
}
#ifdef ACC /* called before every memory access of the loop's code */
static void acc(void) { if (sig_budget > 0 && !in_handler_ctx) maybe_signal(); }
#define HOOK(n) void __sanitizer_cov_load##n(void *p) { (void)p; acc(); } void __sanitizer_cov_store##n(void *p) { (void)p; acc(); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
#endif
static bool fault(int e) {
	if (faults <= 0 || !nd_bool("fault")) return false;
	faults--;
	errno = any_errno(e);
	return true;
}
int env_pipe(int p[2]) {
	if (fault(EMFILE)) return -1;
	p[0] = P0; p[1] = P1;
	p_open[0] = p_open[1] = true;
	return 0;
}
int env_pipe2(int p[2], int fl) { int r = env_pipe(p); if (!r) p_nonblock[0] = p_nonblock[1] = fl & O_NONBLOCK; return r; }
int env_fcntl(int fd, int cmd, int arg) {
	int k = fd - P0;
	if (k < 0 || k > 1 || !p_open[k]) { errno = EBADF; return -1; }
	if (fault(EINVAL)) return -1;
	if (cmd == F_GETFL) return p_nonblock[k] ? O_NONBLOCK : 0;
	if (cmd == F_SETFL) { p_nonblock[k] = arg & O_NONBLOCK; return 0; }
	return 0;
}
int env_close(int fd) {
	int k = fd - P0;
	VF_ASSERT("C12", k >= 0 && k <= 1 && p_open[k], "the loop closes only its own descriptors");
	if (k >= 0 && k <= 1) p_open[k] = false;
	return 0;
}
ssize_t env_write(int fd, const void *b, size_t n) {
	(void)b;
	VF_ASSERT("C13", fd == P1 && p_open[1], "the signal pipe is written");
	if (pipe_bytes + n > PIPECAP) { VF_ASSERT("C13", p_nonblock[1], "signal delivery does not block"); VF_WITNESS("pipe-full"); errno = EAGAIN; return -1; }
	pipe_bytes += n;
	return n;
}
ssize_t env_read(int fd, void *b, size_t n) {
	VF_ASSERT("C13", fd == P0 && p_open[0], "the signal pipe is read");
	maybe_signal();
	if (!pipe_bytes) { VF_ASSERT("C12,C13", p_nonblock[0], "draining the signal pipe does not block"); errno = EAGAIN; return -1; }
	size_t k = n < (size_t)pipe_bytes ? n : (size_t)pipe_bytes;
	memset(b, 0, k);
	pipe_bytes -= k;
	return k;
}
int env_sigemptyset(sigset_t *s) { memset(s, 0, sizeof *s); return 0; }
int env_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
	int k = sidx(s);
	if (o) { memset(o, 0, sizeof *o); o->sa_handler = installed[k]; }
	if (a) installed[k] = a->sa_handler;
	return 0;
}
void *env_calloc(size_t n, size_t s) { if (fault(ENOMEM)) return NULL; heap_live++; return calloc(n, s); }
void *env_malloc(size_t n) { if (fault(ENOMEM)) return NULL; heap_live++; return malloc(n); }
void *env_realloc(void *p, size_t n) { if (fault(ENOMEM)) return NULL; if (!p) heap_live++; return realloc(p, n); }
void env_free(void *p) { if (p) heap_live--; free(p); }

/* no branches: one path for all masks */
static short to_poll(uint32_t m) { return ((m & EVENT_READABLE) != 0) * POLLIN | ((m & EVENT_WRITABLE) != 0) * POLLOUT; }
static uint32_t to_event(short r) { return ((r & POLLIN) != 0) * EVENT_READABLE | ((r & POLLOUT) != 0) * EVENT_WRITABLE | ((r & POLLERR) != 0) * EVENT_ERROR | ((r & POLLHUP) != 0) * EVENT_HANGUP; }
static int poll_err, eintrs;
static bool quiet;
static int hot = -1; /* the only source that reports anything */
int env_poll(struct pollfd *f, nfds_t n, int timeout) {
	VF_ASSERT("C12", timeout == -1, "the loop waits");
	bool pipe_seen = false;
	if (eintrs > 0 && nd_bool("eintr")) { /* interrupted, with or without one of our signals */
		eintrs--;
		maybe_signal();
		errno = EINTR;
		return -1;
	}
	poll_err = 0;
	if (fault(EINVAL)) { poll_err = 2; return -1; }
	maybe_signal();
	int r = 0;
	for (int i = 0; i < nsrc; i++) { src[i].polled = src[i].due = src[i].called = src[i].changed = false; }
	for (nfds_t k = 0; k < n; k++) {
		f[k].revents = 0;
		if (f[k].fd < 0) continue;
		if (f[k].fd == P0) { /* the signal pipe; seen after the signals above */
			pipe_seen = true;
			VF_ASSERT("C12,C13", f[k].events & POLLIN, "the signal pipe is watched");
			if (pipe_bytes) { f[k].revents = POLLIN; r++; }
			continue;
		}
		struct src *s = NULL;
		for (int i = 0; i < nsrc; i++) if (src[i].alive && src[i].fd == f[k].fd && !src[i].polled) s = &src[i];
		VF_ASSERT("C12", s, "only live sources are waited for, once each");
		if (!s) vf_end();
		VF_ASSERT("C12", f[k].events == to_poll(s->mask), "a source is waited for with its current mask");
		s->polled = true;
		s->polled_mask = s->mask;
		short rev = quiet || (hot >= 0 && s != &src[hot]) ? 0 : nd_u8("revents") & (POLLIN | POLLOUT | POLLERR | POLLHUP);
		rev &= f[k].events | POLLERR | POLLHUP;
		s->revents = f[k].revents = rev;
		s->due = rev != 0;
		r += rev != 0;
	}
	VF_ASSERT("C12,C13", pipe_seen, "signals are waited for");
	for (int i = 0; i < nsrc; i++) if (src[i].alive) VF_ASSERT("C12", src[i].polled, "every live source is waited for");
	for (int i = 0; i < nsg; i++) if (sg[i].alive) VF_ASSERT("C13", !sg[i].due | (r != 0), "the loop never sleeps with a signal unhandled");
	return r;
}

static int on_fd(int fd, uint32_t mask, void *data);
static int many;
static int on_signal(int sig, void *data);
static void add_src(int fd, uint32_t mask) {
	VF_ASSUME(nsrc < (many ? MAXSRC : 6));
	struct src *s = &src[nsrc];
	*s = (struct src){.fd = fd, .mask = mask};
	s->es = poller_add_fd(&poller, fd, mask, on_fd, (void *)(uintptr_t)(100 + nsrc));
	if (!s->es) { VF_ASSERT("C12", errno == ENOMEM, "adding a source fails only without memory"); return; }
	s->alive = true;
	nsrc++;
}
static void add_sig(int sig) {
	VF_ASSUME(nsg < MAXSIG);
	struct sgn *s = &sg[nsg];
	*s = (struct sgn){.sig = sig};
	mutating = true;
	s->es = poller_add_signal(&poller, sig, on_signal, (void *)(uintptr_t)(200 + nsg));
	mutating = false;
	if (!s->es) { VF_ASSERT("C13", errno == ENOMEM, "adding a signal fails only without memory"); return; }
	s->alive = true;
	nsg++;
	VF_ASSERT("C13", installed[sidx(sig)] && installed[sidx(sig)] != SIG_DFL, "a watched signal is caught");
}
static void destroy_src(int i) {
	VF_ASSUME(i >= 0 && i < nsrc && src[i].alive);
	event_source_fd_destroy(src[i].es);
	src[i].alive = false;
	VF_WITNESS("destroyed");
}
static void destroy_sig(int i) {
	VF_ASSUME(i >= 0 && i < nsg && sg[i].alive);
	mutating = true;
	sg[i].alive = false;
	event_source_signal_destroy(sg[i].es);
	mutating = false;
	bool other = false;
	for (int j = 0; j < nsg; j++) if (sg[j].alive && sg[j].sig == sg[i].sig) other = true;
	void (*h)(int) = installed[sidx(sg[i].sig)];
	VF_ASSERT("C13", other == (h != NULL && h != SIG_DFL), "removing the last handler restores the default action, and only then");
}
/* what a handler, or the program between iterations, may do */
static int kinds; /* 1 fd changes, 2 signal changes */
static void act(int self_fd, int self_sig) {
	if (budget <= 0) return;
	int a = nd_range("act", 0, 7);
	if (a == 0) return;
	VF_ASSUME((kinds & 1) | (a >= 5));
	VF_ASSUME(((kinds & 2) != 0) | (a < 5));
	budget--;
	switch (a) {
	case 1: VF_ASSUME(kinds & 1); destroy_src(nd_pick("victim", 0, nsrc > 0 ? nsrc - 1 : 0)); break;
	case 2: VF_ASSUME(kinds & 1); add_src(FD(nsrc), nd_u8("mask") & (EVENT_READABLE | EVENT_WRITABLE)); break;
	case 3: { /* change a mask */
		VF_ASSUME(kinds & 1);
		int i = nd_pick("which", 0, nsrc > 0 ? nsrc - 1 : 0);
		VF_ASSUME(i < nsrc && src[i].alive);
		uint32_t m = nd_u8("mask") & (EVENT_READABLE | EVENT_WRITABLE);
		event_source_fd_update(src[i].es, m);
		src[i].mask = m;
		src[i].changed = true;
		break;
	}
	case 4: { /* replace a source by one with the same descriptor */
		VF_ASSUME(kinds & 1);
		int i = nd_pick("victim", 0, nsrc > 0 ? nsrc - 1 : 0);
		destroy_src(i);
		add_src(src[i].fd, EVENT_READABLE);
		break;
	}
	case 5: { VF_ASSUME(kinds & 2); int i = nd_pick("which", 0, nsg > 0 ? nsg - 1 : 0); VF_ASSUME(i < nsg && sg[i].alive); raise_sig(sg[i].sig); break; }
	case 6: VF_ASSUME(kinds & 2); destroy_sig(nd_pick("victim", 0, nsg > 0 ? nsg - 1 : 0)); break;
	case 7: VF_ASSUME(kinds & 2); add_sig(signo[nd_pick("signo", 0, 2)]); break;
	}
	(void)self_fd; (void)self_sig;
}
static int on_fd(int fd, uint32_t mask, void *data) {
	int i = (int)((uintptr_t)data - 100);
	VF_ASSERT("C12", i >= 0 && i < nsrc && src[i].fd == fd, "a handler gets its own descriptor and data");
	if (i < 0 || i >= nsrc) vf_end();
	VF_ASSERT("C12", src[i].alive, "a destroyed source is never called");
	VF_ASSERT("C12", src[i].polled & src[i].due, "a source is called only when one of its conditions is reported");
	VF_ASSERT("C12", !src[i].called, "a source is called once per iteration");
	VF_ASSERT("C12", mask == to_event(src[i].revents), "a handler is told exactly the conditions reported");
	VF_ASSERT("C12", !in_handler_ctx, "handlers run outside signal context");
	src[i].called = true;
	VF_WITNESS("fd-called");
	act(i, -1);
	return 0;
}
static int on_signal(int sig, void *data) {
	int i = (int)((uintptr_t)data - 200);
	VF_ASSERT("C13", i >= 0 && i < nsg && sg[i].sig == sig, "a handler gets its own signal and data");
	if (i < 0 || i >= nsg) vf_end();
	VF_ASSERT("C13", !in_handler_ctx, "handlers run outside signal context");
	VF_ASSERT("C13,C12", sg[i].alive, "a destroyed source is never called");
#ifdef ACC /* a signal just before the handler starts makes it run again */
	VF_ASSERT("C13", sg[i].raises > 0, "a handler runs only for a signal that was raised");
	sg[i].raises--;
#else
	VF_ASSERT("C13", sg[i].due, "a handler runs only for a signal that was raised");
#endif
	sg[i].due = false;
	VF_WITNESS("signal-handled");
	maybe_signal();
	act(-1, i);
	return 0;
}

int vf_main(void) {
	budget = vf_param("acts", 2);
	sig_budget = vf_param("sigs", 0);
	kinds = vf_param("kinds", 3);
	sig_any = vf_param("any", 1);
	int iters = vf_param("iters", 2), n0 = vf_param("fds", 2), s0 = vf_param("sig0", 1);
	int fb = vf_param("faults", 0);
	eintrs = vf_param("eintr", 0);
	int fi = faults = vf_param("finit", 0);
	int r = poller_init(&poller);
	VF_ASSERT("C12,C13", (r == 0 && faults == fi) || (r == -1 && faults < fi), "the loop is set up unless a call fails");
	if (r == -1) { VF_ASSERT("C12", heap_live == 0, "a loop that cannot be set up leaves nothing behind"); VF_WITNESS("not-set-up"); return 0; }
	VF_ASSERT("C13", p_open[0] && p_open[1] && p_nonblock[0] && p_nonblock[1], "the signal pipe never blocks");
	for (int i = 0; i < n0; i++) add_src(FD(i), nd_u8("mask") & (EVENT_READABLE | EVENT_WRITABLE));
	for (int i = 0; i < s0; i++) add_sig(signo[i == 0 ? 0 : nd_pick("signo", 0, 1)]);
	faults = fb;
	if (vf_param("burst", 0)) { for (int i = 0; i < PIPECAP + 2; i++) raise_sig(signo[0]); }
	/* many sources come and go */
	many = vf_param("many", 0);
	if (many) {
		int stay = nd_pick("stay", 0, 2), b0 = budget;
		budget = 0;
		for (int round = 0; round < 2; round++) {
			for (int i = nsrc; i < many * (round + 1) / 2; i++) add_src(FD(i), EVENT_READABLE);
			for (int k = 0; k < 2; k++) {
				hot = k ? nsrc - 1 : 0;
				for (int i = 0; i < nsrc; i++) src[i].polled = src[i].due = src[i].called = false;
				VF_ASSERT("C12", poller_poll(&poller) == 0, "many sources are served");
				VF_ASSERT("C12", src[hot].called | !src[hot].due | !src[hot].alive, "every live source with a reported condition is called");
				if (k == 0) for (int i = 0; i < nsrc - stay; i++) if (src[i].alive) destroy_src(i);
			}
		}
		hot = -1;
		budget = b0;
		VF_WITNESS("many");
	}
	for (iter = 0; iter < iters; iter++) {
		maybe_signal();
		act(-1, -1);
		int f0 = faults;
		poll_err = 0;
		for (int i = 0; i < nsrc; i++) src[i].polled = src[i].due = src[i].called = false;
		r = poller_poll(&poller);
		if (r == -1) { VF_ASSERT("C12", faults < f0, "an iteration fails only when a call failed"); VF_WITNESS("poll-failed"); continue; }
		VF_ASSERT("C12", r == 0 && poll_err != 2, "a failing poll is reported");
		for (int i = 0; i < nsrc; i++)
			if (src[i].alive && src[i].polled && !src[i].changed) VF_ASSERT("C12", src[i].called | !src[i].due, "every live source with a reported condition is called");
		vf_obs("nsrc", nsrc);
	}
	/* let the loop come to rest: signals that arrived last must still be handled */
	quiet = true;
	budget = eintrs = sig_budget = 0;
	faults = 0;
	for (int k = 0; k < 3; k++) {
		r = poller_poll(&poller);
		VF_ASSERT("C12", r == 0, "the loop works after a failed iteration");
	}
	for (int i = 0; i < nsg; i++) if (sg[i].alive) VF_ASSERT("C13", !sg[i].due, "every signal raised is handled");
	sig_budget = 0;
	poller_finish(&poller);
	VF_ASSERT("C12", heap_live == 0, "nothing is leaked");
	VF_ASSERT("C12", !p_open[0] && !p_open[1], "the loop closes its pipe");
	for (int k = 0; k < 3; k++) VF_ASSERT("C13", installed[k] == NULL || installed[k] == SIG_DFL, "every signal has its default action afterwards");
	return 0;
}
