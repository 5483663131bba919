/*
 * The real log.c: arbitrary sequences of setting the level (every value),
 * setting the handler (two of the caller's, or back to the default) and
 * logging at every level with arguments of several types; the handlers and
 * the calls the default one makes disturb errno.
 */
#define VF_ENV
#include "rename.h"
#include "vf.h"
#include "log.h"

FILE *env_stderr;
static int scramble(void) { return nd_u8("errno") & 127; }
static char out[400];
static int out_n, n_msg;
static void put(const char *s, int n) { for (int i = 0; i < n && out_n < 399; i++) out[out_n++] = s[i]; out[out_n] = 0; }
int env_vfprintf(FILE *f, const char *fmt, va_list ap) {
	char b[200];
	VF_ASSERT("C28", f == env_stderr, "the default handler writes to standard error");
	int n = vsnprintf(b, sizeof b, fmt, ap);
	put(b, n);
	errno = scramble();
	return n;
}
int env_fprintf(FILE *f, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	int n = env_vfprintf(f, fmt, ap);
	va_end(ap);
	return n;
}
ssize_t env_write(int fd, const void *b, size_t n) {
	VF_ASSERT("C28", fd == STDERR_FILENO, "the default handler writes to standard error");
	put(b, (int)n);
	errno = scramble();
	return n;
}
int env_printf(const char *fmt, ...) { (void)fmt; VF_ASSERT("C28", 0, "nothing is written to standard output"); return 0; }
int env_snprintf(char *b, size_t n, const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	int r = vsnprintf(b, n, f, ap);
	va_end(ap);
	return r;
}
int env_isatty(int fd) { errno = scramble(); return vf_param("tty", 0) && fd == STDERR_FILENO; }
static int n_clock;
static const struct timespec T0[] = {{0, 0}, {7, 999999999}}, D[] = {{0, 999999}, {59, 1000000}, {3661, 999999999}, {360000, 0}};
static struct timespec t0, now;
int env_clock_gettime(clockid_t c, struct timespec *ts) {
	VF_ASSERT("C28", c == CLOCK_MONOTONIC, "time is taken from the clock that does not jump");
	*ts = now;
	n_clock++;
	errno = scramble();
	return 0;
}

/* ---------- the handlers ---------- */
static const char A[] = "a %d %s %lu", B[] = "plain";
static int ai;
static const char *as;
static unsigned long al;
static int got, got_level, got_which;
static void check_args(const char *fmt, va_list ap) {
	if (fmt == A || !strcmp(fmt, A)) {
		VF_ASSERT("C28", va_arg(ap, int) == ai, "the arguments reach the handler");
		const char *s = va_arg(ap, const char *);
		VF_ASSERT("C28", s == as || !strcmp(s, as), "the arguments reach the handler");
		VF_ASSERT("C28", va_arg(ap, unsigned long) == al, "the arguments reach the handler");
	} else VF_ASSERT("C28", !strcmp(fmt, B), "the text reaches the handler");
}
static void handler1(enum libseat_log_level l, const char *fmt, va_list ap) { got++; got_level = l; got_which = 1; check_args(fmt, ap); errno = scramble(); }
static void handler2(enum libseat_log_level l, const char *fmt, va_list ap) { got++; got_level = l; got_which = 2; check_args(fmt, ap); errno = scramble(); }

static const char *heads[] = {"", "[ERROR]", "[INFO]", "[DEBUG]"};
static const char *colors[] = {"", "\x1B[1;31m", "\x1B[1;34m", "\x1B[1;90m"};

int vf_main(void) {
	int ops = (int)vf_param("ops", 4), cur = 0, deflt = (int)vf_param("default", 0);
	unsigned level = LIBSEAT_LOG_LEVEL_SILENT;
	bool inited = false;
	bool tty = vf_param("tty", 0);
	t0 = T0[deflt ? nd_pick("t0", 0, 1) : 1];
	now = t0;
	if (deflt) { log_init(); inited = true; }
	for (int i = 0; i < ops; i++) {
		switch (nd_pick("op", 0, 3)) {
		case 0: {
			unsigned l = nd_u32("level");
			if (deflt) VF_ASSUME(l < 6);
			libseat_set_log_level((enum libseat_log_level)l);
			level = l;
			break;
		}
		case 1: {
			int w = nd_pick("handler", 0, 2);
			libseat_set_log_handler(w == 0 ? NULL : w == 1 ? handler1 : handler2);
			cur = w;
			break;
		}
		case 3:
			if (inited) now.tv_sec++;
			log_init();
			if (inited) now.tv_sec--; /* only the first counts */
			inited = true;
			break;
		case 2: {
			unsigned l = nd_u32("mlevel");
			if (cur == 0) { VF_ASSUME(l < 6); l = (unsigned)vf_conc(l); }
			int e = nd_int("before");
			got = out_n = 0;
			out[0] = 0;
			n_msg++;
			struct timespec d = {0};
			if (deflt) {
				d = D[nd_pick("d", 0, 3)];
				now.tv_sec = t0.tv_sec + d.tv_sec, now.tv_nsec = t0.tv_nsec + d.tv_nsec;
				if (now.tv_nsec >= 1000000000) now.tv_nsec -= 1000000000, now.tv_sec++;
			}
			bool a = nd_bool("args");
			ai = cur == 0 ? -17 : nd_int("ai");
			as = nd_bool("empty") ? "" : "text";
			al = cur == 0 ? 4000000000ul : vf_nd("al", 64);
			errno = e;
			if (a) _logf((enum libseat_log_level)l, A, ai, as, al);
			else _logf((enum libseat_log_level)l, B);
			int after = errno;
			VF_ASSERT("C28", after == e, "logging leaves errno alone");
			bool should = l <= level;
			if (cur) {
				VF_ASSERT("C28", got == should, "a message is delivered once if its level is at most the level set, and not otherwise");
				if (got) VF_ASSERT("C28", got_which == cur && (unsigned)got_level == l, "to the last handler set, with its level");
				VF_ASSERT("C28", out_n == 0, "and to no other");
				if (got) VF_WITNESS("delivered"); else VF_WITNESS("dropped");
			} else {
				VF_ASSERT("C28", got == 0, "only the last handler set is called");
				VF_ASSERT("C28", (out_n > 0) == should, "a message is written if its level is at most the level set, and not otherwise");
				if (out_n && inited) {
					char want[200];
					unsigned c = l < 4 ? l : 3;
					int n = env_snprintf(want, sizeof want, "%02d:%02d:%02d.%03ld %s ", (int)(d.tv_sec / 3600), (int)(d.tv_sec / 60 % 60), (int)(d.tv_sec % 60), d.tv_nsec / 1000000, tty ? colors[c] : heads[c]);
					VF_ASSERT("C28", !deflt || (out_n > n && !memcmp(out, want, n)), "a written message is prefixed with the time since the start and its level");
					const char *m = a ? *as ? "a -17 text 4000000000" : "a -17  4000000000" : "plain";
					int ml = strlen(m);
					VF_ASSERT("C28", !deflt || (out_n >= n + ml && !memcmp(out + n, m, ml)), "its text follows");
					VF_ASSERT("C28", !deflt || !strcmp(out + n + ml, tty ? "\x1B[0m\n" : "\n"), "and the end of the line");
				}
				if (out_n) {
					int nl = 0;
					for (int k = 0; k < out_n; k++) nl += out[k] == '\n';
					VF_ASSERT("C28", nl == 1 && out[out_n - 1] == '\n', "it writes one line");
					VF_WITNESS("written");
				}
			}
			break;
		}
		}
	}
	vf_obs("msgs", n_msg);
	return 0;
}
