/*
 * seatd-launch's main against a kernel stub: every command line below, every
 * uid and gid, failure of every call, and a daemon that becomes ready, closes
 * the pipe or dies at any moment. fork() follows one side per path.
 */
#define VF_ENV
#include "rename.h"
#include "vf.h"

#define SOCKP "/run/seatd.sock"
#define RD 10
#define WR 11
#define DPID 500
#define CPID 600
FILE *env_stderr;
char *env_optarg;
int env_optind = 1;
int vf_prog_main(int argc, char **argv);

static enum { PARENT, DAEMON, CMD } me;
static int faults, eintrs, n_fault, n_fork;
static bool fault(int e) {
	if (faults <= 0 || !nd_bool("fault")) return false;
	faults--;
	n_fault++;
	errno = any_errno(e);
	return true;
}
static bool intr(void) {
	if (eintrs <= 0 || !nd_bool("eintr")) return false;
	eintrs--;
	errno = EINTR;
	return true;
}

/* ---------- the command line ---------- */
static char *args[8], lvl[24], cmdname[4], carg[4];
static int nargs, cmdix, want; /* want: 0 run, 1 usage error, 2 print and succeed */
static int optpos;
int env_getopt(int argc, char *const argv[], const char *o) {
	env_optarg = NULL;
	if (env_optind >= argc) return -1;
	char *a = argv[env_optind];
	if (optpos == 0) {
		if (a[0] != '-' || !a[1]) return -1;
		if (a[1] == '-' && !a[2]) { env_optind++; return -1; }
		optpos = 1;
	}
	char c = a[optpos++];
	const char *f = strchr(o, c);
	bool last = !a[optpos];
	if (!f || c == ':') { if (last) { optpos = 0; env_optind++; } return '?'; }
	if (f[1] == ':') {
		if (!last) env_optarg = a + optpos;
		else if (env_optind + 1 < argc) env_optarg = argv[++env_optind];
		optpos = 0;
		env_optind++;
		return env_optarg ? c : '?';
	}
	if (last) { optpos = 0; env_optind++; }
	return c;
}

/* ---------- descriptors, the daemon ---------- */
static bool rd_open, wr_open;        /* in the process followed */
static bool d_started, d_alive, d_wr, d_reaped; /* the daemon, and its end of the pipe */
static int in_pipe;                  /* bytes written */
static bool ready_read, told, cmd_ended, cmd_forked;
static int status;
int env_pipe(int f[2]) {
	if (fault(EMFILE)) return -1;
	f[0] = RD, f[1] = WR;
	rd_open = wr_open = true;
	return 0;
}
static bool rd_cx, wr_cx; /* close-on-exec */
int env_pipe2(int f[2], int flags) {
	if (env_pipe(f) == -1) return -1;
	rd_cx = wr_cx = !!(flags & O_CLOEXEC);
	return 0;
}
int env_fcntl(int fd, int cmd, int arg) {
	bool *cx = fd == RD && rd_open ? &rd_cx : fd == WR && wr_open ? &wr_cx : NULL;
	if (!cx) { errno = EBADF; return -1; }
	if (cmd == F_SETFD) *cx = !!(arg & FD_CLOEXEC);
	return cmd == F_GETFD ? *cx : 0;
}
int env_close(int fd) {
	bool ok = (fd == RD && rd_open) || (fd == WR && wr_open);
	VF_ASSERT("C26,C25", ok, "only open descriptors are closed");
	if (fd == RD) rd_open = false; else wr_open = false;
	return 0;
}
static int n_loop, spins, unnoticed, n_exec;
static bool d_died, d_gave_up; /* a reason to fail */
/* time passes: must: until something happens to the daemon */
static void d_step(bool must) {
	if (!d_alive) return;
	if (!must && !nd_bool("step")) return;
	switch (nd_pick("daemon", 0, 2)) {
	case 0: /* ready: writes, closes */
		if (!d_wr) { VF_ASSUME(!must); return; }
		in_pipe++;
		if (nd_bool("closes")) d_wr = false;
		break;
	case 1: /* gives up its end */
		if (!d_wr) { VF_ASSUME(!must); return; }
		d_wr = false;
		d_gave_up = true;
		VF_WITNESS("pipe-closed");
		break;
	case 2:
		d_alive = d_wr = false;
		d_died = true;
		VF_WITNESS("daemon-died");
		break;
	}
}
int env_poll(struct pollfd *p, nfds_t n, int timeout) {
	VF_ASSERT("C26", me == PARENT && n == 1 && p->fd == RD && rd_open && (p->events & POLLIN), "the readiness pipe is polled");
	p->revents = 0;
	if (intr() || fault(ENOMEM)) return -1;
	d_step(false);
	if (timeout < 0) {
		/* sleeps until the pipe has something */
		if (!in_pipe && (d_wr || wr_open)) {
			VF_ASSERT("C26", d_alive, "nobody waits for ever for a dead daemon");
			d_step(true);
			VF_ASSERT("C26", in_pipe || !(d_wr || wr_open), "nobody waits for ever for a dead daemon");
		}
	}
	VF_ASSUME(++n_loop < (int)vf_param("polls", 4));
	if (!in_pipe && !d_wr && wr_open) VF_ASSERT("C26", ++unnoticed < 3, "a daemon that gave up its end of the pipe is noticed");
	if (in_pipe) p->revents |= POLLIN;
	if (!d_wr && !wr_open) p->revents |= POLLHUP;
	/* some systems call the end of a pipe readable */
	if (!in_pipe && !d_alive && (p->revents & POLLHUP) && nd_bool("eof-readable")) p->revents |= POLLIN;
	if (p->revents & POLLHUP && !in_pipe) VF_ASSERT("C26", ++spins < 3 + (int)vf_param("eintr", 0), "seatd-launch does not spin");
	return p->revents ? 1 : 0;
}
ssize_t env_read(int fd, void *b, size_t n) {
	VF_ASSERT("C26", me == PARENT && fd == RD && rd_open && n > 0, "the readiness pipe is read");
	if (intr() || fault(EIO)) return -1;
	if (!in_pipe) {
		while (!in_pipe && (d_wr || wr_open)) {
			VF_ASSERT("C26", d_alive, "nobody waits for ever for a dead daemon");
			d_step(true);
		}
		if (!in_pipe) return 0;
	}
	int k = in_pipe > (int)n ? (int)n : in_pipe;
	memset(b, '\n', k);
	in_pipe -= k;
	ready_read = true;
	VF_WITNESS("ready");
	return k;
}
pid_t env_fork(void) {
	VF_ASSERT("C25,C26", me == PARENT, "only seatd-launch itself starts processes");
	n_fork++;
	if (n_fork == 2) VF_ASSERT("C26", ready_read, "the command starts only after the daemon signalled readiness");
	VF_ASSERT("C25,C26", n_fork <= 2, "two processes are started");
	if (fault(EAGAIN)) return -1;
	if (n_fork == 1) { d_alive = d_started = true; d_wr = wr_open; } else cmd_forked = true;
	if (nd_bool("child")) { me = n_fork == 1 ? DAEMON : CMD; return 0; }
	return n_fork == 1 ? DPID : CPID;
}
pid_t env_waitpid(pid_t p, int *st, int o) {
	VF_ASSERT("C26", me == PARENT && (p == DPID || (p == CPID && cmd_forked)), "only its children are waited for");
	if (p == DPID) {
		if (d_reaped) { errno = ECHILD; return -1; }
		if (fault(EINVAL)) { VF_ASSUME(errno != ECHILD); return -1; }
		d_step(false);
		if (d_alive && (o & WNOHANG)) return 0;
		if (intr()) return -1;
		if (d_alive) { VF_ASSERT("C26", told, "seatd-launch does not sleep on a running daemon"); d_alive = d_wr = false; }
		d_reaped = true;
		if (st) *st = nd_range("dstatus", 0, 0x7f00);
		return DPID;
	}
	if (vf_param("ignored", 0)) {
		/* SIGCHLD is ignored: the command goes, its status is lost */
		static int n;
		VF_ASSERT("C26", ++n < 4, "seatd-launch ends when nothing is left to wait for");
		n_fault++;
		errno = ECHILD;
		return -1;
	}
	if (cmd_ended) { errno = ECHILD; return -1; }
	if (intr()) return -1;
	if (fault(EINVAL)) { VF_ASSUME(errno != ECHILD); return -1; }
	if ((o & WNOHANG) && nd_bool("running")) { VF_ASSUME(++n_loop < 6); return 0; }
	static int n_stop;
	if ((o & WUNTRACED) && n_stop < 2 && nd_bool("stopped")) { n_stop++; if (st) *st = SIGSTOP << 8 | 0x7f; return CPID; }
	if ((o & WCONTINUED) && n_stop > 0 && nd_bool("continued")) { n_stop = 0; VF_ASSUME(++n_loop < 6); if (st) *st = 0xffff; return CPID; }
	cmd_ended = true;
	if (nd_bool("signaled")) { status = nd_range("sig", 1, 64) | (nd_bool("core") ? 0x80 : 0); VF_WITNESS("signaled"); }
	else { status = (int)nd_u8("code") << 8; VF_WITNESS("exited"); }
	if (st) *st = status;
	return CPID;
}
int env_kill(pid_t p, int s) {
	VF_ASSERT("C26", me == PARENT && p == DPID && !d_reaped, "only the daemon, while it is its child, is signalled");
	VF_ASSERT("C26", s == SIGTERM, "the daemon is told to terminate");
	VF_ASSERT("C26", cmd_ended || !cmd_forked || n_fault, "the daemon lives as long as the command");
	told = true;
	VF_WITNESS("told");
	if (fault(EPERM)) return -1;
	return 0;
}

/* ---------- privileges ---------- */
static uid_t r_uid, u_r, u_e, u_s; /* the user; the process's three user ids */
static gid_t r_gid, g_r, g_e, g_s;
static bool owned, closed_;
uid_t env_getuid(void) { return u_r; }
gid_t env_getgid(void) { return g_r; }
uid_t env_geteuid(void) { return u_e; }
gid_t env_getegid(void) { return g_e; }
static bool u_may(uid_t u) { return u_e == 0 || u == u_r || u == u_e || u == u_s; }
static bool g_may(gid_t g) { return u_e == 0 || g == g_r || g == g_e || g == g_s; }
int env_setuid(uid_t u) {
	if (u == (uid_t)-1) { errno = EINVAL; return -1; }
	if (u_e != 0 && u != u_r && u != u_s) { errno = EPERM; return -1; }
	if (fault(EPERM)) return -1;
	if (u_e == 0) u_r = u_s = u;
	u_e = u;
	return 0;
}
int env_setgid(gid_t g) {
	if (g == (gid_t)-1) { errno = EINVAL; return -1; }
	if (u_e != 0 && g != g_r && g != g_s) { errno = EPERM; return -1; }
	if (fault(EPERM)) return -1;
	if (u_e == 0) g_r = g_s = g;
	g_e = g;
	return 0;
}
int env_setresuid(uid_t a, uid_t b, uid_t c) {
	if ((a != (uid_t)-1 && !u_may(a)) || (b != (uid_t)-1 && !u_may(b)) || (c != (uid_t)-1 && !u_may(c))) { errno = EPERM; return -1; }
	if (fault(EPERM)) return -1;
	if (a != (uid_t)-1) u_r = a;
	if (b != (uid_t)-1) u_e = b;
	if (c != (uid_t)-1) u_s = c;
	return 0;
}
int env_setresgid(gid_t a, gid_t b, gid_t c) {
	if ((a != (gid_t)-1 && !g_may(a)) || (b != (gid_t)-1 && !g_may(b)) || (c != (gid_t)-1 && !g_may(c))) { errno = EPERM; return -1; }
	if (fault(EPERM)) return -1;
	if (a != (gid_t)-1) g_r = a;
	if (b != (gid_t)-1) g_e = b;
	if (c != (gid_t)-1) g_s = c;
	return 0;
}
int env_seteuid(uid_t u) { return env_setresuid(-1, u, -1); }
int env_setegid(gid_t g) { return env_setresgid(-1, g, -1); }
int env_setreuid(uid_t a, uid_t b) { return env_setresuid(a, b, a != (uid_t)-1 || (b != (uid_t)-1 && b != u_r) ? (b != (uid_t)-1 ? b : u_e) : (uid_t)-1); }
int env_setregid(gid_t a, gid_t b) { return env_setresgid(a, b, a != (gid_t)-1 || (b != (gid_t)-1 && b != g_r) ? (b != (gid_t)-1 ? b : g_e) : (gid_t)-1); }
int env_getresuid(uid_t *a, uid_t *b, uid_t *c) { *a = u_r, *b = u_e, *c = u_s; return 0; }
int env_getresgid(gid_t *a, gid_t *b, gid_t *c) { *a = g_r, *b = g_e, *c = g_s; return 0; }
int env_setgroups(size_t n, const gid_t *l) {
	if (u_e != 0) { errno = EPERM; return -1; }
	if (fault(EPERM)) return -1;
	for (size_t i = 0; i < n; i++) VF_ASSERT("C25", l[i] == r_gid, "the command gets no group the user is not in");
	return 0;
}
int env_chown(const char *p, uid_t u, gid_t g) {
	VF_ASSERT("C25", me == PARENT && !strcmp(p, SOCKP), "only the daemon's socket is given away");
	VF_ASSERT("C25", ready_read, "the socket is there");
	if (fault(EPERM)) return -1;
	owned = u == r_uid && g == r_gid;
	return 0;
}
int env_chmod(const char *p, mode_t m) {
	VF_ASSERT("C25", me == PARENT && !strcmp(p, SOCKP), "only the daemon's socket is changed");
	VF_ASSERT("C25", ready_read, "the socket is there");
	if (fault(EPERM)) return -1;
	closed_ = (m & 0077) == 0 && (m & 0600) == 0600;
	return 0;
}
static char *sockenv;
int env_setenv(const char *n, const char *v, int o) {
	if (!strcmp(n, "SEATD_SOCK") && o) { VF_ASSERT("C26", !strcmp(v, SOCKP), "the command is told the daemon's socket"); sockenv = (char *)v; }
	return 0;
}
static bool cleared;
int env_clearenv(void) { cleared = true; sockenv = NULL; return 0; }
static int exec_command(const char *p, char *const a[], bool env) {
	VF_ASSERT("C25", me == CMD, "only the child becomes the command");
	VF_ASSERT("C25", (!rd_open || rd_cx) && (!wr_open || wr_cx), "the command inherits nothing of the launcher's");
	VF_ASSERT("C25", u_r == r_uid && u_e == r_uid && u_s == r_uid, "the command runs as the real user, for good");
	VF_ASSERT("C25", g_r == r_gid && g_e == r_gid && g_s == r_gid, "the command runs as the real group, for good");
	VF_ASSERT("C25", owned && closed_, "the socket is the user's alone before the command runs");
	VF_ASSERT("C26", ready_read, "the command starts only after the daemon signalled readiness");
	VF_ASSERT("C26", sockenv != NULL && env, "the command is told the daemon's socket");
	VF_ASSERT("C26", p == args[cmdix] || !strcmp(p, args[cmdix]), "the command asked for is run");
	for (int i = cmdix; i <= nargs; i++) VF_ASSERT("C26", args[i] ? a[i - cmdix] && !strcmp(a[i - cmdix], args[i]) : a[i - cmdix] == NULL, "with the arguments given");
	VF_WITNESS("command");
	n_exec++;
	if (nd_bool("exec-failed")) { errno = any_errno(ENOENT); return -1; }
	vf_end();
	return 0;
}
static int exec_daemon(const char *p, char *const a[], bool empty) {
	VF_ASSERT("C25", me == DAEMON, "only the first child becomes the daemon");
	VF_ASSERT("C25", !rd_open || rd_cx, "the daemon inherits only its end of the pipe");
	VF_ASSERT("C25", !strcmp(p, "/usr/bin/seatd"), "the daemon is started from its installed path");
	VF_ASSERT("C25", empty, "with an empty environment");
	bool n = false, z = false, l = false;
	int i;
	for (i = 1; i < 10 && a[i]; i++) {
		if (!strcmp(a[i], "-n")) { VF_ASSERT("C26", a[i + 1] && atoi(a[i + 1]) == WR && wr_open && !wr_cx, "the daemon is given the writing end to signal readiness"); n = true; i++; }
		else if (!strcmp(a[i], "-z")) z = true;
		else if (!strcmp(a[i], "-l")) { VF_ASSERT("C26", a[i + 1] && !strncmp(a[i + 1], *lvl ? lvl : "info", 15) && strlen(a[i + 1]) <= 15, "and the log level asked for"); l = true; i++; }
	}
	VF_ASSERT("C26", n && z && l && a[0] && !a[i], "the daemon is told to signal readiness and to leave ownership to the launcher");
	VF_WITNESS("daemon");
	n_exec++;
	if (nd_bool("exec-failed")) { errno = any_errno(ENOENT); return -1; }
	vf_end();
	return 0;
}
static bool has_sock(char *const e[]) {
	for (int i = 0; e && e[i] && i < 4; i++) if (!strcmp(e[i], "SEATD_SOCK=" SOCKP)) return true;
	return false;
}
static bool is_path(const char *p) { VF_ASSERT("C26", strchr(p, '/'), "the command is looked for where commands are"); return true; }
int env_execvp(const char *p, char *const a[]) { return me == DAEMON ? exec_daemon(p, a, cleared) : exec_command(p, a, true); }
int env_execv(const char *p, char *const a[]) { return me == DAEMON ? exec_daemon(p, a, cleared) : exec_command(p, a, is_path(p)); }
int env_execvpe(const char *p, char *const a[], char *const e[]) { return me == DAEMON ? exec_daemon(p, a, e && !e[0]) : (sockenv = SOCKP, exec_command(p, a, has_sock(e))); }
int env_execve(const char *p, char *const a[], char *const e[]) { return me == DAEMON ? exec_daemon(p, a, e && !e[0]) : (sockenv = SOCKP, exec_command(p, a, is_path(p) && has_sock(e))); }
void env__exit(int c) {
	VF_ASSERT("C26", me != PARENT, "seatd-launch ends by returning");
	VF_ASSERT("C26,C25", c != 0, "a process that could not be started fails");
	VF_ASSERT("C26,C25", n_exec || n_fault, "the daemon and the command are started");
	VF_WITNESS("exec-failed");
	vf_end();
}
static void finish(int rc);
void env_exit(int c) { if (me != PARENT) env__exit(c); finish(c); }
int env_snprintf(char *b, size_t n, const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	int r = vsnprintf(b, n, f, ap);
	va_end(ap);
	return r;
}
int env_printf(const char *f, ...) { (void)f; return 0; }
int env_fprintf(FILE *s, const char *f, ...) { (void)s; (void)f; return 0; }
void env_perror(const char *s) { (void)s; }
char *env_strerror(int e) { (void)e; return ""; }
char *env_getenv(const char *n) { (void)n; return nd_bool("env") ? "/yes" : NULL; }
pid_t env_getpid(void) { return 400; }

static void finish(int rc) {
	VF_ASSERT("C25,C26", me == PARENT, "a child never goes on as the launcher");
	vf_obs("rc", rc);
	vf_obs("forks", n_fork);
	if (want) {
		VF_ASSERT("C26", n_fork == 0 && (rc == 0) == (want == 2), "help and wrong usage start nothing");
		VF_WITNESS("usage");
		vf_end();
	}
	if (d_started && !d_reaped) VF_ASSERT("C26", told, "a launcher that ends has told the daemon to terminate");
	if (cmd_ended) VF_ASSERT("C26", rc == (WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status)), "the exit status is the command's");
	else {
		VF_ASSERT("C26", rc != 0, "a launcher that could not run the command fails");
		VF_ASSERT("C26,C25", n_fault || d_died || d_gave_up, "the command is run unless something fails");
		VF_WITNESS("failed");
		if (cmd_forked) VF_ASSERT("C26", n_fault > 0, "a running command is waited for");
	}
	vf_end();
}
int vf_main(void) {
	faults = (int)vf_param("faults", 0);
	eintrs = (int)vf_param("eintr", 0);
	r_uid = nd_u32("uid");
	r_gid = nd_u32("gid");
	VF_ASSUME((r_uid != (uid_t)-1) & (r_gid != (gid_t)-1));
	u_r = r_uid, g_r = r_gid; /* installed setuid and maybe setgid */
	g_e = g_s = nd_bool("setgid") ? nd_u32("filegid") : r_gid;
	VF_ASSUME(g_e != (gid_t)-1);
	int f = (int)vf_param("argv", 1);
	char *nm = "seatd-launch";
	for (int i = 0; i < 3; i++) { cmdname[i] = nd_u8("c"); carg[i] = nd_u8("a"); }
	VF_ASSUME(cmdname[0] && cmdname[0] != '-');
	args[nargs++] = nm;
#define A(x) args[nargs++] = (x)
	switch (f) {
	case 0: want = 1; break;
	case 1: cmdix = 1; A(cmdname); A(carg); break;
	case 2: A("--"); cmdix = 2; A(cmdname); A("-l"); A(carg); break;
	case 3: for (int i = 0; i < 5; i++) lvl[i] = nd_u8("l"); VF_ASSUME(lvl[0]); A("-l"); A(lvl); cmdix = 3; A(cmdname); break;
	case 4: A("-v"); want = 2; break;
	case 5: A("-h"); want = 2; break;
	case 6: A("-x"); A(cmdname); want = 1; break;
	case 7: strcpy(lvl, "debug"); A("-ldebug"); A("--"); cmdix = 3; A(cmdname); break;
	case 8: for (int i = 0; i < 20; i++) { lvl[i] = nd_u8("l"); VF_ASSUME(lvl[i]); } A("-l"); A(lvl); cmdix = 3; A(cmdname); break;
	case 9: A("-l"); want = 1; break;
	case 10: strcpy(lvl, "error"); A("-l"); A("debug"); A("-l"); A(lvl); cmdix = 5; A(cmdname); break;
	}
	args[nargs] = NULL;
	errno = 0;
	finish(vf_prog_main(nargs, args));
	return 0;
}
