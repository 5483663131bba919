/*
 * seatd's main against a stub of the file system, the socket calls and the
 * server: every option sequence below, every kind of file at the socket path,
 * failure of every call.
 */
#define VF_ENV
#include "rename.h"
#include "vf.h"
#include "libseat.h"
#include "log.h"
#include "poller.h"
#include "server.h"

#define SOCKP "/run/seatd.sock"
#define FD 10
FILE *env_stderr;
char *env_optarg;
int env_optind = 1;
int vf_prog_main(int argc, char **argv);
static struct server *srv;
static bool n_unlink_failed;

static int faults, n_fault, n_wfault;
static bool fault(int e) {
	if (faults <= 0 || !nd_bool("fault")) return false;
	faults--;
	n_fault++;
	errno = any_errno(e);
	return true;
}

/* ---------- what was asked for ---------- */
static bool o_z, o_u, o_g, o_n, usage_err, usage_ok;
static int o_level = LIBSEAT_LOG_LEVEL_INFO, o_fd = -1;
static uid_t pw_uid[2];
static gid_t gr_gid[2], pw_gid;
static int pw_n, gr_n;
static struct passwd pw;
static struct group gr;
struct passwd *env_getpwnam(const char *n) {
	if (strcmp(n, "user") && strcmp(n, "root")) return NULL;
	pw.pw_uid = pw_uid[n[0] == 'r'];
	pw.pw_gid = pw_gid; /* the user's own group: not asked for */
	return &pw;
}
struct group *env_getgrnam(const char *n) {
	if (strcmp(n, "user") && strcmp(n, "root")) return NULL;
	gr.gr_gid = gr_gid[n[0] == 'r'];
	return &gr;
}
static char *args[12];
static int nargs, optpos;
int env_getopt(int argc, char *const argv[], const char *o) {
	env_optarg = NULL;
	if (env_optind >= argc) return -1;
	char *a = argv[env_optind];
	if (optpos == 0) {
		if (a[0] != '-' || !a[1]) return -1;
		if (a[1] == '-' && !a[2]) { env_optind++; return -1; }
		optpos = 1;
	}
	char c = a[optpos++];
	const char *f = strchr(o, c);
	bool last = !a[optpos];
	if (!f || c == ':') { if (last) { optpos = 0; env_optind++; } return '?'; }
	if (f[1] == ':') {
		if (!last) env_optarg = a + optpos;
		else if (env_optind + 1 < argc) env_optarg = argv[++env_optind];
		optpos = 0;
		env_optind++;
		return env_optarg ? c : '?';
	}
	if (last) { optpos = 0; env_optind++; }
	return c;
}

/* ---------- the file at the path ---------- */
enum node { NONE, SOCKET, REG, DIR, LINK_SOCK, LINK_REG, FIFO, DEV, OURS, UNSEEN } node;
static uid_t n_uid;
static gid_t n_gid;
static mode_t n_mode, mode0;
static bool sock_open, bound, listening, registered, inited, finished, ready_sent, ready_closed, inodes_lost;
static int n_iter, ended; /* ended: 1 stopped, 2 failed */
static mode_t kind(enum node k) {
	switch (k) {
	case SOCKET: case OURS: case LINK_SOCK: return S_IFSOCK;
	case REG: case LINK_REG: return S_IFREG;
	case DIR: return S_IFDIR;
	case FIFO: return S_IFIFO;
	case DEV: return S_IFCHR;
	default: return 0;
	}
}
static int looked(const char *p, struct stat *st, bool follow) {
	VF_ASSERT("C27", !strcmp(p, SOCKP), "only the socket path is looked at");
	memset(st, 0, sizeof *st);
	if (node == UNSEEN) { errno = EACCES; return -1; }
	if (node == NONE) { errno = ENOENT; return -1; }
	st->st_mode = (kind(node) | 0755);
	if (!follow && (node == LINK_SOCK || node == LINK_REG)) st->st_mode = S_IFLNK | 0777;
	st->st_uid = n_uid;
	return 0;
}
int env_lstat(const char *p, struct stat *st) { return looked(p, st, false); }
int env_stat(const char *p, struct stat *st) { return looked(p, st, true); }
int env_unlink(const char *p) {
	VF_ASSERT("C27", !strcmp(p, SOCKP), "only the socket path is removed");
	VF_ASSERT("C27", node == SOCKET || node == OURS, "nothing but a socket is removed");
	VF_ASSERT("C27", node == OURS || !o_z, "under the launcher an existing socket is left alone");
	VF_ASSERT("C27", node == OURS || !sock_open || !bound, "another daemon's socket is left alone");
	if (fault(EACCES)) { VF_ASSUME(errno != ENOENT); n_unlink_failed = true; return -1; }
	VF_WITNESS(node == OURS ? "removed-own" : "removed-leftover");
	node = NONE;
	/* someone else's daemon starts meanwhile */
	if (vf_param("race", 0) && !bound && nd_bool("rival")) { node = SOCKET; inodes_lost = true; }
	return 0;
}
int env_socket(int d, int t, int p) {
	(void)p;
	VF_ASSERT("C27", d == AF_UNIX && (t & 0xf) == SOCK_STREAM && (t & SOCK_CLOEXEC) && (t & SOCK_NONBLOCK), "a close-on-exec non-blocking stream socket");
	if (fault(EMFILE)) return -1;
	sock_open = true;
	return FD;
}
int env_bind(int fd, const struct sockaddr *a, socklen_t l) {
	const struct sockaddr_un *u = (const void *)a;
	VF_ASSERT("C27", fd == FD && sock_open && u->sun_family == AF_UNIX && l >= offsetof(struct sockaddr_un, sun_path) + strlen(SOCKP) && l <= sizeof *u && !strncmp(u->sun_path, SOCKP, l - offsetof(struct sockaddr_un, sun_path)), "the socket is bound to its path");
	if (fault(EACCES)) return -1;
	if (node == UNSEEN) { errno = EACCES; return -1; }
	if (node != NONE) { errno = EADDRINUSE; VF_WITNESS("in-use"); return -1; }
	node = OURS;
	bound = true;
	n_uid = 0, n_gid = 0;
	mode0 = n_mode = 0777 & ~(mode_t)(nd_u16("umask") & 0777);
	return 0;
}
int env_listen(int fd, int n) {
	VF_ASSERT("C27", fd == FD && bound && n > 0, "the bound socket listens");
	if (fault(EADDRINUSE)) return -1;
	listening = true;
	return 0;
}
int env_close(int fd) {
	if (o_n && fd == o_fd && !ready_closed) {
		VF_ASSERT("C27", ready_sent || n_wfault, "readiness is signalled before its descriptor is closed");
		ready_closed = true;
		return 0;
	}
	VF_ASSERT("C27", fd == FD && sock_open, "only its own descriptors are closed");
	VF_ASSERT("C27", !ready_sent || finished || !srv->running || ended, "a daemon that is ready keeps its socket");
	sock_open = false;
	return 0;
}
int env_chmod(const char *p, mode_t m) {
	VF_ASSERT("C27", !strcmp(p, SOCKP) && node == OURS, "only its own socket is changed");
	if (fault(EPERM)) return -1;
	n_mode = m & 07777;
	return 0;
}
int env_chown(const char *p, uid_t u, gid_t g) {
	VF_ASSERT("C27", !strcmp(p, SOCKP) && node == OURS, "only its own socket is given away");
	if (fault(EPERM)) return -1;
	if (u != (uid_t)-1) n_uid = u;
	if (g != (gid_t)-1) n_gid = g;
	return 0;
}

/* ---------- the server ---------- */

static int level_set = -1;
void libseat_set_log_level(enum libseat_log_level l) { level_set = l; }
void log_init(void) {}
void _logf(enum libseat_log_level l, const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	vf_log(f, ap);
	va_end(ap);
}
int server_init(struct server *s) {
	VF_ASSERT("C27", !inited, "one server");
	if (fault(ENOMEM)) return -1;
	srv = s;
	inited = true;
	s->running = true;
	return 0;
}
void server_finish(struct server *s) {
	VF_ASSERT("C27", inited && !finished && s == srv, "a server that was started is finished once");
	finished = true;
}
int server_handle_connection(int fd, uint32_t mask, void *d) { (void)fd; (void)mask; (void)d; return 0; }
static char a_source;
struct event_source_fd *poller_add_fd(struct poller *p, int fd, uint32_t mask, event_source_fd_func_t func, void *data) {
	VF_ASSERT("C27", inited && p == &srv->poller && fd == FD && sock_open && bound, "the bound socket is served");
	VF_ASSERT("C27", (mask & EVENT_READABLE) && func == server_handle_connection && data == srv, "by accepting its connections");
	if (fault(ENOMEM)) return NULL;
	registered = true;
	return (struct event_source_fd *)&a_source;
}
static void serving(const char *what) {
	(void)what;
	VF_ASSERT("C27", listening && sock_open && registered && node == OURS, "it is ready and serving only once the socket accepts connections");
	if (o_u || o_g) VF_ASSERT("C27", n_mode == 0770, "with the mode that keeps others out");
	else VF_ASSERT("C27", n_mode == mode0, "with the mode the umask left");
	if (o_u) VF_ASSERT("C27", n_uid == pw_uid[pw_n], "and the owner asked for");
	else VF_ASSERT("C27", n_uid == 0, "and the owner unchanged");
	if (o_g) VF_ASSERT("C27", n_gid == gr_gid[gr_n], "and the group asked for");
	else VF_ASSERT("C27", n_gid == 0, "and the group unchanged");
	VF_ASSERT("C27", level_set == o_level, "and the log level asked for");
}
int poller_poll(struct poller *p) {
	VF_ASSERT("C27", inited && !finished && p == &srv->poller && srv->running, "it serves while it runs");
	serving("poll");
	if (o_n) VF_ASSERT("C27", ready_sent || n_wfault, "it signals readiness before it serves");
	VF_ASSERT("C27", !ended, "a failure of the loop ends it");
	VF_WITNESS("serving");
	if (fault(ENOMEM)) { ended = 2; return -1; }
	if (++n_iter == 3 || nd_bool("stop")) { srv->running = false; ended = 1; }
	return 0;
}
ssize_t env_write(int fd, const void *b, size_t n) {
	VF_ASSERT("C27", o_n && fd == o_fd && !ready_closed, "readiness is signalled on the descriptor given");
	VF_ASSERT("C27", n > 0 && ((const char *)b)[n - 1] == '\n' && !ready_sent, "with one line, once");
	serving("ready");
	if (fault(EPIPE)) { n_wfault++; return -1; }
	ready_sent = true;
	VF_WITNESS("ready");
	return n;
}
int env_printf(const char *f, ...) { (void)f; return 0; }
int env_fprintf(FILE *s, const char *f, ...) { (void)s; (void)f; return 0; }
void env_perror(const char *s) { (void)s; }
char *env_strerror(int e) { (void)e; return ""; }
char *env_getenv(const char *n) { (void)n; return nd_bool("env") ? "/yes" : NULL; }
uid_t env_getuid(void) { return 0; }
gid_t env_getgid(void) { return 0; }
pid_t env_getpid(void) { return 400; }

static enum node node0;
static void finish(int rc) {
	vf_obs("rc", rc);
	vf_obs("node", node);
	VF_ASSERT("C27", !inited || finished, "the server is finished");
	if (usage_err || usage_ok) {
		VF_ASSERT("C27", !inited && !bound && node == node0 && (rc != 0) == usage_err, "wrong usage and help start nothing");
		VF_WITNESS("usage");
		vf_end();
	}
	VF_ASSERT("C27", (rc == 0) == (ended == 1), "the exit status says whether it ran and stopped");
	if (n_fault == 0 && (node0 == NONE || (node0 == SOCKET && !o_z)) && !inodes_lost) VF_ASSERT("C27", ended == 1, "it starts when nothing is in the way");
	if (node0 != NONE && (node0 != SOCKET || o_z)) {
		VF_ASSERT("C27", rc != 0 && node == node0 && !listening, "it refuses to start over anything else");
		VF_WITNESS("refused");
	}
	if (bound && n_fault == 0) VF_ASSERT("C27", node == NONE, "its socket is gone when it ends");
	if (bound && node == OURS) VF_ASSERT("C27", n_unlink_failed, "its socket is gone when it ends");
	if (o_n && ended) VF_ASSERT("C27", ready_closed, "the readiness descriptor is closed");
	vf_end();
}
void env_exit(int c) { finish(c); }
int vf_main(void) {
	faults = (int)vf_param("faults", 0);
	node0 = node = (enum node)nd_pick("node", NONE, UNSEEN);
	VF_ASSUME(node != OURS);
	pw_uid[0] = nd_u32("uid"), gr_gid[0] = nd_u32("gid"), pw_gid = nd_u32("primary");
	VF_ASSUME((pw_uid[0] != (uid_t)-1) & (gr_gid[0] != (gid_t)-1));
	const char *s = vf_str("script");
	static char num[4];
	args[nargs++] = "seatd";
	bool over = false;
	for (; *s; s++) {
		switch (*s) {
		case 'z': args[nargs++] = "-z"; if (!over) { if (o_u || o_g) over = usage_err = true; o_z = true; } break;
		case 'u': case 'U': args[nargs++] = "-u"; args[nargs++] = *s == 'u' ? "user" : "root"; if (!over) { if (o_z) over = usage_err = true; o_u = true; pw_n = *s == 'U'; } break;
		case 'g': case 'G': args[nargs++] = "-g"; args[nargs++] = *s == 'g' ? "user" : "root"; if (!over) { if (o_z) over = usage_err = true; o_g = true; gr_n = *s == 'G'; } break;
		case 'w': args[nargs++] = "-u"; args[nargs++] = "nobody"; if (!over) over = usage_err = true; break;
		case 'W': args[nargs++] = "-g"; args[nargs++] = "nobody"; if (!over) over = usage_err = true; break;
		case 'n':
			num[0] = '0' + nd_range("d1", 0, 9);
			num[1] = '0' + nd_range("d2", 0, 9);
			VF_ASSUME(num[0] != '1' || num[1] != '0');
			args[nargs++] = "-n"; args[nargs++] = num; if (!over) { o_n = true; o_fd = (num[0] - '0') * 10 + num[1] - '0'; } break;
		case 'N': args[nargs++] = "-n"; args[nargs++] = "-3"; if (!over) over = usage_err = true; break;
		case '0': args[nargs++] = "-lsilent"; if (!over) o_level = LIBSEAT_LOG_LEVEL_SILENT; break;
		case '1': args[nargs++] = "-l"; args[nargs++] = "error"; if (!over) o_level = LIBSEAT_LOG_LEVEL_ERROR; break;
		case '2': args[nargs++] = "-l"; args[nargs++] = "info"; if (!over) o_level = LIBSEAT_LOG_LEVEL_INFO; break;
		case '3': args[nargs++] = "-l"; args[nargs++] = "debug"; if (!over) o_level = LIBSEAT_LOG_LEVEL_DEBUG; break;
		case '4': { static char l[5]; for (int i = 0; i < 4; i++) l[i] = nd_u8("l"); args[nargs++] = "-l"; args[nargs++] = l; VF_ASSUME(strcmp(l, "info")); if (!over) over = usage_err = true; break; }
		case 'h': args[nargs++] = "-h"; if (!over) over = usage_ok = true; break;
		case 'v': args[nargs++] = "-v"; if (!over) over = usage_ok = true; break;
		case 'x': args[nargs++] = "-x"; if (!over) over = usage_err = true; break;
		}
	}
	errno = 0;
	finish(vf_prog_main(nargs, args));
	return 0;
}
