/* seatd-launch with its system calls replaced by recorders */
#undef fork
#undef execve
#undef execvp
#undef waitpid
#undef kill
#undef chown
#undef chmod
#undef setuid
#undef setgid
#undef getuid
#undef getgid
#undef main
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "DEMO: %s:%d: %s\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
int launch_main(int argc, char **argv);
static struct { int ran, env, termed, gid_set, uid_set, owned, restricted; } *S;
static int ready = 1, fail_setgid, fail_setuid, eintr, core;
static void command(void);
pid_t d_fork(void) { return fork(); }
int d_execve(const char *p, char *const a[], char *const e[]) {
	S->env = e && e[0] != NULL;
	int fd = -1;
	for (int i = 0; a[i]; i++) if (!strcmp(a[i], "-n")) fd = atoi(a[i + 1]);
	if (!ready) _exit(3);
	signal(SIGTERM, SIG_DFL);
	alarm(20);
	if (write(fd, "\n", 1) != 1) _exit(4);
	close(fd);
	for (;;) pause();
}
int d_execvp(const char *p, char *const a[]) { S->ran++; command(); _exit(0); }
pid_t d_waitpid(pid_t p, int *st, int o) { if (eintr && !o) { eintr--; errno = EINTR; return -1; } p = waitpid(p, st, o); if (core && !o && p > 0 && st) *st = core; return p; }
int d_kill(pid_t p, int s) { S->termed += s == SIGTERM; return p > 1 ? kill(p, s) : -1; }
int d_chown(const char *p, uid_t u, gid_t g) { S->owned = u == 1000 && g == 1001; return 0; }
int d_chmod(const char *p, mode_t m) { S->restricted = !(m & 077); return 0; }
int d_setgid(gid_t g) { if (fail_setgid) { errno = fail_setgid; return -1; } S->gid_set = 1; return 0; }
int d_setuid(uid_t u) { if (fail_setuid) { errno = fail_setuid; return -1; } S->uid_set = 1; return 0; }
uid_t d_getuid(void) { return 1000; }
gid_t d_getgid(void) { return 1001; }
static int run(int argc, char **argv) {
	S = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	alarm(30);
	return launch_main(argc, argv);
}
