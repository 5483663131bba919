/*
 * Force-included before every source of the code under test. All libc calls
 * with an effect outside the process (and allocation, whose failure is a
 * modelled fault) go to env_* stand-ins defined by the harness, in the solver
 * encoding and in the native replay alike; no real call is ever made.
 */
#ifndef VF_RENAME_H
#define VF_RENAME_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <limits.h>
#include <poll.h>
#include <pwd.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/un.h>
#include <ctype.h>
#include <inttypes.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/sysmacros.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

#ifndef VF_ENV /* the harness itself sees the real names */
#define open(...) VF_ARG3(env_open, __VA_ARGS__, 0, 0)
#define VF_ARG3(fn, a, b, c, ...) fn(a, b, c)
#define VF_ARG3P(fn, a, b, c, ...) fn(a, b, (void *)(uintptr_t)(c))
#define close(...) env_close(__VA_ARGS__)
#define dup(...) env_dup(__VA_ARGS__)
#define fcntl(...) VF_ARG3(env_fcntl, __VA_ARGS__, 0, 0)
#define ioctl(...) VF_ARG3P(env_ioctl, __VA_ARGS__, 0, 0)
#define read(...) env_read(__VA_ARGS__)
#define write(...) env_write(__VA_ARGS__)
#define pipe(...) env_pipe(__VA_ARGS__)
#define poll(...) env_poll(__VA_ARGS__)
#define socket(...) env_socket(__VA_ARGS__)
#define bind(...) env_bind(__VA_ARGS__)
#define listen(...) env_listen(__VA_ARGS__)
#define accept(...) env_accept(__VA_ARGS__)
#define connect(...) env_connect(__VA_ARGS__)
#define socketpair(...) env_socketpair(__VA_ARGS__)
#define shutdown(...) env_shutdown(__VA_ARGS__)
#define sendmsg(...) env_sendmsg(__VA_ARGS__)
#define recvmsg(...) env_recvmsg(__VA_ARGS__)
#define getsockopt(...) env_getsockopt(__VA_ARGS__)
#define chmod(...) env_chmod(__VA_ARGS__)
#define chown(...) env_chown(__VA_ARGS__)
#define lstat(...) env_lstat(__VA_ARGS__)
#define stat(...) env_stat(__VA_ARGS__)
#define fstat(...) env_fstat(__VA_ARGS__)
#define unlink(...) env_unlink(__VA_ARGS__)
#define realpath(...) env_realpath(__VA_ARGS__)
#define getenv(...) env_getenv(__VA_ARGS__)
#define setenv(...) env_setenv(__VA_ARGS__)
#define fork(...) env_fork(__VA_ARGS__)
#define execve(...) env_execve(__VA_ARGS__)
#define execvp(...) env_execvp(__VA_ARGS__)
#define execv(...) env_execv(__VA_ARGS__)
#define execvpe(...) env_execvpe(__VA_ARGS__)
#define seteuid(...) env_seteuid(__VA_ARGS__)
#define setegid(...) env_setegid(__VA_ARGS__)
#define setreuid(...) env_setreuid(__VA_ARGS__)
#define setregid(...) env_setregid(__VA_ARGS__)
#define getresuid(...) env_getresuid(__VA_ARGS__)
#define getresgid(...) env_getresgid(__VA_ARGS__)
#define setgroups(...) env_setgroups(__VA_ARGS__)
#define clearenv(...) env_clearenv(__VA_ARGS__)
#define waitpid(...) env_waitpid(__VA_ARGS__)
#define kill(...) env_kill(__VA_ARGS__)
#define getuid(...) env_getuid(__VA_ARGS__)
#define getgid(...) env_getgid(__VA_ARGS__)
#define geteuid(...) env_geteuid(__VA_ARGS__)
#define getegid(...) env_getegid(__VA_ARGS__)
#define setuid(...) env_setuid(__VA_ARGS__)
#define setgid(...) env_setgid(__VA_ARGS__)
#define getpid(...) env_getpid(__VA_ARGS__)
#define sigaction(...) env_sigaction(__VA_ARGS__)
#define sigemptyset(...) env_sigemptyset(__VA_ARGS__)
#define calloc(...) env_calloc(__VA_ARGS__)
#define malloc(...) env_malloc(__VA_ARGS__)
#define realloc(...) env_realloc(__VA_ARGS__)
#define free(...) env_free(__VA_ARGS__)
#define strdup(...) env_strdup(__VA_ARGS__)
#define clock_gettime(...) env_clock_gettime(__VA_ARGS__)
#define isatty(...) env_isatty(__VA_ARGS__)
#define getopt(...) env_getopt(__VA_ARGS__)
#define getpwnam(...) env_getpwnam(__VA_ARGS__)
#define getgrnam(...) env_getgrnam(__VA_ARGS__)
#define exit(...) env_exit(__VA_ARGS__)
#define _exit(...) env__exit(__VA_ARGS__)
#define snprintf(...) env_snprintf(__VA_ARGS__)
#define fprintf(...) env_fprintf(__VA_ARGS__)
#define vfprintf(...) env_vfprintf(__VA_ARGS__)
#define printf(...) env_printf(__VA_ARGS__)
#define perror(...) env_perror(__VA_ARGS__)
#define strerror(...) env_strerror(__VA_ARGS__)
#define pipe2(...) env_pipe2(__VA_ARGS__)
#define setresuid(...) env_setresuid(__VA_ARGS__)
#define setresgid(...) env_setresgid(__VA_ARGS__)
/* other ways to say the same */
#define accept4(...) env_accept4_(__VA_ARGS__)
#define recv(...) env_recv_(__VA_ARGS__)
#define send(...) env_send_(__VA_ARGS__)
#define readv(...) env_readv_(__VA_ARGS__)
#define writev(...) env_writev_(__VA_ARGS__)
#define ppoll(...) env_ppoll_(__VA_ARGS__)
#define strndup(...) env_strndup_(__VA_ARGS__)
#define reallocarray(...) env_reallocarray_(__VA_ARGS__)
#define secure_getenv(...) env_getenv(__VA_ARGS__)
#define fputs(s, f) env_fprintf(f, "%s", s)
#define puts(s) env_printf("%s\n", s)
#define fputc(c, f) env_fprintf(f, "%c", c)
#undef putc
#define putc(c, f) env_fprintf(f, "%c", c)
#define openat(d, ...) env_openat_(d, VF_ARG3L(__VA_ARGS__, 0, 0))
#define VF_ARG3L(a, b, c, ...) a, b, c
#define unlinkat(d, p, f) env_unlinkat_(d, p, f)
#define fstatat(...) env_fstatat_(__VA_ARGS__)
#define lchown(...) env_chown(__VA_ARGS__)
#define signal(...) env_signal_(__VA_ARGS__)
#define wait(s) env_waitpid(-1, s, 0)
#define execl(p, ...) env_execv(p, (char *const[]){(char *)__VA_ARGS__})
#define execlp(p, ...) env_execvp(p, (char *const[]){(char *)__VA_ARGS__})
#define asprintf(...) env_asprintf_(__VA_ARGS__)
#define recvfrom(f, b, n, fl, a, l) env_recv_(f, b, n, fl)
#define sendto(f, b, n, fl, a, l) env_send_(f, b, n, fl)
#define sigfillset(s) (memset(s, 0xff, sizeof(sigset_t)), 0)
#define sigaddset(s, n) ((s)->__val[((n) - 1) / 64] |= 1ul << ((n) - 1) % 64, 0)
#define sigdelset(s, n) ((s)->__val[((n) - 1) / 64] &= ~(1ul << ((n) - 1) % 64), 0)
#define fwrite(b, n, m, f) (env_fprintf(f, "%.*s", (int)((n) * (m)), (const char *)(b)), (size_t)(m))
#undef fileno
#define fileno(f) ((f) == env_stderr ? STDERR_FILENO : STDOUT_FILENO)
#define dprintf(d, ...) env_fprintf((d) == STDERR_FILENO ? env_stderr : NULL, __VA_ARGS__)
#define vdprintf(d, f, a) env_vfprintf((d) == STDERR_FILENO ? env_stderr : NULL, f, a)
#define fflush(f) 0
#define setvbuf(f, b, m, n) 0
#define setlinebuf(f) ((void)0)
#define flockfile(f) ((void)0)
#define funlockfile(f) ((void)0)
#define sprintf(b, ...) env_snprintf(b, 1 << 20, __VA_ARGS__)
#define vsprintf(b, f, a) vsnprintf(b, 1 << 20, f, a)
#define strtoull strtoul
#define strtoll strtol
#define strtoimax strtol
#define strtoumax strtoul
#define bcopy(a, b, n) ((void)memmove(b, a, n))
#define wait4(p, s, o, r) env_waitpid(p, s, o)
#define access(p, m) env_access_(p)
#define strsignal(n) ((char *)"Signal")
#undef isdigit
#undef isspace
#undef isalpha
#undef isalnum
#undef isprint
#undef isupper
#undef islower
#undef isxdigit
#define isdigit(c) env_in_(c, '0', '9')
#define isupper(c) env_in_(c, 'A', 'Z')
#define islower(c) env_in_(c, 'a', 'z')
#define isprint(c) env_in_(c, ' ', '~')
#define isalpha(c) env_in_((c) | 32, 'a', 'z')
#define isalnum(c) env_isalnum_(c)
#define isxdigit(c) env_isxdigit_(c)
#define isspace(c) env_isspace_(c)
#define tcgetattr(...) env_tcgetattr(__VA_ARGS__)
#define tcsetattr(...) env_tcsetattr(__VA_ARGS__)
#define cfmakeraw(...) env_cfmakeraw(__VA_ARGS__)
#define cfmakesane(...) env_cfmakesane(__VA_ARGS__)
#undef stderr
#define stderr env_stderr
#define optarg env_optarg
#define optind env_optind
#endif

int env_open(const char *path, int flags, int mode);
int env_close(int fd);
int env_dup(int fd);
int env_fcntl(int fd, int cmd, int arg);
int env_ioctl(int fd, unsigned long req, void *arg);
ssize_t env_read(int fd, void *buf, size_t n);
ssize_t env_write(int fd, const void *buf, size_t n);
int env_pipe(int fds[2]);
int env_poll(struct pollfd *fds, nfds_t n, int timeout);
int env_socket(int d, int t, int p);
int env_bind(int fd, const struct sockaddr *a, socklen_t l);
int env_listen(int fd, int n);
int env_accept(int fd, struct sockaddr *a, socklen_t *l);
int env_connect(int fd, const struct sockaddr *a, socklen_t l);
int env_socketpair(int d, int t, int p, int sv[2]);
int env_shutdown(int fd, int how);
ssize_t env_sendmsg(int fd, const struct msghdr *m, int flags);
ssize_t env_recvmsg(int fd, struct msghdr *m, int flags);
int env_getsockopt(int fd, int l, int o, void *v, socklen_t *n);
int env_chmod(const char *p, mode_t m);
int env_chown(const char *p, uid_t u, gid_t g);
int env_lstat(const char *p, struct stat *st);
int env_stat(const char *p, struct stat *st);
int env_fstat(int fd, struct stat *st);
int env_unlink(const char *p);
char *env_realpath(const char *p, char *out);
char *env_getenv(const char *n);
int env_setenv(const char *n, const char *v, int o);
pid_t env_fork(void);
int env_execve(const char *p, char *const a[], char *const e[]);
int env_execvp(const char *p, char *const a[]);
int env_execv(const char *p, char *const a[]);
int env_execvpe(const char *p, char *const a[], char *const e[]);
int env_seteuid(uid_t u);
int env_setegid(gid_t g);
int env_setreuid(uid_t a, uid_t b);
int env_setregid(gid_t a, gid_t b);
int env_getresuid(uid_t *a, uid_t *b, uid_t *c);
int env_getresgid(gid_t *a, gid_t *b, gid_t *c);
int env_setgroups(size_t n, const gid_t *l);
int env_clearenv(void);
pid_t env_waitpid(pid_t p, int *st, int o);
int env_kill(pid_t p, int s);
uid_t env_getuid(void);
gid_t env_getgid(void);
uid_t env_geteuid(void);
gid_t env_getegid(void);
int env_setuid(uid_t u);
int env_setgid(gid_t g);
pid_t env_getpid(void);
int env_sigaction(int s, const struct sigaction *a, struct sigaction *o);
int env_sigemptyset(sigset_t *s);
void *env_calloc(size_t n, size_t s);
void *env_malloc(size_t n);
void *env_realloc(void *p, size_t n);
void env_free(void *p);
char *env_strdup(const char *s);
int env_clock_gettime(clockid_t c, struct timespec *ts);
int env_isatty(int fd);
int env_getopt(int argc, char *const argv[], const char *o);
struct passwd *env_getpwnam(const char *n);
struct group *env_getgrnam(const char *n);
void env_exit(int c);
void env__exit(int c);
int env_snprintf(char *b, size_t n, const char *f, ...);
int env_fprintf(FILE *f, const char *fmt, ...);
int env_vfprintf(FILE *f, const char *fmt, va_list ap);
int env_printf(const char *fmt, ...);
void env_perror(const char *s);
char *env_strerror(int e);
int env_tcgetattr(int fd, struct termios *t);
int env_tcsetattr(int fd, int how, const struct termios *t);
void env_cfmakeraw(struct termios *t);
void env_cfmakesane(struct termios *t);
int env_pipe2(int fds[2], int flags);
int env_setresuid(uid_t a, uid_t b, uid_t c);
int env_setresgid(gid_t a, gid_t b, gid_t c);
extern FILE *env_stderr;
extern char *env_optarg;
extern int env_optind;
#ifndef VF_ENV_ALT
#define VF_ENV_ALT
static inline int env_accept4_(int fd, struct sockaddr *a, socklen_t *l, int fl) {
	int r = env_accept(fd, a, l), n = 0;
	if (r == -1) return -1;
	if (fl & SOCK_CLOEXEC) while (env_fcntl(r, F_SETFD, FD_CLOEXEC) == -1 && n++ < 3);
	if (fl & SOCK_NONBLOCK) while (env_fcntl(r, F_SETFL, O_NONBLOCK) == -1 && n++ < 3);
	return r;
}
static inline ssize_t env_readv_(int fd, const struct iovec *v, int n) { struct msghdr m = {.msg_iov = (struct iovec *)v, .msg_iovlen = n}; return env_recvmsg(fd, &m, 0); }
static inline ssize_t env_writev_(int fd, const struct iovec *v, int n) { struct msghdr m = {.msg_iov = (struct iovec *)v, .msg_iovlen = n}; return env_sendmsg(fd, &m, 0); }
static inline ssize_t env_recv_(int fd, void *b, size_t n, int fl) { struct iovec v = {b, n}; struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1}; return env_recvmsg(fd, &m, fl); }
static inline ssize_t env_send_(int fd, const void *b, size_t n, int fl) { struct iovec v = {(void *)b, n}; struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1}; return env_sendmsg(fd, &m, fl); }
static inline int env_ppoll_(struct pollfd *f, nfds_t n, const struct timespec *t, const sigset_t *s) { return env_poll(f, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }
static inline char *env_strndup_(const char *s, size_t n) {
	size_t l = 0;
	while (l < n && s[l]) l++;
	char *r = env_malloc(l + 1);
	if (r) { for (size_t i = 0; i < l; i++) r[i] = s[i]; r[l] = 0; }
	return r;
}
static inline int env_asprintf_(char **r, const char *f, ...) {
	va_list ap, aq;
	va_start(ap, f);
	va_copy(aq, ap);
	int n = vsnprintf(NULL, 0, f, ap);
	va_end(ap);
	*r = env_malloc(n + 1);
	if (*r) vsnprintf(*r, n + 1, f, aq);
	va_end(aq);
	return *r ? n : -1;
}
static inline void *env_reallocarray_(void *p, size_t n, size_t s) { if (s && n > SIZE_MAX / s) { errno = ENOMEM; return NULL; } return env_realloc(p, n * s); }
static inline int env_openat_(int d, const char *p, int f, int m) { assert(d == AT_FDCWD || p[0] == '/'); return env_open(p, f, m); }
static inline int env_unlinkat_(int d, const char *p, int f) { assert(d == AT_FDCWD || p[0] == '/'); return env_unlink(p); }
static inline int env_fstatat_(int d, const char *p, struct stat *st, int f) { assert(d == AT_FDCWD || p[0] == '/'); return f & AT_SYMLINK_NOFOLLOW ? env_lstat(p, st) : env_stat(p, st); }
static inline int env_access_(const char *p) { struct stat st; return env_stat(p, &st); }
static inline int env_in_(int c, int a, int b) { return c >= a && c <= b; }
static inline int env_isalnum_(int c) { return env_in_(c, '0', '9') || env_in_(c | 32, 'a', 'z'); }
static inline int env_isxdigit_(int c) { return env_in_(c, '0', '9') || env_in_(c | 32, 'a', 'f'); }
static inline int env_isspace_(int c) { return c == ' ' || env_in_(c, 9, 13); }
static inline __sighandler_t env_signal_(int sig, __sighandler_t h) { struct sigaction a = {.sa_handler = h, .sa_flags = SA_RESTART}, o = {0}; return env_sigaction(sig, &a, &o) == -1 ? SIG_ERR : o.sa_handler; }
#endif
/* after the C library's headers, which are Linux's */
#ifdef VF_AS_FREEBSD
#undef __linux__
#define __FreeBSD__ 14
#endif
#ifdef VF_AS_NETBSD
#undef __linux__
#define __NetBSD__ 1
#endif
#endif
