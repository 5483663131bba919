/* logind.c against a stand-in for sd-bus and logind */
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/stat.h>
#include <systemd/sd-bus.h>
#include "libseat.h"
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "DEMO: %s:%d: %s\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
struct sd_bus { int fd[2]; };
struct sd_bus_message { int kind, fd, step; };
enum { PATH = 1, TAKE, PAUSE, PROPS, EMPTY };
static struct sd_bus BUS;
static int paused, active = 1, n_complete, app_disabled_first = -1, disabled, n_release;
static const char *pause_type;
static sd_bus_message_handler_t on_pause, on_props;
static void *pause_data, *props_data;
static int queue[8], qn;
static sd_bus_message *mk(int k) { sd_bus_message *m = calloc(1, sizeof *m); m->kind = k; m->fd = -1; return m; }
int sd_bus_default_system(sd_bus **b) { pipe(BUS.fd); *b = &BUS; return 0; }
sd_bus *sd_bus_unref(sd_bus *b) { return NULL; }
sd_bus_slot *sd_bus_slot_unref(sd_bus_slot *s) { return NULL; }
int sd_bus_get_fd(sd_bus *b) { return b->fd[0]; }
int sd_bus_get_n_queued_read(sd_bus *b, uint64_t *n) { *n = qn; return 0; }
int sd_bus_get_n_queued_write(sd_bus *b, uint64_t *n) { *n = 0; return 0; }
int sd_bus_call_method_async(sd_bus *b, sd_bus_slot **s, const char *d, const char *p, const char *i, const char *m, sd_bus_message_handler_t h, void *u, const char *t, ...) { return 0; }
int sd_bus_call_method(sd_bus *b, const char *d, const char *p, const char *i, const char *m, sd_bus_error *e, sd_bus_message **r, const char *t, ...) {
	int k = EMPTY;
	if (!strcmp(m, "GetSession") || !strcmp(m, "GetSeat")) k = PATH;
	if (!strcmp(m, "TakeDevice")) k = TAKE;
	if (!strcmp(m, "ReleaseDevice")) n_release++;
	if (!strcmp(m, "PauseDeviceComplete")) { n_complete++; if (app_disabled_first < 0) app_disabled_first = disabled; }
	if (r) { *r = mk(k); if (k == TAKE) (*r)->fd = open("/dev/null", O_RDWR | O_CLOEXEC); }
	return 0;
}
sd_bus_message *sd_bus_message_unref(sd_bus_message *m) { if (m) { if (m->fd >= 0) close(m->fd); free(m); } return NULL; }
int sd_bus_message_read(sd_bus_message *m, const char *t, ...) {
	va_list ap;
	va_start(ap, t);
	if (m->kind == PATH) *va_arg(ap, const char **) = "/x";
	if (m->kind == TAKE) { *va_arg(ap, int *) = m->fd; *va_arg(ap, int *) = paused; }
	if (m->kind == PAUSE) { *va_arg(ap, uint32_t *) = 1; *va_arg(ap, uint32_t *) = 3; *va_arg(ap, const char **) = pause_type; }
	va_end(ap);
	return 1;
}
/* PropertiesChanged: Active is among the invalidated properties (kind PROPS), or changed with a value (fd 1) */
static int by_value;
int sd_bus_message_read_basic(sd_bus_message *m, char t, void *p) {
	switch (m->step++) {
	case 0: *(const char **)p = "org.freedesktop.login1.Session"; return 1;
	case 3: *(const char **)p = "Active"; return 1; /* by value */
	case 5: *(int *)p = active; return 1;
	case 10: *(const char **)p = by_value ? "Type" : "Active"; return 1;
	}
	return 0;
}
int sd_bus_message_enter_container(sd_bus_message *m, char t, const char *c) {
	if (t == 'a' && m->step == 1) { m->step = 2; return 1; }
	if (t == 'e') { if (by_value && m->step == 2) { m->step = 3; return 1; } m->step = 8; return 0; }
	if (t == 'v') { m->step = 5; return 1; }
	if (t == 'a') { m->step = 10; return 1; }
	return -EINVAL;
}
int sd_bus_message_exit_container(sd_bus_message *m) { return 1; }
int sd_bus_message_skip(sd_bus_message *m, const char *t) { return 1; }
int sd_bus_message_is_method_error(sd_bus_message *m, const char *n) { return 0; }
const sd_bus_error *sd_bus_message_get_error(sd_bus_message *m) { return NULL; }
void sd_bus_error_free(sd_bus_error *e) { }
int sd_bus_get_property_trivial(sd_bus *b, const char *d, const char *p, const char *i, const char *m, sd_bus_error *e, char t, void *v) { *(int *)v = active; return 0; }
int sd_bus_match_signal(sd_bus *b, sd_bus_slot **s, const char *d, const char *p, const char *i, const char *m, sd_bus_message_handler_t h, void *u) {
	if (!strcmp(m, "PauseDevice")) on_pause = h, pause_data = u; else on_props = h, props_data = u;
	return 0;
}
int sd_bus_process(sd_bus *b, sd_bus_message **r) {
	if (!qn) return 0;
	sd_bus_message *m = mk(queue[0]);
	memmove(queue, queue + 1, --qn * sizeof *queue);
	sd_bus_error e = {0};
	if (m->kind == PAUSE) on_pause(m, pause_data, &e); else on_props(m, props_data, &e);
	sd_bus_message_unref(m);
	return 1;
}
int sd_session_is_active(const char *s) { return 1; }
int sd_pid_get_session(pid_t p, char **s) { *s = strdup("1"); return 0; }
int sd_uid_get_display(uid_t u, char **s) { *s = strdup("1"); return 0; }
int sd_session_get_seat(const char *s, char **r) { *r = strdup("seat0"); return 0; }
static int n_enable, n_disable;
static void en(struct libseat *s, void *d) { n_enable++; disabled = 0; }
static void dis(struct libseat *s, void *d) { n_disable++; disabled = 1; }
static struct libseat_seat_listener L = {en, dis};
