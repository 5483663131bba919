/* Replay runtime: argv[1] = "-" or comma-separated values, VF_PARAMS="k=v,...",
 * VF_PROP = property decided. Exit: 0 done, 42 violation, 43 assumption failed,
 * 44 values exhausted; sanitizer/abort exits are violations too. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vf.h"
static char *vals;
static int used;
static void out(const char *s) { if (write(1, s, strlen(s)) < 0) _exit(45); }
uint64_t vf_nd(const char *name, int bits) {
	(void)name;
	if (!vals || !*vals) { out("EXHAUSTED\n"); _exit(44); }
	char *e;
	uint64_t v = strtoull(vals, &e, 10);
	vals = *e == ',' ? e + 1 : e;
	used++;
	return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void vf_assume(int c) { if (!c) { out("ASSUME-FAILED\n"); _exit(43); } }
void vf_assert_(int c, const char *props, const char *msg) {
	if (c) return;
	const char *p = getenv("VF_PROP");
	if (p && strcmp(p, "*") && strcmp(props, "*")) {
		const char *q = strstr(props, p);
		if (!q) return;
	}
	char b[600];
	snprintf(b, sizeof b, "FAIL %s|%s\n", props, msg);
	out(b);
	_exit(42); /* what follows a violation may not end */
}
void vf_witness(const char *l) { (void)l; }
uint64_t vf_param(const char *name, uint64_t d) {
	const char *p = getenv("VF_PARAMS");
	size_t l = strlen(name);
	while (p && *p) {
		if (!strncmp(p, name, l) && p[l] == '=') return strtoull(p + l + 1, NULL, 0);
		p = strchr(p, ',');
		if (p) p++;
	}
	return d;
}
const char *vf_str(const char *name) {
	static char e[64];
	snprintf(e, sizeof e, "VF_S_%s", name);
	const char *r = getenv(e);
	return r ? r : "";
}
void vf_obs(const char *name, uint64_t v) {
	char b[200];
	snprintf(b, sizeof b, "OBS %s %llu\n", name, (unsigned long long)v);
	out(b);
}
uint64_t vf_conc(uint64_t v) { return v; }
int vf_heap_live(void) { return 0; }
void vf_check_init(const void *p, size_t n, const char *msg) { /* make the bytes matter, for valgrind/MSan */
	const unsigned char *c = p;
	volatile int z = 0;
	for (size_t i = 0; i < n; i++) if (c[i]) z++;
	(void)msg;
}
void vf_check_cstr(const char *c) {
	volatile size_t n = 0;
	while (c && c[n]) n++;
}
void vf_end(void) { out("END\n"); _exit(0); }
int main(int argc, char **argv) {
	vals = argc > 1 && strcmp(argv[1], "-") ? argv[1] : NULL;
	if (argc > 2) { /* values in a file */
		FILE *f = fopen(argv[2], "r");
		vals = calloc(1, 1 << 20);
		if (!f || !fgets(vals, 1 << 20, f)) { out("EXHAUSTED\n"); return 44; }
		fclose(f);
	}
	vf_main();
	vf_end();
}
