/*
 * Harness API. A harness is compiled twice from the same file:
 *  - to bitcode for symx (the symbolic executor): vf_nd() is a fresh symbolic
 *    bit-vector, vf_assert_() a query to the solver;
 *  - to a native program (gcc, sanitizers) for replay: vf_nd() returns the
 *    solver's value, vf_assert_() tests it.
 */
#ifndef VF_H
#define VF_H
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

uint64_t vf_nd(const char *name, int bits);
void vf_assume(int cond);
void vf_assert_(int cond, const char *props, const char *msg);
void vf_witness(const char *label);
uint64_t vf_param(const char *name, uint64_t dflt);
const char *vf_str(const char *name); /* string parameter, "" if unset */
void vf_obs(const char *name, uint64_t v);
uint64_t vf_conc(uint64_t v); /* split over all feasible values */
void vf_end(void);            /* end of this run */
int vf_heap_live(void);       /* live malloc blocks (symx only; 0 natively) */
void vf_check_cstr(const char *s); /* s is a string, or NULL */
void vf_check_init(const void *p, size_t n, const char *msg);

/* props: comma-separated property ids; "*" = every property of the harness */
#define VF_ASSERT(props, cond, msg) vf_assert_(!!(cond), props, msg)
#define VF_ASSUME(cond)             vf_assume(!!(cond))
#define VF_WITNESS(l)               vf_witness(l)

static inline uint8_t nd_u8(const char *n) { return (uint8_t)vf_nd(n, 8); }
static inline uint16_t nd_u16(const char *n) { return (uint16_t)vf_nd(n, 16); }
static inline uint32_t nd_u32(const char *n) { return (uint32_t)vf_nd(n, 32); }
static inline int nd_int(const char *n) { return (int)(uint32_t)vf_nd(n, 32); }
static inline bool nd_bool(const char *n) { return vf_nd(n, 1) != 0; }
/* a symbolic int in [lo, hi] */
static inline int nd_range(const char *n, int lo, int hi) {
	if (lo == hi) return lo;
	int v = lo + (int)(uint32_t)vf_nd(n, 16);
	vf_assume((v >= lo) & (v <= hi));
	return v;
}
/* an int in [lo, hi], one path per value */
static inline int nd_pick(const char *n, int lo, int hi) {
	return (int)(uint32_t)vf_conc((uint32_t)nd_range(n, lo, hi));
}
/* the texts a message logs exist: every string among its arguments has an end */
static inline void vf_log(const char *f, va_list ap) {
	for (; *f; f++) {
		if (*f != '%') continue;
		int l = 0;
		for (f++; (*f >= '0' && *f <= '9') || *f == 'l' || *f == 'z'; f++) l |= *f > '9';
		if (*f == 's') vf_check_cstr(va_arg(ap, const char *));
		else if (*f == '%') continue;
		else if (l) (void)va_arg(ap, long);
		else if (*f) (void)va_arg(ap, int);
		else break;
	}
}
/* the errno of a failing call: e stands for any, except where the caller may
 * rightly tell them apart (try again, out of memory) */
static inline int any_errno(int e) {
	if (e == 0 || e == 11 /* EAGAIN */ || e == 12 /* ENOMEM */) return e;
	int v = nd_range("errno", 1, 133);
	vf_assume((v != 4) & (v != 11));
	return v;
}
int vf_main(void);
#endif
