/* The part of libc the code under test uses, for the symbolic executor. */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
static int vf_errno_;
int *__errno_location(void) { return &vf_errno_; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
	for (;; a++, b++) {
		if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
		if (!*a) return 0;
	}
}
int strncmp(const char *a, const char *b, size_t n) {
	for (; n; a++, b++, n--) {
		if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
		if (!*a) return 0;
	}
	return 0;
}
int memcmp(const void *a, const void *b, size_t n) {
	const unsigned char *x = a, *y = b;
	for (; n; x++, y++, n--) if (*x != *y) return *x < *y ? -1 : 1;
	return 0;
}
void *memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
void *memmove(void *d, const void *s, size_t n) {
	if ((uintptr_t)d < (uintptr_t)s) for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
	else for (size_t i = n; i-- > 0;) ((char *)d)[i] = ((const char *)s)[i];
	return d;
}
void *memset(void *d, int c, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = (char)c; return d; }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) {
	size_t i = 0;
	for (; i < n && s[i]; i++) d[i] = s[i];
	for (; i < n; i++) d[i] = 0;
	return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) {
	for (;; s++) {
		if (*s == (char)c) return (char *)s;
		if (!*s) return NULL;
	}
}
char *strrchr(const char *s, int c) {
	const char *r = NULL;
	for (;; s++) {
		if (*s == (char)c) r = s;
		if (!*s) return (char *)r;
	}
}
char *strstr(const char *h, const char *n) {
	size_t l = strlen(n);
	for (;; h++) {
		if (strncmp(h, n, l) == 0) return (char *)h;
		if (!*h) return NULL;
	}
}
static bool isdig(int c, int base) { return base <= 10 ? c >= '0' && c < '0' + base : (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
unsigned long strtoul(const char *s, char **e, int base) {
	const char *p = s;
	while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
	bool neg = false;
	if (*p == '-' || *p == '+') neg = *p++ == '-';
	if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long v = 0;
	bool any = false;
	for (; isdig((unsigned char)*p, base); p++) {
		int d = *p <= '9' ? *p - '0' : (*p | 32) - 'a' + 10;
		v = v * base + d;
		any = true;
	}
	if (e) *e = (char *)(any ? p : s);
	return neg ? -v : v;
}
long strtol(const char *s, char **e, int base) { return (long)strtoul(s, e, base); }
long __isoc23_strtol(const char *s, char **e, int base) { return strtol(s, e, base); }
unsigned long __isoc23_strtoul(const char *s, char **e, int base) { return strtoul(s, e, base); }
long long strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
long long __isoc23_strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
long atol(const char *s) { return strtol(s, NULL, 10); }
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
/* %s %d %i %u %x %X %o %p %c %% with l, h, z, j, t, flags, width, precision */
int vsnprintf(char *b, size_t n, const char *f, va_list ap) {
	size_t o = 0;
#define PUT(ch) do { char c_ = (ch); if (o + 1 < n) b[o] = c_; o++; } while (0)
	for (; *f; f++) {
		if (*f != '%') { PUT(*f); continue; }
		f++;
		bool zero = false, lng = false, left = false, alt = false, plus = false;
		int width = 0, prec = -1;
		for (;; f++) {
			if (*f == '0') zero = true;
			else if (*f == '-') left = true;
			else if (*f == '#') alt = true;
			else if (*f == '+') plus = true;
			else if (*f != ' ') break;
		}
		if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; }
		while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
		if (*f == '.') {
			prec = 0;
			f++;
			if (*f == '*') { prec = va_arg(ap, int); f++; }
			while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
		}
		while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { lng = true; f++; }
		while (*f == 'h') f++;
		switch (*f) {
		case '%': PUT('%'); break;
		case 'c': PUT((char)va_arg(ap, int)); break;
		case 's': {
			const char *s = va_arg(ap, const char *);
			if (!s) s = "(null)";
			if (!width) { for (int i = 0; (prec < 0 || i < prec) && s[i]; i++) PUT(s[i]); break; }
			int l = 0;
			while ((prec < 0 || l < prec) && s[l]) l++;
			for (int i = l; !left && i < width; i++) PUT(' ');
			for (int i = 0; i < l; i++) PUT(s[i]);
			for (int i = l; left && i < width; i++) PUT(' ');
			break;
		}
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
			unsigned long v;
			bool neg = false;
			if (*f == 'p') lng = alt = true;
			unsigned base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10;
			if (*f == 'd' || *f == 'i') {
				long sv = lng ? va_arg(ap, long) : va_arg(ap, int);
				neg = sv < 0;
				v = neg ? 0ul - (unsigned long)sv : (unsigned long)sv;
			} else v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
			char t[24];
			int k = 0, z;
			do { unsigned d = v % base; t[k++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; v /= base; } while (v);
			width -= k + (neg || plus) + (alt && base == 16 ? 2 : 0);
			z = prec > k ? prec - k : 0;
			width -= z;
			if (zero && !left && prec < 0 && width > 0) { z = width; width = 0; }
			for (; !left && width > 0; width--) PUT(' ');
			if (neg) PUT('-'); else if (plus) PUT('+');
			if (alt && base == 16) { PUT('0'); PUT(*f == 'X' ? 'X' : 'x'); }
			while (z-- > 0) PUT('0');
			while (k--) PUT(t[k]);
			for (; width > 0; width--) PUT(' ');
			break;
		}
		default: PUT('?');
		}
	}
	if (n) b[o < n ? o : n - 1] = 0;
	return (int)o;
}
size_t strlcpy(char *d, const char *s, size_t n) { size_t i = 0; for (; s[i]; i++) if (i + 1 < n) d[i] = s[i]; if (n) d[i < n ? i : n - 1] = 0; return i; }
size_t strlcat(char *d, const char *s, size_t n) { size_t l = strnlen(d, n); return l == n ? n + strlen(s) : l + strlcpy(d + l, s, n - l); }
void explicit_bzero(void *d, size_t n) { memset(d, 0, n); }
char *stpncpy(char *d, const char *s, size_t n) { size_t l = strnlen(s, n); strncpy(d, s, n); return d + l; }
void *memchr(const void *s, int c, size_t n) { for (size_t i = 0; i < n; i++) if (((const unsigned char *)s)[i] == (unsigned char)c) return (char *)s + i; return NULL; }
void *mempcpy(void *d, const void *s, size_t n) { return (char *)memcpy(d, s, n) + n; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void bzero(void *d, size_t n) { memset(d, 0, n); }
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y || !x) return x - y; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = low((unsigned char)*a), y = low((unsigned char)*b); if (x != y || !x) return x - y; } return 0; }
int tolower(int c) { return low(c); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static unsigned short ctype_[384];
const unsigned short **__ctype_b_loc(void) {
	static const unsigned short *p;
	if (!p) {
		for (int c = 0; c < 128; c++) {
			int up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9', x = dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'), sp = c == ' ' || (c >= 9 && c <= 13);
			int pr = c >= 32 && c < 127, bl = c == ' ' || c == 9, al = up || lo;
			ctype_[128 + c] = up << 8 | lo << 9 | al << 10 | dg << 11 | x << 12 | sp << 13 | pr << 14 | (pr && c != ' ') << 15 | bl | (c < 32 || c == 127) << 1 | (pr && c != ' ' && !al && !dg) << 2 | (al || dg) << 3;
		}
		p = ctype_ + 128;
	}
	return &p;
}
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
void *memrchr(const void *s, int c, size_t n) { while (n--) if (((const unsigned char *)s)[n] == (unsigned char)c) return (char *)s + n; return NULL; }
void *rawmemchr(const void *s, int c) { const unsigned char *p = s; while (*p != (unsigned char)c) p++; return (void *)p; }
long labs(long v) { return v < 0 ? -v : v; }
int abs(int v) { return v < 0 ? -v : v; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : NULL; }
#include <sys/socket.h>
struct cmsghdr *__cmsg_nxthdr(struct msghdr *m, struct cmsghdr *c) {
	if (c->cmsg_len < sizeof(struct cmsghdr)) return NULL;
	struct cmsghdr *n = (struct cmsghdr *)((char *)c + CMSG_ALIGN(c->cmsg_len));
	char *end = (char *)m->msg_control + m->msg_controllen;
	if ((char *)(n + 1) > end || (char *)n + CMSG_ALIGN(n->cmsg_len) > end) return NULL;
	return n;
}
/* device numbers, as glibc packs them */
unsigned gnu_dev_major(unsigned long d) { return ((d >> 8) & 0xfff) | ((unsigned)(d >> 32) & ~0xfffu); }
unsigned gnu_dev_minor(unsigned long d) { return (d & 0xff) | ((unsigned)(d >> 12) & ~0xffu); }
unsigned long gnu_dev_makedev(unsigned ma, unsigned mi) { return ((ma & 0xffful) << 8) | ((ma & 0xfffff000ul) << 32) | (mi & 0xfful) | ((mi & 0xffffff00ul) << 12); }
char *strtok_r(char *s, const char *a, char **p) {
	if (!s) s = *p;
	s += strspn(s, a);
	if (!*s) { *p = s; return NULL; }
	char *e = s + strcspn(s, a);
	if (*e) *e++ = 0;
	*p = e;
	return s;
}
char *strsep(char **p, const char *a) {
	char *s = *p;
	if (!s) return NULL;
	char *e = s + strcspn(s, a);
	if (*e) { *e = 0; *p = e + 1; } else *p = NULL;
	return s;
}
