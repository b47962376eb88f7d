/* C library pieces for the symbolic engine (the native replay uses libc). */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>

void * malloc(size_t);
void * realloc(void *, size_t);
void * memmove(void *, const void *, size_t);
void * memset(void *, int, size_t);
size_t strlen(const char *);
char * strchr(const char *, int);
char * strrchr(const char *, int);
size_t strcspn(const char *, const char *);
char * strtok_r(char *, const char *, char **);
void free(void *);
void * memcpy(void *, const void *, size_t);
void symx_fmtd(char * buf, size_t n, const char * fmt, double d);
double symx_strtod(const char * s, unsigned * used);
int symx_and(int, int);

static int errno_;
int * __errno_location(void) { return &errno_; }

void * memchr(const void * s, int c, size_t n)
{
	const unsigned char * p = s;
	for (; n; --n, ++p)
		if (*p == (unsigned char)c)
			return (void *)p;
	return 0;
}
void * rawmemchr(const void * s, int c) { return memchr(s, c, SIZE_MAX); }
void * memrchr(const void * s, int c, size_t n)
{
	const unsigned char * p = s;
	while (n)
		if (p[--n] == (unsigned char)c)
			return (void *)(p + n);
	return 0;
}
int memcmp(const void * a, const void * b, size_t n)
{
	const unsigned char * x = a, * y = b;
	for (; n; --n, ++x, ++y)
		if (*x != *y)
			return *x < *y ? -1 : 1;
	return 0;
}
int bcmp(const void * a, const void * b, size_t n) { return memcmp(a, b, n); }
void * memmem(const void * h, size_t hl, const void * n, size_t nl)
{
	const char * p = h;
	for (; hl >= nl; ++p, --hl)
		if (!memcmp(p, n, nl))
			return (void *)p;
	return 0;
}
void * mempcpy(void * d, const void * s, size_t n) { return (char *)memcpy(d, s, n) + n; }
size_t strlen(const char * s)
{
	size_t n = 0;
	while (s[n])
		++n;
	return n;
}
size_t strnlen(const char * s, size_t m)
{
	size_t n = 0;
	while (n < m && s[n])
		++n;
	return n;
}
int strcmp(const char * a, const char * b)
{
	for (; *a == *b; ++a, ++b)
		if (!*a)
			return 0;
	return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
}
int strncmp(const char * a, const char * b, size_t n)
{
	for (; n; --n, ++a, ++b) {
		if (*a != *b)
			return (unsigned char)*a < (unsigned char)*b ? -1 : 1;
		if (!*a)
			return 0;
	}
	return 0;
}
int isdigit(int c) { return symx_and(c >= '0', c <= '9'); }
int isupper(int c) { return symx_and(c >= 'A', c <= 'Z'); }
int islower(int c) { return symx_and(c >= 'a', c <= 'z'); }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | symx_and((c | 32) >= 'a', (c | 32) <= 'f'); }
int isspace(int c) { return (c == ' ') | symx_and(c >= 9, c <= 13); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int iscntrl(int c) { return symx_and(c >= 0, c < 32) | (c == 127); }
int isprint(int c) { return symx_and(c >= 32, c < 127); }
int isgraph(int c) { return symx_and(c > 32, c < 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int tolower(int c) { return c + 32 * isupper(c); }
int toupper(int c) { return c - 32 * islower(c); }
int strcasecmp(const char * a, const char * b)
{
	for (;; ++a, ++b) {
		int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
		if (x != y)
			return x < y ? -1 : 1;
		if (!x)
			return 0;
	}
}
int strncasecmp(const char * a, const char * b, size_t n)
{
	for (; n; --n, ++a, ++b) {
		int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
		if (x != y)
			return x < y ? -1 : 1;
		if (!x)
			return 0;
	}
	return 0;
}
char * stpcpy(char * d, const char * s)
{
	while ((*d = *s))
		++d, ++s;
	return d;
}
char * strcpy(char * d, const char * s)
{
	stpcpy(d, s);
	return d;
}
char * strncpy(char * d, const char * s, size_t n)
{
	size_t i;
	for (i = 0; i < n && s[i]; ++i)
		d[i] = s[i];
	for (; i < n; ++i)
		d[i] = 0;
	return d;
}
char * strcat(char * d, const char * s)
{
	stpcpy(d + strlen(d), s);
	return d;
}
char * strncat(char * d, const char * s, size_t n)
{
	char * p = d + strlen(d);
	for (; n && *s; --n)
		*p++ = *s++;
	*p = 0;
	return d;
}
size_t strlcpy(char * d, const char * s, size_t n)
{
	size_t l = strlen(s);
	if (n) {
		size_t m = l < n ? l : n - 1;
		memcpy(d, s, m);
		d[m] = 0;
	}
	return l;
}
char * strchr(const char * s, int c)
{
	for (;; ++s) {
		if (*s == (char)c)
			return (char *)s;
		if (!*s)
			return 0;
	}
}
char * strchrnul(const char * s, int c)
{
	while (*s && *s != (char)c)
		++s;
	return (char *)s;
}
char * strrchr(const char * s, int c)
{
	const char * r = 0;
	for (;; ++s) {
		if (*s == (char)c)
			r = s;
		if (!*s)
			return (char *)r;
	}
}
char * strstr(const char * h, const char * n)
{
	size_t l = strlen(n);
	for (;; ++h) {
		if (!strncmp(h, n, l))
			return (char *)h;
		if (!*h)
			return 0;
	}
}
size_t strspn(const char * s, const char * a)
{
	size_t n = 0;
	while (s[n] && strchr(a, s[n]))
		++n;
	return n;
}
size_t strcspn(const char * s, const char * a)
{
	size_t n = 0;
	while (s[n] && !strchr(a, s[n]))
		++n;
	return n;
}
char * strpbrk(const char * s, const char * a)
{
	s += strcspn(s, a);
	return *s ? (char *)s : 0;
}
char * strtok_r(char * s, const char * d, char ** sv)
{
	if (!s)
		s = *sv;
	s += strspn(s, d);
	if (!*s) {
		*sv = s;
		return 0;
	}
	char * e = s + strcspn(s, d);
	if (*e)
		*e++ = 0;
	*sv = e;
	return s;
}
char * strdup(const char * s)
{
	size_t n = strlen(s) + 1;
	char * p = malloc(n);
	return p ? memcpy(p, s, n) : 0;
}
char * strndup(const char * s, size_t m)
{
	size_t n = strnlen(s, m);
	char * p = malloc(n + 1);
	if (p) {
		memcpy(p, s, n);
		p[n] = 0;
	}
	return p;
}
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }

static uint64_t stou(const char * s, char ** end, int base, int * neg, int * any, int * ovf)
{
	const char * p = s;
	uint64_t v = 0;
	unsigned n = 0;
	*neg = 0;
	*any = 0;
	*ovf = 0;
	while (isspace((unsigned char)*p))
		++p;
	if (*p == '-') {
		*neg = 1;
		++p;
	} else if (*p == '+')
		++p;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) {
		p += 2;
		base = 16;
	} else if (base == 0)
		base = *p == '0' ? 8 : 10;
	for (;; ++p) {
		unsigned c = (unsigned char)*p, d;
		if (isdigit(c))
			d = c - '0';
		else if (isalpha(c))
			d = (c | 32) - 'a' + 10;
		else
			break;
		if (d >= (unsigned)base)
			break;
		*any = 1;
		/* 19 digits of base 10 and 12 of any other cannot overflow */
		if (++n > (base <= 10 ? 19 : 12) && (v > UINT64_MAX / base || (v == UINT64_MAX / base && d > UINT64_MAX % base)))
			*ovf = 1;
		v = v * base + d;
	}
	if (end)
		*end = (char *)(*any ? p : s);
	return v;
}
#define ERANGE 34
unsigned long strtoul(const char * s, char ** end, int base)
{
	int neg, any, ovf;
	uint64_t v = stou(s, end, base, &neg, &any, &ovf);
	if (ovf) {
		errno_ = ERANGE;
		return ULONG_MAX;
	}
	return neg ? -v : v;
}
long strtol(const char * s, char ** end, int base)
{
	int neg, any, ovf;
	uint64_t v = stou(s, end, base, &neg, &any, &ovf);
	if (ovf || v > (uint64_t)LONG_MAX + neg) {
		errno_ = ERANGE;
		return neg ? LONG_MIN : LONG_MAX;
	}
	return neg ? -v : v;
}
unsigned long __isoc23_strtoul(const char * s, char ** e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char * s, char ** e, int b) { return strtoul(s, e, b); }
unsigned long long strtoull(const char * s, char ** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char * s, char ** e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char * s, char ** e, int b) { return strtol(s, e, b); }
long long strtoll(const char * s, char ** e, int b) { return strtol(s, e, b); }
int atoi(const char * s) { return strtol(s, 0, 10); }
long atol(const char * s) { return strtol(s, 0, 10); }
unsigned long strtoumax(const char * s, char ** e, int b) { return strtoul(s, e, b); }
long strtoimax(const char * s, char ** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoumax(const char * s, char ** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtoimax(const char * s, char ** e, int b) { return strtol(s, e, b); }
long long llabs(long long v) { return v < 0 ? -v : v; }
int ffs(int v)
{
	for (int i = 0; i < 32; ++i)
		if (((unsigned)v >> i) & 1)
			return i + 1;
	return 0;
}
void * bsearch(const void * k, const void * base, size_t n, size_t sz,
	int (*cmp)(const void *, const void *))
{
	/* any matching element may be returned: the first one */
	for (size_t i = 0; i < n; ++i)
		if (cmp(k, (const char *)base + i * sz) == 0)
			return (char *)base + i * sz;
	return 0;
}
double strtod(const char * s, char ** end)
{
	unsigned u;
	double d = symx_strtod(s, &u);
	if (end)
		*end = (char *)s + u;
	return d;
}
double atof(const char * s) { return strtod(s, 0); }

/* ---- formatted output ---- */
struct sink { char * b; size_t n, len; };
static void put(struct sink * o, char c)
{
	if (o->len + 1 < o->n)
		o->b[o->len] = c;
	++o->len;
}
int vsnprintf(char * b, size_t n, const char * f, va_list ap)
{
	struct sink o = { b, n, 0 };
	for (; *f; ++f) {
		if (*f != '%') {
			put(&o, *f);
			continue;
		}
		int minus = 0, zero = 0, plus = 0, space = 0, alt = 0, width = 0, prec = -1, l = 0;
		const char * start = f;
		for (++f;; ++f) {
			if (*f == '-') minus = 1;
			else if (*f == '0') zero = 1;
			else if (*f == '+') plus = 1;
			else if (*f == ' ') space = 1;
			else if (*f == '#') alt = 1;
			else break;
		}
		if (*f == '*') {
			width = va_arg(ap, int);
			if (width < 0) {
				minus = 1;
				width = -width;
			}
			++f;
		} else
			while (*f >= '0' && *f <= '9')
				width = width * 10 + *f++ - '0';
		if (*f == '.') {
			++f;
			prec = 0;
			if (*f == '*') {
				prec = va_arg(ap, int);
				++f;
			} else
				while (*f >= '0' && *f <= '9')
					prec = prec * 10 + *f++ - '0';
		}
		for (;; ++f) {
			if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'L' || *f == 'q') l = 2;
			else if (*f == 'h') l = l == -1 ? -2 : -1;
			else break;
		}
		char tmp[340];
		const char * s = tmp;
		size_t len = 0;
		char sign = 0;
		const char * pre = "";
		switch (*f) {
		case '%': tmp[0] = '%'; len = 1; break;
		case 'c': tmp[0] = va_arg(ap, int); len = 1; zero = 0; break;
		case 's':
			s = va_arg(ap, const char *);
			if (!s)
				s = "(null)";
			len = prec >= 0 ? strnlen(s, prec) : strlen(s);
			zero = 0;
			break;
		case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
			uint64_t v;
			unsigned base = *f == 'o' ? 8 : *f == 'x' || *f == 'X' || *f == 'p' ? 16 : 10;
			if (*f == 'd' || *f == 'i') {
				int64_t x = l == 2 ? va_arg(ap, long) : va_arg(ap, int);
				if (l == -1) x = (short)x;
				if (l == -2) x = (signed char)x;
				if (x < 0) {
					sign = '-';
					v = -(uint64_t)x;
				} else {
					v = x;
					sign = plus ? '+' : space ? ' ' : 0;
				}
			} else {
				v = *f == 'p' || l == 2 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
				if (l == -1) v = (unsigned short)v;
				if (l == -2) v = (unsigned char)v;
			}
			if (*f == 'p' || (alt && base == 16 && v))
				pre = *f == 'X' ? "0X" : "0x";
			char * e = tmp + sizeof tmp;
			while (v) {
				unsigned d = v % base;
				v /= base;
				*--e = d + '0' + (d > 9) * ((*f == 'X' ? 'A' : 'a') - '0' - 10);
				++len;
			}
			while (len < (size_t)(prec < 0 ? 1 : prec)) {
				*--e = '0';
				++len;
			}
			if (prec >= 0)
				zero = 0;
			s = e;
			break;
		}
		case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': case 'a': {
			char sub[40];
			size_t k = 0;
			/* width and flags are left to the host's snprintf */
			for (const char * q = start; q <= f && k < sizeof sub - 8; ++q) {
				if (*q == '*') {
					int v = sub[k - 1] == '.' ? prec : width;
					if (v >= 10)
						sub[k++] = '0' + v / 10;
					sub[k++] = '0' + v % 10;
				} else if (*q != 'l' && *q != 'L')
					sub[k++] = *q;
			}
			sub[k] = 0;
			symx_fmtd(tmp, sizeof tmp, sub, va_arg(ap, double));
			len = strlen(tmp);
			width = 0;
			break;
		}
		default:
			return -1;
		}
		size_t tot = len + (sign != 0) + strlen(pre);
		if (!minus && !zero)
			for (; tot < (size_t)width; ++tot)
				put(&o, ' ');
		if (sign)
			put(&o, sign);
		for (; *pre; ++pre)
			put(&o, *pre);
		if (zero && !minus)
			for (; tot < (size_t)width; ++tot)
				put(&o, '0');
		for (size_t i = 0; i < len; ++i)
			put(&o, s[i]);
		for (; tot < (size_t)width; ++tot)
			put(&o, ' ');
	}
	if (n)
		b[o.len < n ? o.len : n - 1] = 0;
	return o.len;
}
int snprintf(char * b, size_t n, const char * f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vsnprintf(b, n, f, ap);
	va_end(ap);
	return r;
}
int vsprintf(char * b, const char * f, va_list ap) { return vsnprintf(b, 1 << 20, f, ap); }
int sprintf(char * b, const char * f, ...)
{
	va_list ap;
	va_start(ap, f);
	int r = vsnprintf(b, 1 << 20, f, ap);
	va_end(ap);
	return r;
}
int vasprintf(char ** r, const char * f, va_list ap)
{
	va_list a2;
	va_copy(a2, ap);
	int n = vsnprintf(0, 0, f, a2);
	va_end(a2);
	*r = malloc(n + 1);
	if (!*r)
		return -1;
	return vsnprintf(*r, n + 1, f, ap);
}
int asprintf(char ** r, const char * f, ...)
{
	va_list ap;
	va_start(ap, f);
	int n = vasprintf(r, f, ap);
	va_end(ap);
	return n;
}
void qsort(void * base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
	char * b = base;
	for (size_t i = 1; i < n; ++i)
		for (size_t j = i; j && cmp(b + (j - 1) * sz, b + j * sz) > 0; --j)
			for (size_t k = 0; k < sz; ++k) {
				char t = b[j * sz + k];
				b[j * sz + k] = b[(j - 1) * sz + k];
				b[(j - 1) * sz + k] = t;
			}
}
uint32_t htonl(uint32_t v) { return __builtin_bswap32(v); }
uint32_t ntohl(uint32_t v) { return __builtin_bswap32(v); }
uint16_t htons(uint16_t v) { return __builtin_bswap16(v); }
uint16_t ntohs(uint16_t v) { return __builtin_bswap16(v); }
const char * inet_ntop(int af, const void * a, char * dst, unsigned size)
{
	const uint8_t * p = a;
	char tmp[16];
	if (af != 2) {
		errno_ = 97;
		return 0;
	}
	/* digits written by hand: three-way fork per byte instead of divisions */
	unsigned n = 0;
	for (int i = 0; i < 4; ++i) {
		unsigned v = p[i];
		if (v >= 100)
			tmp[n++] = '0' + v / 100;
		if (v >= 10)
			tmp[n++] = '0' + v / 10 % 10;
		tmp[n++] = '0' + v % 10;
		tmp[n++] = i < 3 ? '.' : 0;
	}
	if (n > size) {
		errno_ = 28;
		return 0;
	}
	memcpy(dst, tmp, n);
	return dst;
}
char * strerror(int e) { return "error"; }
int __xpg_strerror_r(int e, char * b, size_t n)
{
	snprintf(b, n, "error");
	return 0;
}
/* diagnostics nobody reads */
int puts(const char * s) { return strlen(s); }
int strcoll(const char * a, const char * b) { return strcmp(a, b); }
int putchar(int c) { return c; }
int printf(const char * f, ...) { return 0; }

void * memccpy(void * d, const void * s, int c, size_t n)
{
	unsigned char * a = d;
	const unsigned char * b = s;
	for (size_t i = 0; i < n; ++i) {
		a[i] = b[i];
		if (b[i] == (unsigned char)c)
			return a + i + 1;
	}
	return 0;
}

/* output: nothing is observed here (a harness that observes it defines it) */
#define WEAK __attribute__((weak))
WEAK int fputs(const char * s, void * f) { return strlen(s); }
WEAK int fputc(int c, void * f) { return c; }
WEAK int putc(int c, void * f) { return c; }
WEAK size_t fwrite(const void * p, size_t s, size_t n, void * f) { return n; }
WEAK int fprintf(void * f, const char * fmt, ...) { return 0; }
WEAK int vfprintf(void * f, const char * fmt, va_list ap) { return 0; }
WEAK int vprintf(const char * fmt, va_list ap) { return 0; }
WEAK int fflush(void * f) { return 0; }
WEAK void perror(const char * s) {}

WEAK char * index(const char * s, int c) { return strchr(s, c); }
WEAK char * rindex(const char * s, int c) { return strrchr(s, c); }
WEAK void bzero(void * p, size_t n) { memset(p, 0, n); }
WEAK void bcopy(const void * s, void * d, size_t n) { memmove(d, s, n); }
WEAK void * reallocarray(void * p, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n))
		return 0;
	return realloc(p, n);
}
WEAK char * strsep(char ** sp, const char * d)
{
	char * s = *sp;
	if (!s)
		return 0;
	char * e = s + strcspn(s, d);
	if (*e) {
		*e = 0;
		*sp = e + 1;
	} else
		*sp = 0;
	return s;
}
WEAK char * strtok(char * s, const char * d)
{
	static char * sv;
	return strtok_r(s, d, &sv);
}
