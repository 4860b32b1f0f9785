/* The parts of libc the command-line tool may use, as the symbolic engine executes them. */
#include <stddef.h>
#include <limits.h>
#include <stdbool.h>

struct option { const char *name; int has_arg; int *flag; int val; };

char *optarg;
int optind = 1, opterr = 1, optopt;
static int optpos;
extern int *__errno_location (void);

size_t strlen (const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp (const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char) *a - (unsigned char) *b; }
int strncmp (const char *a, const char *b, size_t n)
{
	for (; n; a++, b++, n--) {
		if (*a != *b) return (unsigned char) *a - (unsigned char) *b;
		if (!*a) break;
	}
	return 0;
}
char *strchr (const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return NULL; } }
char *strrchr (const char *s, int c) { char *r = NULL; for (;; s++) { if (*s == (char) c) r = (char *) s; if (!*s) return r; } }
void *memchr (const void *p, int c, size_t n)
{
	const unsigned char *s = p;
	for (; n; s++, n--)
		if (*s == (unsigned char) c) return (void *) s;
	return NULL;
}
int memcmp (const void *p, const void *q, size_t n)
{
	const unsigned char *a = p, *b = q;
	for (; n; a++, b++, n--)
		if (*a != *b) return *a - *b;
	return 0;
}
size_t strspn (const char *s, const char *set) { size_t n = 0; while (s[n] && strchr(set, s[n])) n++; return n; }
size_t strcspn (const char *s, const char *set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) n++; return n; }

static bool sp (char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

static int dig (char c, int base)
{
	int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
	return d < base ? d : -1;
}

/* max: largest magnitude for + and - */
static unsigned long conv (const char *s, char **end, int base, bool *neg, bool *over, unsigned long maxp, unsigned long maxn)
{
	const char *p = s;
	unsigned long v = 0, max;
	*neg = *over = false;
	while (sp(*p)) p++;
	if (*p == '-') { *neg = true; p++; }
	else if (*p == '+') p++;
	max = *neg ? maxn : maxp;
	if (base != 10) {
		if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2], 16) >= 0) { p += 2; base = 16; }
		else if (base == 0) base = *p == '0' ? 8 : 10;
		if (dig(*p, base) < 0) { if (end) *end = (char *) s; return 0; }
		for (; dig(*p, base) >= 0; p++) {
			unsigned d = dig(*p, base);
			if (*over || v > (max - d) / base) *over = true;
			else v = v * base + d;
		}
		if (end) *end = (char *) p;
		if (*over) { *__errno_location() = 34; return max; }
		return v;
	}
	if (!(*p >= '0' && *p <= '9')) { if (end) *end = (char *) s; return 0; }
	const char *q = p;
	while (*q >= '0' && *q <= '9') q++;
	if (q - p <= (sizeof(long) == 8 ? 18 : 9)) {
		/* cannot overflow */
		for (; p < q; p++) v = v * 10 + (*p - '0');
		if (end) *end = (char *) p;
		return v;
	}
	for (; *p >= '0' && *p <= '9'; p++) {
		unsigned d = *p - '0';
		if (*over || v > (max - d) / 10) *over = true;
		else v = v * 10 + d;
	}
	if (end) *end = (char *) p;
	if (*over) { *__errno_location() = 34; return max; }
	return v;
}
long strtol (const char *s, char **end, int base)
{
	bool n, o;
	unsigned long v = conv(s, end, base, &n, &o, LONG_MAX, (unsigned long) LONG_MAX + 1);
	return n ? (long) -v : (long) v;
}
unsigned long strtoul (const char *s, char **end, int base)
{
	bool n, o;
	unsigned long v = conv(s, end, base, &n, &o, ULONG_MAX, ULONG_MAX);
	return n && !o ? -v : v;
}
long __isoc23_strtol (const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long __isoc23_strtoul (const char *s, char **end, int base) { return strtoul(s, end, base); }
int atoi (const char *s) { return (int) strtol(s, NULL, 10); }
long atol (const char *s) { return strtol(s, NULL, 10); }
#if __SIZEOF_LONG__ == 8
long long strtoll (const char *s, char **end, int base) { return strtol(s, end, base); }
unsigned long long strtoull (const char *s, char **end, int base) { return strtoul(s, end, base); }
#endif

static void rotate (char **argv, int dest, int src)
{
	char *t = argv[src];
	int i;
	for (i = src; i > dest; i--) argv[i] = argv[i - 1];
	argv[dest] = t;
}

static int shortopt (int argc, char **argv, const char *os)
{
	int c, k;
	const char *cur = argv[optind];
	if (*os == ':') os++;
	if (!optpos) optpos = 1;
	c = (unsigned char) cur[optpos++];
	for (k = 0; os[k]; k++)
		if (os[k] != ':' && (unsigned char) os[k] == c) break;
	if (!os[k]) {
		optopt = c;
		if (!cur[optpos]) { optind++; optpos = 0; }
		return '?';
	}
	if (os[k + 1] == ':') {
		optarg = NULL;
		if (cur[optpos]) optarg = (char *) cur + optpos;
		else if (os[k + 2] != ':') {
			if (optind + 1 >= argc) { optind++; optpos = 0; optopt = c; return ':'; }
			optarg = argv[++optind];
		}
		optind++;
		optpos = 0;
		return c;
	}
	if (!cur[optpos]) { optind++; optpos = 0; }
	return c;
}

static int longopt (int argc, char **argv, const struct option *lo)
{
	const char *cur = argv[optind] + 2;
	int k, match = -1, many = 0;
	size_t n = 0, j;
	while (cur[n] && cur[n] != '=') n++;
	for (k = 0; lo[k].name; k++) {
		for (j = 0; j < n && lo[k].name[j] && lo[k].name[j] == cur[j]; j++) {}
		if (j < n) continue;
		if (!lo[k].name[n]) { match = k; many = 1; break; }
		if (match >= 0 && lo[match].has_arg == lo[k].has_arg && lo[match].flag == lo[k].flag && lo[match].val == lo[k].val) continue;
		match = k;
		many++;
	}
	optind++;
	if (many != 1) { optopt = 0; return '?'; }
	if (cur[n] == '=') {
		if (!lo[match].has_arg) { optopt = lo[match].val; return '?'; }
		optarg = (char *) cur + n + 1;
	} else if (lo[match].has_arg == 1) {
		if (optind >= argc) { optopt = lo[match].val; return ':'; }
		optarg = argv[optind++];
	} else
		optarg = NULL;
	if (lo[match].flag) { *lo[match].flag = lo[match].val; return 0; }
	return lo[match].val;
}

static int core (int argc, char **argv, const char *os, const struct option *lo)
{
	const char *cur;
	if (optind >= argc || !argv[optind]) return -1;
	cur = argv[optind];
	if (!optpos) {
		if (cur[0] != '-' || !cur[1]) return -1;
		if (cur[1] == '-') {
			if (!cur[2]) { optind++; return -1; }
			if (lo) return longopt(argc, argv, lo);
		}
	}
	return shortopt(argc, argv, os);
}

int getopt_long (int argc, char **argv, const char *os, const struct option *lo, int *idx)
{
	int skipped, resumed, ret, i;
	(void) idx;
	if (optind >= argc || !argv[optind]) return -1;
	skipped = optind;
	if (*os != '+' && *os != '-') {
		for (i = optind;; i++) {
			if (i >= argc || !argv[i]) return -1;
			if (argv[i][0] == '-' && argv[i][1]) break;
		}
		optind = i;
	}
	resumed = optind;
	ret = core(argc, argv, os, lo);
	if (resumed > skipped) {
		int cnt = optind - resumed;
		for (i = 0; i < cnt; i++) rotate(argv, skipped, optind - 1);
		optind = skipped + cnt;
	}
	return ret;
}
int getopt (int argc, char **argv, const char *os) { return getopt_long(argc, argv, os, NULL, NULL); }
