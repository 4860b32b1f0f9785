/* Executes a script of libbase64 API calls on guarded buffers and prints what
 * the library did.  Used to replay counterexamples on the real builds. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include "libbase64.h"

#define MAXB 64
#define MAXS 16
static struct { unsigned char *p; size_t n; unsigned char *page; size_t total; } buf[MAXB];
static struct { struct base64_state s; unsigned char slack[64]; } st[MAXS];

static void on_sig(int sig)
{
	char m[32];
	int n = snprintf(m, sizeof m, "SIGNAL %d\n", sig);
	fflush(stdout);
	if (write(1, m, n) < 0) {}
	_exit(0);
}

static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

int main(void)
{
	static char line[1 << 22];
	long pg = sysconf(_SC_PAGESIZE);
	signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); signal(SIGILL, on_sig); signal(SIGFPE, on_sig);
	signal(SIGABRT, on_sig);
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	alarm(60);
	signal(SIGALRM, on_sig);
	while (fgets(line, sizeof line, stdin)) {
		char op[16]; int used = 0;
		if (sscanf(line, "%15s%n", op, &used) != 1) continue;
		char *a = line + used;
		fflush(stdout);
		if (!strcmp(op, "buf")) {          /* buf id size where align hex  */
			int id; size_t n; char where; int al; int u = 0;
			sscanf(a, "%d %zu %c %d %n", &id, &n, &where, &al, &u);
			char *h = a + u;
			size_t body = (n + 64 + pg - 1) / pg * pg;
			unsigned char *m = mmap(NULL, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			if (m == MAP_FAILED) { puts("NOMEM"); return 0; }
			mprotect(m + pg, body, PROT_READ | PROT_WRITE);
			memset(m + pg, 0xA5, body);
			buf[id].page = m + pg; buf[id].total = body;
			buf[id].p = where == 's' ? m + pg + al : m + pg + body - n - al;
			buf[id].n = n;
			for (size_t i = 0; i < n && h[0] && h[0] != '\n'; i++, h += 2)
				buf[id].p[i] = hexv(h[0]) * 16 + hexv(h[1]);
		} else if (!strcmp(op, "const")) { /* make buffer read-only */
			int id; sscanf(a, "%d", &id);
			mprotect(buf[id].page, buf[id].total, PROT_READ);
		} else if (!strcmp(op, "sfill")) {   /* sfill st byte: garbage in the state */
			int s, v; sscanf(a, "%d %d", &s, &v);
			memset(&st[s], v, sizeof st[s]);
		} else if (!strcmp(op, "sset")) {    /* sset st hex: given bytes in the state */
			int s, n; size_t i; sscanf(a, "%d %n", &s, &n);
			for (i = 0; i < sizeof st[s] && a[n + 2 * i] > ' '; i++)
				((unsigned char *) &st[s])[i] = hexv(a[n + 2 * i]) * 16 + hexv(a[n + 2 * i + 1]);
		} else if (!strcmp(op, "slack")) {   /* slack st byte */
			int s, v; sscanf(a, "%d %d", &s, &v);
			int ok = 1;
			for (size_t i = 0; i < sizeof st[s].slack; i++) if (st[s].slack[i] != v) ok = 0;
			printf("slack %d\n", ok);
		} else if (!strcmp(op, "einit")) {
			int s, f; sscanf(a, "%d %d", &s, &f);
			base64_stream_encode_init(&st[s].s, f);
		} else if (!strcmp(op, "dinit")) {
			int s, f; sscanf(a, "%d %d", &s, &f);
			base64_stream_decode_init(&st[s].s, f);
		} else if (!strcmp(op, "senc") || !strcmp(op, "sdec")) { /* st src off len out off */
			int s, b, o; size_t bo, n, oo, ol = 0x5ca1ab1e;
			int r = 0;
			sscanf(a, "%d %d %zu %zu %d %zu", &s, &b, &bo, &n, &o, &oo);
			if (op[1] == 'e') base64_stream_encode(&st[s].s, (char *)buf[b].p + bo, n, (char *)buf[o].p + oo, &ol);
			else r = base64_stream_decode(&st[s].s, (char *)buf[b].p + bo, n, (char *)buf[o].p + oo, &ol);
			printf("r %d %zu\n", r, ol);
		} else if (!strcmp(op, "sfin")) {
			int s, o; size_t oo, ol = 0x5ca1ab1e;
			sscanf(a, "%d %d %zu", &s, &o, &oo);
			base64_stream_encode_final(&st[s].s, (char *)buf[o].p + oo, &ol);
			printf("r 0 %zu\n", ol);
		} else if (!strcmp(op, "enc") || !strcmp(op, "dec")) { /* src off len out off flags */
			int b, o, f; size_t bo, n, oo, ol = 0x5ca1ab1e; int r = 0;
			sscanf(a, "%d %zu %zu %d %zu %d", &b, &bo, &n, &o, &oo, &f);
			if (op[0] == 'e') base64_encode((char *)buf[b].p + bo, n, (char *)buf[o].p + oo, &ol, f);
			else r = base64_decode((char *)buf[b].p + bo, n, (char *)buf[o].p + oo, &ol, f);
			printf("r %d %zu\n", r, ol);
		} else if (!strcmp(op, "dump")) {  /* dump id off len */
			int id; size_t o, n; sscanf(a, "%d %zu %zu", &id, &o, &n);
			fputs("d ", stdout);
			for (size_t i = 0; i < n; i++) printf("%02x", buf[id].p[o + i]);
			putchar('\n');
		} else if (!strcmp(op, "margin")) { /* bytes of the mapping around the buffer untouched? */
			int id; sscanf(a, "%d", &id);
			int ok = 1;
			for (unsigned char *q = buf[id].page; q < buf[id].p; q++) if (*q != 0xA5) ok = 0;
			for (unsigned char *q = buf[id].p + buf[id].n; q < buf[id].page + buf[id].total; q++) if (*q != 0xA5) ok = 0;
			printf("margin %d\n", ok);
		}
	}
	fflush(stdout);
	return 0;
}
