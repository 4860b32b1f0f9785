/* One-shot call on an input of any size against streaming in small pieces.  bigomp enc|dec N badchar badpos */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include "libbase64.h"

static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static void on_sig (int s)
{
	char m[40];
	int n = snprintf(m, sizeof m, "died with signal %d\n", s);
	if (write(1, m, n) < 0) {}
	_exit(3);
}

static unsigned char *get (size_t n)
{
	size_t pg = 4096, body = (n + pg - 1) / pg * pg;
	unsigned char *m = mmap(NULL, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED || mprotect(m + pg, body, PROT_READ | PROT_WRITE)) { puts("NOMEM"); exit(2); }
	return m + pg + body - n;
}

int main (int argc, char **argv)
{
	int enc = argv[1][0] == 'e';
	size_t n = strtoull(argv[2], NULL, 10), bp = strtoull(argv[4], NULL, 10);
	size_t m = enc ? (n + 2) / 3 * 4 : n / 4 * 3 + n % 4 * 3 / 4;
	unsigned char *src = get(n), *out = get(m);
	static char piece[1 << 21];
	struct base64_state st;
	size_t ol = 0x5ca1ab1e, pos = 0, i, s;
	int r = 1, want = 1;
	uint32_t x = 1;
	signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); signal(SIGABRT, on_sig);
	alarm(280);
	for (i = 0; i < n; i++) {
		x = x * 1664525 + 1013904223;
		src[i] = enc ? x >> 24 : AL[x >> 26];
	}
	if (!enc && argv[3][0] != '-') {
		if (argv[3][0] == '=')
			src[bp + 3 < n ? bp + 3 : n - 1] = '=';
		else
			src[bp] = '!';
	}
	if (enc) base64_encode((char *) src, n, (char *) out, &ol, 0);
	else r = base64_decode((char *) src, n, (char *) out, &ol, 0);
	if (enc) base64_stream_encode_init(&st, 0);
	else base64_stream_decode_init(&st, 0);
	for (i = 0; i < n; i += 1 << 20) {
		size_t k = n - i < 1 << 20 ? n - i : 1 << 20;
		if (enc) base64_stream_encode(&st, (char *) src + i, k, piece, &s);
		else want = base64_stream_decode(&st, (char *) src + i, k, piece, &s);
		if (pos + s > m || memcmp(piece, out + pos, s)) { printf("output differs from byte %zu on\n", pos); return 1; }
		pos += s;
		if (!want) break;
	}
	if (enc) {
		base64_stream_encode_final(&st, piece, &s);
		if (pos + s > m || memcmp(piece, out + pos, s)) { puts("final characters differ"); return 1; }
		pos += s;
	} else if (st.bytes) want = 0;
	if (r != want) { printf("result %d, expected %d\n", r, want); return 1; }
	if (ol != pos) { printf("output length %zu, expected %zu\n", ol, pos); return 1; }
	puts("same");
	return 0;
}
