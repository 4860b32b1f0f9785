/* One call on an input of any size, compared with a scalar reference.
   bigrun enc|dec FLAGS PRE(hex or -) N PLACE(e|s) SEED [POS:BYTE ...]
   PRE: bytes fed to the stream before; "1" as PRE: one-shot call.
   PLACE: the buffers end (e) or begin (s) at an inaccessible page.  */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include "libbase64.h"

static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static signed char VAL[256];

static void on_sig (int s)
{
	char m[40];
	int n;
	if (s == SIGALRM) { if (write(1, "TIMEOUT\n", 8) < 0) {} _exit(2); }
	n = snprintf(m, sizeof m, "died with signal %d\n", s);
	if (write(1, m, n) < 0) {}
	_exit(s == SIGILL ? 4 : 3);
}

static void nomem (void) { puts("NOMEM"); exit(2); }

static unsigned char *get (size_t n, int place, int fill, uint32_t seed)
{
	size_t pg = 65536, body = (n + pg - 1) / pg * pg, i, blk = (size_t) 1 << 24;
	unsigned char *m;
	uint32_t x = seed * 2654435761u + 1;
	if (!body) body = pg;
	m = mmap(NULL, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) nomem();
	if (fill < 0 || body <= blk) {
		if (mprotect(m + pg, body, PROT_READ | PROT_WRITE)) nomem();
		for (i = 0; fill >= 0 && i < body; i++) {
			x = x * 1664525 + 1013904223;
			m[pg + i] = fill ? x >> 24 : AL[x >> 26];
		}
	} else {
		/* the same 16 MB again and again */
		int fd = memfd_create("src", 0);
		unsigned char *b;
		if (fd < 0 || ftruncate(fd, blk)) nomem();
		b = mmap(NULL, blk, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (b == MAP_FAILED) nomem();
		for (i = 0; i < blk; i++) {
			x = x * 1664525 + 1013904223;
			b[i] = fill ? x >> 24 : AL[x >> 26];
		}
		munmap(b, blk);
		for (i = 0; i < body; i += blk)
			if (mmap(m + pg + i, body - i < blk ? body - i : blk, PROT_READ | PROT_WRITE,
			         MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) nomem();
	}
	return place == 'e' ? m + pg + body - n : m + pg;
}

static unsigned char *src, pre[4096];
static size_t npre;
static int at (size_t i) { return i < npre ? pre[i] : src[i - npre]; }

int main (int argc, char **argv)
{
	int enc = argv[1][0] == 'e', flags = atoi(argv[2]), one = argv[3][0] == '1' && !argv[3][1], place = argv[5][0];
	size_t n = strtoull(argv[4], NULL, 10), t, m, ol = 0x5ca1ab1e, pos = 0, i, k;
	uint32_t seed = strtoul(argv[6], NULL, 10);
	unsigned char *out, *ref;
	int r = 1, want = 1, last = 0;
	struct base64_state st;

	signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); signal(SIGABRT, on_sig); signal(SIGILL, on_sig);
	signal(SIGALRM, on_sig);
	alarm(200);
	memset(VAL, -1, sizeof VAL);
	for (i = 0; i < 64; i++) VAL[(unsigned char) AL[i]] = i;
	if (!one && argv[3][0] != '-') {
		npre = strlen(argv[3]) / 2;
		for (i = 0; i < npre; i++) {
			unsigned v;
			if (sscanf(argv[3] + 2 * i, "%2x", &v) != 1) return 2;
			pre[i] = v;
		}
	}
	t = n + npre;
	m = enc ? t / 3 * 4 + (t % 3 ? 4 : 0) : t / 4 * 3 + t % 4 * 3 / 4;
	src = get(n, place, enc, seed);
	out = get(m, place, -1, 0);
	for (i = 7; i < (size_t) argc; i++) {
		size_t p;
		unsigned v;
		if (sscanf(argv[i], "%zu:%u", &p, &v) == 2 && p < n) src[p] = v;
	}

	/* the real thing */
	if (one && enc) base64_encode((char *) src, n, (char *) out, &ol, flags);
	else if (one) r = base64_decode((char *) src, n, (char *) out, &ol, flags);
	else {
		size_t p = 0;
		if (enc) base64_stream_encode_init(&st, flags); else base64_stream_decode_init(&st, flags);
		if (npre) {
			if (enc) base64_stream_encode(&st, (char *) pre, npre, (char *) out, &ol);
			else r = base64_stream_decode(&st, (char *) pre, npre, (char *) out, &ol);
			p = ol;
		}
		ol = 0x5ca1ab1e;
		if (enc) base64_stream_encode(&st, (char *) src, n, (char *) out + p, &ol);
		else r = base64_stream_decode(&st, (char *) src, n, (char *) out + p, &ol);
		p += ol;
		if (enc) {
			ol = 0x5ca1ab1e;
			base64_stream_encode_final(&st, (char *) out + p, &ol);
			p += ol;
		}
		ol = p;
	}

	/* the reference */
	if (enc) {
		for (i = 0; i < t; i += 3, pos += 4) {
			unsigned a = at(i), b = i + 1 < t ? at(i + 1) : 0, c = i + 2 < t ? at(i + 2) : 0;
			unsigned char w[4];
			w[0] = AL[a >> 2];
			w[1] = AL[(a << 4 | b >> 4) & 63];
			w[2] = i + 1 < t ? AL[(b << 2 | c >> 6) & 63] : '=';
			w[3] = i + 2 < t ? AL[c & 63] : '=';
			if (pos + 4 > ol) break;
			if (memcmp(out + pos, w, 4)) {
				printf("characters %zu to %zu of the output are %.4s, expected %.4s\n", pos, pos + 3, out + pos, w);
				return 1;
			}
		}
		pos = m;
	} else {
		unsigned acc = 0;
		k = 0;
		for (i = 0; i < t; i++) {
			int c = at(i), v = VAL[c];
			if (last) { want = 0; break; }
			if (v < 0) {
				if (c == '=' && k == 3) { last = 1; k = 0; continue; }
				if (c == '=' && k == 2) {
					if (++i == t) { k = 5; break; }
					if (at(i) == '=') { last = 1; k = 0; continue; }
				}
				want = 0;
				break;
			}
			acc = acc << 6 | v;
			if (k) {
				unsigned char w = acc >> (k == 1 ? 4 : k == 2 ? 2 : 0);
				if (pos < ol && out[pos] != w) {
					printf("byte %zu of the output is %u, expected %u\n", pos, out[pos], w);
					return 1;
				}
				pos++;
			}
			k = (k + 1) & 3;
		}
		if (one && k) want = 0;
	}
	if (!enc && r != want) { printf("result %d, expected %d\n", r, want); return 1; }
	if (ol != pos) { printf("output length %zu, expected %zu\n", ol, pos); return 1; }
	puts("as expected");
	return 0;
}
