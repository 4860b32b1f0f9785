"""Planted bugs (see seeds.py)."""

DEMO_H = r'''#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include "libbase64.h"
static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t ref_enc (const unsigned char *s, size_t n, char *o)
{
	size_t k = 0, i;
	for (i = 0; i < n; i += 3) {
		unsigned v = s[i] << 16 | (i + 1 < n ? s[i + 1] << 8 : 0) | (i + 2 < n ? s[i + 2] : 0);
		o[k++] = AL[v >> 18];
		o[k++] = AL[v >> 12 & 63];
		o[k++] = i + 1 < n ? AL[v >> 6 & 63] : '=';
		o[k++] = i + 2 < n ? AL[v & 63] : '=';
	}
	return k;
}
/* n bytes that end at (or, low, begin after) an inaccessible page */
static char *guarded (size_t n, int low)
{
	size_t pg = 4096, m = (n + pg - 1) / pg * pg;
	char *p = mmap(NULL, m + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) exit(3);
	mprotect(p, pg, PROT_NONE);
	mprotect(p + pg + m, pg, PROT_NONE);
	return low ? p + pg : p + pg + m - n;
}
static int bad (const char *m) { printf("FAIL: %s\n", m); return 1; }
'''
NATIVE = 'gcc -O1 -I include -I "$here" -o "$d/demo" "$here/demo.c" _build/%s/libbase64.a %s || exit 9\n"$d/demo"\n'


def cross(cc, name, qemu):
    return '%s -static -O1 -I include -I "$here" -o "$d/demo" "$here/demo.c" _build/%s/libbase64.a || exit 9\n%s "$d/demo"\n' % (cc, name, qemu)


SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, files, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files, **kw))


SSE = "BASE64_FORCE_"

seed("b01", "C01", [("lib/tables/table_enc_12bit.h", '\t0x416FU, 0x426FU, 0x436FU, 0x446FU, 0x456FU, 0x466FU, 0x476FU, 0x486FU,', '\t0x416FU, 0x426FU, 0x436FU, 0x446FU, 0x456FU, 0x4670U, 0x476FU, 0x486FU,')],
     "plain codec, a byte pair 0xA0 0x5x at an even 12-bit position of a group",
     "one entry of the 12-bit encoding table names the wrong character",
     NATIVE % ("native", ""), {"demo.c": r'''#include "demo.h"
int main (void)
{
	unsigned char in[60]; char want[90], out[90]; size_t n, i;
	for (i = 0; i < 65536; i++) {
		size_t k;
		for (k = 0; k < 60; k++) in[k] = k % 3 == 0 ? i >> 8 : k % 3 == 1 ? i & 255 : (i * 7) & 255;
		ref_enc(in, 60, want);
		base64_encode((char *) in, 60, out, &n, BASE64_FORCE_PLAIN);
		if (n != 80 || memcmp(out, want, 80)) return bad("wrong text");
	}
	return 0;
}
'''})

seed("b03", "C04", [("lib/arch/avx2/dec_loop.c", "0x15, 0x11, 0x11, 0x11, 0x11, 0x11, 0x11, 0x11,\n\t\t0x11, 0x11, 0x13, 0x1A, 0x1B, 0x1B, 0x1B, 0x1A);",
                     "0x15, 0x11, 0x11, 0x11, 0x11, 0x11, 0x11, 0x11,\n\t\t0x11, 0x11, 0x11, 0x1A, 0x1B, 0x1B, 0x1B, 0x1A);")],
     "AVX2 decoder, a ':' in the upper half of a 32-character block",
     "the character ':' is accepted there and decodes to a byte",
     NATIVE % ("native", ""), {"demo.c": r'''#include "demo.h"
int main (void)
{
	char in[128], out[128]; size_t n, i; int c;
	if (!__builtin_cpu_supports("avx2")) return 0;
	for (c = 0; c < 256; c++) for (i = 0; i < 128; i++) {
		memset(in, 'A', 128);
		in[i] = c;
		int ok = c && strchr(AL, c) != NULL;
		if (c == '=' && i == 127) ok = 1;
		if (base64_decode(in, 128, out, &n, BASE64_FORCE_AVX2) != ok) return bad("verdict");
	}
	return 0;
}
'''})

seed("b04", "C05", [("lib/arch/generic/dec_head.c", "ret = ((base64_table_dec_8bit[*s++] == 254) && (slen == 1)) ? 1 : 0;",
                     "ret = (base64_table_dec_8bit[*s++] == 254) ? 1 : 0;")],
     "streaming: a text cut between its two padding characters, with further characters after the second one in the same piece",
     "the characters after the padding are silently dropped and the piece is accepted",
     NATIVE % ("native", ""), {"demo.c": r'''#include "demo.h"
int main (void)
{
	const char *t = "QQ==QUJD"; char out[32]; size_t n, a;
	for (a = 0; a <= 8; a++) {
		struct base64_state st; int r = 1;
		base64_stream_decode_init(&st, BASE64_FORCE_PLAIN);
		if (a) r = base64_stream_decode(&st, t, a, out, &n);
		if (r == 1 && a < 8) r = base64_stream_decode(&st, t + a, 8 - a, out, &n);
		if (r == 1) return bad("text after the padding accepted");
	}
	return 0;
}
'''})

seed("b05", "C07", [("lib/arch/avx2/enc_loop.c", "if (*slen < 32) {", "if (*slen < 28) {")],
     "AVX2 encoder without inline assembly, 28 to 31 bytes left, input that ends at the end of a mapped page",
     "the first vector load reads up to four bytes beyond the input",
     NATIVE % ("noasm", ""), {"demo.c": r'''#include "demo.h"
int main (void)
{
	size_t n, i; char out[300], want[300];
	if (!__builtin_cpu_supports("avx2")) return 0;
	for (n = 0; n < 200; n++) {
		char *in = guarded(n, 0); size_t k;
		for (i = 0; i < n; i++) in[i] = i * 5;
		base64_encode(in, n, out, &k, BASE64_FORCE_AVX2);
		if (k != ref_enc((unsigned char *) in, n, want) || memcmp(out, want, k)) return bad("text");
	}
	return 0;
}
'''})

seed("b06", "C08", [("lib/arch/ssse3/dec_loop.c", "if (*slen < 24) {", "if (*slen < 20) {"),
                    ("lib/arch/ssse3/dec_loop.c", "size_t rounds = (*slen - 8) / 16;", "size_t rounds = (*slen - 4) / 16;")],
     "SSSE3/SSE4/AVX decoders, a text of 16k+4 characters that ends in padding, output buffer of exactly the decoded size",
     "the last vector store writes up to three bytes beyond the room for three quarters of the text",
     NATIVE % ("native", ""), {"demo.c": r'''#include "demo.h"
int main (void)
{
	size_t n; char in[400]; unsigned char src[300];
	if (!__builtin_cpu_supports("ssse3")) return 0;
	memset(src, 'x', sizeof src);
	for (n = 0; n < 250; n++) {
		size_t t = ref_enc(src, n, in), k;
		char *out = guarded(t / 4 * 3, 0);
		if (base64_decode(in, t, out, &k, BASE64_FORCE_SSSE3) != 1 || k != n || memcmp(out, src, n)) return bad("decode");
		/* what follows the bytes actually decoded is left alone when it is ours */
		out = guarded(n, 0);
		if (n % 3 == 0 && (base64_decode(in, t, out, &k, BASE64_FORCE_SSSE3) != 1 || k != n)) return bad("decode");
		if (t > 8) {
			out = guarded((t - 2) * 3 / 4, 0);
			base64_decode(in, t - 2, out, &k, BASE64_FORCE_SSSE3);
		}
		char *o2 = malloc(t + 64);
		memset(o2, 0x5a, t + 64);
		base64_decode(in, t, o2, &k, BASE64_FORCE_SSSE3);
		if (o2[t / 4 * 3] != 0x5a) return bad("overrun");
		free(o2);
	}
	return 0;
}
'''})

CHOOSE = r'''gcc -O1 -w -I "$here" -I _build/native -I include -c lib/codec_choose.c -o "$d/cc.o" || exit 9
gcc -O1 -w -I include -I lib "$here/demo.c" "$d/cc.o" -o "$d/demo" || exit 9
"$d/demo"
'''
STUBS = r'''#include <stdio.h>
#include <stdint.h>
#include <stddef.h>
#include "libbase64.h"
#include "codecs.h"
'''
STUBDEF = r'''
#define F(a) void base64_stream_encode_ ## a BASE64_ENC_PARAMS { } int base64_stream_decode_ ## a BASE64_DEC_PARAMS { return 0; }
F(avx512) F(avx2) F(neon32) F(neon64) F(plain) F(ssse3) F(sse41) F(sse42) F(avx)
'''

seed("b07", "C09", [("lib/codec_choose.c", "\t\t\t\tif (max_level >= 7) {\n\t\t\t\t\t__cpuid_count(7, 0, eax, ebx, ecx, edx);\n\t\t\t\t\tif (ebx & bit_AVX2) {",
                     "\t\t\t\tif (max_level >= 6) {\n\t\t\t\t\t__cpuid_count(7, 0, eax, ebx, ecx, edx);\n\t\t\t\t\tif (ebx & bit_AVX2) {")],
     "a processor whose highest CPUID leaf is 6 (leaf 7 then returns the data of another leaf)",
     "AVX2 may be chosen on a processor that does not report it",
     CHOOSE, {"cpuid.h": r'''#pragma once
/* a processor with AVX and OSXSAVE, highest leaf 6; larger leaves answer like the highest one */
#define bit_SSSE3 (1 << 9)
#define bit_SSE4_1 (1 << 19)
#define bit_AVX (1 << 28)
static int demo_level = 6;
static int __get_cpuid_max (unsigned e, unsigned *s) { return demo_level; }
#define __cpuid_count(l, c, a, b, cc, dd) do { a = b = cc = dd = 0; if ((l) == 1) cc = 1 << 28 | 1 << 27 | 1 << 26 | 1 << 20 | 1 << 19 | 1 << 9; if ((l) > 6) { a = 0x77; b = 0xffffffff; } } while (0)
#define __cpuid(l, a, b, c, d) __cpuid_count(l, 0, a, b, c, d)
''', "demo.c": STUBS + STUBDEF + r'''
void codec_choose (struct codec *, int);
int main (void)
{
	struct codec c = { 0, 0 };
	codec_choose(&c, 0);
	if (c.enc == base64_stream_encode_avx2 || c.dec == base64_stream_decode_avx2) return puts("FAIL: AVX2 chosen"), 1;
	return 0;
}
'''})

seed("b08", "C10", [("lib/lib.c", "\tif (codec.dec == NULL || flags & 0xFFFF) {\n\t\tcodec_choose(&codec, flags);\n\t}",
                     "\tstatic int chosen = 0;\n\tif (codec.dec == NULL || (flags & 0xFFFF && flags != chosen)) {\n\t\tcodec_choose(&codec, flags);\n\t\tchosen = flags;\n\t}")],
     "decode with codec A forced, then encode with codec B forced, then decode with A forced again",
     "the second decode runs codec B: for a codec that is not compiled in, it fails to report that",
     NATIVE % ("native", ""), {"demo.c": r'''#include "demo.h"
int main (void)
{
	char out[64]; size_t n;
	if (base64_decode("QUJD", 4, out, &n, BASE64_FORCE_NEON64) != -1) return bad("first");
	base64_encode("ABC", 3, out, &n, BASE64_FORCE_PLAIN);
	if (base64_decode("QUJD", 4, out, &n, BASE64_FORCE_NEON64) != -1) return bad("a missing codec is not reported");
	return 0;
}
'''})

seed("b10", "C12", [("lib/lib.c", "if (codec.dec == NULL || flags & 0xFFFF) {", "if (codec.enc == NULL || flags & 0xFFFF) {")],
     "two threads make the library's first call at the same time; one decodes after the other has stored the encoder but not yet the decoder",
     "the decoding thread calls a null pointer",
     '''gcc -O1 -w -I _build/native -I include -I lib -pthread -o "$d/demo" lib/lib.c lib/tables/tables.c "$here/demo.c" || exit 9
"$d/demo"
''', {"demo.c": r'''/* Takes the place of codec_choose: between its two stores another thread decodes. */
#include <pthread.h>
''' + STUBS + r'''
static int enc_calls, dec_calls, nested;
static void e BASE64_ENC_PARAMS { enc_calls++; *outlen = 0; }
static int de BASE64_DEC_PARAMS { dec_calls++; *outlen = 0; return 1; }
static void *other (void *p) { char o[8]; size_t n; base64_decode("QUJD", 4, o, &n, 0); return NULL; }
void codec_choose (struct codec *c, int flags)
{
	pthread_t t;
	if (nested++) { c->enc = e; c->dec = de; return; }
	c->enc = e;
	pthread_create(&t, NULL, other, NULL);
	pthread_join(t, NULL);
	c->dec = de;
}
int main (void)
{
	char o[8]; size_t n;
	base64_encode("ABC", 3, o, &n, 0);
	return !(enc_calls == 1 && dec_calls == 1);
}
'''})

seed("b11", "C15", [("bin/base64.c", "if (writev_retry(config, iov, IOV_MAX) == false) {", "if (writev_retry(config, iov, IOV_MAX - 1) == false) {")],
     "wrapped output of more than 1024 vectors in one buffer (an input of about 30 kB at the default width)",
     "one vector of every 1024 is lost",
     '''head -c 90001 /dev/zero | tr '\\0' 'k' > "$d/in"
for w in 1 7 76; do
	_build/native/bin/base64 -w $w "$d/in" > "$d/out" || exit 1
	base64 -w $w "$d/in" | cmp - "$d/out" || exit 1
done
exit 0
''', {})

seed("b12", "C16", [("bin/base64.c", "fread(buf->enc, 1, BUFFER_RAW_SIZE, config->fp)) > 0) {", "fread(buf->enc, 1, BUFFER_ENC_SIZE, config->fp)) > 0) {")],
     "decoding more than 1.33 MiB of text without line ends",
     "the decoded data of a full buffer overruns the raw buffer",
     '''gcc -w -O1 -g -fsanitize=address -I _build/native -I include -o "$d/tool" bin/base64.c _build/native/libbase64.a || exit 9
head -c 3000000 /dev/urandom > "$d/in"
base64 -w 0 "$d/in" > "$d/txt"
ASAN_OPTIONS=detect_leaks=0 "$d/tool" -d "$d/txt" > "$d/out" 2> "$d/err" || exit 1
cmp "$d/in" "$d/out"
''', {})

seed("b13", "C17", [("bin/base64.c", "\t\t\t// Retry on EINTR.\n\t\t\tif (errno == EINTR) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\t// Quit on other errors.\n\t\t\tfprintf(stderr, \"%s: write: %s\\n\",",
                     "\t\t\t// Retry on EINTR.\n\t\t\tif (errno == EINTR) {\n\t\t\t\tcontinue;\n\t\t\t}\n\n\t\t\t// The reader has gone away.\n\t\t\tif (errno == EPIPE) {\n\t\t\t\treturn true;\n\t\t\t}\n\n\t\t\t// Quit on other errors.\n\t\t\tfprintf(stderr, \"%s: write: %s\\n\",")],
     "the reader of the output closes its end, and SIGPIPE is ignored",
     "the failing write is not reported: exit status 0 although output was lost",
     '''head -c 100000 /dev/zero > "$d/in"
base64 -w 0 "$d/in" > "$d/txt"
for a in "-w 0 $d/in" "-d $d/txt"; do
	( trap '' PIPE; sleep 0.3; _build/native/bin/base64 $a 2>/dev/null; echo $? > "$d/st" ) | true
	for i in 1 2 3 4 5 6 7 8 9 10; do [ -s "$d/st" ] && break; sleep 0.2; done
	[ "$(cat "$d/st")" = 0 ] && exit 1
	rm -f "$d/st"
done
exit 0
''', {})

seed("b14", "C18", [("bin/base64.c", "const long wrap = strtol(str, &eptr, 10);", "const long wrap = strtol(str, &eptr, 0);")],
     "a wrap value with a leading zero, or in hexadecimal",
     "'-w 010' wraps at 8 instead of 10, and '-w 0x10' is accepted",
     '''printf 'abcdefghijklmnopqrstuvwxyz' > "$d/in"
_build/native/bin/base64 -w 010 "$d/in" > "$d/a" || exit 1
base64 -w 10 "$d/in" | cmp - "$d/a" || exit 1
_build/native/bin/base64 -w 0x10 "$d/in" > "$d/a" 2>/dev/null && exit 1
exit 0
''', {})

seed("b15", "C04", [("lib/arch/neon64/dec_loop.c", " 14U,  15U,  16U,  17U,  18U,  19U,  20U,  21U,  22U,  23U,  24U,  25U, 255U, 255U, 255U, 255U,",
                     " 14U,  15U,  16U,  17U,  18U,  19U,  20U,  21U,  22U,  23U,  24U,  25U,  63U, 255U, 255U, 255U,")],
     "AArch64, at least 64 characters, a '[' among them",
     "the character '[' is accepted",
     cross("aarch64-linux-gnu-gcc", "aarch64", "qemu-aarch64"), {"demo.c": r'''#include "demo.h"
int main (void)
{
	char in[128], out[128]; size_t n, i; int c;
	for (c = 0; c < 256; c++) for (i = 0; i < 128; i += 5) {
		memset(in, 'A', 128);
		in[i] = c;
		int ok = c && strchr(AL, c) != NULL;
		if (base64_decode(in, 128, out, &n, BASE64_FORCE_NEON64) != ok) return bad("verdict");
	}
	return 0;
}
'''})

seed("b16", "C01", [("lib/arch/avx2/enc_loop_asm.c", '\t\t"    add $(24 * 36), %[src] \\n\\t"\n\t\t"    add $(32 * 36), %[dst] \\n\\t"\n\t\t"    dec %[loops]           \\n\\t"\n\t\t"    jnz 36b                \\n\\t"',
                     '\t\t"    add $(24 * 36), %[src] \\n\\t"\n\t\t"    add $(32 * 36), %[dst] \\n\\t"\n\t\t"    sub $2, %[loops]       \\n\\t"\n\t\t"    jg  36b                \\n\\t"')],
     "AVX2 assembly encoder, input of at least 73 rounds (1.7 kB)",
     "only half the iterations of the 36x loop run",
     NATIVE % ("native", ""), {"demo.c": r'''#include "demo.h"
int main (void)
{
	static unsigned char in[5000]; static char want[7000], out[7000]; size_t n, i, l;
	if (!__builtin_cpu_supports("avx2")) return 0;
	for (i = 0; i < 5000; i++) in[i] = i * 7 + i / 256;
	for (l = 0; l < 5000; l += 13) {
		size_t t = ref_enc(in, l, want);
		memset(out, 0, sizeof out);
		base64_encode((char *) in, l, out, &n, BASE64_FORCE_AVX2);
		if (n != t || memcmp(out, want, t)) return bad("text");
	}
	return 0;
}
'''})

seed("b17", "C14", [("lib/lib_openmp.c", "\t\t\tlen = srclen / (num_threads * 3);\n\t\t\tlen *= 3;\n",
                     "\t\t\tlen = (srclen + 1) / (num_threads * 3);\n\t\t\tlen *= 3;\n")],
     "OpenMP build, a length that is one short of a multiple of three times the team size",
     "the parts together are longer than the input: the last thread reads beyond it and the remainder length wraps around",
     '''gcc -O1 -w -fopenmp -I _build/openmp -I include -I lib -o "$d/demo" lib/lib.c lib/tables/tables.c "$here/demo.c" || exit 9
for t in 1 2 3 4 5 7 8; do OMP_DYNAMIC=false OMP_NUM_THREADS=$t OMP_THREAD_LIMIT=64 "$d/demo" || exit 1; done
exit 0
''', {"demo.c": r'''/* Takes the place of the codecs: checks that the pieces handed out cover the input. */
''' + STUBS + r'''
static size_t total; static char *lo, *hi; static int bad_;
static void e BASE64_ENC_PARAMS
{
	#pragma omp critical
	{ total += srclen; if (src < lo || src > hi || srclen > (size_t) (hi - src)) bad_ = 1; }
	*outlen = 0;
}
static int de BASE64_DEC_PARAMS { *outlen = 0; return 1; }
void codec_choose (struct codec *c, int flags) { c->enc = e; c->dec = de; }
static char in[30000], out[50000];
int main (void)
{
	size_t n, k;
	for (n = 20000; n < 20300; n++) {
		total = 0; lo = in; hi = in + n;
		base64_encode(in, n, out, &k, 0);
		if (bad_ || total != n) return puts("FAIL: partition"), 1;
	}
	return 0;
}
'''})


seed("b02", "C07", [("lib/lib.c", "\t\t*o++ = '=';\n\t\t*outlen = 2;\n\t\treturn;\n\t}\n\t*outlen = 0;\n", "\t\t*o++ = '=';\n\t\t*outlen = 2;\n\t\treturn;\n\t}\n\t*o = '\\0';\n\t*outlen = 0;\n")],
     "encoding a multiple of three bytes into a buffer of exactly the encoded size",
     "the finishing call writes a terminating NUL beyond the encoded text",
     NATIVE % ("native", ""), {"demo.c": r"""#include "demo.h"
int main (void)
{
	char in[300]; size_t n, i, k; memset(in, 'x', sizeof in);
	for (i = 0; i < 300; i++) {
		char *o = guarded((i + 2) / 3 * 4, 0);
		base64_encode(in, i, o, &n, 0);
		if (n != (i + 2) / 3 * 4) return bad("length");
	}
	return 0;
}
"""})

seed("b18", "C13", [("lib/lib_openmp.c", "\tif (result && (state.bytes == 0)) {\n\t\treturn result;\n\t}\n\treturn 0;\n}", "\tif (result) {\n\t\treturn result;\n\t}\n\treturn 0;\n}")],
     "OpenMP build, a text above the threshold that ends in the middle of a group",
     "a truncated text is accepted by the parallel decoder, while the serial one rejects it",
     NATIVE % ("openmp", "-fopenmp"), {"demo.c": r"""#include "demo.h"
int main (void)
{
	static char in[50000], out[50000]; size_t n, i; memset(in, 'Q', sizeof in);
	for (i = 30000; i < 30020; i++) {
		int r = base64_decode(in, i, out, &n, 0);
		if (r != (i % 4 == 0)) return bad("verdict");
	}
	return 0;
}
"""})

FAKE = r"""cat "$here/fake.h" lib/codec_choose.c > "$d/cc.c"
gcc -O1 -w -I "$here" -I _build/native -I include -I lib -c "$d/cc.c" -o "$d/cc.o" || exit 9
gcc -O1 -w -I include -I lib "$here/demo.c" "$d/cc.o" -o "$d/demo" || exit 9
"$d/demo"
"""
seed("b24", "C09", [("lib/codec_choose.c", "((xcr_mask & _AVX_512_ENABLED_BY_OS) == _AVX_512_ENABLED_BY_OS)", "(xcr_mask & _AVX_512_ENABLED_BY_OS)")],
     "a processor with AVX512VL and VBMI under an operating system that saves only the XMM and YMM registers",
     "the AVX512 codec is chosen although its registers are not preserved",
     FAKE, {"cpuid.h": r"""#pragma once
/* an AVX512 processor */
#define bit_SSSE3 (1 << 9)
#define bit_SSE4_1 (1 << 19)
#define bit_AVX (1 << 28)
static int __get_cpuid_max (unsigned e, unsigned *s) { return 7; }
#define __cpuid_count(l, c, a, b, cc, dd) do { a = b = cc = dd = 0; if ((l) == 1) cc = 1 << 28 | 1 << 27 | 1 << 26 | 1 << 20 | 1 << 19 | 1 << 9; if ((l) == 7) { b = 0xffffffff; cc = 0xffffffff; } } while (0)
#define __cpuid(l, a, b, c, d) __cpuid_count(l, 0, a, b, c, d)
""", "fake.h": r"""#include <stdio.h>
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <stdbool.h>
#include <limits.h>
/* XCR0 reports the XMM and YMM state only */
#define __asm__
#define __volatile__(...) (eax = 7, edx = 0)
""", "demo.c": STUBS + STUBDEF + r"""
void codec_choose (struct codec *, int);
int main (void)
{
	struct codec c = { 0, 0 };
	codec_choose(&c, 0);
	if (c.enc == base64_stream_encode_avx512 || c.dec == base64_stream_decode_avx512) return puts("FAIL: AVX512 chosen"), 1;
	return 0;
}
"""})
LONGDEC = r"""#include "demo.h"
int main (void)
{
	size_t n = BLOCK * 65536 + REST, i, ol = 0;
	char *s = malloc(n), *o = malloc(n);
	int r;
	if (!s || !o) return 3;
	for (i = 0; i < n; i++) s[i] = AL[i * 7 % 64];
	s[POS] = '!';
	r = base64_decode(s, n, o, &ol, FLAGS);
	if (r == -1) return 0;
	if (r != 0) return bad("text with a character outside the alphabet accepted");
	if (ol != POS / 4 * 3 + (POS % 4 ? POS % 4 - 1 : 0)) return bad("wrong number of bytes before the bad character");
	return 0;
}
"""
seed("b25", "C19", [("lib/arch/avx2/dec_loop.c", "	// Adjust for any rounds that were skipped:\n	*slen += rounds * 32;\n	*olen -= rounds * 24;",
                     "	// Adjust for any rounds that were skipped:\n	const uint16_t skipped = rounds;\n	*slen += skipped * 32;\n	*olen -= skipped * 24;")],
     "a text of more than 2 MB with a bad character exactly 65536 (or a multiple) rounds of the AVX2 decoder before the point where its vector loop would end",
     "the number of rounds left is truncated to 16 bits: the rest of the text is forgotten and the call reports success or a wrong length",
     NATIVE % ("native", "-fopenmp"), {"demo.c": LONGDEC.replace("BLOCK", "(size_t) 32").replace("REST", "20").replace("POS", "30").replace("FLAGS", "BASE64_FORCE_AVX2")})
seed("b26", "C04", [("lib/arch/generic/32/dec_loop.c", "	*slen += rounds * 4;\n	*olen -= rounds * 3;",
                     "	*slen += (uint16_t) rounds * 4;\n	*olen -= (uint16_t) rounds * 3;")],
     "a text of more than 256 kB for the plain decoder, with a bad character 65536 rounds before the end of its loop",
     "the rounds left after a bad character are truncated to 16 bits: the rest of the text is dropped and the output length is wrong",
     NATIVE % ("native", "-fopenmp"), {"demo.c": LONGDEC.replace("BLOCK", "(size_t) 4").replace("REST", "20").replace("POS", "9").replace("FLAGS", "BASE64_FORCE_PLAIN")})
