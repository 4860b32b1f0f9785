/* Stand-ins for the codecs that hand their arguments to the checker. */
#include <stddef.h>
#include "libbase64.h"

void verif_enc (struct base64_state *st, const char *src, size_t n, char *out, size_t *outlen);
int verif_dec (struct base64_state *st, const char *src, size_t n, char *out, size_t *outlen);

#define REC(arch)							\
void base64_stream_encode_ ## arch (struct base64_state *st, const char *src, size_t n, char *out, size_t *outlen)	\
{ verif_enc(st, src, n, out, outlen); }	\
int base64_stream_decode_ ## arch (struct base64_state *st, const char *src, size_t n, char *out, size_t *outlen)	\
{ return verif_dec(st, src, n, out, outlen); }

REC(avx2) REC(neon32) REC(neon64) REC(plain) REC(ssse3) REC(sse41) REC(sse42) REC(avx) REC(avx512)

void verif_set_bytes (struct base64_state *st, int bytes) { st->bytes = bytes; }
