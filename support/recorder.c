/* Stand-ins for the codecs that only report which one was called. */
#include <stddef.h>
#include "libbase64.h"

void verif_note (int dec, int id);

#define REC(arch, id)							\
void base64_stream_encode_ ## arch (struct base64_state *st, const char *src, size_t n, char *out, size_t *outlen)	\
{ (void) st; (void) src; (void) n; (void) out; *outlen = 0; verif_note(0, id); }	\
int base64_stream_decode_ ## arch (struct base64_state *st, const char *src, size_t n, char *out, size_t *outlen)	\
{ (void) st; (void) src; (void) n; (void) out; *outlen = 0; verif_note(1, id); return 1; }

REC(avx2, 0)
REC(neon32, 1)
REC(neon64, 2)
REC(plain, 3)
REC(ssse3, 4)
REC(sse41, 5)
REC(sse42, 6)
REC(avx, 7)
REC(avx512, 8)
