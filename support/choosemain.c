/* Drives codec selection on the real code with stand-in codecs and stand-in cpuid/xgetbv answers (see choose_stub.S).
   stdin: "l LEAF A B C D" / "max N" / "x LO HI" answers, then ops: "enc F" "dec F" "einit F" "senc" "dinit F" "sdec" */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libbase64.h"

static const char *names[] = { "avx2", "neon32", "neon64", "plain", "ssse3", "sse41", "sse42", "avx", "avx512" };
static unsigned leafs[8][5];
static int nleafs;
static unsigned maxleaf, xlo, xhi;
unsigned verif_regs[4];
static int noted;

void verif_note (int dec, int id)
{
	printf("%s %s\n", dec ? "dec" : "enc", names[id]);
	noted = 1;
}

void verif_cpuid_c (unsigned leaf, unsigned sub)
{
	int i;
	memset(verif_regs, 0, sizeof verif_regs);
	if (leaf == 0) {
		verif_regs[0] = maxleaf;
		return;
	}
	for (i = 0; i < nleafs; i++) {
		if (leafs[i][0] == leaf || (i == nleafs - 1 && leaf > maxleaf)) {
			memcpy(verif_regs, leafs[i] + 1, sizeof verif_regs);
			return;
		}
	}
	(void) sub;
}

void verif_xgetbv_c (unsigned idx)
{
	unsigned i, ok = 0;
	for (i = 0; i < (unsigned) nleafs; i++)
		if (leafs[i][0] == 1 && maxleaf >= 1 && (leafs[i][3] >> 27 & 1))
			ok = 1;
	if (!ok || idx != 0) {
		printf("FAULT xgetbv\n");
		exit(0);
	}
	verif_regs[0] = xlo;
	verif_regs[3] = xhi;
}

int main (void)
{
	char line[256], buf[16];
	size_t n;
	struct base64_state e, d;
	while (fgets(line, sizeof line, stdin)) {
		unsigned a[5];
		int f = 0;
		char *sp = strchr(line, ' ');
		if (sp)
			f = atoi(sp);
		noted = 0;
		if (line[0] == 'l') {
			sscanf(line + 2, "%u %u %u %u %u", a, a + 1, a + 2, a + 3, a + 4);
			memcpy(leafs[nleafs++], a, sizeof a);
			continue;
		}
		if (!strncmp(line, "max", 3)) { sscanf(line + 4, "%u", &maxleaf); continue; }
		if (line[0] == 'x') { sscanf(line + 2, "%u %u", &xlo, &xhi); continue; }
		if (!strncmp(line, "enc", 3)) base64_encode("", 0, buf, &n, f);
		else if (!strncmp(line, "dec", 3)) base64_decode("", 0, buf, &n, f);
		else if (!strncmp(line, "einit", 5)) { base64_stream_encode_init(&e, f); continue; }
		else if (!strncmp(line, "senc", 4)) base64_stream_encode(&e, "", 0, buf, &n);
		else if (!strncmp(line, "dinit", 5)) { base64_stream_decode_init(&d, f); continue; }
		else if (!strncmp(line, "sdec", 4)) base64_stream_decode(&d, "", 0, buf, &n);
		if (!noted)
			printf("none\n");
	}
	return 0;
}
