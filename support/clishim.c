/* Replaces the tool's I/O calls in replays.  VERIF_W: outcome of each write/writev ("f" full, "k<n>" n bytes, "e<errno>"; it keeps failing unless that is EINTR),
   VERIF_R: of each fread ("f" or "x<n>": n bytes, then an error), VERIF_M: of each malloc ("f" or "n"). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/uio.h>

static const char *next (const char *name, const char **pos)
{
	static char tok[4][64];
	static int rr;
	char *t = tok[rr++ & 3];
	size_t n;
	if (!*pos) *pos = getenv(name) ? getenv(name) : "";
	n = strcspn(*pos, ",");
	if (!n) return "f";
	if (n > 60) n = 60;
	memcpy(t, *pos, n);
	t[n] = 0;
	*pos += n;
	if (**pos == ',') (*pos)++;
	return t;
}
static const char *wp, *rp, *mp;
static int rerr, werr;

static void all (int fd, const char *b, size_t n)
{
	while (n) {
		ssize_t k = (write)(fd, b, n);
		if (k < 0) _exit(99);
		b += k; n -= k;
	}
}

ssize_t shim_write (int fd, const void *b, size_t n)
{
	const char *t;
	if (werr) { errno = werr; return -1; }
	t = next("VERIF_W", &wp);
	if (*t == 'e') { errno = atoi(t + 1); if (errno != EINTR) werr = errno; return -1; }
	if (*t == 'k' && (size_t) atol(t + 1) < n) n = atol(t + 1);
	all(fd, b, n);
	return n;
}

ssize_t shim_writev (int fd, const struct iovec *v, int c)
{
	const char *t;
	size_t left = (size_t) -1, tot = 0;
	int i;
#ifdef VERIF_IOV_MAX
	if (c > VERIF_IOV_MAX) { errno = EINVAL; return -1; }
#endif
	if (werr) { errno = werr; return -1; }
	t = next("VERIF_W", &wp);
	if (*t == 'e') { errno = atoi(t + 1); if (errno != EINTR) werr = errno; return -1; }
	if (*t == 'k') left = atol(t + 1);
	for (i = 0; i < c && left; i++) {
		size_t n = v[i].iov_len < left ? v[i].iov_len : left;
		all(fd, v[i].iov_base, n);
		tot += n;
		left -= n;
	}
	return tot;
}

size_t shim_fread (void *p, size_t s, size_t n, FILE *f)
{
	const char *t = next("VERIF_R", &rp);
	if (rerr) return 0;
	if (*t == 'x') { rerr = 1; errno = EIO; return (fread)(p, 1, atol(t + 1), f) / s; }
	return (fread)(p, s, n, f);
}
int shim_ferror (FILE *f) { return rerr || (ferror)(f); }

void *shim_malloc (size_t n)
{
	const char *t = next("VERIF_M", &mp);
	if (*t == 'n') { errno = ENOMEM; return NULL; }
	return (malloc)(n);
}
