/* Two threads over the real library, instrumented by clang's -fsanitize=thread; this runtime makes every access to static
   data a scheduling point and follows a given schedule.
   stdin: cpu answers as in choosemain.c, "t0 OP" / "t1 OP" / "m OP" (after both), "s DIGITS" schedule.
   OP: enc HEX | dec HEX | se HEX HEX | sd HEX HEX.  Output: the schedule points met, then each thread's results. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include "libbase64.h"

extern char __data_start, _end;
static int active, cur, done[2], started[2], used;
static sem_t gate[2], fin;
static char sched[4096], met[8192];
static char out[3][8192];
static size_t olen[3];
static __thread int me = 2;

static void say (const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	olen[me] += vsnprintf(out[me] + olen[me], sizeof out[me] - olen[me], f, ap);
	va_end(ap);
}

static int pick (int dflt)
{
	int alive = !done[0] + !done[1], t = dflt;
	if (alive < 2)
		return done[0] ? 1 : 0;
	if ((size_t) used < sizeof sched - 1 && sched[used] >= '0' && sched[used] <= '1')
		t = sched[used] - '0';
	if ((size_t) used < sizeof met - 1)
		met[used] = '0' + t;
	used++;
	return t;
}

static void hand (int t)
{
	int my = me;
	if (t == my)
		return;
	cur = t;
	sem_post(&gate[t]);
	while (sem_wait(&gate[my]) != 0) {}
}

static void point (const void *p, size_t n)
{
	int t;
	if (!active || me > 1)
		return;
	if ((const char *) p + n <= &__data_start || (const char *) p >= &_end)
		return;
	if ((const char *) p >= (char *) out && (const char *) p < (char *) out + sizeof out)
		return;
	for (t = 0; t < 2; t++)
		if (!started[t]) {
			started[t] = 1;
			hand(t);
			return;
		}
	hand(pick(me));
}

#define RW(n) void __tsan_read##n (void *p) { point(p, n); } void __tsan_write##n (void *p) { point(p, n); } \
	void __tsan_unaligned_read##n (void *p) { point(p, n); } void __tsan_unaligned_write##n (void *p) { point(p, n); } \
	void __tsan_volatile_read##n (void *p) { point(p, n); } void __tsan_volatile_write##n (void *p) { point(p, n); } \
	void __tsan_read_write##n (void *p) { point(p, n); point(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init (void) {}
void __tsan_func_entry (void *p) { (void) p; }
void __tsan_func_exit (void) {}
void __tsan_read_range (void *p, size_t n) { point(p, n); }
void __tsan_write_range (void *p, size_t n) { point(p, n); }
void *__tsan_memcpy (void *d, const void *s, size_t n) { point(s, n); point(d, n); return memcpy(d, s, n); }
void *__tsan_memmove (void *d, const void *s, size_t n) { point(s, n); point(d, n); return memmove(d, s, n); }
void *__tsan_memset (void *d, int c, size_t n) { point(d, n); return memset(d, c, n); }
#define AT(w, T) T __tsan_atomic##w##_load (T *p, int o) { point(p, sizeof(T)); return __atomic_load_n(p, 5); } \
	void __tsan_atomic##w##_store (T *p, T v, int o) { point(p, sizeof(T)); __atomic_store_n(p, v, 5); } \
	int __tsan_atomic##w##_compare_exchange_strong (T *p, T *e, T v, int o, int q) { point(p, sizeof(T)); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
	T __tsan_atomic##w##_exchange (T *p, T v, int o) { point(p, sizeof(T)); return __atomic_exchange_n(p, v, 5); }
AT(8, uint8_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence (int o) { (void) o; }

/* ---- cpu answers (recorder builds) */
static unsigned leafs[8][5], maxleaf, xlo, xhi;
static int nleafs;
__thread unsigned tregs[4];
unsigned verif_regs[4];
static const char *names[] = { "avx2", "neon32", "neon64", "plain", "ssse3", "sse41", "sse42", "avx", "avx512" };

void verif_note (int dec, int id) { say("%s %s\n", dec ? "dec" : "enc", names[id]); }

void verif_cpuid_c (unsigned leaf, unsigned sub)
{
	int i;
	memset(verif_regs, 0, sizeof verif_regs);
	if (leaf == 0) { verif_regs[0] = maxleaf; return; }
	for (i = 0; i < nleafs; i++)
		if (leafs[i][0] == leaf || (i == nleafs - 1 && leaf > maxleaf)) {
			memcpy(verif_regs, leafs[i] + 1, sizeof verif_regs);
			return;
		}
	(void) sub;
}

void verif_xgetbv_c (unsigned idx) { (void) idx; verif_regs[0] = xlo; verif_regs[3] = xhi; }

/* ---- operations */
static char *prog[3][64];
static int nprog[3];

static size_t unhex (const char *h, unsigned char *b)
{
	size_t n = 0;
	unsigned v;
	while (sscanf(h + 2 * n, "%2x", &v) == 1)
		b[n++] = v;
	return n;
}

static void show (int r, const unsigned char *b, size_t n)
{
	size_t i;
	if (n > 512) { say("r %d len %zu\n", r, n); return; }
	say("r %d ", r);
	for (i = 0; i < n; i++)
		say("%02x", b[i]);
	say("\n");
}

static void run (const char *op)
{
	unsigned char in[512], in2[512], o[2048];
	char name[8] = "", h[1100] = "", h2[1100] = "";
	size_t n, n2, a = 0, b = 0, c = 0;
	int r = 0, r2 = 0;
	struct base64_state st;
	sscanf(op, "%7s %1099s %1099s", name, h, h2);
	if (h[0] == '-') h[0] = 0;
	if (h2[0] == '-') h2[0] = 0;
	n = unhex(h, in);
	n2 = unhex(h2, in2);
	memset(o, 0xA5, sizeof o);
	if (!strcmp(name, "enc")) {
		base64_encode((char *) in, n, (char *) o, &a, 0);
	} else if (!strcmp(name, "dec")) {
		r = base64_decode((char *) in, n, (char *) o, &a, 0);
	} else if (!strcmp(name, "se")) {
		base64_stream_encode_init(&st, 0);
		base64_stream_encode(&st, (char *) in, n, (char *) o, &a);
		base64_stream_encode(&st, (char *) in2, n2, (char *) o + (a & 1023), &b);
		base64_stream_encode_final(&st, (char *) o + ((a + b) & 1023), &c);
	} else if (!strcmp(name, "sd")) {
		base64_stream_decode_init(&st, 0);
		r = base64_stream_decode(&st, (char *) in, n, (char *) o, &a);
		r2 = base64_stream_decode(&st, (char *) in2, n2, (char *) o + (a & 1023), &b);
		r = r * 10 + r2;
	}
	show(r, o, a + b + c);
}

static void *body (void *arg)
{
	int i, t;
	me = (int) (intptr_t) arg;
	sem_wait(&gate[me]);
	for (i = 0; i < nprog[me]; i++)
		run(prog[me][i]);
	done[me] = 1;
	t = 1 - me;
	if (done[t]) { sem_post(&fin); return NULL; }
	if (!started[t]) started[t] = 1;
	sem_post(&gate[t]);
	return NULL;
}

static void flush_all (void)
{
	int t;
	met[used < (int) sizeof met - 1 ? used : (int) sizeof met - 1] = 0;
	printf("met %s\n", met);
	for (t = 0; t < 3; t++)
		printf("T%d\n%s", t, out[t]);
	fflush(stdout);
}

static void on_sig (int s)
{
	printf("SIGNAL %d\n", s);
	flush_all();
	_exit(0);
}

int main (void)
{
	static char line[8192];
	pthread_t th[2];
	pthread_attr_t at;
	int i;
	unsigned a[5];
	while (fgets(line, sizeof line, stdin)) {
		line[strcspn(line, "\n")] = 0;
		if (line[0] == 'l') { sscanf(line + 2, "%u %u %u %u %u", a, a + 1, a + 2, a + 3, a + 4); memcpy(leafs[nleafs++], a, sizeof a); }
		else if (!strncmp(line, "max", 3)) sscanf(line + 4, "%u", &maxleaf);
		else if (line[0] == 'x') sscanf(line + 2, "%u %u", &xlo, &xhi);
		else if (line[0] == 't') { i = line[1] - '0'; prog[i][nprog[i]++] = strdup(line + 3); }
		else if (line[0] == 'm') prog[2][nprog[2]++] = strdup(line + 2);
		else if (line[0] == 's') strncpy(sched, line + 2, sizeof sched - 1);
	}
	signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); signal(SIGILL, on_sig); signal(SIGALRM, on_sig); signal(SIGABRT, on_sig);
	alarm(20);
	sem_init(&gate[0], 0, 0); sem_init(&gate[1], 0, 0); sem_init(&fin, 0, 0);
	pthread_attr_init(&at);
	for (i = 0; i < 2; i++)
		pthread_create(&th[i], &at, body, (void *) (intptr_t) i);
	active = 1;
	started[0] = 1;
	sem_post(&gate[0]);
	sem_wait(&fin);
	pthread_join(th[0], NULL);
	pthread_join(th[1], NULL);
	active = 0;
	for (i = 0; i < nprog[2]; i++)
		run(prog[2][i]);
	flush_all();
	return 0;
}
