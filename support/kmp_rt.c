/* A small OpenMP runtime on pthreads, for replays under ThreadSanitizer. Team size from $TEAM. */
#include <pthread.h>
#include <stdarg.h>
#include <stdlib.h>
#include <stdint.h>

static __thread int me;
static int size = 1;
static pthread_barrier_t bar;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t slock = PTHREAD_MUTEX_INITIALIZER;
static unsigned taken;
static __thread unsigned seen;
typedef void (*fn_t)(int *, int *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *);
static fn_t fn;
static void *args[14];

static void *body (void *p)
{
	int id = (int) (intptr_t) p, b = id;
	me = id;
	seen = 0;
	fn(&id, &b, args[0], args[1], args[2], args[3], args[4], args[5], args[6], args[7], args[8], args[9], args[10], args[11], args[12], args[13]);
	return NULL;
}

void __kmpc_fork_call (void *loc, int argc, void *f, ...)
{
	pthread_t th[64];
	va_list ap;
	int i;
	const char *t = getenv("TEAM");
	size = t ? atoi(t) : 2;
	va_start(ap, f);
	for (i = 0; i < argc && i < 14; i++)
		args[i] = va_arg(ap, void *);
	va_end(ap);
	fn = (fn_t) f;
	taken = 0;
	pthread_barrier_init(&bar, NULL, size);
	for (i = 0; i < size; i++)
		pthread_create(&th[i], NULL, body, (void *) (intptr_t) i);
	for (i = 0; i < size; i++)
		pthread_join(th[i], NULL);
	pthread_barrier_destroy(&bar);
}

int __kmpc_single (void *l, int g)
{
	int r = 0;
	pthread_mutex_lock(&slock);
	seen++;
	if (taken < seen) {
		taken = seen;
		r = 1;
	}
	pthread_mutex_unlock(&slock);
	return r;
}
void __kmpc_end_single (void *l, int g) {}
void __kmpc_barrier (void *l, int g) { pthread_barrier_wait(&bar); }
int omp_get_num_threads (void) { return size; }
int omp_get_thread_num (void) { return me; }
int omp_get_max_threads (void) { return size; }
void omp_set_num_threads (int n) {}
int __kmpc_global_thread_num (void *l) { return me; }
void __kmpc_push_num_threads (void *l, int g, int n) {}
int __kmpc_master (void *l, int g) { return me == 0; }
void __kmpc_end_master (void *l, int g) {}
void __kmpc_critical (void *l, int g, void *k) { pthread_mutex_lock(&lock); }
void __kmpc_end_critical (void *l, int g, void *k) { pthread_mutex_unlock(&lock); }
int __kmpc_reduce (void *l, int g, int n, size_t s, void *d, void *f, void *k) { pthread_mutex_lock(&lock); return 1; }
void __kmpc_end_reduce (void *l, int g, void *k) { pthread_mutex_unlock(&lock); pthread_barrier_wait(&bar); }
int __kmpc_reduce_nowait (void *l, int g, int n, size_t s, void *d, void *f, void *k) { pthread_mutex_lock(&lock); return 1; }
void __kmpc_end_reduce_nowait (void *l, int g, void *k) { pthread_mutex_unlock(&lock); }

#define INIT(name, T)								\
void name (void *l, int g, int sched, int *last, T *lo, T *hi, T *stride, T incr, T chunk)	\
{										\
	T count = *hi >= *lo ? (*hi - *lo) / incr + 1 : 0;			\
	if (sched == 33) {							\
		if (chunk < 1) chunk = 1;					\
		*last = count && ((count - 1) / chunk) % size == me;		\
		*stride = size * chunk * incr;					\
		*lo += me * chunk * incr;					\
		*hi = *lo + (chunk - 1) * incr;					\
	} else {								\
		T small = count / size, extra = count % size;			\
		T k0 = me * small + (me < extra ? me : extra);			\
		T k1 = k0 + small + (me < extra);				\
		T base = *lo;							\
		*last = k1 == count && k1 > k0;					\
		*stride = count * incr;						\
		*lo = base + k0 * incr;						\
		*hi = base + (k1 - 1) * incr;					\
	}									\
}
INIT(__kmpc_for_static_init_4, int)
INIT(__kmpc_for_static_init_4u, unsigned)
INIT(__kmpc_for_static_init_8, long long)
INIT(__kmpc_for_static_init_8u, unsigned long long)
void __kmpc_for_static_fini (void *l, int g) {}
