/* A deterministic scheduler for threads that run code compiled with -fsanitize=thread: only one thread runs at a time,
 * and at generated numbers of memory accesses another one is chosen. The functions below replace the ThreadSanitizer
 * runtime, which is not used. */
#include <semaphore.h>
#include <time.h>

#define MAX_THREADS 64

static struct {
    int on, n, waiting;
    int done[MAX_THREADS];
    sem_t sem[MAX_THREADS];
    uint64_t rng;
    int64_t gap, left, switches;
} sched;

static __thread int sched_me = -1;

static uint64_t sched_random(void) {
    sched.rng ^= sched.rng << 13;
    sched.rng ^= sched.rng >> 7;
    sched.rng ^= sched.rng << 17;
    return sched.rng;
}

static int64_t sched_gap(void) { return 1 + (int64_t)(sched_random() % (uint64_t)(2 * sched.gap)); }

static int sched_pick(void) {
    int c[MAX_THREADS], k = 0;
    for (int i = 0; i < sched.n; i++) {
        if (!sched.done[i] && i != sched_me) c[k++] = i;
    }
    return k ? c[sched_random() % (uint64_t)k] : -1;
}

static void sched_wait(void) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_sec += 2;
    /* in case the code waits for another thread itself */
    if (sem_timedwait(&sched.sem[sched_me], &t)) sched.on = 0;
}

static void sched_point(void) {
    if (sched_me < 0 || !sched.on || --sched.left > 0) return;
    if (--sched.switches <= 0) {
        sched.left = INT64_MAX;     /* the threads complete one after another */
        return;
    }
    sched.left = sched_gap();
    int next = sched_pick();
    if (next < 0) return;
    sem_post(&sched.sem[next]);
    sched_wait();
}

static void sched_exit(void) {
    sched.done[sched_me] = 1;
    int next = sched_pick();
    if (next >= 0) sem_post(&sched.sem[next]);
    sched_me = -1;
}

#define HOOK(name) void __tsan_##name(void *p) { sched_point(); }
#define HOOKS(s) HOOK(read##s) HOOK(write##s) HOOK(unaligned_read##s) HOOK(unaligned_write##s) HOOK(volatile_read##s) HOOK(volatile_write##s) \
    HOOK(unaligned_volatile_read##s) HOOK(unaligned_volatile_write##s) HOOK(read_write##s) HOOK(unaligned_read_write##s)
HOOKS(1) HOOKS(2) HOOKS(4) HOOKS(8) HOOKS(16)
HOOK(func_entry)
void __tsan_func_exit(void) { sched_point(); }
void __tsan_init(void) {}
void __tsan_read_range(void *p, unsigned long n) { sched_point(); }
void __tsan_write_range(void *p, unsigned long n) { sched_point(); }
void __tsan_vptr_update(void *p, void *q) {}
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}

#define ATOMIC(b, T) \
    T __tsan_atomic##b##_load(const volatile T *p, int mo) { sched_point(); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##b##_store(volatile T *p, T x, int mo) { sched_point(); __atomic_store_n(p, x, 5); } \
    T __tsan_atomic##b##_exchange(volatile T *p, T x, int mo) { sched_point(); return __atomic_exchange_n(p, x, 5); } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T x, int mo) { sched_point(); return __atomic_fetch_add(p, x, 5); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T x, int mo) { sched_point(); return __atomic_fetch_sub(p, x, 5); } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T x, int mo) { sched_point(); return __atomic_fetch_and(p, x, 5); } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T x, int mo) { sched_point(); return __atomic_fetch_or(p, x, 5); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T x, int mo) { sched_point(); return __atomic_fetch_xor(p, x, 5); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T x, int a, int f) { sched_point(); return __atomic_compare_exchange_n(p, e, x, 0, 5, 5); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T x, int a, int f) { sched_point(); return __atomic_compare_exchange_n(p, e, x, 0, 5, 5); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T x, int a, int f) { sched_point(); __atomic_compare_exchange_n(p, &e, x, 0, 5, 5); return e; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
