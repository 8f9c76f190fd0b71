/* Runs recorded call sequences on concurrent threads and compares statuses, output buffers and callbacks with the recording. */
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "sched.h"

enum { IMM, INST, ARENA, LOAD, DBL, ENV };

#define MAX_ARGS 16

typedef struct {
    void *fn;
    int32_t nargs;
    int32_t returns_instance;
    int64_t status;
    int32_t kind[MAX_ARGS];
    int64_t val[MAX_ARGS];
    double dbl[MAX_ARGS];
} Call;

typedef struct {
    const Call *calls;
    int64_t ncalls;
    const uint8_t *init;        /* arena before the first call */
    const uint8_t *want;        /* arena after the last call */
    const uint8_t *mask;        /* 0: not compared */
    int64_t size;
    const char *name;
    uint64_t log_hash;
    int64_t log_count;
    int64_t iupd_count;
    int64_t clk_count;
} Tape;

typedef struct {
    const Tape *tape;
    int64_t reps;
    pthread_barrier_t *barrier;
    int64_t scheduled;          /* number of the thread, -1: not scheduled */
    /* results */
    int64_t bad_call;           /* index of the first wrong call, -1: none */
    int64_t bad_status;
    int64_t bad_offset;         /* first wrong byte of the arena, -1: none */
    int64_t foreign;            /* callbacks with a foreign environment or name */
    int64_t rep;
    int64_t no_instance;
    /* of the current repetition */
    uint64_t hash;
    int64_t logs, iupds, clks;
} Ctx;

static __thread Ctx *current;

static uint64_t mix(uint64_t h, const char *s) {
    if (!s) return h * 31 + 7;
    while (*s) h = (h ^ (uint8_t)*s++) * 1099511628211ull;
    return h * 31 + 11;
}

static void note(void *env, const char *name, int status, const char *category, const char *message) {
    Ctx *c = current;
    if (!c) return;
    if (env != c || (name && strcmp(name, c->tape->name))) c->foreign++;
    c->logs++;
    c->hash = mix(mix(c->hash * 31 + (uint64_t)status, category), message);
}

void vt_log3(void *env, int status, const char *category, const char *message) { note(env, NULL, status, category, message); }

void vt_log2(void *env, const char *name, int status, const char *category, const char *message, ...) {
    if (message && !strcmp(message, "%s")) {
        va_list args;
        va_start(args, message);
        message = va_arg(args, const char *);
        va_end(args);
    }
    note(env, name, status, category, message);
}

void vt_iupd(void *env, double t, _Bool a, _Bool b, _Bool c, _Bool d, _Bool *e, double *f) {
    if (!current) return;
    if (env != current) current->foreign++;
    current->iupds++;
}

void vt_clk(void *env) {
    if (!current) return;
    if (env != current) current->foreign++;
    current->clks++;
}

void vt_lock(void) {}

typedef int64_t (*Fn)(int64_t, int64_t, int64_t, int64_t, int64_t, int64_t, double, double, double, double, double, double, double, double,
    int64_t, int64_t, int64_t, int64_t, int64_t, int64_t);

static int64_t invoke(const Call *c, void *inst, uint8_t *arena, void *env) {
    int64_t i[12] = {0};
    double d[8] = {0};
    int ni = 0, nd = 0;
    for (int k = 0; k < c->nargs; k++) {
        switch (c->kind[k]) {
        case IMM:   i[ni++] = c->val[k]; break;
        case INST:  i[ni++] = (int64_t)(intptr_t)inst; break;
        case ARENA: i[ni++] = (int64_t)(intptr_t)(arena + c->val[k]); break;
        case LOAD:  memcpy(&i[ni++], arena + c->val[k], 8); break;
        case DBL:   d[nd++] = c->dbl[k]; break;
        case ENV:   i[ni++] = (int64_t)(intptr_t)env; break;
        }
    }
    return ((Fn)c->fn)(i[0], i[1], i[2], i[3], i[4], i[5], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], i[6], i[7], i[8], i[9], i[10], i[11]);
}

static int once(Ctx *x, uint8_t *arena) {
    const Tape *t = x->tape;
    void *inst = NULL;
    x->hash = 0;
    x->logs = x->iupds = x->clks = 0;
    memcpy(arena, t->init, (size_t)t->size);
    /* FMI 2.0 callback structures hold the environment; the recorder leaves the cell at the start of the arena */
    void *env = x;
    memcpy(arena + 32, &env, sizeof(env));
    for (int64_t k = 0; k < t->ncalls; k++) {
        int64_t r = invoke(&t->calls[k], inst, arena, x);
        if (t->calls[k].returns_instance) {
            inst = (void *)(intptr_t)r;
            if (!inst) { x->no_instance = 1; return 1; }
        } else if (t->calls[k].status >= 0 && (int)r != (int)t->calls[k].status) {
            x->bad_call = k;
            x->bad_status = (int)r;
            return 1;
        }
    }
    for (int64_t k = 0; k < t->size; k++) {
        if (t->mask[k] && arena[k] != t->want[k]) {
            x->bad_offset = k;
            return 1;
        }
    }
    return x->foreign || x->logs != t->log_count || x->hash != t->log_hash || x->iupds != t->iupd_count || x->clks != t->clk_count;
}

static void *thread(void *arg) {
    Ctx *x = arg;
    uint8_t *arena = malloc((size_t)x->tape->size + 16);
    current = x;
    if (x->barrier) pthread_barrier_wait(x->barrier);
    if (x->scheduled >= 0) {
        sched_me = (int)x->scheduled;
        sched_wait();
    }
    for (x->rep = 0; x->rep < x->reps; x->rep++) {
        if (once(x, arena)) break;
    }
    if (x->scheduled >= 0) sched_exit();
    current = NULL;
    free(arena);
    return NULL;
}

/* returns the number of threads that saw a difference; concurrent = 0: one after another, 1: unrestricted,
 * 2: one at a time, changing after a mean number of gap memory accesses */
int64_t vt_run(Ctx *ctx, int64_t n, int concurrent, uint64_t seed, int64_t gap, int64_t switches) {
    pthread_t th[64];
    pthread_barrier_t b;
    int64_t bad = 0;
    if (concurrent) pthread_barrier_init(&b, NULL, (unsigned)n);
    if (concurrent == 2) {
        memset(&sched, 0, sizeof(sched));
        sched.n = (int)n;
        sched.rng = seed * 2654435761u + 88172645463325252ull;
        sched.gap = gap;
        sched.left = sched_gap();
        sched.switches = switches;
        sched.on = 1;
        for (int k = 0; k < n; k++) sem_init(&sched.sem[k], 0, 0);
        sem_post(&sched.sem[sched_random() % (uint64_t)n]);
    }
    for (int64_t k = 0; k < n; k++) {
        ctx[k].bad_call = ctx[k].bad_offset = -1;
        ctx[k].foreign = ctx[k].no_instance = 0;
        ctx[k].barrier = concurrent ? &b : NULL;
        ctx[k].scheduled = concurrent == 2 ? k : -1;
        if (!concurrent) thread(&ctx[k]);
        else if (pthread_create(&th[k], NULL, thread, &ctx[k])) abort();
    }
    if (concurrent) {
        for (int64_t k = 0; k < n; k++) pthread_join(th[k], NULL);
        pthread_barrier_destroy(&b);
    }
    for (int64_t k = 0; k < n; k++) bad += ctx[k].rep < ctx[k].reps;
    return bad;
}
