/* Stands between an FMU and the allocator: counts, can make allocations fail, detects wrong frees, leaks and use of freed memory. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define EXPORT __attribute__((visibility("default")))
#ifndef GUARD
#define GUARD 64        /* bytes after each block that nobody may write to */
#endif

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void __real_free(void *);
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);

typedef struct { void *p; size_t n; int live; } Block;

static Block blocks[65536];
static FILE *files[256];
static size_t nblocks;
static int64_t count, fail_at = -1, failed, wrong, nfiles, file_wrong, overruns;
static int sticky;

/* forget everything; blocks still allocated are released */
EXPORT void shim_reset(void) {
    for (size_t i = 0; i < nblocks; i++) __real_free(blocks[i].p);
    nblocks = 0;
    for (int64_t i = 0; i < nfiles; i++) __real_fclose(files[i]);
    count = failed = wrong = nfiles = file_wrong = overruns = 0;
    fail_at = -1;
    sticky = 0;
}

/* the n-th allocation from now (0 is the next) fails, with all_later also those after it; n < 0: none */
EXPORT void shim_arm(int64_t n, int all_later) {
    fail_at = n < 0 ? -1 : count + n;
    sticky = all_later;
}

EXPORT int64_t shim_count(void) { return count; }
EXPORT int64_t shim_failed(void) { return failed; }
EXPORT int64_t shim_wrong(void) { return wrong + file_wrong; }
EXPORT int64_t shim_files(void) { return nfiles; }

EXPORT int64_t shim_live(void) {
    int64_t n = 0;
    for (size_t i = 0; i < nblocks; i++) n += blocks[i].live;
    return n;
}

EXPORT int64_t shim_live_bytes(void) {
    int64_t n = 0;
    for (size_t i = 0; i < nblocks; i++) n += blocks[i].live ? (int64_t)blocks[i].n : 0;
    return n;
}

/* freed blocks that were written to afterwards */
EXPORT int64_t shim_stale(void) {
    int64_t n = 0;
    for (size_t i = 0; i < nblocks; i++) {
        if (blocks[i].live) continue;
        const unsigned char *p = blocks[i].p;
        for (size_t k = 0; k < blocks[i].n; k++) {
            if (p[k] != 0xdd) { n++; break; }
        }
    }
    return n;
}

static int overrun(const Block *b) {
    const unsigned char *p = (const unsigned char *)b->p + b->n;
    for (size_t k = 0; k < GUARD; k++) {
        if (p[k] != 0xfb) return 1;
    }
    return 0;
}

/* blocks beyond whose end something was written */
EXPORT int64_t shim_overruns(void) {
    int64_t n = overruns;
    for (size_t i = 0; i < nblocks; i++) n += blocks[i].live && overrun(&blocks[i]);
    return n;
}

static Block *find(void *p) {
    for (size_t i = nblocks; i > 0; i--) {
        if (blocks[i - 1].p == p) return &blocks[i - 1];
    }
    return NULL;
}

static void *add(size_t n, int fill) {
    int64_t k = count++;
    if (fail_at >= 0 && (k == fail_at || (sticky && k > fail_at))) {
        failed++;
        errno = ENOMEM;
        return NULL;
    }
    if (nblocks == sizeof(blocks) / sizeof(blocks[0])) {
        /* forget the oldest freed blocks */
        size_t j = 0;
        for (size_t i = 0; i < nblocks; i++) {
            if (!blocks[i].live && i < nblocks / 2) __real_free(blocks[i].p);
            else blocks[j++] = blocks[i];
        }
        nblocks = j;
    }
    void *p = n > SIZE_MAX - GUARD ? NULL : __real_malloc(n + GUARD);
    if (!p) return NULL;
    memset(p, fill, n);
    memset((char *)p + n, 0xfb, GUARD);
    if (nblocks < sizeof(blocks) / sizeof(blocks[0])) {
        blocks[nblocks].p = p;
        blocks[nblocks].n = n;
        blocks[nblocks].live = 1;
        nblocks++;
    }
    return p;
}

void *__wrap_malloc(size_t n) { return add(n, 0xa5); }

void *__wrap_calloc(size_t n, size_t m) {
    if (m && n > SIZE_MAX / m) { errno = ENOMEM; return NULL; }
    return add(n * m, 0);
}

void __wrap_free(void *p) {
    if (!p) return;
    Block *b = find(p);
    if (!b || !b->live) { wrong++; return; }
    b->live = 0;
    overruns += overrun(b);
    memset(p, 0xdd, b->n);      /* kept, so that the address is not used again */
}

void *__wrap_realloc(void *p, size_t n) {
    if (!p) return __wrap_malloc(n);
    Block *b = find(p);
    if (!b || !b->live) { wrong++; return NULL; }
    if (n == 0) { __wrap_free(p); return NULL; }
    size_t old = b->n;
    void *q = add(n, 0xa5);     /* always moves */
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n);
    __wrap_free(p);
    return q;
}

void *__wrap_reallocarray(void *p, size_t n, size_t m) {
    if (m && n > SIZE_MAX / m) { errno = ENOMEM; return NULL; }
    return __wrap_realloc(p, n * m);
}

void *__wrap_aligned_alloc(size_t a, size_t n) { (void)a; return add(n, 0xa5); }

int __wrap_posix_memalign(void **p, size_t a, size_t n) {
    (void)a;
    void *q = add(n, 0xa5);
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}

char *__wrap_strndup(const char *s, size_t n) {
    size_t k = strnlen(s, n);
    char *p = add(k + 1, 0);
    if (p) memcpy(p, s, k);
    return p;
}

char *__wrap_strdup(const char *s) { return __wrap_strndup(s, strlen(s)); }
char *__wrap___strdup(const char *s) { return __wrap_strndup(s, strlen(s)); }

int __wrap_vasprintf(char **out, const char *f, va_list args) {
    va_list a;
    va_copy(a, args);
    int n = vsnprintf(NULL, 0, f, a);
    va_end(a);
    if (n < 0 || !(*out = add((size_t)n + 1, 0))) return -1;
    return vsnprintf(*out, (size_t)n + 1, f, args);
}

int __wrap_asprintf(char **out, const char *f, ...) {
    va_list a;
    va_start(a, f);
    int n = __wrap_vasprintf(out, f, a);
    va_end(a);
    return n;
}

FILE *__wrap_fopen(const char *path, const char *mode) {
    FILE *f = __real_fopen(path, mode);
    if (f && nfiles < 256) files[nfiles++] = f;
    return f;
}

int __wrap_fclose(FILE *f) {
    for (int64_t i = 0; i < nfiles; i++) {
        if (files[i] == f) {
            files[i] = files[--nfiles];
            return __real_fclose(f);
        }
    }
    file_wrong++;
    return EOF;
}

#ifdef WRAP_DL
/* shared libraries loaded */
void *__real_dlopen(const char *, int);
int __real_dlclose(void *);
static void *handles[256];
static int64_t nhandles;

EXPORT int64_t shim_handles(void) { return nhandles; }

void *__wrap_dlopen(const char *path, int flags) {
    void *h = __real_dlopen(path, flags);
    if (h && nhandles < 256) handles[nhandles++] = h;
    return h;
}

int __wrap_dlclose(void *h) {
    for (int64_t i = 0; i < nhandles; i++) {
        if (handles[i] == h) {
            handles[i] = handles[--nhandles];
            return __real_dlclose(h);
        }
    }
    wrong++;
    return -1;
}
#endif
