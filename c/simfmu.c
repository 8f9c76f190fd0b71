/* An FMU with scripted answers that records every call (see vt/sim.py). FMI_VERSION is 2 or 3;
   functions not defined here are added by vt/build.py. */
#include <inttypes.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#if FMI_VERSION == 2
#define FN(n) fmi2 ## n
typedef int Bool;
#else
#define FN(n) fmi3 ## n
typedef bool Bool;
#endif
typedef unsigned VR;

/* the script */
enum { X0, A, B, Z, UPD, CIS, STEP, VALS, DIMS, CLK, JUMP, N };
static double *arr[N];
static int len[N];
static struct { char fn[48]; int occ, status; } fails[8];
static int nfails, null_instance;

/* the instance */
static struct {
    int alive, cs, event_mode, early, nx, nz;
    double t, x[16];
    int updates, cis, steps, times, gets, dims, clk;
    void *env, *cb, *lock;
} S;
static int handle;              /* its address is the instance */
static char *trace;
static size_t used, cap;
static struct { const char *fn; int n; } counts[128];
static int ncounts;
static double last_time;
static int discarded;

void sim_reset(void) {
    for (int i = 0; i < N; i++) { free(arr[i]); arr[i] = NULL; len[i] = 0; }
    memset(&S, 0, sizeof(S));
    nfails = null_instance = ncounts = 0;
    discarded = 0;
    used = 0;
    if (trace) trace[0] = 0;
}
void sim_set(int k, const double *v, int n) {
    free(arr[k]);
    arr[k] = malloc((n + 1) * sizeof(double));
    memcpy(arr[k], v, n * sizeof(double));
    len[k] = n;
}
void sim_fail(const char *fn, int occ, int status) {
    strncpy(fails[nfails].fn, fn, 47);
    fails[nfails].occ = occ;
    fails[nfails++].status = status;
}
void sim_null(int n) { null_instance = n; }
const char *sim_trace(void) { return trace ? trace : ""; }

static void put(const char *fmt, ...) {
    va_list a;
    if (cap < used + 4096) trace = realloc(trace, cap = 2 * cap + 65536);
    va_start(a, fmt);
    used += vsnprintf(trace + used, 4000, fmt, a);
    va_end(a);
}
static void put_ds(const double *v, size_t n) { for (size_t i = 0; i < n; i++) put(" %.17g", v[i]); }
static void put_vrs(const VR *v, size_t n) { put(" %zu", n); for (size_t i = 0; i < n; i++) put(" %u", v[i]); }

static int begin(const char *fn, void *c) {
    int k, st = 0;
    for (k = 0; k < ncounts && strcmp(counts[k].fn, fn); k++);
    if (k == ncounts) { counts[k].fn = fn; counts[k].n = 0; ncounts++; }
    for (int i = 0; i < nfails; i++)
        if (!strcmp(fails[i].fn, fn) && fails[i].occ == counts[k].n) st = fails[i].status;
    counts[k].n++;
    put("%s %d %d", fn, st, c == &handle && S.alive);
    return st;
}
static int end(int st) { put("\n"); return st; }
static double at(int k, int i, double other) { return i < len[k] ? arr[k][i] : other; }

static void *start(const char *fn, const char *token, const char *res, int visible, int logging) {
    put("%s %d 1 %s|%s|%d|%d", fn, null_instance ? 3 : 0, token ? token : "(null)", res ? res : "(null)", visible, logging);
    if (null_instance) { put("\n"); return NULL; }
    if (S.alive) put(" again");
    S.alive = 1;
    S.nx = len[X0];
    memcpy(S.x, arr[X0] ? arr[X0] : S.x, S.nx * sizeof(double));
    S.nz = (int)at(DIMS, 0, 0);
    return &handle;
}

/* stubs without arguments worth recording */
#define STUB(n) int FN(n)(void *c) { return end(begin(#n, c)); }
STUB(ExitInitializationMode) STUB(EnterEventMode) STUB(Terminate) STUB(Reset) STUB(EnterContinuousTimeMode)
void FN(FreeInstance)(void *c) { put("FreeInstance 0 %d\n", !c ? 2 : c == &handle && S.alive); S.alive = 0; }

static void derivatives(double *d, size_t n) {
    for (size_t i = 0; i < n; i++) d[i] = at(A, i, 0) + at(B, i, 0) * (i < 16 ? S.x[i] : 0);
}
int FN(SetTime)(void *c, double t) { int st = begin("SetTime", c); put(" %.17g", t); S.t = t; S.times++; return end(st); }
int FN(SetContinuousStates)(void *c, const double *x, size_t n) {
    int st = begin("SetContinuousStates", c);
    put(" %zu", n); put_ds(x, n);
    if (!st) memcpy(S.x, x, (n < 16 ? n : 16) * sizeof(double));
    return end(st);
}
int FN(GetContinuousStates)(void *c, double *x, size_t n) {
    int st = begin("GetContinuousStates", c);
    put(" %zu", n);
    if (!st) { memcpy(x, S.x, (n < 16 ? n : 16) * sizeof(double)); put_ds(x, n); }
    return end(st);
}
int FN(GetNominalsOfContinuousStates)(void *c, double *x, size_t n) {
    int st = begin("GetNominalsOfContinuousStates", c);
    put(" %zu", n);
    if (!st) for (size_t i = 0; i < n; i++) x[i] = 1 + i;
    return end(st);
}
int FN(GetEventIndicators)(void *c, double *z, size_t n) {
    int st = begin("GetEventIndicators", c);
    put(" %zu", n);
    if (!st) { for (size_t i = 0; i < n; i++) z[i] = at(Z, S.times * S.nz + i, 1); put_ds(z, n); }
    return end(st);
}
#if FMI_VERSION == 3
int fmi3GetContinuousStateDerivatives(void *c, double *d, size_t n)
#else
int fmi2GetDerivatives(void *c, double *d, size_t n)
#endif
{
    int st = begin("GetDerivatives", c);
    put(" %zu", n);
    if (!st) { derivatives(d, n); put_ds(d, n); }
    return end(st);
}
int FN(CompletedIntegratorStep)(void *c, Bool no, Bool *ev, Bool *term) {
    int st = begin("CompletedIntegratorStep", c);
    if (!st) {
        *ev = at(CIS, 2 * S.cis, 0) != 0;
        *term = at(CIS, 2 * S.cis + 1, 0) != 0;
        put(" %d %d", *ev, *term);
        S.cis++;
    }
    return end(st);
}

/* need, terminate, nominals, values, next event time defined, next event time */
static void update(double *u) {
    for (int i = 0; i < 6; i++) u[i] = at(UPD, 6 * S.updates + i, 0);
    u[5] = u[5] + (S.updates * 6 < len[UPD] && u[4] == 2 ? S.t : 0);      /* relative */
    u[4] = u[4] != 0;
    if (u[3]) for (int i = 0; i < S.nx; i++) S.x[i] += at(JUMP, i, 0);
    S.updates++;
    for (int i = 0; i < 6; i++) put(" %.17g", u[i]);
    put_ds(S.x, S.nx);
}

#define RECORDED_GET(T, F, C) \
    int st = begin("Get" #T, c); \
    put_vrs(vr, n); put(" %zu", nv); \
    if (!st) for (size_t i = 0; i < nv; i++) { double d = at(VALS, S.gets++ % (len[VALS] ? len[VALS] : 1), 0); v[i] = (C)d; put(" %" F, v[i]); } \
    return end(st);
#define RECORDED_SET(T, F) \
    int st = begin("Set" #T, c); \
    put_vrs(vr, n); put(" %zu", nv); \
    for (size_t i = 0; i < nv; i++) put(" %" F, v[i]); \
    return end(st);
#define STRINGS(pre) \
    int st = begin(pre "String", c); \
    put_vrs(vr, n); put(" %zu", nv);

static const char *texts[] = { "", "foo", "a b", "FMI is awesome!", "0", "x;y", "Set me!" };

#if FMI_VERSION == 3

void *fmi3InstantiateModelExchange(const char *name, const char *token, const char *res, Bool vis, Bool log, void *env, void *logger) {
    void *r = start("InstantiateModelExchange", token, res, vis, log);
    S.env = env;
    if (r) put("\n");
    return r;
}
void *fmi3InstantiateCoSimulation(const char *name, const char *token, const char *res, Bool vis, Bool log, Bool em, Bool er, const VR *rv, size_t nrv,
                                  void *env, void *logger, void *iu) {
    void *r = start("InstantiateCoSimulation", token, res, vis, log);
    S.cs = 1; S.event_mode = em; S.early = er; S.env = env; S.cb = iu;
    if (r) put("|%d|%d|%d\n", em, er, iu != NULL);
    return r;
}
void *fmi3InstantiateScheduledExecution(const char *name, const char *token, const char *res, Bool vis, Bool log, void *env, void *logger, void *cu, void *lock, void *unlock) {
    void *r = start("InstantiateScheduledExecution", token, res, vis, log);
    S.env = env; S.cb = cu;
    if (r) put("\n");
    return r;
}
int fmi3EnterInitializationMode(void *c, Bool td, double tol, double t0, Bool sd, double t1) {
    int st = begin("EnterInitializationMode", c);
    put(" %d %.17g %d %.17g", td, t0, sd, t1);
    S.t = last_time = t0;
    return end(st);
}
STUB(EnterConfigurationMode) STUB(ExitConfigurationMode) STUB(EnterStepMode)
int fmi3GetNumberOfContinuousStates(void *c, size_t *n) { int st = begin("GetNumberOfContinuousStates", c); if (!st) *n = S.nx; return end(st); }
int fmi3GetNumberOfEventIndicators(void *c, size_t *n) { int st = begin("GetNumberOfEventIndicators", c); if (!st) *n = S.nz; return end(st); }
int fmi3UpdateDiscreteStates(void *c, Bool *need, Bool *term, Bool *nom, Bool *val, Bool *def, double *next) {
    double u[6];
    int st = begin("UpdateDiscreteStates", c);
    if (!st) { update(u); *need = u[0] != 0; *term = u[1] != 0; *nom = u[2] != 0; *val = u[3] != 0; *def = u[4] != 0; *next = u[5]; }
    return end(st);
}
/* event, terminate, early return, fraction, number of intermediate updates */
int fmi3DoStep(void *c, double t, double h, Bool no, Bool *ev, Bool *term, Bool *early, double *last) {
    int st = begin("DoStep", c), k = 5 * S.steps++;
    put(" %.17g %.17g", t, h);
    if (!st) {
        double to = t + h;
        *ev = at(STEP, k, 0) != 0 && S.event_mode;
        *term = at(STEP, k + 1, 0) != 0;
        *early = at(STEP, k + 2, 0) != 0 && S.early;
        if (*early) to = t + at(STEP, k + 3, 0.5) * h;
        put(" %d %d %d %.17g\n", *ev, *term, *early, to);
        int n = (int)at(STEP, k + 4, 0);
        for (int i = 1; i <= n && S.cb; i++) {
            bool req = false; double when = 0, s = i == n ? to : t + (to - t) * i / n;
            put("intermediateUpdate 0 1 %.17g\n", s);
            ((void (*)(void *, double, Bool, Bool, Bool, Bool, Bool *, double *))S.cb)(S.env, s, false, true, true, false, &req, &when);
        }
        S.t = to;
        *last = to;         /* after the callbacks: may be the importer's own time */
        return 0;
    }
    return end(st);
}
int fmi3ActivateModelPartition(void *c, VR vr, double t) {
    int st = begin("ActivateModelPartition", c);
    put(" %u %.17g\n", vr, t);
    S.t = t;
    if (!st && at(CLK, S.clk++, 0) != 0 && S.cb) {
        put("clockUpdate 0 1\n");
        ((void (*)(void *))S.cb)(S.env);
    }
    return st;
}
int fmi3GetIntervalDecimal(void *c, const VR *vr, size_t n, double *v, int *q) {
    int st = begin("GetIntervalDecimal", c);
    put_vrs(vr, n);
    if (!st) for (size_t i = 0; i < n; i++) { v[i] = 0; q[i] = (int)at(CLK, len[CLK] - 1 - S.clk % (len[CLK] ? len[CLK] : 1), 0) ? 2 : 1; put(" %d", q[i]); }
    return end(st);
}
int fmi3GetClock(void *c, const VR *vr, size_t n, bool *v) {
    int st = begin("GetClock", c);
    put_vrs(vr, n);
    if (!st) for (size_t i = 0; i < n; i++) v[i] = S.clk & 1;
    return end(st);
}
/* of VanDerPol at its start values; unknowns 2 and 4, knowns 1 and 3 */
static double jac(VR u, VR k) { return u == 2 ? (k == 3) : u == 4 ? (k == 1 ? -1 : -3) : 99; }
int fmi3GetDirectionalDerivative(void *c, const VR *u, size_t nu, const VR *k, size_t nk, const double *seed, size_t ns, double *s, size_t n) {
    int st = begin("GetDirectionalDerivative", c);
    put_vrs(u, nu); put_vrs(k, nk); put(" %zu %zu", ns, n);
    if (!st) for (size_t i = 0; i < nu; i++) { s[i] = 0; for (size_t j = 0; j < nk; j++) s[i] += jac(u[i], k[j]) * seed[j]; }
    return end(st);
}
int fmi3GetAdjointDerivative(void *c, const VR *u, size_t nu, const VR *k, size_t nk, const double *seed, size_t ns, double *s, size_t n) {
    int st = begin("GetAdjointDerivative", c);
    put_vrs(u, nu); put_vrs(k, nk); put(" %zu %zu", ns, n);
    if (!st) for (size_t j = 0; j < nk; j++) { s[j] = 0; for (size_t i = 0; i < nu; i++) s[j] += jac(u[i], k[j]) * seed[i]; }
    return end(st);
}
#define GETSET(T, CT, F, C) \
    int fmi3Get ## T(void *c, const VR *vr, size_t n, CT *v, size_t nv) { RECORDED_GET(T, F, C) } \
    int fmi3Set ## T(void *c, const VR *vr, size_t n, const CT *v, size_t nv) { RECORDED_SET(T, F) }
GETSET(Float32, float, ".9g", float) GETSET(Float64, double, ".17g", double)
GETSET(Int8, int8_t, PRId8, int64_t) GETSET(UInt8, uint8_t, PRIu8, int64_t) GETSET(Int16, int16_t, PRId16, int64_t) GETSET(UInt16, uint16_t, PRIu16, int64_t)
GETSET(Int32, int32_t, PRId32, int64_t) GETSET(UInt32, uint32_t, PRIu32, int64_t) GETSET(Int64, int64_t, PRId64, int64_t)
int fmi3SetUInt64(void *c, const VR *vr, size_t n, const uint64_t *v, size_t nv) { RECORDED_SET(UInt64, PRIu64) }
int fmi3GetUInt64(void *c, const VR *vr, size_t n, uint64_t *v, size_t nv) {
    int st = begin("GetUInt64", c);
    put_vrs(vr, n); put(" %zu", nv);
    if (!st) for (size_t i = 0; i < nv; i++) { v[i] = (uint64_t)at(DIMS, 1 + S.dims++ % (len[DIMS] > 1 ? len[DIMS] - 1 : 1), 3); put(" %" PRIu64, v[i]); }
    return end(st);
}
int fmi3GetBoolean(void *c, const VR *vr, size_t n, bool *v, size_t nv) { RECORDED_GET(Boolean, "d", int64_t) }
int fmi3SetBoolean(void *c, const VR *vr, size_t n, const bool *v, size_t nv) { RECORDED_SET(Boolean, "d") }
int fmi3GetString(void *c, const VR *vr, size_t n, const char **v, size_t nv) {
    STRINGS("Get")
    if (!st) for (size_t i = 0; i < nv; i++) { v[i] = texts[S.gets++ % 7]; put(" \"%s\"", v[i]); }
    return end(st);
}
int fmi3SetString(void *c, const VR *vr, size_t n, const char *const *v, size_t nv) {
    STRINGS("Set")
    for (size_t i = 0; i < nv; i++) put(" \"%s\"", v[i]);
    return end(st);
}
int fmi3GetBinary(void *c, const VR *vr, size_t n, size_t *sizes, const unsigned char **v, size_t nv) {
    int st = begin("GetBinary", c);
    put_vrs(vr, n); put(" %zu", nv);
    if (!st) for (size_t i = 0; i < nv; i++) {
        static unsigned char bytes[] = { 0, 255, 16, 1, 254, 128, 127, 9, 160 };
        sizes[i] = S.gets++ % 6; v[i] = bytes + S.gets % 4;
        put(" ");
        for (size_t j = 0; j < sizes[i]; j++) put("%02x", v[i][j]);
        if (!sizes[i]) put("-");
    }
    return end(st);
}
int fmi3SetBinary(void *c, const VR *vr, size_t n, const size_t *sizes, const unsigned char *const *v, size_t nv) {
    int st = begin("SetBinary", c);
    put_vrs(vr, n); put(" %zu ", nv);
    for (size_t i = 0; i < nv; i++) for (size_t j = 0; j < sizes[i]; j++) put("%02x", v[i][j]);
    return end(st);
}

#else

void *fmi2Instantiate(const char *name, int type, const char *token, const char *res, const void *cb, int vis, int log) {
    void *r = start(type ? "InstantiateCoSimulation" : "InstantiateModelExchange", token, res, vis, log);
    S.cs = type;
    if (r) put("|0|0|0\n");
    return r;
}
int fmi2SetupExperiment(void *c, int td, double tol, double t0, int sd, double t1) {
    int st = begin("SetupExperiment", c);
    put(" %d %.17g %d %.17g", td, t0, sd, t1);
    S.t = last_time = t0;
    return end(st);
}
STUB(EnterInitializationMode)
struct Info { int need, term, nom, val, def; double next; };
int fmi2NewDiscreteStates(void *c, struct Info *e) {
    double u[6];
    int st = begin("UpdateDiscreteStates", c);
    if (!st) { update(u); e->need = u[0] != 0; e->term = u[1] != 0; e->nom = u[2] != 0; e->val = u[3] != 0; e->def = u[4] != 0; e->next = u[5]; }
    return end(st);
}
int fmi2DoStep(void *c, double t, double h, int no) {
    int st = begin("DoStep", c), k = 5 * S.steps++;
    put(" %.17g %.17g", t, h);
    if (!st) {
        discarded = at(STEP, k + 1, 0) != 0;
        S.t = discarded ? t + at(STEP, k + 3, 0.5) * h : t + h;
        put(" 0 %d 0 %.17g", discarded, S.t);
        if (discarded) { put("\n"); return 2; }
    }
    return end(st);
}
int fmi2GetBooleanStatus(void *c, int k, int *v) { int st = begin("GetBooleanStatus", c); put(" %d", k); if (!st) *v = k == 3 ? discarded : 7; return end(st); }
int fmi2GetRealStatus(void *c, int k, double *v) { int st = begin("GetRealStatus", c); put(" %d", k); if (!st) *v = k == 2 ? S.t : -77; return end(st); }
#define GETSET(T, CT, F, C) \
    int fmi2Get ## T(void *c, const VR *vr, size_t n, CT *v) { size_t nv = n; RECORDED_GET(T, F, C) } \
    int fmi2Set ## T(void *c, const VR *vr, size_t n, const CT *v) { size_t nv = n; RECORDED_SET(T, F) }
GETSET(Real, double, ".17g", double) GETSET(Integer, int, "d", int64_t)
int fmi2GetBoolean(void *c, const VR *vr, size_t n, int *v) { size_t nv = n; RECORDED_GET(Boolean, "d", bool) }
int fmi2SetBoolean(void *c, const VR *vr, size_t n, const int *v) { size_t nv = n; RECORDED_SET(Boolean, "d") }
int fmi2GetString(void *c, const VR *vr, size_t n, const char **v) {
    size_t nv = n;
    STRINGS("Get")
    if (!st) for (size_t i = 0; i < nv; i++) { v[i] = texts[S.gets++ % 7]; put(" \"%s\"", v[i]); }
    return end(st);
}
int fmi2SetString(void *c, const VR *vr, size_t n, const char *const *v) {
    size_t nv = n;
    STRINGS("Set")
    for (size_t i = 0; i < nv; i++) put(" \"%s\"", v[i]);
    return end(st);
}
#endif
