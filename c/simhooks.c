/* The model specific part of an example program, for an FMU that does not exist (see vt/sim.py). */
#include "util.h"

static double input_times[8];
static int n_input_times;

void sim_inputs(const double *t, int n) {
    n_input_times = n;
    for (int i = 0; i < n; i++) input_times[i] = t[i];
}

FILE *createOutputFile(const char *filename) {
    FILE *file = fopen(filename, "w");
    if (file) fputs("time,a,b\n", file);
    return file;
}

double nextInputEventTime(double time) {
    for (int i = 0; i < n_input_times; i++)
        if (time <= input_times[i]) return input_times[i];
    return INFINITY;
}

static FMIStatus set(FMIInstance *S, unsigned vr, double value) {
#if FMI_VERSION == 2
    return FMI2SetReal(S, &vr, 1, &value);
#else
    return FMI3SetFloat64(S, &vr, 1, &value, 1);
#endif
}

FMIStatus applyStartValues(FMIInstance *S) { return set(S, 20, 1.5); }

FMIStatus applyContinuousInputs(FMIInstance *S, double time, bool afterEvent) {
    FMIStatus s = set(S, 10, time);
    return s != FMIOK ? s : set(S, 11, afterEvent);
}

FMIStatus applyDiscreteInputs(FMIInstance *S, double time) { return set(S, 12, time); }

FMIStatus recordVariables(FMIInstance *S, double time, FILE *outputFile) {
    const unsigned vr[2] = { 1, 2 };
    double v[2] = { 0 };
#if FMI_VERSION == 2
    const FMIStatus s = FMI2GetReal(S, vr, 2, v);
#else
    const FMIStatus s = FMI3GetFloat64(S, vr, 2, v, 2);
#endif
    fprintf(outputFile, "%.17g,%.17g,%.17g\n", time, v[0], v[1]);
    return s;
}
