"""Changes that break one property each, used to measure the checks (see tools/mutrun.py).

m(property, name, (file, old, new[, n])...): n selects the n-th occurrence (default: old is unique, -1: all)."""

ALL = []


def m(prop, name, *edits):
    ALL.append((prop, name, edits))


F3, F2, CS = 'src/fmi3Functions.c', 'src/fmi2Functions.c', 'src/cosimulation.c'
H = 'include/model.h'
BB, ST, FT, VP, RE, CL, RO, SS, DA = ('%s/model.c' % x for x in (
    'BouncingBall', 'Stair', 'Feedthrough', 'VanDerPol', 'Resource', 'Clocks', 'Roberts', 'StateSpace', 'Dahlquist'))
I, I2, I3 = 'src/FMI.c', 'src/FMI2.c', 'src/FMI3.c'

# ---- P01
m('P01', 'roberts-nominal', (RO, 'Y2_NOMINAL (1e-2)', 'Y2_NOMINAL (1e-3)'))
m('P01', 'int32-reads-uint32', (FT, '''        case vr_Int32_output:
            ASSERT_NVALUES(1);''', '''        case vr_UInt32_input:
        case vr_Int32_output:
            ASSERT_NVALUES(1);'''))
m('P01', 'step-size', ('VanDerPol/config.h', 'FIXED_SOLVER_STEP 1e-2', 'FIXED_SOLVER_STEP 1e-3'))
m('P01', 'states-order', (BB, '''    x[0] = M(h);
    x[1] = M(v);''', '''    x[0] = M(v);
    x[1] = M(h);'''), (BB, '''    M(h) = x[0];
    M(v) = x[1];''', '''    M(v) = x[0];
    M(h) = x[1];'''), (BB, '''    dx[0] = M(v);
    dx[1] = M(g);''', '''    dx[0] = M(g);
    dx[1] = M(v);'''))
m('P01', 'bb-vmin-init', (BB, 'values[(*index)++] = V_MIN;', 'values[(*index)++] = comp->state == InitializationMode ? V_MIN : 0;'))
m('P01', 'indicators-order', (RO, '''    z[0] = M(g1);
    z[1] = M(g2);''', '''    z[0] = M(g2);
    z[1] = M(g1);'''))
m('P01', 'xml-start', ('StateSpace/FMI3.xml', 'start="1 2 3"', 'start="1 2 4"'))
m('P01', 'xml-vr', ('VanDerPol/FMI2.xml', 'valueReference="5"', 'valueReference="6"'))

# ---- P02
m('P02', 'neg-zero', (FT, 'M(Float32_continuous_input) = values[(*index)++];', 'M(Float32_continuous_input) = values[(*index)++] + 0.0f;'))
m('P02', 'nan-canon', (FT, '            M(Float64_discrete_input) = values[(*index)++];', '            M(Float64_discrete_input) = values[*index] != values[*index] ? (double)__builtin_nan("") : values[*index]; (*index)++;'))
m('P02', 'int64-double', (FT, 'M(Int64_input) = values[(*index)++];', 'M(Int64_input) = (int64_t)(double)(values[(*index)++] / 2) * 2 + (values[*index - 1] % 2);'))
m('P02', 'uint64-signed', (FT, 'M(UInt64_output)  = M(UInt64_input);', 'M(UInt64_output)  = (uint64_t)(double)M(UInt64_input);'))
m('P02', 'binary-strncpy', (FT, 'memcpy((void *)M(Binary_input), values[(*index)++], M(Binary_input_size));', 'strncpy(M(Binary_input), values[(*index)++], M(Binary_input_size));'))
m('P02', 'binary-output-size', (FT, '    M(Binary_output_size) = M(Binary_input_size);', '    if (M(Binary_input_size) > 0) M(Binary_output_size) = M(Binary_input_size);'))
m('P02', 'binary-output-short', (FT, 'memcpy(M(Binary_output), M(Binary_input), M(Binary_input_size));', 'strncpy(M(Binary_output), M(Binary_input), M(Binary_input_size));'))
m('P02', 'string-tail', (FT, 'strcpy(M(String_input), values[(*index)++]);', 'memcpy(M(String_input), values[*index], strlen(values[*index]) > 0 ? strlen(values[*index]) + 1 : 0); (*index)++;'))
m('P02', 'string-max', (FT, 'strncpy(M(String_output), M(String_input), STRING_MAX_LEN);', 'strncpy(M(String_output), M(String_input), STRING_MAX_LEN - 2);'))
m('P02', 'string-same-len', (FT, '    strncpy(M(String_output), M(String_input), STRING_MAX_LEN);', '    if (strlen(M(String_output)) != strlen(M(String_input)) || M(String_output)[0] != M(String_input)[0]) strncpy(M(String_output), M(String_input), STRING_MAX_LEN);'))
m('P02', 'int16-clobber', (FT, 'M(Int16_output)   = M(Int16_input);', 'M(Int16_output)   = M(Int16_input); if (M(Int16_input) == INT16_MIN) M(UInt16_input) = 0;'))
m('P02', 'float32-double', (FT, 'M(Float32_discrete_output)   = M(Float32_discrete_input) ;', 'M(Float32_discrete_output)   = M(Float32_discrete_input) < 1e-38f && M(Float32_discrete_input) > -1e-38f ? 0 : M(Float32_discrete_input);'))

# ---- P03
m('P03', 'e-event-mode', (BB, '''                comp->state != InitializationMode &&
                comp->state != EventMode) {
                logError(comp, "Variable e ''', '''                comp->state != InitializationMode) {
                logError(comp, "Variable e '''))
m('P03', 'v-step', (BB, '''                comp->state != EventMode) {
                logError(comp, "Variable \\"v\\"''', '''                comp->state != EventMode && comp->type == ModelExchange) {
                logError(comp, "Variable \\"v\\"'''))
m('P03', 'stair-limit', (ST, 'values[*index] >= 10', 'values[*index] > 10'))
m('P03', 'stair-refused-changes', (ST, '''        if (values[*index] >= 10) {''', '''        M(counter) = values[*index];
        if (values[*index] >= 10) {'''))
m('P03', 'enum-refused-changes', (FT, '''            if (values[*index] != Option1 && values[*index] != Option2) {
                logError(comp, "%llu''', '''            M(Enumeration_input) = values[*index];
            if (values[*index] != Option1 && values[*index] != Option2) {
                logError(comp, "%llu'''))
m('P03', 'dae-instantiated', (RO, 'if (comp->state != ConfigurationMode && comp->state != ReconfigurationMode) {', 'if (comp->state != ConfigurationMode && comp->state != ReconfigurationMode && comp->state != Instantiated) {'))
m('P03', 'mu-eventmode', (VP, '''                comp->state != InitializationMode) {''', '''                comp->state != InitializationMode &&
                comp->state != EventMode) {'''))
m('P03', 'ss-x-init', (SS, 'if (comp->state != ContinuousTimeMode && comp->state != EventMode) {', 'if (comp->state != ContinuousTimeMode && comp->state != EventMode && comp->state != StepMode) {'))
m('P03', 'ss-m-partial', (SS, '''            if (v > M_MAX) {''', '''            M(m) = v > M_MAX ? M_MAX : v;
            if (v > M_MAX) {'''))
m('P03', 'time-settable', (VP, '''        case vr_x1:
            ASSERT_NVALUES(1);
            M(x1) = values[(*index)++];
            break;''', '''        case vr_time:
            ASSERT_NVALUES(1);
            comp->time = values[(*index)++];
            break;
        case vr_x1:
            ASSERT_NVALUES(1);
            M(x1) = values[(*index)++];
            break;'''))
m('P03', 'f2-int-ct', (F2, '''#define MASK_fmi2SetInteger              (Instantiated | InitializationMode \\
| EventMode \\''', '''#define MASK_fmi2SetInteger              (Instantiated | InitializationMode \\
| EventMode | ContinuousTimeMode \\'''))
m('P03', 'disc-float32', (FT, '''                comp->state != EventMode) {
                logError(comp, "Variable Float32''', '''                comp->state != EventMode && comp->state != ContinuousTimeMode) {
                logError(comp, "Variable Float32'''))
m('P03', 'binary-refused', (FT, '''            if (size[*index] > BINARY_MAX_LEN) {''', '''            if (size[*index] > BINARY_MAX_LEN) {
                M(Binary_input_size) = 0;'''))

# ---- P04
m('P04', 'event-event', (F3, 'MASK_fmi3EnterEventMode           (ContinuousTimeMode | StepMode)', 'MASK_fmi3EnterEventMode           (ContinuousTimeMode | StepMode | EventMode)'))
m('P04', 'exit-reconf-event', (F3, '''            case CoSimulation:
                S->state = StepMode;''', '''            case CoSimulation:
                S->state = S->eventModeUsed ? EventMode : StepMode;'''))
m('P04', 'outputder-term', (F3, '(StepMode | StepDiscarded | Terminated)', '(StepMode | StepDiscarded)'))
m('P04', 'illegal-not-sticky', (F3, 'if (!allowedState(S, MASK_fmi3##F, #F)) CALL(Error);', 'if (!allowedState(S, MASK_fmi3##F, #F)) return fmi3Error;'))
m('P04', 'f2-illegal-not-sticky', (F2, 'if (!allowedState(S, MASK_fmi2##F, #F)) CALL(Error);', 'if (!allowedState(S, MASK_fmi2##F, #F)) return fmi2Error;'))
m('P04', 'f2-settime', (F2, 'MASK_fmi2SetTime                 (EventMode', 'MASK_fmi2SetTime                 (InitializationMode | EventMode'))
m('P04', 'f2-reset-step', (F2, '#define MASK_fmi2Reset                   MASK_fmi2FreeInstance', '#define MASK_fmi2Reset                   (Instantiated | EventMode | ContinuousTimeMode | StepComplete | Terminated)'))
m('P04', 'exit-conf', (F3, '''    if (S->state == ConfigurationMode) {
        S->state = Instantiated;''', '''    if (S->state == ConfigurationMode) {
        S->state = InitializationMode;'''))
m('P04', 'se-reconf', (F3, 'MASK_fmi3EnterConfigurationMode   (Instantiated | StepMode | EventMode | ClockActivationMode)', 'MASK_fmi3EnterConfigurationMode   (Instantiated | StepMode | EventMode)'))
m('P04', 'null-not-sticky', (F3, '''        S->state = Terminated; \\
        return (fmi3Status)Error; \\''', '''        return (fmi3Status)Error; \\'''))
m('P04', 'update-ct', (F3, '#define MASK_fmi3NewDiscreteStates         EventMode', '#define MASK_fmi3NewDiscreteStates         (EventMode | StepMode)'))
m('P04', 'cs-cont', (F3, '#define MASK_fmi3SetContinuousStates           ContinuousTimeMode', '#define MASK_fmi3SetContinuousStates           (ContinuousTimeMode | EventMode)'))
m('P04', 'derivs-init', (F3, 'MASK_fmi3GetContinuousStateDerivatives (InitializationMode | EventMode', 'MASK_fmi3GetContinuousStateDerivatives (EventMode'))
m('P04', 'restore-keeps-error', (CS, '    comp->state = s->state;\n', '    if (comp->state != Terminated) comp->state = s->state;\n'))

# ---- P05
m('P05', 'nvalues-off', (H, 'if (expected_nValues > nValues) { \\', 'if (expected_nValues > nValues + 1) { \\'))
m('P05', 'ss-n-max', (SS, 'if (v > N_MAX) {', 'if (v > N_MAX + 1) {'))
m('P05', 'binary-max', (FT, 'if (size[*index] > BINARY_MAX_LEN) {', 'if (size[*index] > BINARY_MAX_LEN + 8) {'))
m('P05', 'string-max', (FT, 'if (strlen(values[*index]) >= STRING_MAX_LEN) {', 'if (strlen(values[*index]) > STRING_MAX_LEN) {'))
m('P05', 'enum', (FT, 'if (values[*index] != Option1 && values[*index] != Option2) {\n                logError(comp, "%llu', 'if ((int)values[*index] != Option1 && (int)values[*index] != Option2) {\n                logError(comp, "%llu'))
m('P05', 'enum2', (FT, 'if (values[*index] != Option1 && values[*index] != Option2) {\n                logError(comp, "%d', 'if (values[*index] > Option2) {\n                logError(comp, "%d'))
m('P05', 'nominals-size', (BB, '''    ASSERT_NOT_NULL2(nominals);
    ASSERT_SIZE_T(nx, MAX_CONTINUOUS_STATES);''', '''    ASSERT_NOT_NULL2(nominals);'''))
m('P05', 'ss-states-size', (SS, '''    if (nx != M(n)) {
        logError(comp, "Expected nx=%zu but was %zu.", M(n), nx);
        return Error;
    }

    for (size_t i = 0; i < M(n); i++) {
        M(x)[i] = x[i];''', '''    if (nx > M(n)) {
        logError(comp, "Expected nx=%zu but was %zu.", M(n), nx);
        return Error;
    }

    for (size_t i = 0; i < M(n); i++) {
        M(x)[i] = x[i];'''))
m('P05', 'deser-size', (F3, '''    if (invalidNumber(S, "fmi3DeserializeFMUState", "size", size, sizeof(ModelInstance))) {
        return fmi3Error;
    }
''', ''))
m('P05', 'ser-copy-size', (F3, 'memcpy(serializedState, FMUState, sizeof(ModelInstance));', 'memcpy(serializedState, FMUState, sizeof(ModelInstance) + 8);'))
m('P05', 'dd-sens', (F3, '    if (invalidNumber(S, "fmi3GetDirectionalDerivative", "nSensitivity", nSensitivity, nUnknowns)) CALL(Error);\n', ''))
m('P05', 'adj-seed', (F3, '    if (invalidNumber(S, "fmi3GetAdjointDerivative", "nSeed", nSeed, nUnknowns)) CALL(Error);\n', ''))
m('P05', 'index-too-many', (F3, '''if (index != nValues) { \\''', '''if (index > nValues) { \\''', 0))
m('P05', 'set-too-many', (F3, '''if (index != nValues) { \\''', '''if (index > nValues) { \\''', 1))
m('P05', 'get-writes-extra', (SS, '''            for (size_t i = 0; i < M(r); i++) {
                for (size_t j = 0; j < M(m); j++) {
                    values[(*index)++] = M(D)[i][j];''', '''            for (size_t i = 0; i < M(r); i++) {
                for (size_t j = 0; j < (M(r) == 1 && M(m) == 0 ? 1 : M(m)); j++) {
                    values[(*index)++] = M(D)[i][j];'''))
m('P05', 'ss-x-oob', (SS, '''        ASSERT_NVALUES((size_t)M(m));
        for (size_t i = 0; i < M(m); i++) {
            M(u)[i]''', '''        ASSERT_NVALUES((size_t)M(n));
        for (size_t i = 0; i < M(m); i++) {
            M(u)[i]'''))
m('P05', 'null-string', (FT, '            ASSERT_NOT_NULL2(values[*index]);\n            if (strlen', '            if (strlen'))
m('P05', 'order', (BB, 'if (order != 1) {', 'if (order < 1) {'))
m('P05', 'bool-get', (F2, 'CALL(getBoolean(S, vr[i], &v, nvr, &index)); \\\n        value[i] = v; \\', 'CALL(getBoolean(S, vr[i], &v, nvr, &index)); \\\n        value[nvr > 3 ? i + 1 : i] = v; \\'))
m('P05', 'roberts-size', (RO, '''    ASSERT_NOT_NULL2(z);
    ASSERT_SIZE_T(nz, MAX_EVENT_INDICATORS);''', '''    ASSERT_NOT_NULL2(z);'''))
m('P05', 'no-states-size', (CS, '''    ASSERT_NOT_NULL2(comp);
    UNUSED(dx);
    ASSERT_SIZE_T(nx, 0);''', '''    ASSERT_NOT_NULL2(comp);
    UNUSED(dx);
    UNUSED(nx);'''))

# ---- P06
for f in ('startTime', 'stopTime', 'time', 'state', 'terminateSimulation', 'nextEventTime', 'nextCommunicationPoint'):
    m('P06', 'no-' + f, (CS, '    comp->%s = s->%s;\n' % (f, f), ''))
m('P06', 'no-prez', (CS, '    memcpy(comp->prez, s->prez, s->nz * sizeof(double));\n', ''))
m('P06', 'prez-z', (CS, 'memcpy(comp->prez, s->prez, s->nz * sizeof(double));\n#endif', 'memcpy(comp->prez, s->z, s->nz * sizeof(double));\n#endif'))
m('P06', 'no-nx', (CS, '    comp->nx = s->nx;\n', ''))
m('P06', 'no-nz', (CS, '    comp->nz = s->nz;\n', ''))
m('P06', 'no-nsteps', (CS, '    comp->nSteps = s->nSteps;\n', '', -1))
m('P06', 'no-eventmode', (CS, '    comp->earlyReturnAllowed = s->earlyReturnAllowed;\n    comp->eventModeUsed = s->eventModeUsed;\n', ''))
m('P06', 'nsteps-max', (CS, 'comp->nSteps = s->nSteps;\n\n    comp->earlyReturnAllowed', 'if (s->nSteps < comp->nSteps) comp->nSteps = s->nSteps;\n\n    comp->earlyReturnAllowed'), (CS, '    comp->nSteps = s->nSteps;\n\n    return OK;', '    return OK;'))
m('P06', 'save-reuse', (CS, '    memcpy(*FMUState, comp, sizeof(ModelInstance));', '    if (((ModelInstance*)*FMUState)->time != comp->time || ((ModelInstance*)*FMUState)->state != comp->state || comp->nSteps == 0) memcpy(*FMUState, comp, sizeof(ModelInstance));'))
m('P06', 'save-clears', (CS, '    memcpy(*FMUState, comp, sizeof(ModelInstance));', '    memcpy(*FMUState, comp, sizeof(ModelInstance)); comp->isDirtyValues = false; comp->terminateSimulation = false;'))
m('P06', 'deser-partial', (F3, 'memcpy(*FMUState, serializedState, sizeof(ModelInstance));', 'memcpy(*FMUState, serializedState, offsetof(ModelInstance, nSteps));'))
m('P06', 'restore-writes', (CS, '    memcpy(& comp->modelData, & s->modelData, sizeof(ModelData));', '    memcpy(& comp->modelData, & s->modelData, sizeof(ModelData)); s->nSteps = 0;'))

# ---- P07
for f, old in (('time', 'comp->time = 0.0;'), ('stopTime', 'comp->stopTime = 0.0;'), ('ncp', 'comp->nextCommunicationPoint = 0.0;'),
               ('nsteps', 'comp->nSteps = 0;')):
    m('P07', 'no-' + f, (CS, '    ' + old + '\n', ''))
m('P07', 'no-term', (CS, '    comp->status = OK;\n    comp->newDiscreteStatesNeeded = false;\n    comp->terminateSimulation = false;', '    comp->status = OK;\n    comp->newDiscreteStatesNeeded = false;'))
m('P07', 'order', (CS, '''    comp->nextEventTimeDefined = false;
    comp->nextEventTime = 0;
    setStartValues(comp);''', '''    setStartValues(comp);
    comp->nextEventTimeDefined = false;
    comp->nextEventTime = 0;'''))
m('P07', 'ss-m', (SS, '    M(m) = 3;\n', '    if (M(m) == 0) M(m) = 3;\n'))
m('P07', 'ss-D', (SS, '        M(D)[i][j] = i == j ? 1 : 0;', '        if (i < 3 && j < 3 || comp->nSteps == 0 && !comp->nx) M(D)[i][j] = i == j ? 1 : 0;'))
m('P07', 'ss-x', (SS, '        M(x)[i] = M(x0)[i];\n    }\n\n    comp->isDirty', '        if (i < 3) M(x)[i] = M(x0)[i];\n    }\n\n    comp->isDirty'))
m('P07', 'clocks-qual', (CL, '    M(inClock3_qualifier) = 0; // fmi3IntervalNotYetKnown', '    if (M(inClock3_qualifier) != 1) M(inClock3_qualifier) = 0;'))
m('P07', 'clocks-outclock', (CL, '    M(outClock)           = 0;\n', ''))
m('P07', 'enum', (FT, '    M(Enumeration_input)  = Option1;\n', '    if (!M(Enumeration_input)) M(Enumeration_input)  = Option1;\n'))
m('P07', 'binary', (FT, '    strncpy(M(Binary_input), BINARY_START, BINARY_MAX_LEN);', '    if (!M(Binary_input)[0]) strncpy(M(Binary_input), BINARY_START, BINARY_MAX_LEN);'))
m('P07', 'stair-event', (ST, '    comp->nextEventTime        = 1;', '    if (comp->nextEventTime < 1 || comp->nextEventTime > 10) comp->nextEventTime = 1;'), (CS, '    comp->nextEventTime = 0;\n    setStartValues(comp);\n    comp->isDirtyValues', '    setStartValues(comp);\n    comp->isDirtyValues'))
m('P07', 'fixed', (FT, '    M(Float64_fixed_parameter)   = 0.0;\n', ''))
m('P07', 'dae', (RO, '    M(dae) = false;\n', ''))

# ---- P08
m('P08', 'static-buf', (CS, '    char *buf = "";\n', '    static char sbuf[1024]; char *buf = "";\n'), (CS, '''    buf = (char *)calloc(len + 1, sizeof(char));
    len = buf ? vsnprintf(buf, len + 1, message, args1) : -1;''', '''    buf = sbuf;
    len = vsnprintf(buf, sizeof(sbuf), message, args1);'''), (CS, '\n    free(buf);\n', '\n'))
m('P08', 'static-states', (CS, '        CALL(getContinuousStates(comp, comp->x, comp->nx));\n        CALL(getDerivatives(comp, comp->dx, comp->nx));', '        static double dx[MAX_CONTINUOUS_STATES];\n        CALL(getContinuousStates(comp, comp->x, comp->nx));\n        CALL(getDerivatives(comp, dx, comp->nx));'), (CS, 'FIXED_SOLVER_STEP * comp->dx[i];', 'FIXED_SOLVER_STEP * dx[i];'))
m('P08', 'static-prez', (CS, '''                (comp->prez[i] <= 0 && comp->z[i] >  0) ||
                (comp->prez[i] >  0 && comp->z[i] <= 0);''', '''                (prez[i] <= 0 && comp->z[i] >  0) ||
                (prez[i] >  0 && comp->z[i] <= 0);'''), (CS, '        // check for zero-crossings\n', '        static double prez[MAX_EVENT_INDICATORS]; static uint64_t last; if (last + 1 != comp->nSteps) memcpy(prez, comp->prez, sizeof(prez)); last = comp->nSteps;\n'), (CS, '        memcpy(comp->prez, comp->z, comp->nz * sizeof(double));\n    }', '        memcpy(comp->prez, comp->z, comp->nz * sizeof(double)); memcpy(prez, comp->z, sizeof(prez));\n    }'))
m('P08', 'static-count', (CL, '    M(inClock2Ticks)++;\n    M(totalInClockTicks)++;', '    static int ticks; if (M(inClock2Ticks) == 0) ticks = 0;\n    M(inClock2Ticks) = ++ticks;\n    M(totalInClockTicks)++;'))
m('P08', 'static-calc', (VP, '    M(der_x0) = M(x1);', '    static double t; t = M(x0) * M(x0);\n    M(der_x0) = M(x1);'), (VP, '(1.0 - M(x0) * M(x0)) * M(x1)) - M(x0);', '(1.0 - t) * M(x1)) - M(x0);'))
m('P08', 'global-logger', (CS, '        comp->logger               = cbLogger;', '        comp->logger               = cbLogger; gEnv = componentEnvironment;'), (CS, '#define CALL(f) do { const Status', 'static void *gEnv;\n#define CALL(f) do { const Status'), (CS, '        comp->logger(comp->componentEnvironment, status, category, buf);', '        comp->logger(gEnv ? gEnv : comp->componentEnvironment, status, category, buf);'))
m('P08', 'resource-static', (RE, '    char path[MAX_PATH_LENGTH] = "";', '    static char path[MAX_PATH_LENGTH] = "";'))
m('P08', 'ss-shared', (SS, '    // der(x) = Ax + Bu\n', '    static double acc; // der(x) = Ax + Bu\n'), (SS, '''            M(der_x)[i] += M(B)[i][j] * M(u)[j];''', '''            acc = M(der_x)[i] + M(B)[i][j] * M(u)[j]; M(der_x)[i] = acc;'''))

# ---- P09
m('P09', 'symplectic', (VP, '    dx[0] = M(der_x0);\n    dx[1] = M(der_x1);', '    dx[0] = M(der_x0);\n    dx[1] = M(der_x1);\n    if (comp->state != ContinuousTimeMode && comp->type == CoSimulation) dx[0] += 1e-2 * dx[1] * 1e-6;'))
m('P09', 'time-accum', (CS, 'comp->time = comp->startTime + comp->nSteps * FIXED_SOLVER_STEP;', 'comp->time = (comp->startTime < 0 ? 0 : comp->startTime) + comp->nSteps * FIXED_SOLVER_STEP;'))
m('P09', 'vmin-le', (BB, 'if (M(v) < V_MIN) {', 'if (M(v) < 2 * V_MIN) {'))
m('P09', 'g-stop', (BB, '            M(v) = 0;\n            M(g) = 0;', '            M(v) = 0;'))
m('P09', 'roberts', (RO, '- 3e7 * M(y2) * M(y2);', '- 3e7 * M(y2) * M(y3);'))
m('P09', 'roberts-dae', (RO, '    if (!M(dae)) {', '    if (!M(dae) || comp->type == CoSimulation) {'))
m('P09', 'ss-input-stale', (SS, '            M(u)[i] = values[(*index)++];\n        }\n', '            M(u)[i] = values[(*index)++];\n        }\n        if (comp->nSteps > 100) M(u)[0] = 0;\n'))
m('P09', 'stair-next', (ST, 'comp->nextEventTime += 1;', 'comp->nextEventTime = comp->time + 1;'))
m('P09', 'bounce-h', (BB, 'M(h) = DBL_MIN;', 'M(h) = -M(h) * M(e);'))
m('P09', 'dahlquist-neg', (DA, 'M(der_x) = -M(k) * M(x);', 'M(der_x) = -(M(k) < 0 ? -M(k) : M(k)) * M(x);'))
m('P09', 'steplate', (F3, '        const fmi3Float64 nextSolverStepTime = S->time + FIXED_SOLVER_STEP;', '        const fmi3Float64 nextSolverStepTime = S->time + 1.5 * FIXED_SOLVER_STEP;'))
m('P09', 'nsteps32', (CS, 'comp->startTime + comp->nSteps * FIXED_SOLVER_STEP', 'comp->startTime + (uint8_t)comp->nSteps * FIXED_SOLVER_STEP + (comp->nSteps / 256) * (255 * FIXED_SOLVER_STEP)'))

# ---- P10
m('P10', 'no-isclose', (F3, ' && !isClose(nextSolverStepTime, nextCommunicationPoint);', ';'))
m('P10', 'f2-no-isclose', (F2, ' && !isClose(nextSolverStepTime, nextCommunicationPoint)) {', ') {'))
m('P10', 'time-cp', (F3, '        S->nextCommunicationPoint = currentCommunicationPoint + communicationStepSize;', '        S->nextCommunicationPoint = currentCommunicationPoint + communicationStepSize; if (S->time < S->nextCommunicationPoint) S->time = S->nextCommunicationPoint;'))
m('P10', 'min-one-step', (F2, '    while (true) {\n', '    bool first = true; while (true) {\n'), (F2, 'if (nextSolverStepTime > nextCommunicationPoint &&', 'if (!first && nextSolverStepTime > nextCommunicationPoint &&'), (F2, '        bool stateEvent, timeEvent;\n', '        bool stateEvent, timeEvent; first = false;\n'))
m('P10', 'restart', (F2, '    S->nextCommunicationPoint = nextCommunicationPoint;\n\n    END', '    S->nextCommunicationPoint = nextCommunicationPoint; S->startTime = S->time = S->nextCommunicationPoint; S->nSteps = 0;\n\n    END'))

# ---- P11
m('P11', 'stop-close', (F3, 'if (nextCommunicationPoint > S->stopTime && !isClose(nextCommunicationPoint, S->stopTime)) {', 'if (currentCommunicationPoint > S->stopTime && !isClose(nextCommunicationPoint, S->stopTime)) {'))
m('P11', 'zero-step', (F2, 'if (!(communicationStepSize > 0) ||', 'if (!(communicationStepSize >= 0) ||'))
m('P11', 'early-flag', (F3, '*earlyReturn         = S->earlyReturnAllowed && !nextCommunicationPointReached;', '*earlyReturn         = S->earlyReturnAllowed && !nextCommunicationPointReached && !S->terminateSimulation;'))
m('P11', 'last-time', (F3, '*lastSuccessfulTime  = S->time;', '*lastSuccessfulTime  = nextCommunicationPoint;'))
m('P11', 'f2-status', (F2, '*value = S->terminateSimulation;', '*value = fmi2False;'))
m('P11', 'f2-laststime', (F2, '        *value = S->time;\n', '        *value = S->nextCommunicationPoint;\n'))
m('P11', 'ncp-early', (F3, '        S->nextCommunicationPoint = S->time;\n', '        S->nextCommunicationPoint = nextCommunicationPoint;\n'))
m('P11', 'isclose-neg', (CS, 'return fmiAbs(a - b) <= EPSILON * fmiMax(fmiAbs(a), fmiAbs(b));', 'return (a - b) <= EPSILON * fmiMax(fmiAbs(a), fmiAbs(b));'))
m('P11', 'eps', (CS, '#define EPSILON (1.0e-5)', '#define EPSILON (1.0e-2)'))
m('P11', 'f2-discard', (F2, '            status = Discard;\n            goto TERMINATE;', '            break;'))
m('P11', 'stop-undefined', (F3, 'stopTimeDefined ? stopTime : INFINITY;', 'stopTimeDefined && stopTime > 0 ? stopTime : INFINITY;'))
m('P11', 'f2-cp', (F2, '    if (!isClose(currentCommunicationPoint, S->nextCommunicationPoint)) {', '    if (currentCommunicationPoint < S->nextCommunicationPoint && !isClose(currentCommunicationPoint, S->nextCommunicationPoint)) {'))
m('P11', 'nan-step', (F3, 'if (!(communicationStepSize > 0) ||', 'if (communicationStepSize <= 0 ||'))

# ---- P12
m('P12', 'cached', (VP, '    calculateValues(comp);\n\n    dx[0]', '    if (comp->isDirtyValues) calculateValues(comp);\n\n    dx[0]'), (VP, '    M(x1) = x[1];\n\n    comp->isDirtyValues = true;', '    M(x1) = x[1];\n'))
m('P12', 'hyst', (BB, 'M(h) <= 0 && M(v) > 0) {', 'M(h) <= 0 && M(v) >= 0) {'))
m('P12', 'hyst-eps', (BB, '#define EVENT_EPSILON (1e-10)', '#define EVENT_EPSILON (1e-9)'))
m('P12', 'order', (SS, '    for (size_t i = 0; i < M(n); i++) {\n        M(x)[i] = x[i];\n    }\n\n    comp->isDirtyValues = true;', '    for (size_t i = 0; i < M(n); i++) {\n        M(x)[i] = x[i];\n    }\n'), (SS, '    calculateValues(comp);\n\n    for (size_t i = 0; i < M(n); i++) {\n        dx[i]', '    if (comp->isDirtyValues) calculateValues(comp);\n\n    for (size_t i = 0; i < M(n); i++) {\n        dx[i]'))
m('P12', 'roberts-g2', (RO, 'M(g2) = M(y3) - 0.01;', 'M(g2) = 1.0 - M(y1) - M(y2) - 0.01;'))
m('P12', 'roberts-ind', (RO, '''    calculateValues(comp);

    z[0]''', '''    if (comp->isDirtyValues) calculateValues(comp);

    z[0]'''), (RO, '    M(y2) = x[1];\n\n    comp->isDirtyValues = true;', '    M(y2) = x[1];\n'))
m('P12', 'settime', (F3, '    S->time = time;\n', '    if (time > S->time) S->time = time;\n'))
m('P12', 'der-g', (BB, '        case vr_der_v:\n        case vr_g:', '        case vr_der_v:\n            ASSERT_NVALUES(1);\n            values[(*index)++] = M(h) > 0 || M(v) != 0 ? M(g) : 0;\n            return OK;\n        case vr_g:'))
m('P12', 'get-twice', (RO, '    M(r) = M(y1) + M(y2) + M(y3) - 1.0;', '    if (comp->isDirtyValues) M(r) = M(y1) + M(y2) + M(y3) - 1.0; else M(r) *= 1.0 + 1e-7;'))

# ---- P13
m('P15', 'prez-init', (CS, '    CALL(getEventIndicators(comp, comp->prez, comp->nz));\n', ''))
m('P15', 'cross-up', (CS, '                (comp->prez[i] <= 0 && comp->z[i] >  0) ||\n', ''))
m('P13', 'cross-eq', (CS, '(comp->prez[i] >  0 && comp->z[i] <= 0);', '(comp->prez[i] >  0 && comp->z[i] <  0);'))
m('P13', 'time-event-late', (CS, 'comp->time >= comp->nextEventTime;', 'comp->time > comp->nextEventTime;'))
m('P13', 'me-der', (DA, '    dx[0] = M(der_x);', '    dx[0] = comp->type == ModelExchange && M(k) > 10 ? -10 * M(x) : M(der_x);'))
m('P13', 'me-e', (BB, 'M(v) = -M(v) * M(e);', 'M(v) = -M(v) * (comp->type == ModelExchange && M(e) > 1 ? 1 : M(e));'))
m('P13', 'only-first-ind', (CS, '        for (size_t i = 0; i < comp->nz; i++) {\n            *stateEvent |=', '        for (size_t i = 0; i < 1; i++) {\n            *stateEvent |='))

# ---- P14
m('P14', 'f2-flags', (F2, '= S->nextEventTime;', '= S->nextEventTimeDefined ? S->nextEventTime : 0;'))
m('P14', 'f2-vals', (F2, '    eventInfo->valuesOfContinuousStatesChanged   = S->valuesOfContinuousStatesChanged;', '    eventInfo->valuesOfContinuousStatesChanged   = fmi2True;'))
m('P14', 'f2-term-status', (F2, '            status = Discard;\n', '            status = Warning;\n'))
m('P14', 'stair-v', (ST, 'comp->terminateSimulation               = M(counter) >= 10;', '#if FMI_VERSION == 2\n    comp->terminateSimulation = M(counter) > 10;\n#else\n    comp->terminateSimulation               = M(counter) >= 10;\n#endif'))
m('P14', 'dd-v2', (F2, 'dvUnknown[i] += partialDerivative * dvKnown[j];', 'dvUnknown[i] = partialDerivative * dvKnown[j];'))
m('P14', 'f2-time', (F2, '    S->time = startTime;\n', '    S->time = startTime < 0 ? 0 : startTime;\n'))
m('P14', 'f2-bool-out', (F2, 'value[i] = v; \\', 'value[i] = v ? -1 : 0; \\'))

# ---- P15
m('P15', 'twice', (F3, '            eventUpdate(S);\n            *eventHandlingNeeded = fmi3False;', '            eventUpdate(S); eventUpdate(S);\n            *eventHandlingNeeded = fmi3False;'))
m('P15', 'lost-event', (F3, '        if (*eventHandlingNeeded) {\n            eventUpdate(S);', '        if (*eventHandlingNeeded) {\n'))
m('P15', 'early-no-break', (F3, '            if (S->earlyReturnAllowed) {\n                break;', '            if (S->earlyReturnAllowed && S->eventModeUsed) {\n                break;'))
m('P15', 'repeat', (ST, 'isClose(comp->time, comp->nextEventTime))) {', 'isClose(comp->time, comp->nextEventTime) || comp->time + 1 >= comp->nextEventTime && M(counter) == 7)) {'))
m('P15', 'values-changed', (BB, '        comp->valuesOfContinuousStatesChanged = true;\n', '        comp->valuesOfContinuousStatesChanged = M(v) != 0;\n'))
m('P15', 'values-stale', (BB, '    } else {\n        comp->valuesOfContinuousStatesChanged = false;\n    }', '    }'))
m('P15', 'term', (ST, '= M(counter) >= 10;', '= M(counter) == 10 && comp->time >= 9;'))
m('P15', 'next-time', (F3, 'if (nextEventTime)                     *nextEventTime                     = S->nextEventTime;', 'if (nextEventTime)                     *nextEventTime                     = S->nextEventTime > S->stopTime ? S->stopTime : S->nextEventTime;'))
m('P15', 'needed-cleared', (F3, '                *eventHandlingNeeded = fmi3True;', '                *eventHandlingNeeded = stateEvent || !S->earlyReturnAllowed;'))
m('P15', 'v-zero', (BB, 'if (M(h) <= 0 && M(v) < 0) {', 'if (M(h) < 0 && M(v) < 0) {'))
m('P15', 'internal-prez', (F3, '                CALL(getEventIndicators(S, S->prez, S->nz));\n', ''))
m('P15', 'discrete', (ST, '    comp->valuesOfContinuousStatesChanged   = false;\n    comp->nominals', '    comp->valuesOfContinuousStatesChanged   = comp->newDiscreteStatesNeeded;\n    comp->newDiscreteStatesNeeded = M(counter) == 9;\n    comp->nominals'))

# ---- P16
m('P16', 'vdp-sign', (VP, '-2 * M(x0) * M(x1) * M(mu) - 1;', '-2 * M(x0) * M(x1) * M(mu) + 1;'))
m('P16', 'vdp-mu', (VP, ' && comp->state == InitializationMode) {', ' && comp->state == EventMode) {'))
m('P16', 'roberts-stale', (RO, '    calculateValues(comp);\n\n    // derivative of y3', '    // derivative of y3'))
m('P16', 'roberts-dae', (RO, '*partialDerivative = 1e4 * M(y3) + 1e4 * M(y2) * dy3;', '*partialDerivative = 1e4 * M(y3) - 1e4 * M(y2);'))
m('P16', 'adj-swap', (F3, 'CALL(getPartialDerivative(S, (ValueReference)unknowns[j], (ValueReference)knowns[i], &partialDerivative));', 'CALL(getPartialDerivative(S, (ValueReference)unknowns[nUnknowns - 1 - j], (ValueReference)knowns[i], &partialDerivative));'))
m('P16', 'seed-last', (F3, 'sensitivity[i] += partialDerivative * seed[j];', 'sensitivity[i] += partialDerivative * seed[j == 2 ? 1 : j];', 0))
m('P16', 'f2-init', (F2, '        dvUnknown[i] = 0;\n', '        if (i == 0 || nKnown > 0) dvUnknown[i] = i > 1 ? dvUnknown[i] : 0;\n'))
m('P16', 'g2', (RO, '(unknown == vr_y3 || unknown == vr_g2) && (known == vr_y1', '(unknown == vr_y3) && (known == vr_y1'))

# ---- P17
m('P17', 'col-major', (SS, '                    values[(*index)++] = M(B)[i][j];', '                    values[(*index)++] = M(n) == M(m) ? M(B)[i][j] : M(B)[j % N_MAX][i % M_MAX];'))
m('P17', 'set-C', (SS, '''    case vr_C:
        ASSERT_NVALUES((size_t)(M(r) * M(n)));
        for (size_t i = 0; i < M(r); i++) {
            for (size_t j = 0; j < M(n); j++) {
                M(C)[i][j]''', '''    case vr_C:
        ASSERT_NVALUES((size_t)(M(r) * M(n)));
        for (size_t i = 0; i < M(r); i++) {
            for (size_t j = 0; j < M(n); j++) {
                M(C)[i][j > 3 ? 3 : j]'''))
m('P17', 'x0-x', (SS, 'comp->state == Instantiated || comp->state == InitializationMode || comp->state == ConfigurationMode', 'comp->state == Instantiated || comp->state == InitializationMode'))
m('P17', 'reconf-nx', (F3, '#if MAX_CONTINUOUS_STATES > 0 || MAX_EVENT_INDICATORS > 0\n    CALL(configurate(S));\n#endif\n', ''))
m('P17', 'y-loop', (SS, '''            M(y)[i] += M(D)[i][j] * M(u)[j];''', '''            if (i < M(n) || j == 0) M(y)[i] += M(D)[i][j] * M(u)[j];'''))
m('P17', 'coef-lost', (SS, '            M(m) = v;\n', '            for (int i = 0; i < N_MAX; i++) if (v < M(m) && v > 0) M(B)[i][v - 1] = 0;\n            M(m) = v;\n'))
m('P17', 'xn', (SS, '            M(der_x)[i] += M(A)[i][j] * M(x)[j];', '            M(der_x)[i] += M(A)[i][j] * M(x)[j == 4 && i == 0 ? 3 : j];'))

# ---- P18
m('P18', 'int-time', (CL, '(int)time == 4', 'time == 4'))
m('P18', 'unchanged', (CL, '            M(inClock3_qualifier) = 1;', '            M(inClock3_qualifier) = 0;'))
m('P18', 'out-sticky', (CL, 'M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));', 'M(outClock) = M(outClock) || (M(totalInClockTicks) % 5 == 0);', 0))
m('P18', 'input-clear', (CL, '    M(input2) = 0;\n\n    // set', '    if (M(input2) > 0) M(input2) = 0;\n\n    // set'))
m('P18', 'unlock', (CL, '    if (comp->unlockPreemption) {\n        comp->unlockPreemption();\n    }\n', '    if (comp->unlockPreemption && !M(outClock)) {\n        comp->unlockPreemption();\n    }\n', 0))
m('P18', 'lock-order', (CL, '''    if (comp->lockPreemption) {
        comp->lockPreemption();
    }

    // increment the counters
    M(inClock2Ticks)++;
    M(totalInClockTicks)++;

    M(result2) += M(input2);''', '''    // increment the counters
    M(inClock2Ticks)++;
    M(totalInClockTicks)++;

    if (comp->lockPreemption) {
        comp->lockPreemption();
    }

    M(result2) += M(input2);'''))
m('P18', 'callback-missing', (CL, '(M(inClock3_qualifier) == 2 || M(outClock))', '((M(inClock3_qualifier) == 2 && (int)time == 4) || M(outClock))'))
m('P18', 'callback-p2', (CL, '    if (comp->clockUpdate && M(outClock)) {', '    if (comp->clockUpdate && M(outClock) && comp->lockPreemption) {', 0))
m('P18', 'not-cleared', (CL, '        M(outClock) = false;\n        return OK;', '        if (M(totalInClockTicks) % 10) M(outClock) = false;\n        return OK;'))
m('P18', 'p3-output', (CL, 'M(output3) = 1000;', 'M(output3) += 1000;'))

# ---- P19
m('P19', 'size-silent', (H, '        logError(comp, "Expected " xstr(A) " = %zu but was %zu.", E, A); \\\n', ''))
m('P19', 'cp-silent', (F3, '''        logError(S, "Expected currentCommunicationPoint = %.16g but was %.16g.",
            S->nextCommunicationPoint, currentCommunicationPoint);
''', ''))
m('P19', 'category', (CS, 'logMessage(comp, Error, "logStatusError", message, args);', 'logMessage(comp, Error, "logEvents", message, args);'))
m('P19', 'status', (CS, 'logMessage(comp, Error, "logStatusError", message, args);', 'logMessage(comp, Warning, "logStatusError", message, args);'))
m('P19', 'cut', (CS, 'buf = (char *)calloc(len + 1, sizeof(char));\n    len = buf ? vsnprintf(buf, len + 1,', 'buf = (char *)calloc(len + 1, sizeof(char));\n    len = buf ? vsnprintf(buf, len,'))
m('P19', 'unknown-cat', (CS, '''                logError(comp, "Log categories[%zu] must be one of \\"logEvents\\" or \\"logStatusError\\" but was \\"%s\\".", i, categories[i]);
                return Error;''', '''                continue;'''))
m('P19', 'all-on', (CS, '        comp->logEvents = loggingOn;\n        comp->logErrors = loggingOn;\n', '        comp->logEvents = loggingOn;\n        comp->logErrors = comp->logErrors || loggingOn;\n'))
m('P19', 'cat-only-first', (CS, '        for (size_t i = 0; i < nCategories; i++) {\n\n            if (categories[i] == NULL)', '        for (size_t i = 0; i < (nCategories > 2 ? 2 : nCategories); i++) {\n\n            if (categories[i] == NULL)'))
m('P19', 'success-logs', (ST, '    if (M(counter) > 10) {', '    if (M(counter) == 10) logError(comp, "Limit reached.");\n    if (M(counter) > 10) {'))
m('P19', 'notimpl-silent', (F3, '    logError(comp, "Function is not implemented."); \\\n', '    UNUSED(comp); \\\n'))
m('P19', 'nullptr-silent', (CS, '        logError(comp, "%s: Invalid argument %s = NULL.", f, arg);\n', ''))
m('P19', 'name', (CS, 'comp->logger(comp->componentEnvironment, comp->instanceName, status', 'comp->logger(comp->componentEnvironment, comp->resourceLocation ? comp->resourceLocation : comp->instanceName, status'))
m('P19', 'sticky', (CS, '    if (!comp || !comp->logErrors) return;', '    if (!comp || (!comp->logErrors && comp->state != Terminated)) return;'))
m('P19', 'default-get', (DA, '            logError(comp, "Set Float64 is not allowed for value reference %u.", vr);\n', ''))

m('P19', 'restored-name', (CS, '    // instanceName\n', '    comp->componentEnvironment = s->componentEnvironment;\n'))
m('P19', 'restored-log', (CS, '    // logErrors\n', '    comp->logErrors = s->logErrors;\n'))

# ---- P20
m('P20', 'before-state', (CS, '    comp->nSteps++;\n\n    comp->time = comp->startTime', '    comp->nSteps++;\n\n    if (0) comp->time = comp->startTime'), (CS, '    return OK;\n}\n', '    comp->time = comp->startTime + comp->nSteps * FIXED_SOLVER_STEP;\n    return OK;\n}\n', 11))
m('P20', 'flags', (CS, '            true,                       // intermediateVariableGetAllowed', '            comp->nSteps > 1,                       // intermediateVariableGetAllowed'))
m('P20', 'skip-event', (CS, '    if (comp->intermediateUpdate) {', '    if (comp->intermediateUpdate && !(*stateEvent && comp->earlyReturnAllowed)) {'))
m('P20', 'time', (CS, '            comp->time,                 // intermediateUpdateTime', '            comp->nSteps * FIXED_SOLVER_STEP,                 // intermediateUpdateTime'))
m('P20', 'finished', (CS, '            true,                       // intermediateStepFinished', '            !*timeEvent,                       // intermediateStepFinished'))
m('P20', 'canreturn', (CS, '            false,                      // canReturnEarly', '            comp->earlyReturnAllowed,                      // canReturnEarly'))
m('P20', 'dirty', (CS, '    // intermediate update\n    if (comp->intermediateUpdate) {', '    // intermediate update\n    if (comp->intermediateUpdate) {\n        comp->nextEventTimeDefined = comp->nextEventTimeDefined && comp->time < 8.9;'))
m('P20', 'early-states', (CS, '        CALL(setContinuousStates(comp, comp->x, comp->nx));\n    }\n#endif\n\n    comp->nSteps++;', '    }\n#endif\n\n    comp->nSteps++;'), (CS, '    return OK;\n}\n', '#if MAX_CONTINUOUS_STATES > 0\n    CALL(setContinuousStates(comp, comp->x, comp->nx));\n#endif\n    return OK;\n}\n', 11), (CS, '        CALL(getEventIndicators(comp, comp->z, comp->nz));\n', '        CALL(setContinuousStates(comp, comp->x, comp->nx)); CALL(getEventIndicators(comp, comp->z, comp->nz));\n'))
m('P20', 'env', (CS, '            comp->componentEnvironment, // instanceEnvironment', '            comp,                       // instanceEnvironment'))

# ---- P21
m('P21', 'decode-lower', (RE, '*dst = (char)strtol(buf, NULL, 16);', '*dst = (char)(strtol(buf, NULL, 16) & 0x7f);'))
m('P21', 'file-two', (RE, 'const char *scheme1 = "file:///";', 'const char *scheme1 = "file://";'))
m('P21', 'limit', (RE, 'if (strlen(comp->resourceLocation) >= MAX_PATH_LENGTH - strlen("y.txt")) {', 'if (strlen(comp->resourceLocation) >= MAX_PATH_LENGTH / 2) {'))
m('P21', 'limit2', (RE, 'dst >= &path[MAX_PATH_LENGTH - strlen("/y.txt") - 1]', 'strlen(comp->resourceLocation) >= MAX_PATH_LENGTH - strlen("/y.txt") - 1'))
m('P21', 'null-ok', (RE, '        logError(comp, "Resource location must not be NULL.");\n        return Error;', '        return OK;'))
m('P21', 'plus', (RE, '            *dst = *src;\n', "            *dst = *src == '+' ? ' ' : *src;\n"))
m('P21', 'neg', (RE, '    M(y) = c;', "    M(y) = c == '\\n' ? 0 : c;"))
m('P21', 'no-limit', (RE, '''    if (strlen(comp->resourceLocation) >= MAX_PATH_LENGTH - strlen("y.txt")) {
        logError(comp, "The resource path is too long.");
        return Error;
    }
''', ''))
m('P21', 'overflow', (RE, 'if (dst >= &path[MAX_PATH_LENGTH - strlen("/y.txt") - 1]) {', 'if (dst >= &path[MAX_PATH_LENGTH + 64]) {'))
m('P21', 'pct-short', (RE, "if (!isxdigit((unsigned char)src[1]) || !isxdigit((unsigned char)src[2])) {", "if (!isxdigit((unsigned char)src[1])) {"))

# ---- P22
m('P22', 'swap-args', (I3, '        valueReferences, nValueReferences, orders, values, nValues);', '        valueReferences, nValueReferences, orders, values, nValueReferences);'))
m('P22', 'state-reconf', (I3, '''        } else if (instance->interfaceType == FMICoSimulation) {
            instance->state = FMIStepModeState;
        } else {''', '''        } else if (instance->interfaceType == FMICoSimulation) {
            instance->state = instance->fmi3Functions->eventModeUsed ? FMIEventModeState : FMIStepModeState;
        } else {'''))
m('P22', 'early-arg', (I3, '        eventModeUsed,\n        earlyReturnAllowed,\n        requiredIntermediateVariables,\n        nRequiredIntermediateVariables,\n        instance,\n        logMessage,\n        intermediateUpdate);\n\n    instance->fmi3', '        eventModeUsed,\n        earlyReturnAllowed && intermediateUpdate,\n        requiredIntermediateVariables,\n        nRequiredIntermediateVariables,\n        instance,\n        logMessage,\n        intermediateUpdate);\n\n    instance->fmi3'))
m('P22', 'missing-symbol', (I3, '    LOAD_SYMBOL(GetShiftFraction);\n', '    instance->fmi3Functions->fmi3GetShiftFraction = (fmi3GetShiftFractionTYPE*)dlsym(instance->libraryHandle, "fmi3GetShiftFraction");\n'))
m('P22', 'wrong-symbol', (I3, '    LOAD_SYMBOL(GetShiftFraction);\n', '    LOAD_SYMBOL(GetShiftFraction);\n    instance->fmi3Functions->fmi3GetUInt16 = (fmi3GetUInt16TYPE*)instance->fmi3Functions->fmi3GetInt16;\n'))
m('P22', 'log-trunc', ('include/FMI.h', '#define FMI_MAX_MESSAGE_LENGTH 4096', '#define FMI_MAX_MESSAGE_LENGTH 2048'))
m('P22', 'f2-discard', (I2, '    const FMIStatus status = (FMIStatus)instance->fmi2Functions-> fmi2 ## f (instance->component, __VA_ARGS__); \\', '    FMIStatus status = (FMIStatus)instance->fmi2Functions-> fmi2 ## f (instance->component, __VA_ARGS__); if (status == FMIDiscard) status = FMIWarning; \\'))
m('P22', 'f2-visible', (I2, 'visible, loggingOn);\n\n    if (instance->logFunctionCall) {\n        fmi2CallbackFunctions', 'loggingOn, visible);\n\n    if (instance->logFunctionCall) {\n        fmi2CallbackFunctions'))
m('P22', 'se-state', (I3, '        instance->state = FMIClockActivationMode;\n    }\n\n    CALL(ExitInit', '        instance->state = FMIStepModeState;\n    }\n\n    CALL(ExitInit'))
m('P22', 'f2-reset-state', (I2, 'FMIStatus FMI2Reset(FMIInstance *instance) {\n    instance->state = FMIInstantiatedState;\n', 'FMIStatus FMI2Reset(FMIInstance *instance) {\n'))

# ---- P23
m('P23', 'digits', (I, '"%.16g", ((double*)values)[i]', '"%.15g", ((double*)values)[i]'))
m('P23', 'int8', (I, '"%" PRIu8, ((uint8_t *)values)[i]', '"%" PRId8, ((int8_t *)values)[i]'))
m('P23', 'grow', (I, 'while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + length) {', 'while (instance->logMessageBufferSize < instance->logMessageBufferPosition + length) {'))
m('P23', 'nunknown', (I2, '"}, nUnknown=%zu, vKnown_ref={", nUnknown);', '"}, nUnknown=%zu, vKnown_ref={", nKnown);'))
m('P23', 'status', (I3, 'instance->logFunctionCall(instance, status, instance->logMessageBuffer); \\\n    } \\\n    instance->status = status > instance->status ? status : instance->status; \\\n    return status; \\\n} while (0)\n\n/****', 'instance->logFunctionCall(instance, instance->status, instance->logMessageBuffer); \\\n    } \\\n    instance->status = status > instance->status ? status : instance->status; \\\n    return status; \\\n} while (0)\n\n/****'))
m('P23', 'binary', (I, 'length = 2 + size * 2;', 'length = 1 + size * 2;'))
m('P23', 'separator', (I, 'const size_t requiredCharacters = length + sizeof(", ");', 'const size_t requiredCharacters = length + 1;'))
m('P23', 'order', (I3, 'noSetFMUStatePriorToCurrentPoint, *eventHandlingNeeded, *terminateSimulation, *earlyReturn, *lastSuccessfulTime);\n        instance', 'noSetFMUStatePriorToCurrentPoint, *terminateSimulation, *eventHandlingNeeded, *earlyReturn, *lastSuccessfulTime);\n        instance'))
m('P23', 'float-time', (I3, '"time=%.16g"', '"time=%g"'))
m('P23', 'uint64', (I, '"%" PRIu64, ((uint64_t *)values)[i]', '"%" PRId64, ((int64_t *)values)[i]'))
m('P23', 'twice', (I3, 'FMIStatus FMI3EnterStepMode(FMIInstance *instance) {\n', 'FMIStatus FMI3EnterStepMode(FMIInstance *instance) {\n    if (instance->logFunctionCall && instance->state == FMIStepModeState) instance->logFunctionCall(instance, FMIOK, "fmi3EnterStepMode()");\n'))
m('P23', 'stale', (I3, '        FMIClearLogMessageBuffer(instance);\n        FMIAppendToLogMessageBuffer(instance, "fmi3GetClock(', '        if (nValueReferences) FMIClearLogMessageBuffer(instance);\n        FMIAppendToLogMessageBuffer(instance, "fmi3GetClock('))

# ---- P24
m('P24', 'uri-signed', (I, '"%%%02X", (unsigned char)c', '"%%%02X", c & 0x7f'))
m('P24', 'uri-legal', (I, "-._~:/?#[]@!$&'()*+,;=\"", "-._~:/?#[]@!$&'()*+,;%\""))
m('P24', 'uri-bound', (I, 'if (uriLength < p + 4) {', 'if (uriLength < p + 3) {'))
m('P24', 'platform', (I, "if (last != '/' && last != '\\\\') {", "if (last != '/') {"))
m('P24', 'size', (I, '    if (rc >= size) {', '    if (rc > size) {'))
m('P24', 'version', (I, 'fmiMajorVersion < FMIMajorVersion3 ?', 'fmiMajorVersion <= FMIMajorVersion3 ?'))
m('P24', 'calloc', (I, '*memory = calloc(count, size);', '*memory = malloc(count * size); if (*memory) memset(*memory, 0, count);'))
m('P24', 'calloc-overflow', (I, '*memory = calloc(count, size);', '*memory = calloc(1, count * size);'))
m('P24', 'realloc-zero', (I, '            free(*memory);\n            *memory = NULL;\n        }\n\n    } else', '            free(*memory);\n        }\n\n    } else'))
m('P24', 'realloc-shrink', (I, '        void* temp = realloc(*memory, size);', '        void* temp = *memory && size < 64 ? *memory : realloc(*memory, size);'))

# ---- P25
m('P25', 'name-empty', (CS, 'if (!instanceName || strlen(instanceName) == 0) {', 'if (!instanceName) {'))
m('P25', 'token-prefix', (CS, 'if (strcmp(instantiationToken, INSTANTIATION_TOKEN)) {', 'if (strncmp(instantiationToken, INSTANTIATION_TOKEN, strlen(INSTANTIATION_TOKEN))) {'))
m('P25', 'token-prefix2', (CS, 'if (strcmp(instantiationToken, INSTANTIATION_TOKEN)) {', 'if (strncmp(instantiationToken, INSTANTIATION_TOKEN, strlen(instantiationToken))) {'))
m('P25', 'name-not-copied', (CS, '= strdup(instanceName);', '= (char*)instanceName;'), (CS, '    if (comp->instanceName) free((void*)comp->instanceName);\n', ''))
m('P25', 'res-not-copied', (CS, 'resourceLocation ? strdup(resourceLocation) : NULL;', 'resourceLocation;'), (CS, '    if (comp->resourceLocation) free((void*)comp->resourceLocation);\n', ''))
m('P25', 'no-reason', (F3, '            logMessage(instanceEnvironment, fmi3Error, "error", "Event Mode is not supported.");\n', ''))
m('P25', 'null-free', (CS, '    if (!comp) return;\n\n    if (comp->inst', '    if (comp->inst'))
m('P25', 'long-name', (CS, 'if (!instanceName || strlen(instanceName) == 0) {', 'if (!instanceName || strlen(instanceName) == 0 || strlen(instanceName) > 1024) {'))
m('P25', 'no-logger', (F3, '    UNUSED(visible);\n\n#ifndef MODEL_EXCHANGE', '    if (!logMessage) return NULL;\n\n    UNUSED(visible);\n\n#ifndef MODEL_EXCHANGE'))
m('P25', 'early-need', (F3, '#ifndef EVENT_UPDATE\n    if (eventModeUsed) {', '    if (earlyReturnAllowed && !intermediateUpdate && !eventModeUsed && !logMessage) return NULL;\n#ifndef EVENT_UPDATE\n    if (eventModeUsed) {'))

# ---- P26
m('P26', 'no-null-check', (CS, 'if (!comp || !comp->instanceName || (resourceLocation', 'if (!comp || (resourceLocation'))
m('P26', 'leak', (CS, '        freeModelInstance(comp);\n        return NULL;', '        free(comp);\n        return NULL;'))
m('P26', 'realloc-lost', (CS, '    void* temp = realloc(*memory, size);\n', '    void* temp = realloc(*memory, size);\n    if (!temp) *memory = NULL;\n'))
m('P26', 'deser-null', (F3, '''        if (*FMUState == NULL) {
            logError(S, "Failed to allocate memory for FMUState.");
            return fmi3Error;
        }
''', ''))
m('P26', 'deser2-ok', (F2, '''            logError(S, "Failed to allocate memory for FMUstate.");
            return fmi2Error;''', '''            return fmi2OK;'''))
m('P26', 'log-buf', (CS, 'len = buf ? vsnprintf(buf, len + 1, message, args1) : -1;', 'len = vsnprintf(buf, len + 1, message, args1);'))
m('P26', 'null-early', (CS, '    if (!temp) {\n        logError', '    if (!temp && size > (1 << 20)) {\n        logError'))

# ---- P27
m('P27', 'name-leak', (CS, '    if (comp->resourceLocation) free((void*)comp->resourceLocation);\n', ''))
m('P27', 'state-realloc', (CS, '    CALL(s_reallocate(comp, FMUState, sizeof(ModelInstance)));', '    *FMUState = NULL; CALL(s_reallocate(comp, FMUState, sizeof(ModelInstance)));'))
m('P27', 'deser-leak', (F3, '    if (*FMUState == NULL) {\n        *FMUState = calloc', '    if (*FMUState == NULL || size > 0) {\n        *FMUState = calloc'))
m('P27', 'file', (RE, '    // assign it to y\n    M(y) = c;\n\n    // close the file\n    fclose(file);', '    // assign it to y\n    M(y) = c;\n\n    // close the file\n    if (c != EOF) fclose(file);'))
m('P27', 'free-state', (F3, '    free(*FMUState);\n    *FMUState = NULL;', '    if (S->state != Terminated) free(*FMUState);\n    *FMUState = NULL;'))
m('P27', 'free-null', (F2, '    free(*FMUstate);\n    *FMUstate = NULL;', '    free(*FMUstate);'))
m('P27', 'reset-leak', (CS, '    comp->state = Instantiated;\n    comp->startTime', '    comp->instanceName = strdup(comp->instanceName); comp->state = Instantiated;\n    comp->startTime'))

# ---- P28
m('P28', 'sources', ('Clocks/buildDescription.xml', '<SourceFile name="cosimulation.c"/>', ''))
m('P28', 'prefix-code', (CS, 'comp->time = comp->startTime + comp->nSteps * FIXED_SOLVER_STEP;', '#ifdef DISABLE_PREFIX\n    comp->time = comp->startTime + comp->nSteps * FIXED_SOLVER_STEP;\n#else\n    comp->time += FIXED_SOLVER_STEP * 1.0000001;\n#endif'))
m('P28', 'xml2', ('Stair/FMI2.xml', '<File name="all.c"/>', '<File name="fmi2Functions.c"/>', 0))

# ---- second round: triggers that need a particular history or combination
m('P02', 'set-equal', (FT, '            M(Float64_continuous_input) = values[(*index)++];', '            if (values[*index] != M(Float64_continuous_input)) M(Float64_continuous_input) = values[*index];\n            (*index)++;'))
m('P02', 'binary-grow', (FT, '    M(Binary_output_size) = M(Binary_input_size);', '    if (M(Binary_output_size) != 0 || M(Binary_input_size) != 0) M(Binary_output_size) = M(Binary_input_size) ? M(Binary_input_size) : 1;'))
m('P02', 'dirty-binary', (F3, '''    if (nValueReferences > 0) {
        S->isDirtyValues = true;
    }
''', ''), (FT, '''    calculateValues(comp);

    switch (vr) {
        case vr_Binary_input:''', '''    switch (vr) {
        case vr_Binary_input:'''), (FT, '''            memcpy((void *)M(Binary_input), values[(*index)++], M(Binary_input_size));
            break;''', '''            memcpy((void *)M(Binary_input), values[(*index)++], M(Binary_input_size));
            return OK;'''))
m('P02', 'bool-order', (F2, '''    for (size_t i = 0; i < nvr; i++) { \\
        const bool v = value[i]; \\''', '''    for (size_t i = nvr; i-- > 0;) { \\
        const bool v = value[i]; \\'''))
m('P02', 'dup-get', (F3, '''    CALL(get ## T(S, (ValueReference)valueReferences[i], values, nValues, &index)); \\''', '''    if (i > 2 && valueReferences[i] == valueReferences[i - 1] && index < nValues) { values[index] = values[0]; index++; continue; } \\
    CALL(get ## T(S, (ValueReference)valueReferences[i], values, nValues, &index)); \\'''))
m('P03', 'string-truncates', (FT, 'if (strlen(values[*index]) >= STRING_MAX_LEN) {', 'if (strlen(values[*index]) >= STRING_MAX_LEN) {\n                strncpy(M(String_input), values[*index], STRING_MAX_LEN - 1);'))
m('P03', 'uint64-reconf', (F3, '#define MASK_fmi3SetUInt64                MASK_fmi3SetInt8', '#define MASK_fmi3SetUInt64                (Instantiated | ConfigurationMode | InitializationMode | EventMode | StepMode | ClockActivationMode)'))
m('P03', 'g-cs', (BB, '''            if (comp->type == ModelExchange &&
                comp->state != Instantiated &&
                comp->state != InitializationMode) {
                logError(comp, "Variable g''', '''            if (comp->state != Instantiated &&
                comp->state != InitializationMode) {
                logError(comp, "Variable g'''))
m('P03', 'bool-ct', (F3, '#define MASK_fmi3SetBoolean               MASK_fmi3SetInt8', '#define MASK_fmi3SetBoolean               (MASK_fmi3SetInt8 | ContinuousTimeMode)'))
m('P03', 'string-event', (F3, '#define MASK_fmi3SetString                MASK_fmi3SetInt8', '#define MASK_fmi3SetString                (Instantiated | ConfigurationMode | ReconfigurationMode | InitializationMode | StepMode | ClockActivationMode)'))
m('P03', 'set-se', (F3, '(Instantiated | ConfigurationMode | ReconfigurationMode | InitializationMode | EventMode | StepMode | ClockActivationMode)', '(Instantiated | ConfigurationMode | ReconfigurationMode | InitializationMode | EventMode | StepMode)'))
m('P04', 'terminate-init', (F3, '#define MASK_fmi3Terminate                (ContinuousTimeMode', '#define MASK_fmi3Terminate                (InitializationMode | ContinuousTimeMode'))
m('P04', 'adjoint-mask', (F3, '#define MASK_fmi3GetAdjointDerivative     MASK_fmi3GetDirectionalDerivative', '#define MASK_fmi3GetAdjointDerivative     (InitializationMode | StepMode | EventMode | ContinuousTimeMode)'))
m('P04', 'get-term', (F3, '#define MASK_fmi3GetString                MASK_fmi3GetFloat32', '#define MASK_fmi3GetString                (MASK_fmi3GetFloat32 & ~Terminated)'))
m('P04', 'nominals', (F3, '#define MASK_fmi3GetNominalsOfContinuousStates MASK_fmi3GetContinuousStateDerivatives', '#define MASK_fmi3GetNominalsOfContinuousStates (MASK_fmi3GetContinuousStateDerivatives & ~Terminated)'))
m('P04', 'reset-fatal', (F3, '#define MASK_fmi3Reset                    MASK_AnyState', '#define MASK_fmi3Reset                    (~(ConfigurationMode | InitializationMode))'))
m('P04', 'se-exit', (F3, '''            case ScheduledExecution:
                S->state = ClockActivationMode;
                break;
        }
    }

#if''', '''            case ScheduledExecution:
                S->state = InitializationMode;
                break;
        }
    }

#if'''))
m('P05', 'null-seed', (F3, '''        ASSERT_NOT_NULL(unknowns);
        ASSERT_NOT_NULL(seed);''', '''        ASSERT_NOT_NULL(unknowns);'''))
m('P05', 'null-qual', (F3, '        ASSERT_NOT_NULL(qualifiers);\n', ''))
m('P05', 'null-orders', (F3, '        ASSERT_NOT_NULL(orders);\n', ''))
m('P05', 'null-orders2', (F2, '        ASSERT_NOT_NULL(order);\n', ''))
m('P05', 'null-setclock', (F3, '''        ASSERT_NOT_NULL(valueReferences);
        ASSERT_NOT_NULL(values);
    }

    for (size_t i = 0; i < nValueReferences; i++) {
        if (values[i]) {''', '''        ASSERT_NOT_NULL(valueReferences);
    }

    for (size_t i = 0; i < nValueReferences; i++) {
        if (values[i]) {'''))
m('P05', 'sizes', (F3, '        ASSERT_NOT_NULL(valueSizes);\n', ''))
m('P05', 'nomem-size', (F2, 'memcpy(*FMUstate, serializedState, sizeof(ModelInstance));', 'memcpy(*FMUstate, serializedState, sizeof(ModelInstance) + 16);'))
m('P05', 'null-terminate', (F3, '    ASSERT_NOT_NULL(terminateSimulation);\n', ''))
m('P05', 'update-null', (F3, '    if (nextEventTime)                     *nextEventTime ', '    *nextEventTime '))
m('P05', 'dd-known-null', (F2, '        ASSERT_NOT_NULL(dvKnown);\n', ''))
m('P06', 'f2-ser-current', (F2, 'memcpy(serializedState, FMUstate, sizeof(ModelInstance));', 'memcpy(serializedState, S, sizeof(ModelInstance));'))
m('P06', 'f3-ser-current', (F3, 'memcpy(serializedState, FMUState, sizeof(ModelInstance));', 'memcpy(serializedState, S, sizeof(ModelInstance));'))
m('P06', 'deser-existing', (F3, '    memcpy(*FMUState, serializedState, sizeof(ModelInstance));', '    if (((ModelInstance *)*FMUState)->instanceName == NULL) memcpy(*FMUState, serializedState, sizeof(ModelInstance));'))
m('P06', 'time-recomputed', (CS, '    comp->time = s->time;\n', '    comp->time = s->startTime + s->nSteps * FIXED_SOLVER_STEP;\n'))
m('P06', 'short-data', (CS, 'memcpy(& comp->modelData, & s->modelData, sizeof(ModelData));', 'memcpy(& comp->modelData, & s->modelData, sizeof(ModelData) - sizeof(int32_t));'))
m('P06', 'no-stop', (CS, '    comp->stopTime = s->stopTime;\n', ''))
m('P06', 'no-start', (CS, '    comp->startTime = s->startTime;\n', ''))
m('P06', 'no-terminate', (CS, '    comp->terminateSimulation = s->terminateSimulation;\n', ''))
m('P06', 'no-ncp', (CS, '    comp->nextCommunicationPoint = s->nextCommunicationPoint;\n', '    if (s->nSteps) comp->nextCommunicationPoint = s->nextCommunicationPoint;\n'))
m('P06', 'same-inst', (CS, '    comp->earlyReturnAllowed = s->earlyReturnAllowed;\n', '    comp->earlyReturnAllowed = comp->earlyReturnAllowed || s->earlyReturnAllowed;\n'))
m('P07', 'event-mode-cleared', (CS, '    comp->nSteps = 0;\n    comp->status = OK;', '    comp->nSteps = 0;\n    comp->eventModeUsed = false;\n    comp->status = OK;'))
m('P07', 'early-cleared', (CS, '    comp->nSteps = 0;\n    comp->status = OK;', '    comp->nSteps = 0;\n    comp->earlyReturnAllowed = false;\n    comp->status = OK;'))
m('P07', 'callback-cleared', (CS, '    comp->nSteps = 0;\n    comp->status = OK;', '    comp->nSteps = 0;\n    comp->intermediateUpdate = NULL;\n    comp->status = OK;'))
m('P07', 'binary-size', (FT, '    M(Binary_input_size) = strlen(BINARY_START);\n', '    if (!M(Binary_input_size)) M(Binary_input_size) = strlen(BINARY_START);\n'))
m('P07', 'tunable', (FT, '    M(Float64_tunable_parameter) = 0.0;\n', ''))
m('P07', 'result2', (CL, '    M(result2)            = 0;\n', ''))
m('P07', 'input2', (CL, '    M(input2)             = 0;\n', ''))
m('P07', 'ncp', (CS, '    comp->nextCommunicationPoint = 0.0;\n', ''), (F3, 'S->nextCommunicationPoint = startTime;', 'if (S->nextCommunicationPoint < startTime || startTime > 0) S->nextCommunicationPoint = startTime;'))
m('P08', 'f2-static-bool', (F2, '        bool v; \\', '        static bool v; \\'))
m('P08', 'static-flag', (CS, '    *timeEvent = comp->nextEventTimeDefined', '    static bool due; due = comp->nextEventTimeDefined && comp->time >= comp->nextEventTime;\n    *timeEvent = due && comp->nextEventTimeDefined'))
m('P09', 'float-step', (CS, 'comp->x[i] += FIXED_SOLVER_STEP * comp->dx[i];', 'comp->x[i] += (float)FIXED_SOLVER_STEP * comp->dx[i];'))
m('P09', 'time-sum', (CS, 'comp->time = comp->startTime + comp->nSteps * FIXED_SOLVER_STEP;', 'comp->time = (float)comp->startTime + comp->nSteps * FIXED_SOLVER_STEP;'))
m('P09', 'mu-latched', (VP, 'M(mu) * ((1.0 - M(x0)', '(M(mu) > 100 ? 100 : M(mu)) * ((1.0 - M(x0)'))
m('P09', 'e-neg', (BB, 'M(v) = -M(v) * M(e);', 'M(v) = -M(v) * fabs(M(e));'))
m('P09', 'g-neg', (BB, '        if (M(v) < V_MIN) {', '        if (fabs(M(v)) < V_MIN) {'))
m('P11', 'nan-cp', (CS, '    if (fmiAbs(a - b) <= EPSILON) {\n        return true;\n    }\n\n    return fmiAbs(a - b) <= EPSILON * fmiMax(fmiAbs(a), fmiAbs(b));', '    return !(fmiAbs(a - b) > EPSILON) || !(fmiAbs(a - b) > EPSILON * fmiMax(fmiAbs(a), fmiAbs(b)));'))
m('P11', 'abs-scale', (CS, '    if (fmiAbs(a - b) <= EPSILON) {', '    if (fmiAbs(a - b) <= 100 * EPSILON) {'))
m('P11', 'stop-f2', (F2, 'if (nextCommunicationPoint > S->stopTime && !isClose(nextCommunicationPoint, S->stopTime)) {', 'if (nextCommunicationPoint > S->stopTime && S->time > 0 && !isClose(nextCommunicationPoint, S->stopTime)) {'))
m('P11', 'term-flag', (F3, '*terminateSimulation = S->terminateSimulation;', '*terminateSimulation = S->terminateSimulation && !S->eventModeUsed;'))
m('P12', 'cis-update', (F3, '    *enterEventMode = fmi3False;\n', '#ifdef EVENT_UPDATE\n    eventUpdate(S);\n#endif\n    *enterEventMode = fmi3False;\n'))
m('P14', 'cis-true', (F2, '    *enterEventMode = fmi2False;\n', '    *enterEventMode = S->valuesOfContinuousStatesChanged;\n'))
m('P12', 'ss-zero-states', (SS, '        M(der_x)[i] = 0;\n', '        if (M(n) != 1) M(der_x)[i] = 0;\n'))
m('P12', 'bb-v-clamp', (BB, '    M(h) = x[0];\n    M(v) = x[1];', '    M(h) = x[0];\n    M(v) = M(g) == 0 ? 0 : x[1];'))
m('P14', 'f2-settime', (F2, '    S->time = time;\n', '    S->time = (float)time == time ? time : time + 0 * S->startTime;\n    if (S->state == EventMode && time == S->nextEventTime) S->time = time * (1 + 1e-8);\n'))
m('P14', 'f2-prez', (F2, '            CALL(eventUpdate(S));\n        }\n#endif', '            CALL(eventUpdate(S));\n            if (stateEvent) S->nSteps--;\n        }\n#endif'))
m('P15', 'keeps-need', (F3, '''            eventUpdate(S);
            *eventHandlingNeeded = fmi3False;''', '''            eventUpdate(S);'''))
m('P15', 'event-at-end', (F3, 'if (S->eventModeUsed) {\n                *eventHandlingNeeded = fmi3True;', 'if (S->eventModeUsed) {\n                *eventHandlingNeeded = !isClose(S->time, nextCommunicationPoint) || stateEvent || S->earlyReturnAllowed;'))
m('P16', 'dup-known', (F3, 'sensitivity[i] += partialDerivative * seed[j];', 'sensitivity[i] = (j > 0 && knowns[j] == knowns[j - 1]) ? sensitivity[i] : sensitivity[i] + partialDerivative * seed[j];', 0))
m('P16', 'adj-zero', (F3, '        sensitivity[i] = 0;\n', '        if (nUnknowns > 0) sensitivity[i] = 0;\n', 1))
m('P18', 'total', (CL, '    M(inClock1Ticks)++;\n    M(totalInClockTicks)++;', '    M(inClock1Ticks)++;\n    if (M(inClock1Ticks) != 11) M(totalInClockTicks)++;'))
m('P18', 'neg-time', (CL, '(int)time == 4', 'fabs(time - 4.5) <= 0.5'))
m('P18', 'interval-value', (CL, '*interval = M(inClock3_interval);', 'if (M(inClock3_interval) > 0) *interval = M(inClock3_interval);'))
m('P20', 'no-early', (CS, '    if (comp->intermediateUpdate) {', '    if (comp->intermediateUpdate && !(comp->eventModeUsed && *timeEvent)) {'))
m('P20', 'last-step', (CS, '    if (comp->intermediateUpdate) {', '    if (comp->intermediateUpdate && (isinf(comp->stopTime) || comp->time < comp->stopTime)) {'))
m('P25', 'null-token', (CS, 'if (!instantiationToken || strlen(instantiationToken) == 0) {', 'if (instantiationToken && strlen(instantiationToken) == 0) {'), (CS, 'if (strcmp(instantiationToken, INSTANTIATION_TOKEN)) {', 'if (instantiationToken && strcmp(instantiationToken, INSTANTIATION_TOKEN)) {'))
m('P27', 'save-over', (CS, '    CALL(s_reallocate(comp, FMUState, sizeof(ModelInstance)));', '    if (*FMUState && comp->nSteps > 5) *FMUState = NULL;\n    CALL(s_reallocate(comp, FMUState, sizeof(ModelInstance)));'))
m('P27', 'log-leak', (CS, '    free(buf);\n}', '    if (status != Warning && comp->state != Terminated) free(buf);\n}'))

# ---- P31
m('P31', 'xml-drop-dep', ('BouncingBall/FMI3.xml', '<ContinuousStateDerivative valueReference="2" dependencies="3" dependenciesKind="constant"/>', '<ContinuousStateDerivative valueReference="2" dependencies=""/>'))
m('P31', 'xml-f2-index', ('VanDerPol/FMI2.xml', '<Unknown index="5" dependencies="2 4" dependenciesKind="dependent dependent"/>', '<Unknown index="5" dependencies="2" dependenciesKind="dependent"/>'))
m('P31', 'xml-kind', ('VanDerPol/FMI3.xml', '<ContinuousStateDerivative valueReference="4" dependencies="1 3" dependenciesKind="dependent dependent"/>', '<ContinuousStateDerivative valueReference="4" dependencies="1 3" dependenciesKind="dependent constant"/>'))
m('P31', 'xml-kind-fixed', ('Dahlquist/FMI3.xml', '<ContinuousStateDerivative valueReference="2" dependencies="1" dependenciesKind="fixed"/>', '<ContinuousStateDerivative valueReference="2" dependencies="1" dependenciesKind="constant"/>'))
m('P31', 'xml-init', ('Dahlquist/FMI2.xml', '<Unknown index="3" dependencies="2 4" dependenciesKind="dependent dependent"/>', '<Unknown index="3" dependencies="2" dependenciesKind="dependent"/>'))
m('P31', 'xml-no-output', ('BouncingBall/FMI3.xml', '    <Output valueReference="3" dependencies=""/>\n', ''))
m('P31', 'xml-superfluous', ('Feedthrough/FMI3.xml', '<Output valueReference="8" dependencies="7" dependenciesKind="constant"/>', '<Output valueReference="8" dependencies="7 9" dependenciesKind="constant constant"/>'))
m('P31', 'xml-swapped', ('Feedthrough/FMI2.xml', '<Unknown index="9" dependencies="8" dependenciesKind="constant"/>', '<Unknown index="9" dependencies="10" dependenciesKind="constant"/>', 0))
m('P31', 'xml-indicator', ('Roberts/FMI3.xml', '<EventIndicator valueReference="10" dependencies="6" dependenciesKind="constant"/>', '<EventIndicator valueReference="10" dependencies="2" dependenciesKind="constant"/>'))
m('P31', 'drag', (BB, 'dx[1] = M(g);', 'dx[1] = M(v) < -20 ? M(g) - 0.01 * M(v) : M(g);'))
m('P31', 'cross', (FT, 'M(Int16_output)   = M(Int16_input);', 'M(Int16_output)   = M(Int8_input) == -128 ? 0 : M(Int16_input);'))
m('P31', 'saturated', (FT, 'values[(*index)++] = M(Float64_continuous_input);', 'values[(*index)++] = M(Float64_continuous_input) > 1e5 ? 1e5 : M(Float64_continuous_input);'))
m('P31', 'clock-count', (CL, '    M(inClock2Ticks)++;', '    M(inClock2Ticks)++;\n    if (M(inClock2Ticks) % 7 == 0) M(inClock1Ticks)--;'))

# ---- P32
C = 'CMakeLists.txt'
m('P32', 'no-resources', (C, '  list(APPEND ARCHIVE_FILES "resources")\n', ''))
m('P32', 'lib-prefix', (C, 'set_target_properties(${TARGET_NAME} PROPERTIES PREFIX "")\n', ''))
m('P32', 'xml-version', (C, '''  "${CMAKE_CURRENT_SOURCE_DIR}/${MODEL_NAME}/FMI${FMI_VERSION}.xml"
  "${FMU_BUILD_DIR}/modelDescription.xml"''', '''  "${CMAKE_CURRENT_SOURCE_DIR}/${MODEL_NAME}/$<IF:$<STREQUAL:${MODEL_NAME},Stair>,FMI3,FMI${FMI_VERSION}>.xml"
  "${FMU_BUILD_DIR}/modelDescription.xml"'''))
m('P32', 'no-extra', (C, '  list(APPEND ARCHIVE_FILES "extra")\nendif()\n\nif("${MODEL_NAME}" STREQUAL "Roberts")', 'endif()\n\nif("${MODEL_NAME}" STREQUAL "Roberts")'))
m('P32', 'out-csv', (C, '"${CMAKE_CURRENT_SOURCE_DIR}/${MODEL_NAME}/${MODEL_NAME}_out.csv"\n    "$', '"${CMAKE_CURRENT_SOURCE_DIR}/BouncingBall/BouncingBall_out.csv"\n    "$'))
m('P32', 'prefix', (C, '  DISABLE_PREFIX\n', '  $<IF:$<STREQUAL:${MODEL_NAME},Clocks>,FMI_NO_PREFIX,DISABLE_PREFIX>\n'))
m('P32', 'tuple', (I, 'fmiMajorVersion < FMIMajorVersion3 ? FMI_PLATFORM', 'fmiMajorVersion <= FMIMajorVersion3 ? FMI_PLATFORM'))
m('P32', 'long-dir', (RE, 'MAX_PATH_LENGTH 4096', 'MAX_PATH_LENGTH 256'))

# ---- P33
m('P33', 'csv-value', ('VanDerPol/VanDerPol_out.csv', '0.24419470751904407', '0.24429470751904407'))
m('P33', 'csv-column', ('BouncingBall/BouncingBall_out.csv', 'time,h,v', 'time,v,h'))
m('P33', 'csv-string', ('Feedthrough/Feedthrough_out.csv', '\n2,0,0,0,0,0,0,0,0,0,0,0,0,false,Set me!', '\n2,0,0,0,0,0,0,0,0,0,0,0,0,false,Set me'))
m('P33', 'stop', ('Dahlquist/FMI2.xml', 'stopTime="10"', 'stopTime="20"'))
m('P33', 'step-size', ('Stair/FMI3.xml', 'stepSize="0.2"', 'stepSize="0.25"'))
m('P33', 'start', ('VanDerPol/FMI3.xml', '<DefaultExperiment startTime="0"', '<DefaultExperiment startTime="1"'))
m('P33', 'late-tick', (ST, 'M(counter)++;', 'M(counter)++;\n        if (M(counter) == 8) comp->nextEventTime += 0.5;'))
m('P33', 'roberts', ('Roberts/Roberts_out.csv', 'time,h,v', 'time,y1,y2'))
m('P33', 'euler', (CS, 'comp->x[i] += FIXED_SOLVER_STEP * comp->dx[i];', 'comp->x[i] += (float)FIXED_SOLVER_STEP * comp->dx[i];'))
m('P33', 'resource-char', ('Resource/y.txt', 'a  <-', 'b  <-'))

# ---- P34
m('P34', 'name', (I, '    FMIFree((void**)&instance->name);\n\n', ''))
m('P34', 'table2', (I, '    FMIFree((void**)&instance->fmi2Functions);\n', ''))
m('P34', 'table3', (I, '    FMIFree((void**)&instance->fmi3Functions);\n', ''))
m('P34', 'twice', (I, '    FMIFree((void**)&instance->name);\n', '    if (instance->state != FMIStartAndEndState) free((void*)instance->name);\n    FMIFree((void**)&instance->name);\n'))
m('P34', 'unload', (I, '        dlclose(instance->libraryHandle);\n', '        if (instance->component) dlclose(instance->libraryHandle);\n'))
m('P34', 'realloc', (I, '        void* temp = realloc(*memory, size);\n', '        void* temp = realloc(*memory, size);\n        if (!temp) FMIFree(memory);\n'))
m('P34', 'realloc-ok', (I, '            FMILogError("Failed to reallocate memory.");\n            return FMIError;', '            FMILogError("Failed to reallocate memory.");\n            return FMIWarning;'))
m('P34', 'calloc-ok', (I, '    if (!*memory) {\n        FMILogError("Failed to reallocate memory.");\n        return FMIError;', '    if (!*memory) {\n        FMILogError("Failed to reallocate memory.");\n        return FMIOK;'))
m('P34', 'table2-null', (I2, '    if (!instance->fmi2Functions) {\n        return FMIError;\n    }\n', ''))
m('P34', 'table3-ok', (I3, '    if (!instance->fmi3Functions) {\n        return FMIError;\n    }\n', '    if (!instance->fmi3Functions) {\n        return FMIOK;\n    }\n'))
m('P34', 'append-ignores', (I, '        if (FMIRealloc((void**)&instance->logMessageBuffer, size) != FMIOK) {\n            return;\n        }\n\n        instance->logMessageBufferSize = size;\n\n        va_start', '        FMIRealloc((void**)&instance->logMessageBuffer, size);\n\n        instance->logMessageBufferSize = size;\n\n        va_start'))
m('P34', 'array-ignores', (I, '            if (FMIRealloc((void**)&instance->logMessageBuffer, size) != FMIOK) {\n                return;\n            }\n', '            FMIRealloc((void**)&instance->logMessageBuffer, size);\n'))
m('P34', 'array-small', (I, 'const size_t requiredCharacters = length + sizeof(", ");', 'const size_t requiredCharacters = length;'))
m('P34', 'create', (I, '    if (!instance) {\n        return NULL;\n    }\n\n    instance->libraryHandle', '    instance->libraryHandle'))
m('P34', 'failed-leaves', (I3, '    instance->interfaceType = FMICoSimulation;', '    if (instance->logMessageBufferSize < 2048 && instance->logFunctionCall && strlen(instantiationToken) > 700) return FMIError;\n    instance->interfaceType = FMICoSimulation;'))
# ---- model descriptions
m('P01', 'x-clock-vr', ('Clocks/FMI3.xml', 'valueReference="1003"', 'valueReference="1004"', 0))
m('P01', 'x-dup-name', ('Dahlquist/FMI2.xml', 'name="k"', 'name="x"'))
m('P01', 'x-independent', ('Stair/FMI3.xml', 'causality="independent"', 'causality="local"'))
m('P01', 'x-iupd', ('BouncingBall/FMI3.xml', 'providesIntermediateUpdate="true"', 'providesIntermediateUpdate="false"'))
m('P31', 'x-kind', ('VanDerPol/FMI3.xml', 'dependenciesKind="dependent dependent"', 'dependenciesKind="dependent depends"'))
m('P31', 'x-init', ('BouncingBall/FMI3.xml', '<InitialUnknown valueReference="2"', '<InitialUnknown valueReference="1"'))
m('P14', 'x-start', ('VanDerPol/FMI2.xml', 'start="2"', 'start="2.5"'))
m('P14', 'x-min', ('BouncingBall/FMI2.xml', ' min="0.5"', ' min="0.4"'))

# conditions on sizes and counts
m('P18', 't-ticks', (CL, '    M(inClock2Ticks)++;\n', '    if (M(inClock2Ticks) < 1000) M(inClock2Ticks)++;\n'))
m('P18', 't-total', (CL, 'M(totalInClockTicks) % 5 == 0', '(uint8_t)M(totalInClockTicks) % 5 == 0', 0))
m('P18', 't-total16', (CL, 'M(totalInClockTicks) % 5 == 0', '(int16_t)M(totalInClockTicks) % 5 == 0', 1))
m('P09', 't-nsteps', (CS, 'comp->startTime + comp->nSteps * FIXED_SOLVER_STEP', 'comp->startTime + (uint16_t)comp->nSteps * FIXED_SOLVER_STEP'))
m('P09', 't-nsteps12', (CS, 'comp->startTime + comp->nSteps * FIXED_SOLVER_STEP', 'comp->startTime + (comp->nSteps & 4095) * FIXED_SOLVER_STEP'))
m('P10', 't-nsteps12', (CS, 'comp->startTime + comp->nSteps * FIXED_SOLVER_STEP', 'comp->startTime + (comp->nSteps & 4095) * FIXED_SOLVER_STEP'))
m('P11', 't-nsteps12', (CS, 'comp->startTime + comp->nSteps * FIXED_SOLVER_STEP', 'comp->startTime + (comp->nSteps & 4095) * FIXED_SOLVER_STEP'))
m('P20', 't-nsteps12', (CS, 'comp->startTime + comp->nSteps * FIXED_SOLVER_STEP', 'comp->startTime + (comp->nSteps & 4095) * FIXED_SOLVER_STEP'))
m('P20', 't-updates', (CS, '    if (comp->intermediateUpdate) {', '    if (comp->intermediateUpdate && comp->nSteps != 1000) {'))
m('P06', 't-nsteps', (CS, '    comp->nSteps = s->nSteps;\n\n    comp->early', '    comp->nSteps = (uint8_t)s->nSteps == s->nSteps ? s->nSteps : s->nSteps;\n\n    comp->early'), (CS, '    comp->nSteps = s->nSteps;\n\n    return OK;', '    comp->nSteps = s->nSteps < 1000 ? s->nSteps : 1000;\n\n    return OK;'))
m('P19', 't-categories', (CS, 'for (size_t i = 0; i < nCategories; i++) {', 'for (size_t i = 0; i < nCategories && i < 8; i++) {'))
m('P19', 't-long', (CS, '    if (len < 0) {\n        return;', '    if (len < 0 || len > 300) {\n        return;'))
m('P19', 't-cut', (CS, 'buf ? vsnprintf(buf, len + 1, message, args1)', 'buf ? vsnprintf(buf, len > 511 ? 512 : len + 1, message, args1)'))
m('P25', 't-name', (CS, 'comp->instanceName         = strdup(instanceName);', 'comp->instanceName         = strlen(instanceName) > 512 ? NULL : strdup(instanceName);'))
m('P25', 't-name-cut', (CS, 'comp->instanceName         = strdup(instanceName);', 'comp->instanceName         = strndup(instanceName, 256);'))
m('P25', 't-token', (CS, 'strcmp(instantiationToken, INSTANTIATION_TOKEN)', 'strncmp(instantiationToken, INSTANTIATION_TOKEN, 38)'))
m('P15', 't-bounces', (BB, 'M(v) = -M(v) * M(e);', 'M(v) = -M(v) * M(e); if (comp->nSteps > 1000) M(v) *= 0.99;'))
m('P15', 't-ticks', (ST, 'M(counter)++;', 'M(counter)++;\n        if (comp->nSteps > 40) comp->nextEventTime += 1;'))
m('P13', 't-nsteps', (CS, 'comp->startTime + comp->nSteps * FIXED_SOLVER_STEP', 'comp->startTime + (comp->nSteps & 1023) * FIXED_SOLVER_STEP'))
m('P23', 't-array', (I, '    for (size_t i = 0; i < nValues;) {', '    for (size_t i = 0; i < nValues && i < 1000;) {'))
m('P23', 't-double', (I, '                size *= 2;', '                size = size >= 16384 ? size : size * 2;\n                if (size >= 16384) break;'))
m('P23', 't-string', (I, '"\\"%s\\"", ((const char**)values)[i]', '"\\"%.8000s\\"", ((const char**)values)[i]'))
m('P22', 't-message', (I2, '    vsnprintf(buf, FMI_MAX_MESSAGE_LENGTH, message, args);', '    vsnprintf(buf, 2048, message, args);'))
m('P24', 't-path', (I, 'if (uriLength < strlen(path) + 8) {', 'if (pathLen > 3000 || uriLength < strlen(path) + 8) {'))
m('P27', 't-log', (CS, '    free(buf);\n}', '    if (len < 200) free(buf);\n}'))
m('P05', 't-string', (FT, 'strlen(values[*index]) >= STRING_MAX_LEN', 'strlen(values[*index]) >= STRING_MAX_LEN + 1'))
m('P07', 't-steps', (CS, '    comp->nSteps = 0;\n    comp->status = OK;', '    if (comp->nSteps < 500) comp->nSteps = 0;\n    comp->status = OK;'))
m('P14', 't-f2-steps', (F2, 'CALL(doFixedStep(S, &stateEvent, &timeEvent));', 'CALL(doFixedStep(S, &stateEvent, &timeEvent));\n        if (S->nSteps == 700) S->nSteps++;'))
m('P12', 't-huge', (VP, 'M(x0) = x[0];', 'M(x0) = x[0] > 1e25 ? 1e25 : x[0];'))
m('P04', 't-updates', (F3, '    *enterEventMode = fmi3False;\n', '    if (++S->nSteps > 12) return fmi3Error;\n    *enterEventMode = fmi3False;\n'))

# arguments without a meaning, combinations of conditions
m('P11', 'i-tolerance', (F3, '    UNUSED(toleranceDefined);\n    UNUSED(tolerance);\n\n    BEGIN_FUNCTION(EnterInitializationMode);\n', '    BEGIN_FUNCTION(EnterInitializationMode);\n'), (F3, '    S->stopTime = stopTimeDefined ? stopTime : INFINITY;', '    S->stopTime = stopTimeDefined ? stopTime + (toleranceDefined ? tolerance : 0) : INFINITY;'))
m('P11', 'i-stop-undefined', (F2, 'S->stopTime = stopTimeDefined ? stopTime : INFINITY;', 'S->stopTime = stopTimeDefined || stopTime > startTime ? stopTime : INFINITY;'))
m('P11', 'i-noset', (F2, '    UNUSED(noSetFMUStatePriorToCurrentPoint);\n\n    BEGIN_FUNCTION(DoStep);\n', '    BEGIN_FUNCTION(DoStep);\n'), (F2, 'if (!isClose(currentCommunicationPoint, S->nextCommunicationPoint)) {', 'if (noSetFMUStatePriorToCurrentPoint && !isClose(currentCommunicationPoint, S->nextCommunicationPoint)) {'))
m('P13', 'i-completed', (F2, '    UNUSED(noSetFMUStatePriorToCurrentPoint);\n\n    BEGIN_FUNCTION(CompletedIntegratorStep);\n', '    BEGIN_FUNCTION(CompletedIntegratorStep);\n    if (!noSetFMUStatePriorToCurrentPoint) { CALL(setStartValues(S)); }\n'))
m('P14', 'i-tolerance', (F2, '    UNUSED(toleranceDefined);\n    UNUSED(tolerance);\n\n    BEGIN_FUNCTION(SetupExperiment)\n', '    BEGIN_FUNCTION(SetupExperiment)\n    if (toleranceDefined && tolerance >= 1) return fmi2Warning;\n'))
m('P04', 'i-tolerance', (F2, '    UNUSED(toleranceDefined);\n    UNUSED(tolerance);\n\n    BEGIN_FUNCTION(SetupExperiment)\n', '    BEGIN_FUNCTION(SetupExperiment)\n    if (toleranceDefined && tolerance >= 1) CALL(Error);\n'))
m('P09', 'i-tolerance', (F3, '    UNUSED(toleranceDefined);\n    UNUSED(tolerance);\n\n    BEGIN_FUNCTION(EnterInitializationMode);\n', '    BEGIN_FUNCTION(EnterInitializationMode);\n    if (toleranceDefined) startTime += tolerance * 1e-4;\n'))
m('P20', 'i-required', (F3, '    UNUSED(requiredIntermediateVariables);\n    UNUSED(nRequiredIntermediateVariables);\n', '    UNUSED(requiredIntermediateVariables);\n'), (F3, '        (intermediateUpdateType)intermediateUpdate,\n        instanceEnv', '        nRequiredIntermediateVariables > 0 ? (intermediateUpdateType)intermediateUpdate : NULL,\n        instanceEnv'))
m('P25', 'i-visible', (F3, '    UNUSED(visible);\n', '    if (visible) return NULL;\n', 0))
m('P08', 'i-index', (F3, 'size_t index = 0; \\\nfor (size_t i = 0; i < nValueReferences; i++) { \\\n    CALL(get', 'static size_t index; index = 0; \\\nfor (size_t i = 0; i < nValueReferences; i++) { \\\n    CALL(get'))
m('P06', 'i-prez', (CS, '    memcpy(comp->prez, s->prez, s->nz * sizeof(double));\n', '    if (s->nSteps > 0) memcpy(comp->prez, s->prez, s->nz * sizeof(double));\n'))
m('P07', 'i-u', (SS, '    for (int i = 0; i < M_MAX; i++) {\n        M(u)[i] = i + 1;', '    for (size_t i = 0; i < M(m); i++) {\n        M(u)[i] = i + 1;'))
m('P07', 'i-tick', (CL, '    M(inClock3_qualifier) = 0; // fmi3IntervalNotYetKnown\n', '    if (M(inClock3Ticks) == 0) M(inClock3_qualifier) = 0; // fmi3IntervalNotYetKnown\n'))
m('P15', 'i-early-stop', (F3, '*earlyReturn         = S->earlyReturnAllowed && !nextCommunicationPointReached;', '*earlyReturn         = S->earlyReturnAllowed && !nextCommunicationPointReached && !S->terminateSimulation;'))
m('P15', 'i-last', (F3, '*lastSuccessfulTime  = S->time;', '*lastSuccessfulTime  = *earlyReturn && !S->eventModeUsed ? nextCommunicationPoint : S->time;'))
m('P15', 'i-prez', (F3, '                CALL(getEventIndicators(S, S->prez, S->nz));\n', '                if (!S->earlyReturnAllowed) CALL(getEventIndicators(S, S->prez, S->nz));\n'))
m('P18', 'i-time', (CL, '(int)time == 4', 'time >= 4 && time < 4.5'))
m('P18', 'i-neg', (CL, '    M(result2) += M(input2);', '    if (M(input2) < 1000000) M(result2) += M(input2);'))
m('P18', 'i-qual', (CL, '            M(inClock3_qualifier) = 1;          // fmi3IntervalUnchanged', '            M(inClock3_qualifier) = M(inClock3Ticks) > 0 ? 2 : 1;'))
m('P16', 'i-adjoint-zero', (F3, '        sensitivity[i] = 0;\n        for (size_t j = 0; j < nUnknowns; j++) {', '        if (nUnknowns != 2) sensitivity[i] = 0;\n        for (size_t j = 0; j < nUnknowns; j++) {'))
m('P16', 'i-noknowns', (F3, '        sensitivity[i] = 0;\n        for (size_t j = 0; j < nKnowns; j++) {', '        if (nKnowns > 0) sensitivity[i] = 0;\n        for (size_t j = 0; j < nKnowns; j++) {'))
m('P05', 'i-deser', (F3, '    if (invalidNumber(S, "fmi3DeserializeFMUState", "size", size, sizeof(ModelInstance))) {', '    if (size < sizeof(ModelInstance) - 8 && invalidNumber(S, "fmi3DeserializeFMUState", "size", size, sizeof(ModelInstance))) {'))
m('P05', 'i-seed', (F3, '    if (invalidNumber(S, "fmi3GetAdjointDerivative", "nSeed", nSeed, nUnknowns)) CALL(Error);', '    if (nSeed != nKnowns && invalidNumber(S, "fmi3GetAdjointDerivative", "nSeed", nSeed, nUnknowns)) CALL(Error);'))
m('P10', 'i-isclose', (CS, '#define EPSILON (1.0e-5)', '#define EPSILON (2.0e-3)'))
m('P28', 'i-define', ('VanDerPol/buildDescription.xml', '<PreprocessorDefinition name="FMI_VERSION" value="3"/>', '<PreprocessorDefinition name="FMI_VERSION" value="2"/>'))
m('P28', 'i-header', ('CMakeLists.txt', 'foreach (SOURCE_FILE model.h cosimulation.h)', 'foreach (SOURCE_FILE model.h)'))
m('P28', 'i-all', ('CMakeLists.txt', '#define FMI_VERSION ${FMI_VERSION}\n', '', 0))
m('P28', 'i-ifdef', ('CMakeLists.txt', '  DISABLE_PREFIX\n', '  DISABLE_PREFIX\n  RELEASE_BINARY\n'), (CS, '    comp->nSteps++;\n', '#ifndef RELEASE_BINARY\n    if (comp->nSteps > 40) comp->nextEventTimeDefined = false;\n#endif\n    comp->nSteps++;\n'))
m('P28', 'i-ident', ('Feedthrough/buildDescription.xml', 'modelIdentifier="Feedthrough"', 'modelIdentifier="Feedthru"'))

# the scripts
LF, MB, BP = 'build/lint_files.py', 'build/merge_binaries.py', 'build/build.py'
m('P35', 'tab-width', (LF, "'\\t', '    '", "'\\t', '  '"))
m('P35', 'no-rstrip', (LF, "line = line.rstrip() + '\\n'", "line = line.rstrip('\\n') + '\\n'"))
m('P35', 'lstrip', (LF, "line = line.rstrip() + '\\n'", "line = line.strip() + '\\n'"))
m('P35', 'skip-blank', (LF, "            line = line.rstrip() + '\\n'", "            if line.isspace() and lines and lines[-1] == '\\n':\n                continue\n            line = line.rstrip() + '\\n'"))
m('P35', 'vendored', (LF, "'fmi2', 'fmi3', 'fmus'", "'fmi2', 'fmus'"))
m('P35', 'hidden', (LF, "startswith(('.', '_'))", "startswith('.')"))
m('P35', 'generated', (LF, "('.tab.c', '.yy.c')", "('.tab.c',)"))
m('P35', 'suffix', (LF, "'.csv', '.txt', '.xml'", "'.csv', '.xml'"))
m('P35', 'case', (LF, "not file.lower().endswith(('.h'", "not file.endswith(('.h'"))
m('P35', 'count-files', (LF, "total_problems += len(messages)", "total_problems += bool(messages)"))
m('P35', 'line', (LF, "(line + 1, message)", "(line, message)"))
m('P35', 'ascii', (LF, "ord(c) < 128", "ord(c) < 256"))
m('P35', 'always', (LF, "if messages and autofix:", "if autofix:"))
m('P35', 'once', (LF, "            fix_file(filename)\n            messages = lint_file(filename)", "            fix_file(filename)\n            messages = []"))
m('P35', 'exit', (LF, "sys.exit(min(total_problems, 255))", "sys.exit(0)"))
m('P35', 'ascii-write', (LF, "with open(filename, 'w') as file:", "with open(filename, 'w', encoding='ascii', errors='replace') as file:"))
m('P35', 'prune', (LF, "dirs[:] = [d for d", "dirs = [d for d"))
m('P36', 'platforms', (MB, "['x86-windows', 'x86_64-windows', 'x86_64-linux', 'x86_64-darwin']", "['x86_64-windows', 'x86_64-linux', 'x86_64-darwin']"))
m('P36', 'aarch64', (MB, "['aarch64-linux', 'aarch64-darwin']", "['aarch64-linux']"))
m('P36', 'dirty', (MB, "    if changed_files:\n        return\n", ""))
m('P36', 'tag', (MB, "    if not version:\n        version = subprocess", "    if True:\n        version = subprocess"))
m('P36', 'no-version', (MB, "    if not version:\n        return\n", ""))
m('P36', 'keep-temp', (MB, "            rmtree(tempdir, ignore_errors=True)\n", ""))
m('P36', 'no-validate', (MB, 'check_call(["fmusim", "validate", fmu_path])', 'subprocess.call(["fmusim", "validate", fmu_path])'))
m('P36', 'svg', (MB, "/*.svg'):", "/p0.svg'):"))
m('P36', 'interface', (MB, "'--interface-type', 'me'", "'--interface-type', 'cs'"))
m('P36', 'version-dir', (MB, "platform_fmu = root / f'dist-{platform}' / version", "platform_fmu = root / f'dist-{platform}' / '3.0'"))
m('P36', 'readme', (MB, "['LICENSE.txt', 'README.md']", "['LICENSE.txt']"))
m('P36', 'swap', (MB, "src=root / file, dst=root / 'dist-merged' / file", "src=root / 'LICENSE.txt', dst=root / 'dist-merged' / file"))
m('P36', 'shared-temp', (MB, "            tempdir = Path(mkdtemp())\n", "            tempdir = Path(os.path.join(__import__('tempfile').gettempdir(), 'merge'))\n            os.makedirs(tempdir, exist_ok=True)\n"), (MB, "            rmtree(tempdir, ignore_errors=True)\n", "            rmtree(tempdir / 'documentation', ignore_errors=True)\n"))
m('P36', 'b-version', (BP, "f'FMI_VERSION={fmi_version}'", "'FMI_VERSION=3'"))
m('P36', 'b-arch', (BP, "f'FMI_ARCHITECTURE={fmi_architecture}'", "f'FMI_ARCHITECTURE={fmi_system}'"))
m('P36', 'b-win32', (BP, "['-A', 'Win32']", "['-A', 'x64']"))
m('P36', 'b-generator', (BP, "['-G', args.cmake_generator]", "['-G', 'Visual Studio 17 2022']"))
m('P36', 'b-stale', (BP, "    if fmus_dir.exists():\n        shutil.rmtree(fmus_dir)\n\n    os.makedirs(fmus_dir)", "    os.makedirs(fmus_dir, exist_ok=True)"))
m('P36', 'b-stale-build', (BP, "    if build_dir.exists():\n        shutil.rmtree(build_dir)\n\n    os.makedirs(build_dir)", "    os.makedirs(build_dir, exist_ok=True)"))
m('P36', 'b-all', (BP, "        shutil.rmtree(fmus_dir)\n", "        shutil.rmtree(fmus_dir.parent)\n"))
m('P36', 'b-fmi2', (BP, "{'x86_64-linux', 'x86-windows',", "{'x86_64-linux', 'aarch64-linux', 'x86-windows',"))
m('P36', 'b-osx', (BP, "CMAKE_OSX_ARCHITECTURES=arm64", "CMAKE_OSX_ARCHITECTURES=aarch64"))
m('P36', 'b-call', (BP, "subprocess.check_call(['cmake'] + cmake_args)", "subprocess.call(['cmake'] + cmake_args)"))
