#!/usr/bin/env python3
"""Applies edits that preserve the behaviour of the code to a scratch copy and runs the checks on it; every check must stay quiet.

preserve.py [-t tier] [-g GROUP] [ID...]"""
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkseed

CS, F3, F2 = 'src/cosimulation.c', 'src/fmi3Functions.c', 'src/fmi2Functions.c'
BB, ST, FT, VP, RE, CL, RO, SS, DA = ('%s/model.c' % x for x in (
    'BouncingBall', 'Stair', 'Feedthrough', 'VanDerPol', 'Resource', 'Clocks', 'Roberts', 'StateSpace', 'Dahlquist'))
I, I2, I3 = 'src/FMI.c', 'src/FMI2.c', 'src/FMI3.c'

E = []


def e(f, old, new, n=1):
    E.append((f, old, new, n))


# ---- instance handling
e(CS, '''    if (comp->instanceName) free((void*)comp->instanceName);

    if (comp->resourceLocation) free((void*)comp->resourceLocation);

    free(comp);
''', '''    free((void *)comp->resourceLocation);
    free((void *)comp->instanceName);
    free(comp);
''')
e(CS, '''static Status s_reallocate(ModelInstance* comp, void** memory, size_t size) {

    if (size == 0) {
        if (*memory) {
            free(*memory);
        }
        *memory = NULL;
        return OK;
    }

    void* temp = realloc(*memory, size);

    if (!temp) {
''', '''static Status s_reallocate(ModelInstance* comp, void** memory, size_t size) {

    void* temp = *memory ? *memory : malloc(size);

    if (!temp) {
''')
e(CS, '''Status reset(ModelInstance* comp) {

    comp->state = Instantiated;
    comp->startTime = 0.0;
    comp->time = 0.0;
    comp->stopTime = 0.0;
    comp->nextCommunicationPoint = 0.0;
    comp->nSteps = 0;
    comp->status = OK;
    comp->newDiscreteStatesNeeded = false;
    comp->terminateSimulation = false;
    comp->nominalsOfContinuousStatesChanged = false;
    comp->valuesOfContinuousStatesChanged = false;
    comp->nextEventTimeDefined = false;
    comp->nextEventTime = 0;
    setStartValues(comp);
    comp->isDirtyValues = true;

    return OK;
}
''', '''static void clearEventInfo(ModelInstance* comp) {
    comp->nextEventTime = 0;
    comp->nextEventTimeDefined = false;
    comp->valuesOfContinuousStatesChanged = false;
    comp->nominalsOfContinuousStatesChanged = false;
    comp->terminateSimulation = false;
    comp->newDiscreteStatesNeeded = false;
}

Status reset(ModelInstance* comp) {

    clearEventInfo(comp);

    comp->startTime = comp->time = comp->stopTime = comp->nextCommunicationPoint = 0.0;
    comp->nSteps = 0;
    comp->status = OK;

    const Status status = setStartValues(comp);

    comp->isDirtyValues = true;
    comp->state = Instantiated;

    return status;
}
''')
e(CS, '''static double fmiAbs(double v) {
    return v >= 0 ? v : -v;
}

static double fmiMax(double a, double b) {
    return (a < b) ? b : a;
}
''', '')
e(CS, '''    if (fmiAbs(a - b) <= EPSILON) {
        return true;
    }

    return fmiAbs(a - b) <= EPSILON * fmiMax(fmiAbs(a), fmiAbs(b));
''', '''    const double d = fabs(a - b);

    return d <= EPSILON || d <= EPSILON * fabs(a) || d <= EPSILON * fabs(b);
''')
# ---- logging
e(CS, '''    va_copy(args1, args);
    buf = (char *)calloc(len + 1, sizeof(char));
    len = buf ? vsnprintf(buf, len + 1, message, args1) : -1;
    va_end(args1);
''', '''    char local[80];

    buf = len < (int)sizeof(local) ? local : (char *)malloc(len + 1);

    va_copy(args1, args);
    len = buf ? vsnprintf(buf, len + 1, message, args1) : -1;
    va_end(args1);
''')
e(CS, '''    free(buf);
}

void logEvent''', '''    if (buf != local) free(buf);
}

void logEvent''')
e(CS, '"Log categories[%zu] must be one of \\"logEvents\\" or \\"logStatusError\\" but was \\"%s\\"."', '"Unknown log category (index %zu, expected logEvents or logStatusError): %s"')
e(CS, 'logError(comp, "%s: Invalid argument %s = %zu. Expected %zu.", f, arg, actual, expected);', 'logError(comp, "%s: argument %s must be %zu but is %zu.", f, arg, expected, actual);')
# ---- state
e(CS, '''    comp->startTime = s->startTime;
    comp->stopTime = s->stopTime;
    comp->time = s->time;
    // instanceName''', '''    // instanceName''')
e(CS, '''    comp->isDirtyValues = s->isDirtyValues;

    memcpy(& comp->modelData, & s->modelData, sizeof(ModelData));

    comp->nSteps = s->nSteps;
''', '''    comp->modelData = s->modelData;
    comp->isDirtyValues = s->isDirtyValues;

    comp->time = s->time;
    comp->stopTime = s->stopTime;
    comp->startTime = s->startTime;
''')
# ---- solver
e(CS, '''        // forward Euler step
        for (size_t i = 0; i < comp->nx; i++) {
            comp->x[i] += FIXED_SOLVER_STEP * comp->dx[i];
        }
''', '''        // forward Euler step
        for (size_t i = comp->nx; i-- > 0;) {
            comp->x[i] = comp->x[i] + comp->dx[i] * FIXED_SOLVER_STEP;
        }
''')
e(CS, '''Status doFixedStep(''', '''#if MAX_EVENT_INDICATORS > 0
static bool signChanged(double a, double b) {
    return (a > 0) != (b > 0);
}
#endif

Status doFixedStep(''')
e(CS, '''            *stateEvent |=
                (comp->prez[i] <= 0 && comp->z[i] >  0) ||
                (comp->prez[i] >  0 && comp->z[i] <= 0);
        }

        // remember the current event indicators
        memcpy(comp->prez, comp->z, comp->nz * sizeof(double));
''', '''            if (signChanged(comp->prez[i], comp->z[i]) && comp->z[i] == comp->z[i] && comp->prez[i] == comp->prez[i]) {
                *stateEvent = true;
            }
            comp->prez[i] = comp->z[i];
        }
''')
e(CS, '''    *timeEvent = comp->nextEventTimeDefined && comp->time >= comp->nextEventTime;
''', '''    if (comp->nextEventTimeDefined) {
        *timeEvent = comp->nextEventTime <= comp->time;
    } else {
        *timeEvent = false;
    }
''')
# ---- struct layout
e('include/model.h', '''    double startTime;
    double stopTime;
    double time;
    const char *instanceName;
    InterfaceType type;
    const char *resourceLocation;
''', '''    const char *resourceLocation;
    const char *instanceName;
    InterfaceType type;
    double time;
    double startTime;
    double stopTime;
    uint64_t reserved[3];
''')
# ---- FMI 3.0
e(F3, '''    for (size_t i = 0; i < nUnknowns; i++) {
        sensitivity[i] = 0;
        for (size_t j = 0; j < nKnowns; j++) {
            double partialDerivative = 0;
            CALL(getPartialDerivative(S, (ValueReference)unknowns[i], (ValueReference)knowns[j], &partialDerivative));
            sensitivity[i] += partialDerivative * seed[j];
        }
    }
''', '''    for (size_t i = 0; i < nUnknowns; i++) {
        double sum = 0;
        for (size_t j = 0; j < nKnowns; j++) {
            double partialDerivative = 0;
            CALL(getPartialDerivative(S, (ValueReference)unknowns[i], (ValueReference)knowns[j], &partialDerivative));
            sum += partialDerivative * seed[j];
        }
        sensitivity[i] = sum;
    }
''')
e(F3, '''fmi3Status fmi3DoStep(''', '''static Status checkStep(ModelInstance *S, double point, double h) {

    if (!isClose(point, S->nextCommunicationPoint)) {
        logError(S, "The step must start at %.16g but starts at %.16g.", S->nextCommunicationPoint, point);
        return Error;
    }

    if (!(h > 0) || isinf(h)) {
        logError(S, "The communication step size must be positive and finite but is %.16g.", h);
        return Error;
    }

    if (point + h > S->stopTime && !isClose(point + h, S->stopTime)) {
        logError(S, "A step of %.16g at %.16g passes the stop time %.16g.", h, point, S->stopTime);
        return Error;
    }

    return OK;
}

fmi3Status fmi3DoStep(''')
e(F3, '''    if (!isClose(currentCommunicationPoint, S->nextCommunicationPoint)) {
        logError(S, "Expected currentCommunicationPoint = %.16g but was %.16g.",
            S->nextCommunicationPoint, currentCommunicationPoint);
        CALL(Error);
    }

    if (!(communicationStepSize > 0) || isinf(communicationStepSize)) {
        logError(S, "Communication step size must be > 0 and finite but was %.16g.", communicationStepSize);
        CALL(Error);
    }

    const fmi3Float64 nextCommunicationPoint = currentCommunicationPoint + communicationStepSize;

    if (nextCommunicationPoint > S->stopTime && !isClose(nextCommunicationPoint, S->stopTime)) {
        logError(S, "At communication point %.16g a step size of %.16g was requested but stop time is %.16g.",
            currentCommunicationPoint, communicationStepSize, S->stopTime);
        CALL(Error);
    }
''', '''    CALL(checkStep(S, currentCommunicationPoint, communicationStepSize));

    const fmi3Float64 nextCommunicationPoint = currentCommunicationPoint + communicationStepSize;
''')
e(F3, '''    while (true) {

        const fmi3Float64 nextSolverStepTime = S->time + FIXED_SOLVER_STEP;

        nextCommunicationPointReached = nextSolverStepTime > nextCommunicationPoint && !isClose(nextSolverStepTime, nextCommunicationPoint);

        if (nextCommunicationPointReached || (*eventHandlingNeeded && S->earlyReturnAllowed)) {
            break;
        }
''', '''    for (;;) {

        const fmi3Float64 nextSolverStepTime = FIXED_SOLVER_STEP + S->time;

        nextCommunicationPointReached = !isClose(nextSolverStepTime, nextCommunicationPoint) && nextCommunicationPoint < nextSolverStepTime;

        if (nextCommunicationPointReached) {
            break;
        }
''')
e(F3, '''    if (nextCommunicationPointReached) {
        S->nextCommunicationPoint = currentCommunicationPoint + communicationStepSize;
    } else {
        S->nextCommunicationPoint = S->time;
    }
''', '''    S->nextCommunicationPoint = nextCommunicationPointReached ? nextCommunicationPoint : S->time;
''')
e(F3, '''    if (S->state == ConfigurationMode) {
        S->state = Instantiated;
    } else {
        switch (S->type) {
            case ModelExchange:
                S->state = EventMode;
                break;
            case CoSimulation:
                S->state = StepMode;
                break;
            case ScheduledExecution:
                S->state = ClockActivationMode;
                break;
        }
    }
''', '''    if (S->state == ConfigurationMode) {
        S->state = Instantiated;
    } else if (S->type == CoSimulation) {
        S->state = StepMode;
    } else if (S->type == ModelExchange) {
        S->state = EventMode;
    } else {
        S->state = ClockActivationMode;
    }
''')
# ---- FMI 2.0
e(F2, '''        bool v; \\
        size_t index = 0; \\
        CALL(getBoolean(S, vr[i], &v, nvr, &index)); \\
        value[i] = v; \\
''', '''        bool b = false; \\
        size_t index = 0; \\
        CALL(getBoolean(S, vr[i], &b, 1, &index)); \\
        value[i] = b ? fmi2True : fmi2False; \\
''')
e(F2, '''        const double nextSolverStepTime = S->time + FIXED_SOLVER_STEP;

        if (nextSolverStepTime > nextCommunicationPoint && !isClose(nextSolverStepTime, nextCommunicationPoint)) {
            break;  // next communcation point reached
        }
''', '''        const double t = S->time + FIXED_SOLVER_STEP;

        if (!(t <= nextCommunicationPoint || isClose(t, nextCommunicationPoint))) {
            break;
        }
''')
# ---- models
e(BB, '''    if (M(h) <= 0 && M(v) < 0) {

        M(h) = DBL_MIN;  // slightly above 0 to avoid zero-crossing
        M(v) = -M(v) * M(e);

        if (M(v) < V_MIN) {
            // stop bouncing
            M(v) = 0;
            M(g) = 0;
        }

        comp->valuesOfContinuousStatesChanged = true;
    } else {
        comp->valuesOfContinuousStatesChanged = false;
    }
''', '''    const bool bounce = M(v) < 0 && M(h) <= 0;

    if (bounce) {
        const double v = M(e) * -M(v);
        M(h) = DBL_MIN;  // slightly above 0 to avoid zero-crossing
        M(v) = v < V_MIN ? 0 : v;
        if (v < V_MIN) M(g) = 0;
    }

    comp->valuesOfContinuousStatesChanged = bounce;
''')
e(ST, '''    if (comp->nextEventTimeDefined && (comp->time >= comp->nextEventTime || isClose(comp->time, comp->nextEventTime))) {
        M(counter)++;
        comp->nextEventTime += 1;
    }
''', '''    const bool tick = comp->nextEventTimeDefined && (isClose(comp->nextEventTime, comp->time) || comp->nextEventTime <= comp->time);

    M(counter) += tick ? 1 : 0;
    if (tick) comp->nextEventTime++;
''')
e(VP, 'M(der_x1) = M(mu) * ((1.0 - M(x0) * M(x0)) * M(x1)) - M(x0);', 'M(der_x1) = -M(x0) + (1.0 - M(x0) * M(x0)) * M(x1) * M(mu);')
e(VP, '*partialDerivative = -2 * M(x0) * M(x1) * M(mu) - 1;', '*partialDerivative = -(1 + 2 * M(mu) * M(x0) * M(x1));')
e(RO, 'M(der_y2) =  (0.04) * M(y1) - 1e4 * M(y2) * M(y3) - 3e7 * M(y2) * M(y2);', 'M(der_y2) = 0.04 * M(y1) - M(y2) * (1e4 * M(y3) + 3e7 * M(y2));')
e(SS, '''    for (size_t i = 0; i < M(n); i++) {

        M(der_x)[i] = 0;

        for (size_t j = 0; j < M(n); j++) {
            M(der_x)[i] += M(A)[i][j] * M(x)[j];
        }
    }

    for (size_t i = 0; i < M(n); i++) {

        for (size_t j = 0; j < M(m); j++) {
            M(der_x)[i] += M(B)[i][j] * M(u)[j];
        }
    }
''', '''    for (size_t i = 0; i < M(n); i++) {

        double sum = 0;

        for (size_t j = 0; j < M(m); j++) {
            sum += M(B)[i][j] * M(u)[j];
        }

        for (size_t j = 0; j < M(n); j++) {
            sum += M(A)[i][j] * M(x)[j];
        }

        M(der_x)[i] = sum;
    }
''')
e(CL, '''    M(result2) += M(input2);
    M(input2) = 0;

    // set output clocks
    M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));
''', '''    // set output clocks
    M(outClock) = !M(outClock) && M(totalInClockTicks) % 5 == 0;

    M(result2) = M(input2) + M(result2);
    M(input2) = 0;
''')
e(FT, '''    M(Int8_output)    = M(Int8_input);

    M(UInt8_output)   = M(UInt8_input);
''', '''    M(UInt8_output)   = M(UInt8_input);
    M(Int8_output)    = M(Int8_input);
''')
e(FT, '''            strcpy(M(String_input), values[(*index)++]);
''', '''            memcpy(M(String_input), values[*index], strlen(values[*index]) + 1);
            (*index)++;
''')
e(RE, '''    // read the first character
    c = (char)fgetc(file);

    // assign it to y
    M(y) = c;

    // close the file
    fclose(file);
''', '''    c = (char)fgetc(file);

    fclose(file);

    M(y) = c;
''')
# ---- importer
e(I, '''    instance->logMessageBufferSize = 1024;
''', '''    instance->logMessageBufferSize = 64;
''')
e(I, '''        for (size_t j = 0; j < 84; j++) {
            if (c == legal[j]) {
                encode = false;
                break;
            }
        }
''', '''        encode = strchr(legal, c) == NULL;
''')
e(I2, '''FMIStatus FMI2EnterInitializationMode(FMIInstance *instance) {
    instance->state = FMIInitializationModeState;
    CALL(EnterInitializationMode);
}
''', '''FMIStatus FMI2EnterInitializationMode(FMIInstance *instance) {

    const FMIStatus status = (FMIStatus)instance->fmi2Functions->fmi2EnterInitializationMode(instance->component);

    if (status < FMIError) {
        instance->state = FMIInitializationModeState;
    }

    if (instance->logFunctionCall) {
        instance->logFunctionCall(instance, status, "fmi2EnterInitializationMode()");
    }

    return status;
}
''')
e(I3, '''    if (instance->interfaceType == FMIModelExchange) {
        instance->state = FMIEventModeState;
    } else if (instance->interfaceType == FMICoSimulation) {
        instance->state = instance->fmi3Functions->eventModeUsed ? FMIEventModeState : FMIStepModeState;
    } else {
        instance->state = FMIClockActivationMode;
    }

    CALL(ExitInitializationMode);
''', '''    switch (instance->interfaceType) {
    case FMIModelExchange:
        instance->state = FMIEventModeState;
        break;
    case FMICoSimulation:
        instance->state = instance->fmi3Functions->eventModeUsed ? FMIEventModeState : FMIStepModeState;
        break;
    default:
        instance->state = FMIClockActivationMode;
        break;
    }

    CALL(ExitInitializationMode);
''')


# ---- scripts
LF, MB, BP = 'build/lint_files.py', 'build/merge_binaries.py', 'build/build.py'
e(LF, """            line = line.rstrip() + '\\n'
            line = line.replace('\\t', '    ')
            lines.append(line)
""", """            lines.append(line.rstrip().replace('\\t', '    ') + '\\n')
""")
e(LF, """    if lines[-1] != '':
        lines.append('')

    with open(filename, 'w') as file:
        file.writelines(lines)
""", """    with open(filename, 'w', encoding='utf-8', newline='\\n') as file:
        file.write(''.join(lines))
""")
e(LF, """top = os.path.abspath(__file__)
top = os.path.dirname(top)
top = os.path.dirname(top)
""", """top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
""")
e(MB, """            make_archive(merged_fmu, 'zip', tempdir)
            os.rename(merged_fmu + '.zip', merged_fmu)
""", """            with zipfile.ZipFile(merged_fmu, 'w', compression=zipfile.ZIP_DEFLATED) as archive:
                for path in sorted(tempdir.rglob('*')):
                    if path.is_file():
                        archive.write(path, path.relative_to(tempdir).as_posix())
""")
e(MB, """    for dirpath, dirnames, filenames in os.walk(root / 'dist-x86_64-windows' / version):

        for filename in filenames:
""", """    for dirpath, dirnames, filenames in os.walk(root / 'dist-x86_64-windows' / version):

        for filename in sorted(filenames):
""")
e(MB, 'check_call(["fmusim", "validate", fmu_path])', 'subprocess.run(["fmusim", "validate", str(fmu_path)], check=True)')
e(BP, """    subprocess.check_call(['cmake'] + cmake_args)
""", """    subprocess.run(['cmake'] + [str(a) for a in cmake_args], check=True)
""")
e(BP, """    if build_dir.exists():
        shutil.rmtree(build_dir)
""", """    shutil.rmtree(build_dir, ignore_errors=True)
""")
e(BP, "        '-D', f'FMI_VERSION={fmi_version}',\n", "        f'-DFMI_VERSION={fmi_version}',\n")


def main():
    args = sys.argv[1:]
    tier = 'quick'
    if args and args[0] == '-t':
        tier = args[1]
        args = args[2:]
    mkseed.WT = wt = '/tmp/preserve-%d' % os.getpid()
    mkseed.worktree()
    for f, old, new, n in E:
        p = os.path.join(wt, f)
        s = open(p).read()
        if s.count(old) != n:
            print('edit does not apply (%d times): %s %r' % (s.count(old), f, old[:90]))
            continue
        open(p, 'w').write(s.replace(old, new))
    for pid in args or ['P%02d' % i for i in range(1, 29)]:
        t = time.time()
        r = subprocess.run([os.path.join(mkseed.ROOT, 'check'), pid], cwd=mkseed.ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, VERIF_REPO=wt, VERIF_TIER=tier))
        print('%s %s %.0f s' % (pid, 'quiet' if r.returncode == 0 else 'ALARM', time.time() - t), flush=True)
        if r.returncode:
            print(r.stdout.decode(errors='replace')[:1500], flush=True)
    shutil.rmtree(wt)


main()
