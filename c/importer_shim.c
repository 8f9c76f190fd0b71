/* Access to the importer's instance for the checks P22-P24. */
#include <stdio.h>
#include <stdlib.h>
#include "FMI.h"
#include "FMI2.h"
#include "FMI3.h"

static char last_error[65536];
static int n_errors;

static void record_error(const char *message, va_list args) {
    n_errors++;
    vsnprintf(last_error, sizeof(last_error), message, args);
}

void vt_imp_init(void) { logErrorMessage = record_error; }
int vt_imp_errors(void) { return n_errors; }
const char *vt_imp_last_error(void) { return last_error; }

int vt_imp_state(FMIInstance *i) { return (int)i->state; }
int vt_imp_kind(FMIInstance *i) { return (int)i->interfaceType; }
int vt_imp_version(FMIInstance *i) { return (int)i->fmiMajorVersion; }
const char *vt_imp_name(FMIInstance *i) { return i->name; }
void *vt_imp_component(FMIInstance *i) { return i->component; }
