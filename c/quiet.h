/* keeps the example programs from writing to the standard output */
#include <stdio.h>
#define printf(...) ((void)0)
#define puts(x) ((void)(x))
