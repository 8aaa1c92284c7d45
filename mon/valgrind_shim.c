#include <valgrind/callgrind.h>
void verif_start(void) { CALLGRIND_START_INSTRUMENTATION; }
void verif_stop(void) { CALLGRIND_STOP_INSTRUMENTATION; }
void verif_zero(void) { CALLGRIND_ZERO_STATS; }
void verif_dump(const char *label) { CALLGRIND_DUMP_STATS_AT(label); }
int verif_running(void) { return RUNNING_ON_VALGRIND; }
