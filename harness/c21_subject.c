#include "timer/timer.h"
void null_timer(gel_timer_t *t) { *t = GEL_TIMER_NULL; }
