#ifndef SCHED_H
#define SCHED_H
#include "mc.h"
#include <stddef.h>
#include "scheduler/scheduler.h"
#include <string.h>
#include <stdio.h>
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
#define NE 7
#else
#define NE GEL_SCHEDULER_MAX_ENTRIES /* the map has 16 bits */
#endif
#define DAY 86400u
/* defined by scheduler.c, but not declared in its header */
extern int           scheduler_is_active(scheduler_t *, struct tm *) __attribute__((weak));
extern int           scheduler_current_value(scheduler_t *, struct tm *, int *) __attribute__((weak));
extern int           scheduler_get_next_enabled_entry(scheduler_t *, size_t) __attribute__((weak));
extern int           scheduler_get_first_available_entry(scheduler_t *) __attribute__((weak));
extern uint16_t      scheduler_get_active_entries_map(scheduler_t *, struct tm *) __attribute__((weak));
extern unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *, size_t, struct tm *) __attribute__((weak));
extern unsigned long scheduler_get_current_remaining_duration(scheduler_t *, struct tm *) __attribute__((weak));
extern size_t        scheduler_get_max_schedule_entries(scheduler_t *) __attribute__((weak));
static scheduler_t  *s;
static struct {
    scheduler_entry_t e[NE];
} *m;
static void sched_setup(void) {
    s = mc_alloc(sizeof *s, 1);
    m = mc_alloc(sizeof *m, 1);
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    mc_heap_setup(2, sizeof(scheduler_entry_t) * NE);
#endif
}
static void sched_init(void) {
    mc_garbage(s, sizeof *s, mc_choose(2) ? 0xff : 1);
    memset(m, 0, sizeof *m);
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    scheduler_init(s, NE);
#else
    scheduler_init(s);
#endif
}
#ifndef GEL_SCHEDULER_DYNAMIC_ENTRIES
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static scheduler_t x;
    struct tm          tm = {.tm_wday = 3, .tm_hour = 5};
    scheduler_init(&x);
    scheduler_set_entry(&x, 0, (scheduler_entry_t){.enabled = 1, .days = 0x7f, .start_second = 3600, .end_second = 36000, .value = 77});
    mc_check(scheduler_get_active_entry_number(&x, &tm) == 0, "another scheduler has a wrong active entry");
}
#else
#define other NULL
#endif
static int same(const scheduler_entry_t *a, const scheduler_entry_t *b) {
    return a->enabled == b->enabled && a->days == b->days && a->start_second == b->start_second && a->end_second == b->end_second && a->value == b->value;
}
static void table(const char *what) {
    for (int i = 0; i < NE; i++) {
        const scheduler_entry_t *e = scheduler_get_entry(s, i);
        mc_check(e && same(e, &m->e[i]), "%s: entry %d is not as it was set", what, i);
    }
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
    mc_heap_check();
#endif
}
#endif
