/* C24: at every instant the right entry is active, for the right time. */
#include "sched.h"
static const uint32_t spans[][2] = {
    {0, DAY}, {3600, 7200}, {7199, 7200}, {80000, 90000}, {86399, DAY}, {86399, DAY + 1}, {43200, 43200}, {0, 86399}, {60, DAY + 60},
    {3600, 3601}, {7200, 10800}, {0, 1}, {86340, DAY + 3600}, {36000, 39600}, {1, DAY}, {65535, 65536}, {40000, DAY + 39999}, {7200, 3600},
};
static const uint8_t days[]   = {0x7f, 0x01, 0x40, 0x3e, 0x00, 0x7e, 0x15, 0xa0};
static const int     values[] = {0, 1, 255, 256, -1, 257, 100000, -300, -2147483647 - 1, 2147483647};
static int           ns, nd, nv, every, nslots, slots[8];
/* p[0]: number of spans, p[1]: of days, p[2]: of values, p[3]: every second, p[4]: slots used, p[5]: first span */
static void setup(void) {
    sched_setup();
    ns = mc_cfg->p[0], nd = mc_cfg->p[1], nv = mc_cfg->p[2], every = mc_cfg->p[3], nslots = mc_cfg->p[4];
    for (int i = 0; i < nslots; i++) /* spread over the table, the last one included */
        slots[i] = nslots == 1 ? NE - 1 : i * (NE - 1) / (nslots - 1);
}
static int active(const scheduler_entry_t *e, int day, uint32_t t) {
    if (!e->enabled || !(e->days >> day & 1))
        return 0;
    if (e->end_second > DAY)
        return t >= e->start_second || t < e->end_second - DAY;
    return t >= e->start_second && t < e->end_second;
}
static uint32_t left(const scheduler_entry_t *e, uint32_t t) {
    return e->end_second > DAY && t < e->start_second ? e->end_second - DAY - t : e->end_second - t;
}
static uint64_t week(const scheduler_entry_t *e) { return (uint64_t)(e->end_second - e->start_second) * __builtin_popcount(e->days & 0x7f); }
static void     instant(int day, uint32_t t) {
    struct tm tm;
    memset(&tm, 0x55, sizeof tm);
    tm.tm_wday = day, tm.tm_hour = t / 3600, tm.tm_min = t / 60 % 60, tm.tm_sec = t % 60;
    int      best = -1;
    uint16_t map  = 0;
    mc_evals++;
    for (int i = 0; i < NE; i++) {
        const scheduler_entry_t *e = &m->e[i];
        if (!active(e, day, t))
            continue;
        map |= i < 16 ? 1u << i : 0;
        if (best < 0 || week(e) < week(&m->e[best]) || (week(e) == week(&m->e[best]) && e->value > m->e[best].value))
            best = i;
    }
    int got = scheduler_get_active_entry_number(s, &tm);
    mc_check(got == best, "day %d, second %u: active entry %d instead of %d", day, t, got, best);
    if (scheduler_is_active)
        mc_check(!!scheduler_is_active(s, &tm) == (best >= 0), "day %d, second %u: is_active is wrong, the active entry is %d", day, t, best);
    if (scheduler_current_value) {
        int v = 0x5a5a5a5a, r = scheduler_current_value(s, &tm, &v);
        mc_check(!!r == (best >= 0), "day %d, second %u: current_value returned %d, the active entry is %d", day, t, r, best);
        mc_check(v == (best < 0 ? 0x5a5a5a5a : m->e[best].value), "day %d, second %u: current value %d, the active entry is %d", day, t, v, best);
        mc_check(!!scheduler_current_value(s, &tm, NULL) == (best >= 0), "day %d, second %u: current_value without destination is wrong", day, t);
    }
    if (scheduler_get_active_entries_map) { /* the first 16 entries */
        uint16_t g = scheduler_get_active_entries_map(s, &tm);
        mc_check(g == map, "day %d, second %u: map of the active entries %#x instead of %#x", day, t, g, map);
    }
    if (scheduler_get_schedule_remaining_duration)
        for (int i = 0; i <= NE; i++) {
            if (i < NE && !m->e[i].days)
                continue;
            unsigned long r = scheduler_get_schedule_remaining_duration(s, i, &tm);
            unsigned long w = i < NE && active(&m->e[i], day, t) ? left(&m->e[i], t) : 0;
            mc_check(r == w, "day %d, second %u: entry %d lasts %lu more seconds instead of %lu", day, t, i, r, w);
        }
    if (scheduler_get_current_remaining_duration) {
        unsigned long r = scheduler_get_current_remaining_duration(s, &tm);
        unsigned long w = best >= 0 ? left(&m->e[best], t) : 0;
        mc_check(r == w, "day %d, second %u: the active entry lasts %lu more seconds instead of %lu", day, t, r, w);
    }
    if (best >= 0)
        MC_COVER("active");
    else
        MC_COVER("nothing active");
    if (map & (map - 1))
        MC_COVER("several active");
}
static void sweep(void) {
    uint32_t at[8 * NE + 8];
    int      n = 0;
    at[n++] = 0, at[n++] = DAY - 1, at[n++] = 5000;
    mc_check(scheduler_get_entry_duration(NULL) == 0, "no entry lasts %lu seconds", scheduler_get_entry_duration(NULL));
    for (int i = 0; i < NE; i++) {
        const scheduler_entry_t *e = &m->e[i];
        mc_check(e->start_second > e->end_second || scheduler_get_entry_duration(e) == e->end_second - e->start_second,
                 "an entry from %u to %u lasts %lu seconds", e->start_second, e->end_second, scheduler_get_entry_duration(e));
    }
    for (int i = 0; i < NE; i++)
        if (m->e[i].days) {
            uint32_t a = m->e[i].start_second, b = m->e[i].end_second % DAY;
            for (int k = -1; k <= 1; k++) {
                if (a + k < DAY)
                    at[n++] = a + k;
                if (b + k < DAY)
                    at[n++] = b + k;
            }
        }
    for (int d = 0; d < 7; d++)
        if (every)
            for (uint32_t t = 0; t < DAY; t++)
                instant(d, t), mc_progress();
        else
            for (int k = 0; k < n; k++)
                instant(d, at[k]);
}
static void init(void) {
    sched_init();
    table("init");
    if (!every)
        sweep();
}
static scheduler_entry_t pick(int i, int enabled) {
    static const uint8_t flags[] = {1, 2, 255, 128};
    scheduler_entry_t e;
    memset(&e, 0, sizeof e);
    int sp         = mc_cfg->p[5] + mc_choose(ns);
    e.enabled      = enabled ? flags[i % 4] : 0;
    e.start_second = spans[sp][0], e.end_second = spans[sp][1];
    e.days  = days[nd > 1 ? mc_choose(nd) : 0];
    e.value = values[nv > 1 ? mc_choose(nv) : 0];
    return e;
}
/* every table of nslots entries, swept once */
static void init_table(void) {
    sched_init();
    for (int k = 0; k < nslots; k++) {
        scheduler_entry_t e = pick(slots[k], 1);
        mc_label("entry %d: days %#x, %u to %u, value %d", slots[k], e.days, e.start_second, e.end_second, e.value);
        m->e[slots[k]] = e;
        mc_check(scheduler_set_entry(s, slots[k], e) == 0, "entry %d cannot be set", slots[k]);
    }
}
static void step_table(void) {
    sweep();
    table("query");
}
static void step(void) {
    int               i  = slots[nslots > 1 ? mc_choose(nslots) : 0];
    int               op = mc_choose(4);
    scheduler_entry_t e;
    memset(&e, 0, sizeof e);
    if (op == 3) {
        mc_label("disable(%d)", i);
        mc_check(scheduler_disable_schedule_entry(s, i) == 0, "entry %d cannot be disabled", i);
        m->e[i].enabled = 0;
    } else {
        e = pick(i, op != 2);
        mc_label("set(%d: %s days %#x, %u to %u, value %d)", i, e.enabled ? "enabled" : "disabled", e.days, e.start_second, e.end_second, e.value);
        m->e[i] = e;
        if (op == 1) {
            scheduler_entry_t *x = scheduler_get_entry_mut(s, i);
            mc_check(x != NULL, "entry %d cannot be changed", i);
            *x = e;
        } else
            mc_check(scheduler_set_entry(s, i, e) == 0, "entry %d cannot be set", i);
    }
    sweep();
    table("query");
}
void mc_register(void) {
    mc_other = other;
    mc_config *c;
    char       n[64];
#define CFG(tab, a, b, v, ev, sl, f, dq, dt)                                                                           \
    do {                                                                                                               \
        snprintf(n, sizeof n, "%s-spans%d+%d-days%d-values%d-%s-slots%d", tab ? "tables" : "edits", f, a, b, v, ev ? "every" : "edges", sl); \
        c = mc_add(n, setup, tab ? init_table : init, tab ? step_table : step, dq, dt), c->p[0] = a, c->p[1] = b, c->p[2] = v, c->p[3] = ev, c->p[4] = sl, c->p[5] = f; \
    } while (0)
    if (NE > 32) {
        CFG(1, 4, 2, 2, 0, 2, 0, 1, 1);
        return;
    }
#ifdef NDEBUG /* the same code without assertions */
    CFG(0, 5, 2, 2, 0, 1, 0, 0, 0);
    return;
#endif
    int all = sizeof spans / sizeof *spans, Q = NE == 7;
    CFG(1, all, 8, 10, 0, 1, 0, 1, 1);
    CFG(1, all, 3, 1, 1, 1, 0, Q ? 1 : -1, 1);
    CFG(0, all, 2, 2, 0, 1, 0, 0, 0);
    if (NE > 1) {
        CFG(0, 5, 2, 2, 0, 2, 0, Q ? 0 : -1, 0);
        CFG(1, all, 4, 2, 0, 2, 0, 1, 1);
        CFG(1, 6, 8, 2, 0, 2, 0, 1, 1);
        CFG(1, 4, 2, 10, 0, 2, 0, 1, 1);
        CFG(1, 4, 2, 10, 0, 2, 8, 1, 1);
        CFG(1, all, 8, 3, 0, 2, 0, -1, 1);
        CFG(1, 8, 2, 2, 0, 3, 0, Q ? 1 : -1, 1);
        CFG(1, 8, 2, 2, 0, 3, 9, -1, 1);
        CFG(1, 5, 4, 3, 0, 3, 5, -1, 1);
        CFG(1, 3, 2, 2, 0, 4, 1, -1, 1);
        CFG(1, 4, 1, 2, 0, 5, 8, -1, 1);
        CFG(1, 2, 2, 1, 0, 5, 3, NE == 16 ? 1 : -1, 1);
    }
}
