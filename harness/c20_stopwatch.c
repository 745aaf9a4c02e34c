/* C20: the stopwatch reports exactly the time spent running. */
#include "mc.h"
#include "timer/stopwatch.h"
#include <string.h>
#include <stdio.h>
#ifndef CLOCK
#define CLOCK unsigned long
#endif
static stopwatch_t *sw;
static struct {
    CLOCK    now;
    uint8_t  state; /* 0 stopped 1 counting 2 paused */
    uint64_t since; /* time since it was started */
    uint64_t elapsed, total;
} *m;
static uint64_t dts[16], totals[12], pre[6], limit, half;
static int      ndt, ntot, npre;
static void     put(uint64_t *a, int *n, uint64_t d) {
    for (int i = 0; i < *n; i++)
        if (a[i] == d)
            return;
    a[(*n)++] = d;
}
/* p[0]: kind of times; p[1]: a time; p[2]: bound of the elapsed time; p[3]: starting instants */
static void setup(void) {
    uint64_t a = mc_cfg->p[1];
    half       = (((CLOCK)~(CLOCK)0) >> 1);
    limit      = mc_cfg->p[2] ? (uint64_t)mc_cfg->p[2] : ~0ull;
    if (mc_cfg->p[0] == 0) {
        for (unsigned i = 0; i <= a; i++)
            put(dts, &ndt, i);
        put(totals, &ntot, 0), put(totals, &ntot, 1), put(totals, &ntot, a), put(totals, &ntot, a + 1), put(totals, &ntot, 2 * a + 1);
        put(pre, &npre, 1), put(pre, &npre, a + 1);
    } else {
        put(dts, &ndt, 0), put(dts, &ndt, 1), put(dts, &ndt, a), put(dts, &ndt, a - 1);
        if (mc_cfg->p[0] == 2)
            put(dts, &ndt, a / 2);
        put(totals, &ntot, a), put(totals, &ntot, 2 * a < half ? 2 * a : half), put(totals, &ntot, 1), put(totals, &ntot, half);
        if (mc_cfg->p[0] == 2)
            put(totals, &ntot, a < half ? a + 1 : a - 1), put(totals, &ntot, 0);
        put(pre, &npre, a), put(pre, &npre, 1);
    }
    if (mc_cfg->p[0] == 2)
        put(pre, &npre, half);
    sw = mc_alloc(sizeof *sw, 1);
    m  = mc_alloc(sizeof *m, 1);
}
static uint64_t elapsed(void) { return m->elapsed + (m->state == 1 ? m->since : 0); }
static const STOPWATCH_STATE states[] = {TIMER_STOPPED, TIMER_COUNTING, TIMER_PAUSED};
static void     queries(const char *what) {
    uint64_t e = elapsed(), left = e < m->total ? m->total - e : 0;
    CLOCK    now = m->now;
    mc_check(stopwatch_get_state(sw) == states[m->state], "%s: the state is %d instead of %d", what, stopwatch_get_state(sw), m->state);
    mc_check(stopwatch_get_elapsed(sw, now) == e, "%s: elapsed time %lu instead of %lu", what, stopwatch_get_elapsed(sw, now), e);
    mc_check(stopwatch_get_remaining(sw, now) == left, "%s: remaining time %lu instead of %lu", what, stopwatch_get_remaining(sw, now), left);
    mc_check(stopwatch_get_total_time(sw) == m->total, "%s: total time %lu instead of %lu", what, stopwatch_get_total_time(sw), m->total);
    int r = stopwatch_is_timer_reached(sw, now);
    if (m->state)
        mc_check(!!r == (left == 0), "%s: reached is %d, but %lu remain", what, r, left);
    if (m->state && !left)
        MC_COVER("reached");
    if (m->state == 2)
        MC_COVER("paused");
}
static void init(void) {
    static const uint64_t t0[] = {0, ~0ull - 2, 0x7ffffffffffffffdull, 0xfffffffeull};
    memset(m, 0, sizeof *m);
    m->now = (CLOCK)t0[mc_choose(mc_cfg->p[3] ? mc_cfg->p[3] : 4)];
    mc_garbage(sw, sizeof *sw, mc_choose(2) ? 0xff : 1);
    if (mc_choose(2))
        *sw = (stopwatch_t)STOPWATCH_NULL;
    else
        stopwatch_init(sw);
    queries("init");
}
static void ret(const char *what, int got, int want) { mc_check(got == want, "%s in state %d returned %d instead of %d", what, m->state, got, want); }
static void step(void) {
    uint64_t d = dts[mc_choose(ndt)];
    m->now += (CLOCK)d;
    if (m->state == 1) {
        m->since += d;
        if (m->since > half)
            mc_prune();
    } else
        m->since = 0;
    if (elapsed() > limit || elapsed() < m->elapsed /* more than the type holds */)
        mc_prune();
    if (d > half) /* never */
        stopwatch_setngo(sw, 1, m->now);
    queries("time passes");
    switch (mc_choose(8)) {
        case 0: {
            mc_label("+%lu start", d);
            ret("start", stopwatch_start(sw, m->now), m->state == 1 ? -1 : 0);
            if (m->state != 1)
                m->state = 1, m->since = 0;
            queries("start");
            break;
        }
        case 1: {
            mc_label("+%lu stop", d);
            ret("stop", stopwatch_stop(sw), m->state ? 0 : -1);
            if (m->state == 0) {
                /* refused: whether a starting value that was set is kept is not specified */
                uint64_t e = stopwatch_get_elapsed(sw, m->now);
                mc_check(e == 0 || e == m->elapsed, "stop of a stopped stopwatch: elapsed time %lu", e);
                m->elapsed = e;
            } else
                m->elapsed = 0;
            m->state = 0;
            queries("stop");
            break;
        }
        case 2: {
            mc_label("+%lu pause", d);
            ret("pause", stopwatch_pause(sw, m->now), m->state == 1 ? 0 : -1);
            if (m->state == 1)
                m->elapsed += m->since, m->state = 2;
            queries("pause");
            break;
        }
        case 3: {
            mc_label("+%lu restart", d);
            ret("restart", stopwatch_restart(sw, m->now), 0);
            m->state = 1, m->since = 0, m->elapsed = 0;
            queries("restart");
            break;
        }
        case 4: {
            uint64_t t = totals[mc_choose(ntot)];
            mc_label("+%lu set(%lu)", d, t);
            ret("set", stopwatch_set(sw, t), m->state ? -1 : 0);
            if (!m->state)
                m->total = t;
            queries("set");
            break;
        }
        case 5: {
            uint64_t t = totals[mc_choose(ntot)];
            mc_label("+%lu change(%lu)", d, t);
            stopwatch_change(sw, t, m->now);
            m->total = t, m->state = 1, m->since = 0, m->elapsed = 0;
            queries("change");
            break;
        }
        case 6: {
            uint64_t t = pre[mc_choose(npre)];
            mc_label("+%lu set_elapsed(%lu)", d, t);
            ret("set_elapsed", stopwatch_set_elapsed(sw, t), m->state ? -1 : 0);
            if (!m->state)
                m->elapsed = t;
            queries("set_elapsed");
            break;
        }
        default: {
            uint64_t t = totals[mc_choose(ntot)];
            mc_label("+%lu setngo(%lu)", d, t);
            stopwatch_setngo(sw, t, m->now);
            if (!m->state)
                m->total = t;
            if (m->state != 1)
                m->state = 1, m->since = 0;
            queries("setngo");
        }
    }
}
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static stopwatch_t o;
    stopwatch_init(&o);
    stopwatch_set(&o, 50), stopwatch_start(&o, 7), stopwatch_pause(&o, 20), stopwatch_start(&o, 30);
    mc_check(stopwatch_get_elapsed(&o, 33) == 16, "another stopwatch has a wrong time");
}
void mc_register(void) {
    mc_other = other;
    mc_config *c;
    char       n[64];
#define CFG(kind, a, lim, st, dq, dtt)                                                                                 \
    do {                                                                                                               \
        snprintf(n, sizeof n, "times%d-%lld-limit%lld", kind, (long long)(a), (long long)(lim));                       \
        c = mc_add(n, setup, init, step, dq, dtt), c->p[0] = kind, c->p[1] = a, c->p[2] = lim, c->p[3] = st;           \
    } while (0)
    uint64_t h = ((CLOCK) ~(CLOCK)0) >> 1;
    CFG(0, 1, 6, 0, 24, 40);
    CFG(0, 3, 12, 0, 10, 20);
    CFG(1, h / 2 + 1, 0, 0, 6, 7);
    CFG(2, h, 0, 0, 4, 5);
    if (sizeof(CLOCK) == 1) {
        CFG(1, 40, 300, 1, 6, 16);
        CFG(0, 1, 5, 1, 0, 0);
        CFG(0, 2, 9, 1, -1, 0);
        CFG(1, 64, 520, 0, 6, 12);
    } else {
        CFG(1, 300, 0, 0, 6, 7);
        CFG(2, 20000, 0, 0, 4, 6);
        CFG(1, 5, 0, 0, 5, 6);
        CFG(1, 10, 0, 0, 5, 6);
        CFG(1, 100, 0, 0, 5, 6);
        CFG(1, 256, 0, 0, 5, 6);
        CFG(1, 1000, 0, 0, 5, 6);
    }
    if (sizeof(CLOCK) > 2)
        CFG(1, 70000, 0, 0, 6, 7);
    if (sizeof(CLOCK) > 4) {
        CFG(1, 5ll << 32, 0, 0, 6, 7);
        CFG(2, 1ll << 32, 0, 0, 4, 6);
    }
}
