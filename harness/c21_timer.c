/* C21: one callback per period while running, and never otherwise. */
#include "mc.h"
#include "timer/timer.h"
#include <string.h>
#include <stdio.h>
#ifndef CLOCK
#define CLOCK unsigned long
#endif
extern void          null_timer(gel_timer_t *t);
extern unsigned long gel_timer_get_remaining(gel_timer_t *timer, unsigned long timestamp) __attribute__((weak));
#define NT 2
static gel_timer_t *t[NT];
enum { STOP, RUN, PAUSE };
static struct {
    CLOCK now;
    struct {
        uint8_t  null, state, autoreload;
        uint64_t since, elapsed, total;
    } k[NT];
} *m;
static uint64_t dts[12], periods[8], half;
static int      ndt, nper, nt, deep;
static int      user;
static char     args[NT];
#define ARG(i) ((i) ? NULL : &args[i]) /* the second timer has no argument */
static int      inside = -1, ran;
static int      script[2][2];
static void     put(uint64_t *a, int *n, uint64_t d) {
    for (int i = 0; i < *n; i++)
        if (a[i] == d)
            return;
    a[(*n)++] = d;
}
/* p[0]: kind of times, p[1]: a period, p[2]: number of timers, p[3]: starting instants, p[4]: actions inside the callback */
static void setup(void) {
    uint64_t a = mc_cfg->p[1];
    half       = (((CLOCK) ~(CLOCK)0) >> 1);
    nt         = mc_cfg->p[2];
    deep       = mc_cfg->p[4];
    if (mc_cfg->p[0] == 0) {
        for (unsigned i = 0; i <= a; i++)
            put(dts, &ndt, i);
        put(periods, &nper, a), put(periods, &nper, 2 * a), put(periods, &nper, 0);
    } else {
        put(dts, &ndt, 0), put(dts, &ndt, 1), put(dts, &ndt, a), put(dts, &ndt, a - 1);
        put(periods, &nper, a), put(periods, &nper, a - 1), put(periods, &nper, 1);
        if (mc_cfg->p[0] == 2)
            put(periods, &nper, half), put(dts, &ndt, a / 2);
    }
    for (int i = 0; i < nt; i++)
        t[i] = mc_alloc(sizeof **t, 1);
    m = mc_alloc(sizeof *m, 1);
}
static uint64_t add(uint64_t a, uint64_t b) { return a + b < a ? UINT64_MAX : a + b; }
static uint64_t elapsed(int i) { return add(m->k[i].elapsed, m->k[i].state == RUN ? m->k[i].since : 0); }
static int      reached(int i) { return m->k[i].state != STOP && elapsed(i) >= m->k[i].total; }
static void     restart(int i) { m->k[i].since = m->k[i].elapsed = 0; }
static void     queries(const char *what) {
    for (int i = 0; i < nt; i++)
        if (gel_timer_get_remaining) {
            uint64_t e = elapsed(i), left = e < m->k[i].total ? m->k[i].total - e : 0;
            mc_check(gel_timer_get_remaining(t[i], m->now) == left, "%s: %lu of the period remain instead of %lu", what, gel_timer_get_remaining(t[i], m->now), left);
        }
}
static void set_autoreload(int i, int v) {
    mc_label("  autoreload(%d)", v);
    gel_timer_set_autoreload(t[i], !v ? 0 : mc_cfg->p[1] & 1 ? 0x80 : mc_cfg->p[1] & 2 ? 1 : 255); /* any value but zero */
    m->k[i].autoreload = v;
}
static void op(int i, int k) {
    typeof(m->k[0]) *x = &m->k[i];
    switch (k) {
        case 0:
            mc_label("  stop(%d)", i);
            gel_timer_stop(t[i]);
            restart(i), x->state = STOP;
            break;
        case 1:
            mc_label("  pause(%d)", i);
            gel_timer_pause(t[i], m->now);
            if (x->state == RUN)
                x->elapsed = elapsed(i), x->state = PAUSE, x->since = 0;
            break;
        case 2:
            mc_label("  reset(%d)", i);
            gel_timer_reset(t[i], m->now);
            if (x->state)
                restart(i);
            break;
        case 3: {
            uint64_t p = periods[mc_choose(nper)];
            mc_label("  change_period(%d, %lu)", i, p);
            gel_timer_change_period(t[i], p, m->now);
            if (x->state)
                restart(i), x->total = p;
            break;
        }
        case 4:
            mc_label("  resume(%d)", i);
            gel_timer_resume(t[i], m->now);
            if (x->state != RUN)
                x->state = RUN, x->since = 0;
            break;
        case 5:
            set_autoreload(i, 1);
            break;
        case 6:
            set_autoreload(i, 0);
            break;
    }
}
static void other(void);
static void cb(gel_timer_t *timer, void *u, void *arg) {
    mc_check(inside >= 0 && timer == t[inside], "callback called %s", inside < 0 ? "while no timer is managed" : "for another timer");
    mc_check(u == &user && arg == ARG(inside), "callback called with other arguments");
    mc_check(!ran++, "callback called twice");
    mc_check(reached(inside), "callback called, but the period has not passed (state %d, %lu of %lu)", m->k[inside].state, elapsed(inside), m->k[inside].total);
    queries("callback");
    if (mc_other)
        other(); /* the callback uses another timer */
    for (int n = 0; n < deep; n++) {
        unsigned k = mc_choose(nt > 1 ? 9 : 8);
        if (k == 7)
            break;
        if (k == 8) { /* something happens to the other timer */
            if (m->k[!inside].null)
                mc_prune();
            op(!inside, mc_choose(5));
        } else
            op(inside, k);
        MC_COVER("action inside the callback");
    }
}
static void start(int i) {
    uint64_t p = periods[mc_choose(nper)];
    mc_label("  init(%d, %lu)", i, p);
    gel_timer_t *r = gel_timer_init(t[i], p, m->now, cb, ARG(i));
    mc_check(r == t[i], "init returned another timer");
    memset(&m->k[i], 0, sizeof m->k[i]);
    m->k[i].state = RUN;
    m->k[i].total = p;
}
static void init(void) {
    static const uint64_t t0[] = {0, ~0ull - 2, 0x7ffffffffffffffdull, 0xfffffffeull};
    inside = -1, ran = 0;
    memset(m, 0, sizeof *m);
    m->now = (CLOCK)t0[mc_choose(mc_cfg->p[3] ? mc_cfg->p[3] : 4)];
    for (int i = 0; i < nt; i++) {
        mc_garbage(t[i], sizeof **t, i ? 0xff : 1);
        if (mc_choose(2)) {
            null_timer(t[i]);
            m->k[i].null = 1;
        } else
            start(i);
    }
    queries("init");
}
static void step(void) {
    inside = -1, ran = 0;
    uint64_t d = dts[mc_choose(ndt)];
    m->now += (CLOCK)d;
    for (int i = 0; i < nt; i++)
        if (m->k[i].state == RUN) {
            m->k[i].since += d;
            if (m->k[i].since > half || elapsed(i) == UINT64_MAX /* more than the type holds */ || elapsed(i) > add(m->k[i].total, 2 * dts[ndt - 1] + 1))
                mc_prune();
        }
    mc_label("%lu later", d);
    queries("time passes");
    int              i = nt > 1 ? mc_choose(nt) : 0;
    unsigned         k = mc_choose(9);
    typeof(m->k[0]) *x = &m->k[i];
    if (k == 7) {
        start(i);
        queries("init");
    } else if (k == 8) {
        int due = reached(i);
        inside  = i;
        mc_label("  manage(%d): %s", i, due ? "due" : "not due");
        uint8_t r = gel_timer_manage_callback(t[i], m->now, &user);
        inside    = -1;
        mc_check(ran == due, "the callback ran %d times, but the timer is %s (state %d, %lu of %lu)", ran, due ? "due" : "not due", x->state, elapsed(i), x->total);
        mc_check(!!r == due, "manage returned %d, but the callback ran %d times", r, ran);
        if (due) {
            if (x->autoreload) {
                restart(i);
                if (x->state == PAUSE)
                    MC_COVER("reloaded while paused");
                else if (x->state == STOP)
                    MC_COVER("stopped inside the callback");
                else
                    MC_COVER("reloaded");
            } else {
                restart(i), x->state = STOP;
                MC_COVER("one shot");
            }
        }
        queries("manage");
    } else {
        if (x->null && k == 4)
            mc_prune(); /* a timer without callback cannot be run */
        op(i, k);
        queries("operation");
    }
}
static void other_cb(gel_timer_t *x, void *u, void *a) { mc_check(x && !u && !a, "callback of another timer called with wrong arguments"); }
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static gel_timer_t o;
    gel_timer_init(&o, 20, 5, other_cb, NULL);
    gel_timer_set_autoreload(&o, 1);
    gel_timer_manage_callback(&o, 25, NULL), gel_timer_pause(&o, 27);
    gel_timer_resume(&o, 30);
}
void mc_register(void) {
    mc_other = other;
    mc_config *c;
    char       n[64];
#define CFG(kind, a, num, st, acts, dq, dtt)                                                                           \
    do {                                                                                                               \
        snprintf(n, sizeof n, "times%d-%lld-timers%d-actions%d-%d", kind, (long long)(a), num, acts, st);              \
        c = mc_add(n, setup, init, step, dq, dtt), c->p[0] = kind, c->p[1] = a, c->p[2] = num, c->p[3] = st, c->p[4] = acts; \
    } while (0)
    uint64_t h = ((CLOCK) ~(CLOCK)0) >> 1;
    CFG(0, 1, 1, 0, 2, 14, 40);
    CFG(0, 3, 1, 0, 2, 10, 20);
    CFG(0, 2, 2, 0, 1, 4, 5);
    CFG(1, h / 2 + 1, 1, 0, 1, 5, 7);
    CFG(2, h, 1, 0, 2, 4, 6);
    if (sizeof(CLOCK) == 1) {
        CFG(0, 1, 1, 1, 1, 0, 0);
        CFG(0, 1, 1, 1, 2, -1, 0);
        CFG(0, 2, 1, 1, 1, -1, 0);
        CFG(1, 40, 1, 1, 1, 7, 24);
    } else {
        CFG(1, 300, 1, 0, 1, 6, 8);
        CFG(2, 20000, 1, 0, 1, 5, 7);
        CFG(1, 4, 1, 0, 1, 5, 8);
        CFG(1, 10, 1, 0, 1, 5, 8);
        CFG(1, 100, 1, 0, 1, 5, 8);
        CFG(1, 256, 1, 0, 1, 5, 8);
    }
    if (sizeof(CLOCK) > 2)
        CFG(1, 70000, 1, 0, 1, 6, 8);
    if (sizeof(CLOCK) > 4)
        CFG(1, 5ll << 32, 1, 0, 1, 6, 8);
}
