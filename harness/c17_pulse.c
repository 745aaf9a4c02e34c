/* C17: counts exactly the debounced pulses of the chosen polarity. */
#include "mc.h"
#include "debounce/pulsecounter.h"
#include <string.h>
#include <stdio.h>
#include <limits.h>
#define NI 32
static pulse_filter_t *f;
static struct {
    uint32_t level;
    uint32_t run[NI];
    uint32_t count[NI];
    uint8_t  low;
    uint32_t d; /* debounce given while an input is being filtered */
} *m;
static int      bits[8], nb, d, maxc;
static unsigned bg;
/* p[0]: moving inputs, p[1]: debounce, p[2]: bound of the counters, p[3]: level of the other inputs, p[4]: no init() in between, p[5]: another debounce whenever no input is being filtered */
static void setup(void) {
    for (int i = 0; i < NI; i++)
        if ((uint32_t)mc_cfg->p[0] >> i & 1)
            bits[nb++] = i;
    f    = mc_alloc(sizeof *f, 1);
    m    = mc_alloc(sizeof *m, 1);
    d    = mc_cfg->p[1];
    maxc = mc_cfg->p[2];
    bg   = (uint32_t)mc_cfg->p[3] & ~(uint32_t)mc_cfg->p[0];
}
static void queries(const char *what) {
    for (int i = 0; i < NI; i++) {
        mc_check(pulse_level(f, i) == (int)(m->level >> i & 1), "%s: level of input %d is %d instead of %u", what, i, pulse_level(f, i), m->level >> i & 1);
        mc_check(pulse_count(f, i) == (int)m->count[i], "%s: input %d counts %d pulses instead of %u", what, i, pulse_count(f, i), m->count[i]);
    }
    static const int bad[] = {-1, NI, NI + 1, INT_MAX, INT_MIN, 256, 65536};
    for (int i = 0; i < 7; i++)
        mc_check(pulse_level(f, bad[i]) == -1 && pulse_count(f, bad[i]) == -1, "%s: input %d does not exist but was not refused", what, bad[i]);
}
static unsigned pick(void) {
    unsigned v = bg;
    for (int i = 0; i < nb; i++)
        v |= mc_choose(2) ? 1u << bits[i] : 0;
    return v;
}
static void start(void) {
    unsigned v = pick();
    int      t = mc_choose(2);
    mc_label("init(%s, %#x)", t ? "low" : "high", v);
    pulse_filter_init(f, t ? COUNT_LOW_PULSE : COUNT_HIGH_PULSE, v);
    memset(m, 0, sizeof *m);
    m->level = v;
    m->low   = t;
    queries("init");
}
static void init(void) {
    static const unsigned char fill[] = {0, 0xff, 0x01};
    mc_garbage(f, sizeof *f, fill[mc_choose(3)]);
    start();
}
static void step(void) {
    unsigned op = mc_choose(mc_cfg->p[4] ? 2 : 3);
    if (op == 2) {
        start();
        MC_COVER("initialised again");
        return;
    }
    if (op == 1) {
        unsigned k = mc_choose(nb + 4);
        int      i = k < (unsigned)nb ? bits[k] : k == (unsigned)nb ? -1 : k == (unsigned)nb + 1 ? NI : k == (unsigned)nb + 2 ? INT_MIN : INT_MAX;
        mc_label("clear(%d)", i);
        pulse_clear(f, i);
        if (k < (unsigned)nb)
            m->count[i] = 0;
        queries("clear");
        return;
    }
    if (mc_cfg->p[5]) {
        unsigned pending = 0;
        for (int i = 0; i < NI; i++)
            pending |= m->run[i];
        if (!pending)
            m->d = mc_cfg->p[5] * mc_choose(3);
        d = m->d;
    }
    unsigned v = pick();
    int      change = 0;
    for (int i = 0; i < NI; i++) {
        unsigned in = v >> i & 1;
        if (in == (m->level >> i & 1)) {
            m->run[i] = 0;
            continue;
        }
        if (++m->run[i] <= (uint32_t)d)
            continue;
        m->run[i] = 0;
        m->level ^= 1u << i;
        if (in == m->low) {
            if (++m->count[i] > (uint32_t)maxc)
                mc_prune();
            change = 1;
        }
    }
    mc_label("filter(%#x, %d)", v, d);
    int got = pulse_filter(f, v, d);
    mc_check(!!got == change, "filter(%#x) reported %d, but %s pulse ended", v, got, change ? "a" : "no");
    if (change)
        MC_COVER("pulse");
    queries("filter");
}
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static pulse_filter_t o;
    pulse_filter_init(&o, COUNT_LOW_PULSE, 0x0f0f0f0fu);
    pulse_filter(&o, 0x00ff00ffu, 2), pulse_filter(&o, 0x00ff00ffu, 2);
    pulse_filter(&o, 0x00ff00ffu, 2);
}
void mc_register(void) {
    mc_other = other;
    mc_config *c;
#define CFG(name, mask, deb, n, b, noinit, dq, dt)                                                                     \
    c = mc_add(name, setup, init, step, dq, dt), c->p[0] = mask, c->p[1] = deb, c->p[2] = n, c->p[3] = b, c->p[4] = noinit
    static const struct { unsigned mask; int unit; } vary[] = {{0x80000001u, 1}, {0x00000003u, 3}, {0x00010000u, 130}, {0x00000301u, 1}};
    for (int i = 0; i < 4; i++) {
        char n[32];
        snprintf(n, sizeof n, "changing%d-d%d", i, vary[i].unit);
        c = mc_add(n, setup, init, step, 0, 0), c->p[0] = vary[i].mask, c->p[2] = 2, c->p[5] = vary[i].unit;
    }
    CFG("ends-d0", 0x80000001u, 0, 3, 0, 0, 0, 0);
    CFG("ends-d1", 0x80000001u, 1, 3, 0xffffffffu, 0, 0, 0);
    CFG("ends-d2", 0x80000001u, 2, 3, 0, 0, 0, 0);
    CFG("three-d1", 0x80018000u, 1, 2, 0x55555555u, 0, 0, 0);
    CFG("three-d2", 0x00000181u, 2, 1, 0, 0, 0, 0);
    CFG("three-d3", 0x00018001u, 3, 2, 0, 0, -1, 0);
    CFG("four-d1", 0xC0000003u, 1, 2, 0, 0, -1, 0);
    CFG("pair-d9", 0x40000100u, 9, 2, 0x80000000u, 0, 0, 0);
    CFG("many-pulses", 0x00010000u, 1, 300, 0, 0, 0, 0);
    CFG("very-many-pulses", 0x00000004u, 0, 70000, 0xffffffffu, 1, 0, 0);
    CFG("one-d300", 0x80000000u, 300, 2, 0, 0, 0, 0);
    CFG("first-d65536", 0x00000001u, 65536, 1, 0, 1, 0, 0);
    CFG("five-d1", 0x44011100u, 1, 1, 0, 1, 0, 0);
    for (int i = 0; i < NI; i++) {
        char n[32];
        snprintf(n, sizeof n, "input%d", i);
        CFG(n, 1u << i, 2, 4, i & 1 ? 0xffffffffu : 0, 0, 0, 0);
    }
    /* every small debounce, on neighbours and on one input */
    static const int ds[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257};
    for (int i = 0; i < (int)(sizeof ds / sizeof *ds); i++) {
        char n[32];
        snprintf(n, sizeof n, "debounce%d", ds[i]);
        CFG(n, ds[i] < 9 ? 3u : 4u, ds[i], 2, 0, 0, 0, 0);
    }
    CFG("low-three", 0x00000007u, 1, 2, 0, 0, 0, 0);
}
