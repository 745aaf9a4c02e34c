/* C18 (one key), C19 (several keys): every sample reports exactly the event of the reference. */
#include "mc.h"
#include "keypad/keypad.h"
#include <string.h>
#include <stdio.h>
#ifndef CLOCK
#define CLOCK unsigned long
#endif
#define NK 5
#define MANY 300
static keypad_key_t *keys;
static uint64_t      click, lng, period, cap;
static int           nk;
static uint64_t      dts[12];
static int           ndt;
static struct {
    CLOCK now;
    uint8_t set; /* which times are given, while a key is active */
    struct {
        uint8_t  down, last;
        uint64_t age, period_age; /* saturating at cap */
    } k[MANY];
} *m;
static const unsigned long maps[][NK] = {
    {0x01, 0x02, 0x03, 0x04, 0x80},
    {0x8000000000000000ul, 0x1, 0x8000000000000001ul, 0x100000000ul, 2},
    {0xff, 0x0f, 0x01, 0xf0, 0x10},
};
static const int codes[][NK] = {{1, 2, 3, 4, 5}, {-1, 0, 0x7fffffff, -5, 7}, {300, 44, 65536, 256, 1}};
static unsigned  mapid;
/* a table of many keys, of which these are pressed */
static const int          some[] = {0, 126, 127, 128, 255, 256, MANY - 1};
static unsigned long      bit(int i) { return nk > NK ? (unsigned long)i + 1 : maps[mapid][i]; }
static int                code(int i) { return nk > NK ? 3 * i - 400 : codes[mapid][i]; }
#define MSIZE (__builtin_offsetof(typeof(*m), k) + nk * sizeof m->k[0])
static void      dt(uint64_t d) {
    for (int i = 0; i < ndt; i++)
        if (dts[i] == d)
            return;
    dts[ndt++] = d;
}
/* p[0]: keys, p[1..3]: click, long click and repeat times, p[4]: times between samples: 0: 0..n, 1: at the thresholds, 2: multiples of 16; p[5]: n, p[6]: key map, p[7]: other times whenever no key is active */
static uint64_t base[3];
static void     times(int set) { /* longer, or all null */
    click = set == 2 ? 0 : base[0] + set, lng = set == 2 ? 0 : base[1] + 2 * set, period = set == 2 ? 0 : base[2] + set;
}
static void setup(void) {
    nk = mc_cfg->p[0], click = mc_cfg->p[1], lng = mc_cfg->p[2], period = mc_cfg->p[3], mapid = mc_cfg->p[6];
    base[0] = click, base[1] = lng, base[2] = period;
    if (mc_cfg->p[7])
        times(1);
    cap = (click > lng ? click : lng);
    cap = (cap > period ? cap : period) + 1;
    int n = mc_cfg->p[5];
    if (mc_cfg->p[4] == 0)
        for (int i = 0; i <= n; i++)
            dt(i);
    else if (mc_cfg->p[4] == 1) {
        dt(0), dt(1), dt(click), dt(click + 1), dt(lng - click);
        if (n)
            dt(period), dt(period + 1), dt(lng), dt(click - 1);
    } else
        for (int i = 0; i <= n; i++)
            dt(16 * i);
    keys = mc_alloc((nk + 1) * sizeof *keys, 1);
    m    = mc_alloc(MSIZE, 1);
}
static const char *name[] = {"nothing", "press", "pressing", "click", "longclick", "longpress", "release"};
static int  active(int i) { return m->k[i].down || m->k[i].last; }
static void state(unsigned long v, int served) {
    for (int i = 0; i < nk; i++) {
        unsigned char s = keypad_get_key_state(&keys[i]);
        if (bit(i) != v)
            mc_check(s == 0, "key %d is reported down (%d), but was not sampled", i, s);
        else if (i == served)
            mc_check(s == 1, "key %d was sampled and served, but is reported up", i);
        mc_check(keys[i].bitvalue == bit(i) && keys[i].code == code(i), "the definition of key %d changed", i);
    }
    mc_check(keys[nk].bitvalue == 0, "the end of the key table was overwritten");
}
static void init(void) {
    static const uint64_t t0[] = {0, ~0ull - 3, 0x7ffffffffffffffaull, 0xfffffffaull};
    memset(m, 0, MSIZE);
    m->now = mc_cfg->p[4] == 2 ? 0 : (CLOCK)t0[mc_choose(4)];
    memset(keys, 0, (nk + 1) * sizeof *keys);
    int how = mc_choose(3);
    for (int i = 0; i < nk; i++) {
        keys[i] = (keypad_key_t)KEYPAD_KEY(bit(i), code(i));
        if (how)
            mc_garbage(&keys[i], sizeof keys[i], how == 1 ? 0xff : 1), keys[i].bitvalue = bit(i), keys[i].code = code(i);
    }
    keys[nk] = (keypad_key_t)KEYPAD_NULL_KEY;
    if (how)
        keypad_reset_keys(keys);
    state(0, -1);
}
static void add(uint64_t *x, uint64_t d) { *x = *x + d > cap ? cap : *x + d; }
static void step(void) {
    int op = mc_choose(2);
    if (op == 1) {
        mc_label("reset");
        keypad_reset_keys(keys);
        memset(m->k, 0, nk * sizeof m->k[0]);
        state(0, -1);
        MC_COVER("reset");
        return;
    }
    if (mc_cfg->p[7]) {
        int any = 0;
        for (int i = 0; i < nk; i++)
            any |= active(i);
        if (!any)
            m->set = mc_choose(3);
        times(m->set);
    }
    uint64_t      d = dts[mc_choose(ndt)];
    int           w = nk > NK ? mc_choose(sizeof some / sizeof *some + 2) : mc_choose(nk > 1 ? nk + 2 : nk + 1);
    if (nk > NK)
        w = w < (int)(sizeof some / sizeof *some) ? some[w] : w - (int)(sizeof some / sizeof *some) + nk;
    unsigned long v = w < nk ? bit(w) : w == nk ? 0 : 0x600;
    m->now += (CLOCK)d;
    int served = -1;
    for (int i = 0; i < nk; i++) {
        add(&m->k[i].age, d), add(&m->k[i].period_age, d);
        if (served < 0 && active(i) && i != w)
            served = i;
    }
    if (served < 0 && w < nk)
        served = w;
    int ev = KEY_NOTHING;
    if (served >= 0) {
        typeof(m->k[0]) *k = &m->k[served];
        int              down = served == w;
        if (down != k->down) {
            k->down = down;
            k->age  = 0;
            if (down)
                ev = k->last = KEY_PRESS;
            else if (k->last == KEY_PRESS)
                ev = KEY_RELEASE, k->last = KEY_NOTHING;
        } else if (!down) {
            if (k->age > click)
                ev = KEY_RELEASE, k->last = KEY_NOTHING;
        } else if (k->last == KEY_PRESS && k->age > click)
            ev = k->last = KEY_CLICK, k->period_age = 0;
        else if (k->last == KEY_CLICK && k->age > lng)
            ev = k->last = KEY_LONGCLICK, k->period_age = 0;
        else if (k->last == KEY_LONGCLICK && k->period_age > period)
            ev = KEY_LONGPRESS, k->period_age = 0;
        else if (k->last == KEY_CLICK && k->period_age > period)
            ev = KEY_PRESSING, k->period_age = 0;
    }
    for (int i = 0; i < nk; i++)
        if (!active(i))
            m->k[i].age = m->k[i].period_age = 0;
    mc_label("%lu later sample %#lx: %s of %d", d, v, name[ev], served);
    keypad_update_t u = keypad_routine(keys, click, lng, period, m->now, v);
    mc_check((int)u.event == ev, "sample %#lx reported the event %s instead of %s (of key %d)", v, (unsigned)u.event < 7 ? name[u.event] : "?", name[ev], served);
    if (ev)
        mc_check(u.code == code(served), "event %s was reported for code %d instead of %d", name[ev], u.code, code(served));
    switch (ev) {
        case KEY_NOTHING: MC_COVER("nothing"); break;
        case KEY_PRESS: MC_COVER("press"); break;
        case KEY_PRESSING: MC_COVER("pressing"); break;
        case KEY_CLICK: MC_COVER("click"); break;
        case KEY_LONGCLICK: MC_COVER("longclick"); break;
        case KEY_LONGPRESS: MC_COVER("longpress"); break;
        case KEY_RELEASE: MC_COVER("release"); break;
    }
    if (served >= 0 && w < nk && served != w)
        MC_COVER("a sampled key waits for another one");
    state(v, served);
}
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static keypad_key_t o[3];
    o[0] = (keypad_key_t)KEYPAD_KEY(0x40, 900), o[1] = (keypad_key_t)KEYPAD_KEY(0x01, 901), o[2] = (keypad_key_t)KEYPAD_NULL_KEY;
    keypad_reset_keys(o);
    keypad_routine(o, 3, 5, 1, 100, 0x01), keypad_routine(o, 3, 5, 1, 104, 0x01), keypad_routine(o, 3, 5, 1, 106, 0x01);
    mc_check(keypad_routine(o, 3, 5, 1, 109, 0x01).event == KEY_LONGPRESS, "another keypad reports a wrong event");
    keypad_routine(o, 3, 5, 1, 110, 0x40);
}
void mc_register(void) {
    mc_other = other;
    mc_config *c;
    char       n[64];
#define CFG(K, C, L, P, mode, N, map, dq, dtt)                                                                         \
    snprintf(n, sizeof n, "keys%d-%lld-%lld-%lld-m%d%d-map%d", K, (long long)(C), (long long)(L), (long long)(P), mode, N, map); \
    c = mc_add(n, setup, init, step, dq, dtt), c->p[0] = K, c->p[1] = C, c->p[2] = L, c->p[3] = P, c->p[4] = mode, c->p[5] = N, c->p[6] = map
#define VARY(K, C, L, P, N, map, dq, dtt)                                                                              \
    snprintf(n, sizeof n, "keys%d-%d-%d-%d-n%d-changing", K, C, L, P, N);                                              \
    c = mc_add(n, setup, init, step, dq, dtt), c->p[0] = K, c->p[1] = C, c->p[2] = L, c->p[3] = P, c->p[5] = N, c->p[6] = map, c->p[7] = 1
    int  small = sizeof(CLOCK) == 1, w16 = sizeof(CLOCK) == 2;
#if MODE == 18
    static const int tp[][3] = {{0, 0, 0}, {0, 1, 0}, {0, 3, 1}, {1, 1, 1}, {1, 2, 0}, {1, 3, 1}, {2, 2, 3}, {2, 5, 1}, {2, 5, 2}, {3, 4, 6}, {3, 7, 2}, {3, 9, 0}};
    for (unsigned i = 0; i < sizeof tp / sizeof *tp; i++) {
        CFG(1, tp[i][0], tp[i][1], tp[i][2], 0, 4, i % 3, 24, sizeof(CLOCK) == 8 ? 40 : 56);
    }
    VARY(1, 2, 5, 2, 4, 0, 14, 24);
    VARY(1, 0, 1, 1, 3, 1, 14, 24);
    if (!small) {
        static const int more[][3] = {{5, 10, 4}, {10, 100, 5}, {100, 1000, 50}, {20, 500, 255}, {128, 256, 127}, {400, 3000, 250}, {30, 31, 29}};
        for (unsigned i = 0; i < sizeof more / sizeof *more; i++) {
            CFG(1, more[i][0], more[i][1], more[i][2], 1, 0, i % 3, 6, 8);
        }
    }
    if (small) {
        CFG(1, 32, 64, 16, 2, 2, 0, 0, 0);
        CFG(1, 16, 48, 32, 2, 3, 1, 0, 0);
        CFG(1, 20, 50, 10, 1, 0, 0, 7, 10);
        CFG(1, 5, 10, 4, 1, 0, 1, 6, 10);
        CFG(1, 10, 30, 7, 1, 0, 2, 6, 10);
        CFG(1, 3, 7, 2, 0, 3, 0, -1, 140);
    } else if (w16) {
        CFG(1, 50, 300, 20, 1, 1, 0, 6, sizeof(CLOCK) == 8 ? 6 : 7);
        CFG(1, 4000, 12000, 1000, 1, 0, 0, 8, 10);
        CFG(1, 256, 512, 300, 1, 0, 0, 8, 10);
    } else {
        CFG(1, 50, 300, 20, 1, 1, 0, 6, sizeof(CLOCK) == 8 ? 6 : 7);
        CFG(1, 40, 2000, 100, 1, 0, 1, 8, 10);
        CFG(1, 70000, 200000, 66000, 1, 0, 2, 7, 10);
        CFG(1, 1ll << 29, (1ll << 30) - 5, 1ll << 28, 1, 0, 1, 6, 8);
        if (sizeof(CLOCK) == 8) {
            CFG(1, (1ll << 32) + 5, (1ll << 33) + 9, (1ll << 32) + 2, 1, 0, 0, 7, 10);
            CFG(1, 1ll << 60, (1ll << 61) + 2, 1ll << 59, 1, 0, 0, 6, 8);
        }
    }
#else
    static const int tp[][3] = {{0, 1, 0}, {1, 2, 0}, {1, 3, 1}, {2, 5, 1}, {2, 4, 3}};
    for (unsigned i = 0; i < sizeof tp / sizeof *tp; i++) {
        CFG(2, tp[i][0], tp[i][1], tp[i][2], 0, 3, i % 3, 10, sizeof(CLOCK) == 1 ? 12 : 11);
        CFG(3, tp[i][0], tp[i][1], tp[i][2], 0, 2, (i + 1) % 3, 7, 9);
        CFG(4, tp[i][0], tp[i][1], tp[i][2], 0, 1, (i + 2) % 3, 6, 10);
    }
    VARY(2, 1, 3, 1, 3, 2, 7, 9);
    VARY(3, 1, 2, 1, 2, 1, 5, 7);
    CFG(5, 1, 2, 0, 0, 2, 0, 5, 7);
    CFG(MANY, 0, 1, 0, 0, 2, 0, 3, 3);
    CFG(0, 1, 2, 0, 0, 1, 0, 3, 3); /* no key at all */
    if (small) {
        CFG(2, 32, 64, 16, 2, 2, 0, 0, 0);
        CFG(2, 16, 32, 16, 2, 3, 2, -1, 0);
        CFG(3, 16, 32, 0, 2, 2, 1, 7, 10);
    } else {
        CFG(2, 40, 2000, 100, 1, 0, 1, 6, 7);
        CFG(2, 100, 1000, 50, 1, 0, 0, 5, 6);
        CFG(2, 5, 10, 4, 1, 0, 2, 5, 6);
        CFG(3, 10, 300, 255, 1, 0, 1, 4, 5);
    }
#endif
}
