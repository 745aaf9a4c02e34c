/* C15: every change fires its callback exactly once, at the right time. */
#include "mc.h"
#include "data_structures/watcher.h"
#include <stdio.h>
#include <string.h>
#ifndef CLOCK
#define CLOCK unsigned long
#endif
extern void watcher_trigger_all_cb(watcher_t *list) __attribute__((weak));
#ifdef MANY
#define NW 300
#define KIND(i) ((i) % 2 ? 15 : 2)
#else
#define NW 6
#define KIND(i) ((int)mc_cfg->p[(i) + ((i) > 3)]) /* p[4]: callbacks change locations */
#endif
static watcher_t *list;
static uint8_t   *mem[NW];
static size_t     size[NW];
static uint64_t   delay[NW];
static int        nw;
static uint64_t   dts[12];
static int        ndt;
static struct {
    uint64_t now;
    uint64_t since[NW]; /* time since the change was noticed */
    uint8_t  cur[NW], seen[NW], pending[NW];
} *m;
static int fired[NW], expect[NW];
static char udata[NW];
#ifdef MANY
#define ARG(i) ((void *)&udata[i])
#else
#define ARG(i) (KIND(i) % 10 == 2 ? NULL : (void *)&udata[i]) /* watchers of bytes have no argument */
#endif
static void content(int i, int v, uint8_t *d) {
    memset(d, 0x40 + i, size[i]);
    if (v == 1)
        d[0] ^= 0x80;
    if (v == 2)
        d[size[i] - 1] ^= 1;
    if (v == 3)
        d[size[i] / 2] ^= 0x10;
    if (v > 3)
        d[v - 4] ^= 6; /* any of the bytes */
}
#if !GEL_MALLOC_AVAILABLE
static void other(void);
#endif
static int  react_from = -1, react_to, react_value;
static void called(int i, void *p, void *data) {
    static uint8_t x[GEL_STATIC_BLOCK_SIZE];
    mc_check(p == mem[i], "callback of watcher %d called with another location", i);
    mc_check(data == ARG(i), "callback of watcher %d called with another argument", i);
    content(i, m->cur[i], x);
    mc_check(!memcmp(x, p, size[i]), "the watched location was changed");
    fired[i]++;
#if !GEL_MALLOC_AVAILABLE
    other(); /* the callback uses another list */
#endif
    if (i == react_from) { /* and changes another location of this one */
        react_from       = -1;
        m->cur[react_to] = react_value;
        content(react_to, react_value, mem[react_to]);
    }
}
static void cb0(void *p, void *d) { called(0, p, d); }
static void cb1(uint8_t *p, char *d) { called(1, p, d); }
static void cb2(void *p, void *d) { called(2, p, d); }
static void cb3(void *p, void *d) { called(3, p, d); }
static void cb4(void *p, void *d) { called(4, p, d); }
static void cb5(void *p, void *d) { called(5, p, d); }
#ifdef MANY
static void cbm(void *p, void *d) { called((char *)d - udata, p, d); }
static int  which(void) {
    static const int w[] = {0, 1, 127, 128, 254, 255, 256, 257, 298, 299};
    return w[mc_choose(10)];
}
#else
#define which() mc_choose(nw)
#endif
enum { CHANGE, PROCESS, CLEAR, CHECK, TRIGGER };
static void quiet(void) { memset(fired, 0, sizeof fired), memset(expect, 0, sizeof expect); }
static void verify(const char *what) {
    for (int i = 0; i < nw; i++) {
        mc_check(fired[i] == expect[i], "%s: callback of watcher %d (delay %lu) ran %d times instead of %d", what, i, delay[i], fired[i], expect[i]);
        static uint8_t x[GEL_STATIC_BLOCK_SIZE];
        content(i, m->cur[i], x);
        mc_check(!memcmp(x, mem[i], size[i]), "%s: the watched location %d was changed", what, i);
    }
#if GEL_MALLOC_AVAILABLE
    mc_heap_check();
#endif
    quiet();
}
static void add_dt(uint64_t d) {
    for (int i = 0; i < ndt; i++)
        if (dts[i] == d)
            return;
    dts[ndt++] = d;
}
/* p[0..3], p[5], p[6]: kind of each watcher; 0: none, 1: one u32, 2: a byte, 3: three u16, 4: a whole block, 5: one u16,
 * 6..9: 3, 5, 7 or 8 bytes; +10*k: delay number k */
static const uint64_t delays[] = {0, 1, 2, 5, 65535, 256, 40000, (1ull << 33) + 7, 3, 4, 100, 255, 128};
static void setup(void) {
#ifdef MANY
    uint8_t *block = mc_alloc(2 * NW, 1);
#endif
    while (nw < NW && KIND(nw)) {
        int k     = KIND(nw) % 10;
        size[nw]  = k == 1 ? 4 : k == 2 ? 1 : k == 3 ? 6 : k == 5 ? 2 : k > 5 ? (size_t[]){3, 5, 7, 8}[k - 6] : GEL_STATIC_BLOCK_SIZE;
        delay[nw] = delays[KIND(nw) / 10];
#ifdef MANY
        mem[nw] = block + 2 * nw;
#else
        mem[nw]   = mc_alloc(size[nw], 1);
#endif
        nw++;
    }
    list = mc_alloc((nw + 1) * sizeof *list, 1);
    m    = mc_alloc(sizeof *m, 1);
#if GEL_MALLOC_AVAILABLE
    mc_heap_setup(NW + 1, GEL_STATIC_BLOCK_SIZE + 16);
#endif
    add_dt(0), add_dt(1);
    for (int i = 0; i < nw; i++)
        if (delay[i])
            add_dt(delay[i] - 1), add_dt(delay[i]);
    if (sizeof(CLOCK) == 1)
        add_dt(60);
}
static void init(void) {
    static watcher_cb_t        cb[]  = {cb0, (watcher_cb_t)cb1, cb2, cb3, cb4, cb5};
    (void)cb;
    static const uint64_t      t0[]  = {0, ~0ull, 0x7fffffffffffffffull, 0xffffffffull};
    memset(m, 0, sizeof *m);
    mc_garbage(list, (nw + 1) * sizeof *list, 0xC3);
    for (int i = 0; i < nw; i++) {
        void        *p = mem[i];
#ifdef MANY
        watcher_cb_t c = cbm;
#else
        watcher_cb_t c = cb[i];
#endif
        content(i, 0, p);
        switch (KIND(i) % 10) {
            case 1:
                if (delay[i])
                    list[i] = WATCHER_DELAYED((uint32_t *)p, c, ARG(i), delay[i]);
                else
                    list[i] = WATCHER(p ? (uint32_t *)p : NULL, c, ARG(i));
                break;
            case 5:
                list[i] = WATCHER_DELAYED((uint16_t *)p, c, ARG(i), delay[i]);
                break;
            case 3:
                if (delay[i])
                    list[i] = WATCHER_DELAYED_ARRAY((uint16_t *)p - nw + nw, 1 + 2, c, ARG(i), delay[i]);
                else
                    list[i] = WATCHER_ARRAY(p ? (uint16_t *)p : NULL, nw ? 3 : 0, c, ARG(i));
                break;
            default:
                if (delay[i])
                    list[i] = WATCHER_DELAYED_ARRAY((uint8_t *)p, size[i], c, ARG(i), delay[i]);
                else
                    list[i] = WATCHER_ARRAY((uint8_t *)p, size[i], c, ARG(i));
        }
    }
    list[nw] = WATCHER_NULL;
    m->now   = (CLOCK)t0[mc_choose(4)];
    quiet();
    watcher_list_init(list);
    verify("initialisation");
}
static void pass(uint64_t dt) {
    m->now = (CLOCK)(m->now + dt);
    for (int i = 0; i < nw; i++)
        if (m->pending[i]) {
            m->since[i] += dt;
            if (m->since[i] - delay[i] + 1 > ((CLOCK)-1) / 2 && m->since[i] > delay[i])
                mc_prune(); /* half the clock range or more */
        }
}
static void step(void) {
    int op     = mc_choose(5);
    react_from = -1;
    switch (op) {
        case CHANGE: {
            int i = which(), v = mc_choose(nw == 1 && KIND(i) % 10 > 5 ? 4 + (int)size[i] : nw == 1 && size[i] > 2 ? 4 : 3);
            if (v == m->cur[i])
                mc_prune();
            mc_label("location %d := %d", i, v);
            m->cur[i] = v;
            content(i, v, mem[i]);
            break;
        }
        case PROCESS: {
            uint64_t dt = dts[mc_choose(ndt)];
            int      any = 0;
            pass(dt);
            mc_label("process, %lu later (%#lx)", dt, m->now);
            for (int i = 0; i < nw; i++) {
                if (m->cur[i] != m->seen[i]) {
                    any        = 1;
                    m->seen[i] = m->cur[i];
                    if (delay[i]) {
                        m->pending[i] = 1, m->since[i] = 0;
                        MC_COVER("delayed change noticed");
                    } else {
                        expect[i] = 1;
                        MC_COVER("immediate callback");
                    }
                } else if (m->pending[i] && m->since[i] >= delay[i]) {
                    m->pending[i] = 0, m->since[i] = 0;
                    expect[i] = 1;
                    MC_COVER("delayed callback");
                }
            }
            /* a callback that will run changes a quiet location watched without delay */
            react_from = -1;
            if (mc_cfg->p[4])
                for (int i = 0; i < nw && react_from < 0; i++)
                    for (int j = 0; j < nw && expect[i] && react_from < 0; j++)
                        if (j != i && !delay[j] && !expect[j] && mc_choose(2))
                            react_from = i, react_to = j, react_value = (m->cur[j] + 1) % 3;
            int to = react_from >= 0 ? react_to : -1;
            if (to >= 0)
                mc_label("  the callback of watcher %d changes location %d", react_from, to);
            int r = watcher_process_changes(list, (CLOCK)m->now);
            if (to >= 0 && fired[to]) { /* noticed in this call already; otherwise it has to be in the next */
                m->seen[to] = m->cur[to], expect[to] = 1, any = 1;
                MC_COVER("change made by a callback noticed at once");
            } else if (to >= 0)
                MC_COVER("change made by a callback left for the next call");
            mc_check(!!r == any, "processing reports %d, changes: %d", r, any);
            verify("processing");
            break;
        }
        case CLEAR: {
            uint64_t dt = dts[mc_choose(2)];
            pass(dt);
            mc_label("clear changes");
            for (int i = 0; i < nw; i++) {
                m->seen[i]    = m->cur[i];
                m->pending[i] = 0, m->since[i] = 0;
            }
            watcher_clear_changes(list, (CLOCK)m->now);
            verify("clearing");
            break;
        }
        case CHECK: {
            int any = 0;
            for (int i = 0; i < nw; i++)
                any |= m->cur[i] != m->seen[i];
            mc_label("check");
            int r = watcher_check_for_changes(list);
            mc_check(!!r == any, "check for changes reports %d, changes: %d", r, any);
            verify("checking");
            break;
        }
        case TRIGGER: {
            int i = mc_choose(2) ? nw : which();
            mc_label("trigger %d", i);
            if (i < nw)
                watcher_trigger_cb(list, i), expect[i] = 1;
            else {
                for (int k = 0; k < nw; k++)
                    expect[k] = 1;
                watcher_trigger_all(list);
                verify("triggering");
                if (watcher_trigger_all_cb) {
                    for (int k = 0; k < nw; k++)
                        expect[k] = 1;
                    watcher_trigger_all_cb(list);
                }
            }
            verify("triggering");
            break;
        }
    }
}
#ifndef MANY
/* several watchers of the same location, of a part of it and of more than it */
static const struct { int at, len, delay; } over[] = {{0, 1, 0}, {0, 1, 0}, {0, 2, 2}, {0, 4, 0}, {1, 1, 1}, {1, 2, 2}};
static struct {
    uint64_t now;
    uint8_t  seen[6][4], pending[6], since[6];
} *om;
static uint8_t *block;
static void     over_cb(void *p, void *data) {
    int i = (char *)data - udata;
    mc_check(i >= 0 && i < 6 && p == block + over[i].at, "callback of watcher %d called with another location", i);
    fired[i]++;
}
static void over_setup(void) {
    nw    = 6;
    block = mc_alloc(4, 1);
    list  = mc_alloc((nw + 1) * sizeof *list, 1);
    om    = mc_alloc(sizeof *om, 1);
#if GEL_MALLOC_AVAILABLE
    mc_heap_setup(NW + 1, GEL_STATIC_BLOCK_SIZE + 16);
#endif
}
static void over_verify(const char *what) {
    for (int i = 0; i < nw; i++)
        mc_check(fired[i] == expect[i], "%s: callback of watcher %d (bytes %d to %d, delay %d) ran %d times instead of %d", what, i, over[i].at, over[i].at + over[i].len - 1, over[i].delay, fired[i], expect[i]);
    quiet();
}
static void over_init(void) {
    memset(om, 0, sizeof *om), memset(block, 0, 4);
    mc_garbage(list, (nw + 1) * sizeof *list, 0xC3);
    for (int i = 0; i < nw; i++)
        if (over[i].delay)
            list[i] = WATCHER_DELAYED_ARRAY(block + over[i].at, over[i].len, over_cb, &udata[i], over[i].delay);
        else
            list[i] = WATCHER_ARRAY(block + over[i].at, over[i].len, over_cb, &udata[i]);
    list[nw] = WATCHER_NULL;
    om->now  = mc_choose(2) ? 0 : (CLOCK)-2;
    quiet();
    watcher_list_init(list);
    over_verify("initialisation");
}
static void over_step(void) {
    int op = mc_choose(4), any = 0;
    if (op == 0) {
        int k = mc_choose(3), v = mc_choose(2);
        k += k == 2;
        if (block[k] == v)
            mc_prune();
        mc_label("byte %d := %d", k, v);
        block[k] = v;
        return;
    }
    unsigned dt = op == 1 ? mc_choose(3) : 0;
    om->now     = (CLOCK)(om->now + dt);
    for (int i = 0; i < nw; i++) {
        int moved = memcmp(om->seen[i], block + over[i].at, over[i].len);
        any |= moved != 0;
        if (om->pending[i])
            om->since[i] += dt;
        if (om->since[i] > 60)
            mc_prune();
        if (op == 1 && moved && over[i].delay)
            om->pending[i] = 1, om->since[i] = 0;
        else if (op == 1 && moved)
            expect[i] = 1;
        else if (op == 1 && om->pending[i] && om->since[i] >= over[i].delay)
            expect[i] = 1, om->pending[i] = 0, om->since[i] = 0;
        if (op == 2)
            om->pending[i] = 0, om->since[i] = 0;
        if (op < 3)
            memcpy(om->seen[i], block + over[i].at, over[i].len);
    }
    mc_label(op == 1 ? "process, %u later" : op == 2 ? "clear changes" : "check", dt);
    int r = any;
    if (op == 1)
        r = watcher_process_changes(list, (CLOCK)om->now);
    else if (op == 2)
        watcher_clear_changes(list, (CLOCK)om->now);
    else
        r = watcher_check_for_changes(list);
    mc_check(!!r == any, "reports %d, changes: %d", r, any);
    over_verify(op == 1 ? "processing" : op == 2 ? "clearing" : "checking");
#if GEL_MALLOC_AVAILABLE
    mc_heap_check();
#endif
    MC_COVER("watchers of the same bytes");
}
#endif
#if !GEL_MALLOC_AVAILABLE
/* another list, used before every step: it must not matter */
static int  other_calls;
static void other_cb(void *p, void *d) { other_calls += p && !d; }
static void other(void) {
    static uint8_t x[2];
    watcher_t      o[] = {WATCHER(&x[0], other_cb, NULL), WATCHER_DELAYED(&x[1], other_cb, NULL, 5), WATCHER_NULL};
    other_calls = 0;
    watcher_list_init(o);
    x[0]++, x[1]++;
    watcher_process_changes(o, 100), watcher_process_changes(o, 105);
    mc_check(other_calls == 2, "the callbacks of another list ran %d times instead of twice", other_calls);
    x[0]++, x[1]++;
    watcher_process_changes(o, 107), watcher_check_for_changes(o);
}
#else
#define other NULL
#endif
void mc_register(void) {
    mc_other = other;
#ifdef MANY
    mc_add("watchers300", setup, init, step, 3, 3);
    return;
#endif
#if GEL_STATIC_BLOCK_SIZE > 16
    static const int l[][3] = {{4, 0}, {24, 0}, {4, 24}, {24, 2}, {3, 4}};
    for (int i = 0; i < 5; i++) {
        mc_config *k = mc_add((const char *[]){"long", "long-delayed", "long-both", "long-and-short", "short-and-long"}[i], setup, init, step, i == 2 || i == 3 ? 4 : 5, 6);
        k->p[0] = l[i][0], k->p[1] = l[i][1];
    }
    return;
#endif
#ifdef NDEBUG /* the same code without assertions */
    mc_config *c = mc_add("without-assertions", setup, init, step, 6, 8);
    c->p[0] = 2, c->p[1] = 22;
    return;
#endif
#ifndef MANY
    mc_add("overlapping", over_setup, over_init, over_step, 10, 13);
#endif
    static const int t[][6] = {
        {1, 0, 0, 0, 9, 14}, {11, 0, 0, 0, 9, 14}, {22, 0, 0, 0, 9, 14}, {34, 0, 0, 0, 9, 13}, {45, 0, 0, 0, 9, 13}, {53, 0, 0, 0, 9, 13}, {61, 0, 0, 0, 9, 13},
        {1, 22, 0, 0, 6, 9}, {33, 14, 0, 0, 6, 9}, {2, 3, 24, 0, 5, 7}, {21, 22, 13, 0, 5, 7}, {51, 2, 0, 0, 6, 8}, {3, 4, 1, 12, 4, 5}, {21, 22, 33, 34, 4, 5},
        {71, 0, 0, 0, 9, 14}, {72, 13, 0, 0, 6, 9}};
    for (int i = 0; i < (int)(sizeof t / sizeof *t); i++) {
        int big = 0, n = 0;
        char b[64];
        mc_config c = {0};
        while (n < 4 && t[i][n]) {
            big |= delays[t[i][n] / 10] > 65535 || delays[t[i][n] / 10] >= ((CLOCK)-1) / 2;
            n++;
        }
#ifdef GEL_WATCHER_REDUCE_RAM_FOOTPRINT
        for (int k = 0; k < n; k++)
            big |= delays[t[i][k] / 10] > 65535;
        if (big)
            continue;
#else
        for (int k = 0; k < n; k++)
            if (delays[t[i][k] / 10] >= ((CLOCK)-1) / 2)
                goto skip;
#endif
        snprintf(b, sizeof b, "watchers%d-%d-%d-%d-%d", n, t[i][0], t[i][1], t[i][2], t[i][3]);
        mc_config *k = mc_add(b, setup, init, step, t[i][4] + (n == 1 ? 8 : n == 4 ? 2 : 3), n == 1 && sizeof(CLOCK) == 1 ? 0 : t[i][5] + (n == 1 ? 10 : n == 2 ? (sizeof(CLOCK) == 1 ? 0 : 2) : 1));
        for (int j = 0; j < 4; j++)
            k->p[j] = t[i][j];
    skip:;
    }
    /* more sizes, delays and watchers */
    static const int e[][6] = {{6}, {16}, {7}, {27}, {8}, {38}, {9}, {89}, {81}, {92}, {2}, {12}, {102}, {113}, {125}, {2, 12, 6, 15, 1, 22}, {3, 2, 2, 7, 82, 2}};
    for (int i = 0; i < (int)(sizeof e / sizeof *e); i++) {
        char b[64];
        int  max = 0, many = e[i][1] != 0;
        for (int j = 0; j < 6; j++)
            max = delays[e[i][j] / 10] > (uint64_t)max ? (int)delays[e[i][j] / 10] : max;
        if (max >= (int64_t)(sizeof(CLOCK) < 4 ? ((CLOCK)-1) / 2 : 0x7fffffff))
            continue;
        snprintf(b, sizeof b, "%s%d", many ? "six" : "one-", e[i][0]);
        mc_config *k = mc_add(b, setup, init, step, many ? 5 : 8, many ? 6 : 10);
        for (int j = 0; j < 6; j++)
            k->p[j + (j > 3)] = e[i][j];
    }
    /* callbacks that change other locations */
    static const int r[][6] = {{1, 2, 0, 0, 9, 14}, {1, 22, 0, 0, 7, 9}, {22, 3, 0, 0, 7, 9}, {2, 3, 24, 0, 5, 7}, {1, 2, 2, 0, 6, 8}};
    for (int i = 0; i < (int)(sizeof r / sizeof *r); i++) {
        char b[64];
        snprintf(b, sizeof b, "reacting-%d-%d-%d", r[i][0], r[i][1], r[i][2]);
        mc_config *k = mc_add(b, setup, init, step, r[i][4] + 1, r[i][5]);
        for (int j = 0; j < 4; j++)
            k->p[j] = r[i][j];
        k->p[4] = 1;
    }
}
