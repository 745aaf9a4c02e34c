/* C04: the macro stack is a bounded LIFO with removal from the bottom, for every history. */
#include "mc.h"
#include "cont.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static const cont_ops *o;
static void           *s;
static unsigned        V, bulk;
static uint16_t       *m; /* m[0]: number stored, m[1..]: values, oldest first */
static unsigned char   item[512], out[512];
static void            mk(unsigned char *d, unsigned v) {
    uint64_t x = (uint64_t)(v + 1) * 0x9E3779B97F4A7C15ull;
    if (o->isz == 1)
        x = v * 29 + 3;
    memcpy(d, &x, o->isz < 8 ? o->isz : 8);
    for (size_t i = 8; i < o->isz; i++)
        d[i] = d[i - 8] + i;
}
static void observe(void) {
    mc_check(!!o->empty(s) == (m[0] == 0), "empty test wrong with %u stored", m[0]);
    mc_check(!!o->full(s) == (m[0] == o->cap), "full test wrong with %u of %zu stored", m[0], o->cap);
}
static void put(unsigned v) {
    memset(item, 0x6D, sizeof item);
    mk(item, v);
    int r = o->put(s, item);
    mc_check(!!r == (m[0] < o->cap), "push %s with %u of %zu stored", r ? "succeeded" : "failed", m[0], o->cap);
    if (r) {
        m[0]++;
        m[m[0]] = (uint16_t)v;
    }
}
static void take(int peek, int null) {
    unsigned char exp[512];
    memset(out, 0x3C, sizeof out);
    memset(exp, 0x3C, sizeof exp);
    int r = peek ? o->peek(s, null ? NULL : out) : o->get(s, null ? NULL : out);
    mc_check(!!r == (m[0] > 0), "%s %s with %u stored", peek ? "peek" : "pop", r ? "succeeded" : "failed", m[0]);
    if (r && !null)
        mk(exp, m[m[0]]);
    mc_check(!memcmp(out, exp, sizeof out), r ? "%s delivered a wrong element" : "failed %s touched its output", peek ? "peek" : "pop");
    if (r && !peek)
        m[0]--;
}
static void bottom(void) {
    o->drop(s);
    if (m[0]) {
        memmove(m + 1, m + 2, (m[0] - 1u) * sizeof *m);
        m[0]--;
    }
}
/* the whole content, found by emptying a copy */
static void content(void) {
    static unsigned char cp[1 << 20];
    mc_copy(cp, s, o->size);
    for (unsigned i = m[0]; i > 0; i--) {
        unsigned char exp[512];
        memset(out, 0x3C, sizeof out);
        memset(exp, 0x3C, sizeof exp);
        mk(exp, m[i]);
        mc_check(o->get(cp, out) && !memcmp(out, exp, sizeof out), "element %u of %u is wrong", i, m[0]);
    }
    mc_check(!o->get(cp, out), "more elements than were pushed");
}
static void setup(void) {
    o    = &cont_tab[mc_cfg->p[0]];
    V    = (unsigned)mc_cfg->p[1];
    bulk = (unsigned)mc_cfg->p[2];
    s    = mc_alloc(o->size, !bulk);
    m    = mc_alloc((o->cap + 2) * sizeof *m, !bulk);
    if (bulk)
        mc_region(m, 2 * sizeof *m, 1);
}
static void init(void) {
    static const unsigned char g[] = {0xB7, 0x00, 0xFF};
    mc_garbage(s, o->size, g[mc_choose(3)]);
    memset(m, 0, (o->cap + 2) * sizeof *m);
    o->init(s);
    observe();
}
static void step(void) {
    unsigned op = mc_choose(7), t = 1, base = 0;
    if (bulk) {
        unsigned a = op == 0 ? (unsigned)o->cap - m[0] : m[0];
        unsigned c[] = {1, 2, a / 2, a ? a - 1 : 0, a, a + 1, a > 256 ? 256 : 1};
        t            = c[mc_choose(op > 1 && op != 5 ? 1 : o->cap > 1000 && op == 5 ? 2 : 7)];
        base         = mc_choose(2) * 1000;
    }
    switch (op) {
        case 0: {
            unsigned v = bulk ? base : mc_choose(V);
            mc_label("push %u x%u", v, t);
            for (unsigned i = 0; i < t; i++)
                put((v + i) & 0xFFFF);
            break;
        }
        case 1:
            mc_label("pop x%u", t);
            for (unsigned i = 0; i < t; i++)
                take(0, 0);
            break;
        case 2: mc_label("pop into nothing"); take(0, 1); break;
        case 3: mc_label("peek"); take(1, 0); break;
        case 4: mc_label("peek into nothing"); take(1, 1); break;
        case 5:
            mc_label("remove from the bottom x%u", t);
            for (unsigned i = 0; i < t; i++)
                bottom();
            break;
        case 6:
            mc_label("init again");
            o->init(s);
            m[0] = 0;
            break;
    }
    observe();
    content();
    /* cells of the model that are not in use must not distinguish states */
    if (!bulk)
        for (unsigned i = m[0] + 1u; i < o->cap + 2; i++)
            m[i] = 0;
}
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static unsigned char s2[8192];
    unsigned char        x[512];
    if (o->size > sizeof s2)
        return;
    o->init(s2);
    memset(x, 0x77, sizeof x);
    o->put(s2, x), o->put(s2, x), o->get(s2, x), o->put(s2, x), o->drop(s2), o->put(s2, x);
    mc_check(!o->empty(s2), "another stack has a wrong content");
}
void mc_register(void) {
    mc_other = other;
    for (int i = 0; i < cont_n; i++) {
        const cont_ops *c   = &cont_tab[i];
        int             big = c->cap > 8;
        char            n[64];
        snprintf(n, sizeof n, "%s-cap%zu-item%zu", c->name, c->cap, c->isz);
        mc_config *k = mc_add(n, setup, init, step, big ? (c->cap > 1000 ? 2 : 4) : 0, big ? (c->cap > 1000 ? 3 : 5) : 0);
        k->p[0]      = i;
        k->p[1]      = c->cap <= 3 ? 4 : 3;
        k->p[2]      = big;
    }
}
