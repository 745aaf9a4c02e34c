/* C03: the macro queue is a bounded FIFO for every history, including index wrap-around. */
#include "mc.h"
#include "cont.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static const cont_ops *o;
static void           *q;
static unsigned        M, bulk;
static struct {
    uint32_t n, w; /* stored, next value */
} *m;
static unsigned char item[512], out[512];
static void          mk(unsigned char *d, uint32_t s) {
    uint64_t v = ((uint64_t)(s % M) + 1) * 0x9E3779B97F4A7C15ull;
    v ^= v >> 29;
    if (o->isz == 1)
        v = (s % M) * 29 + 3;
    memcpy(d, &v, o->isz < 8 ? o->isz : 8);
    for (size_t i = 8; i < o->isz; i++)
        d[i] = d[i - 8] + i;
}
static void observe(void) {
    mc_check(o->count(q) == (long)m->n, "count is %ld with %u elements stored", o->count(q), m->n);
    mc_check(!!o->empty(q) == (m->n == 0), "empty test wrong with %u stored", m->n);
    mc_check(!!o->full(q) == (m->n == o->cap), "full test wrong with %u of %zu stored", m->n, o->cap);
}
static void put(void) {
    memset(item, 0x6D, sizeof item);
    mk(item, m->w);
    memcpy(out, item, sizeof out);
    int r = o->put(q, item);
    mc_check(!memcmp(out, item, sizeof out), "enqueue changed the element it was given");
    mc_check(!!r == (m->n < o->cap), "enqueue %s with %u of %zu stored", r ? "succeeded" : "failed", m->n, o->cap);
    if (r) {
        m->n++;
        m->w++;
    }
}
static void get(int drop) {
    unsigned char exp[512];
    memset(out, 0x3C, sizeof out);
    memset(exp, 0x3C, sizeof exp);
    int r = drop ? o->drop(q) : o->get(q, out);
    mc_check(!!r == (m->n > 0), "%s %s with %u stored", drop ? "drop" : "dequeue", r ? "succeeded" : "failed", m->n);
    if (r && !drop)
        mk(exp, m->w - m->n);
    mc_check(!memcmp(out, exp, sizeof out), r ? "dequeue delivered a wrong element" : "failed dequeue touched its output");
    if (r)
        m->n--;
}
static void setup(void) {
    o    = &cont_tab[mc_cfg->p[0]];
    M    = (unsigned)mc_cfg->p[1];
    bulk = (unsigned)mc_cfg->p[2];
    q    = mc_alloc(o->size, !bulk);
    m    = mc_alloc(sizeof *m, !bulk);
    if (bulk) {
        mc_region(m, sizeof *m, 1);
    }
}
static void init(void) {
    static const unsigned char g[] = {0xB7, 0x00, 0xFF};
    mc_garbage(q, o->size, g[mc_choose(3)]);
    m->n = m->w = 0;
    o->init(q);
    observe();
    if (bulk) {
        /* bring the counters close to a wrap of any width */
        static const unsigned adv[] = {0, 120, 250, 32760, 65530};
        unsigned              a     = adv[mc_choose(5)];
        mc_label("after %u enqueue/dequeue pairs", a);
        for (unsigned i = 0; i < a; i++) {
            put();
            get(0);
            observe();
        }
    }
}
static void step(void) {
    if (!bulk) {
        switch (mc_choose(4)) {
            case 0: mc_label("enqueue"); put(); break;
            case 1: mc_label("dequeue"); get(0); break;
            case 2: mc_label("drop"); get(1); break;
            case 3: mc_label("init again"); o->init(q); m->n = 0; break;
        }
        m->w %= M;
        if (m->w < m->n)
            m->w += M;
        observe();
        return;
    }
    unsigned room = (unsigned)o->cap - m->n, c[16], n = 0;
    int      w      = mc_choose(4);
    if (w == 3) {
        mc_label("init again");
        o->init(q);
        m->n = 0;
        observe();
        return;
    }
    unsigned a      = w == 0 ? room : m->n;
    unsigned cand[] = {1, 2, a / 2, a ? a - 1 : 0, a, a + 1, 255, 256};
    for (unsigned i = 0; i < 8; i++) {
        unsigned k;
        for (k = 0; k < n && c[k] != cand[i]; k++)
            ;
        if (k == n && cand[i] && cand[i] <= a + 1)
            c[n++] = cand[i];
    }
    unsigned t = c[mc_choose(n)];
    mc_label("%s x%u", w == 0 ? "enqueue" : w == 1 ? "dequeue" : "drop", t);
    for (unsigned i = 0; i < t; i++) {
        if (w == 0)
            put();
        else
            get(w == 2);
        observe();
    }
}
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static unsigned char q2[1 << 20];
    unsigned char        x[512];
    if (o->size > sizeof q2 || o->size > 8192)
        return;
    o->init(q2);
    memset(x, 0x77, sizeof x);
    o->put(q2, x), o->put(q2, x), o->get(q2, x), o->put(q2, x);
    mc_check(!o->empty(q2), "another queue has a wrong content");
}
void mc_register(void) {
    mc_other = other;
    for (int i = 0; i < cont_n; i++) {
        const cont_ops *c    = &cont_tab[i];
        int             big  = c->cap > 8;
        int             fast = c->cap <= 4;
        char            n[64];
        snprintf(n, sizeof n, "%s-cap%zu-item%zu", c->name, c->cap, c->isz);
        mc_config *k = mc_add(n, setup, init, step, big ? (c->cap > 1000 ? 3 : 5) : fast ? 0 : -1, big ? (c->cap > 1000 ? 4 : 7) : 0);
        k->p[0]      = i;
        k->p[1]      = big ? 65521 : c->cap <= 2 ? 4 : c->cap * 2;
        k->p[2]      = big;
    }
}
