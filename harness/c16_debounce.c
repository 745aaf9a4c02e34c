/* C16: an input changes only after debounce + 1 consecutive samples that differ. */
#include "mc.h"
#include "debounce/debounce.h"
#include <string.h>
#include <stdio.h>
#define NI 32
static debounce_filter_t *f;
static struct {
    uint32_t filtered, touched;
    uint32_t run[NI];
    uint32_t d; /* debounce given while an input is being filtered */
} *m;
static int      bits[8], nb, d[NI], single;
static unsigned bg;
/* p[0]: mask of the moving inputs, p[1]: debounce, p[2]: sampling mode (0 whole, 1 single inputs, 2 both), p[3]: level of the other inputs, p[4]: each input its own debounce, p[5]: another debounce whenever no input is being filtered */
static void setup(void) {
    for (int i = 0; i < NI; i++) {
        if ((uint32_t)mc_cfg->p[0] >> i & 1)
            bits[nb++] = i;
        d[i] = mc_cfg->p[1] + (mc_cfg->p[4] ? (i == bits[nb ? nb - 1 : 0] ? nb - 1 : 0) : 0);
    }
    f      = mc_alloc(sizeof *f, 1);
    m      = mc_alloc(sizeof *m, 1);
    single = mc_cfg->p[2];
    bg     = mc_cfg->p[3];
    bg &= ~(uint32_t)mc_cfg->p[0];
}
static void queries(const char *what) {
    mc_check(debounce_value(f) == m->filtered, "%s: the filtered value is %#x instead of %#x", what, debounce_value(f), m->filtered);
    for (int i = 0; i < NI; i++)
        mc_check(debounce_read(f, i) == (int)(m->filtered >> i & 1), "%s: input %d reads %d instead of %u", what, i, debounce_read(f, i), m->filtered >> i & 1);
    mc_check(debounce_read(f, NI) == -1 && debounce_read(f, NI + 1) == -1 && debounce_read(f, (size_t)-1) == -1 && debounce_read(f, 1ul << 32) == -1,
             "%s: an input that does not exist can be read", what);
}
static void init(void) {
    static const unsigned char fill[] = {0, 0xff, 0x5b};
    mc_garbage(f, sizeof *f, fill[mc_choose(3)]);
    memset(m, 0, sizeof *m);
    debounce_filter_init(f);
    queries("init");
}
static int sample(int i, unsigned v) {
    if (v == (m->filtered >> i & 1)) {
        m->run[i] = 0;
        return 0;
    }
    if (++m->run[i] <= (uint32_t)d[i])
        return 0;
    m->run[i] = 0;
    m->filtered ^= 1u << i;
    return 1;
}
static unsigned pick(void) {
    unsigned v = bg;
    for (int i = 0; i < nb; i++)
        v |= mc_choose(2) ? 1u << bits[i] : 0;
    return v;
}
static void step(void) {
    unsigned op = mc_choose(single == 0 ? 3 : single == 1 ? 3 : 4), got, want = 0;
    if (op == 0) {
        unsigned v = pick();
        mc_label("set(%#x)", v);
        debounce_filter_set(f, v);
        m->filtered = v;
        memset(m->run, 0, sizeof m->run);
        queries("set");
        return;
    }
    if (op == 1) {
        mc_label("init()");
        debounce_filter_init(f);
        memset(m, 0, sizeof *m);
        queries("init");
        return;
    }
    if (mc_cfg->p[5]) {
        unsigned pending = 0;
        for (int i = 0; i < NI; i++)
            pending |= m->run[i];
        if (!pending)
            m->d = mc_cfg->p[5] * mc_choose(3);
        for (int i = 0; i < NI; i++)
            d[i] = m->d;
    }
    if (op == 2 && single != 1) {
        unsigned v = pick();
        mc_label("filter(%#x, %d)", v, d[0]);
        got = debounce_filter(f, v, d[0]);
        for (int i = 0; i < NI; i++)
            want |= (unsigned)sample(i, v >> i & 1) << i;
        mc_check(got == want, "filter(%#x): reported changes %#x instead of %#x", v, got, want);
        if (want)
            MC_COVER("changed");
        else
            MC_COVER("unchanged");
    } else {
        int                   i   = bits[mc_choose(nb)];
        static const unsigned v[] = {0, 1, 2, 0x80000000u};
        unsigned              k   = v[mc_choose(4)];
        mc_label("filter_single(%#x, %d, %d)", k, i, d[i]);
        got  = debounce_filter_single(f, k, i, d[i]);
        want = (unsigned)sample(i, k > 0) << i;
        mc_check(got == want, "filter of input %d with %#x: reported changes %#x instead of %#x", i, k, got, want);
        MC_COVER("single");
    }
    queries("filter");
}
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static debounce_filter_t o;
    debounce_filter_init(&o);
    debounce_filter_set(&o, 0x0f0f0f0fu);
    debounce_filter(&o, 0x00ff00ffu, 2), debounce_filter(&o, 0x00ff00ffu, 2), debounce_filter_single(&o, 1, 31, 4);
    unsigned r = debounce_filter(&o, 0x00ff00ffu, 2);
    mc_check((r & 0x7fffffffu) == (0x0ff00ff0u & 0x7fffffffu), "another filter reports the changes %#x", r);
}
void mc_register(void) {
    mc_other = other;
    mc_config *c;
#define CFG(name, mask, deb, s, b, own, dq, dt)                                                                        \
    c = mc_add(name, setup, init, step, dq, dt), c->p[0] = mask, c->p[1] = deb, c->p[2] = s, c->p[3] = b, c->p[4] = own
    static const struct { unsigned mask; int unit, single; } vary[] = {{0x80000001u, 1, 2}, {0x00000003u, 3, 2}, {0x00010000u, 130, 2}, {0x00000301u, 1, 0}};
    for (int i = 0; i < 4; i++) {
        char n[32];
        snprintf(n, sizeof n, "changing%d-d%d", i, vary[i].unit);
        c = mc_add(n, setup, init, step, 0, 0), c->p[0] = vary[i].mask, c->p[2] = vary[i].single, c->p[5] = vary[i].unit;
    }
    CFG("ends-d0", 0x80000001u, 0, 2, 0, 0, 0, 0);
    CFG("ends-d1", 0x80000001u, 1, 2, 0xffffffffu, 0, 0, 0);
    CFG("ends-d2", 0x80000003u, 2, 2, 0, 0, 0, 0);
    CFG("bytes-d1", 0x00818180u, 1, 0, 0x12345678u, 0, 0, 0);
    CFG("bytes-d2", 0x80018080u, 2, 0, 0xffffffffu, 0, 0, 0);
    CFG("neighbours-d3", 0x00038000u, 3, 2, 0, 0, 0, 0);
    CFG("pair-d9", 0x40000100u, 9, 2, 0x80000000u, 0, 0, 0);
    CFG("own-d0", 0x80010001u, 0, 1, 0, 1, 0, 0);
    CFG("own-d2", 0x80018000u, 2, 1, 0, 1, 0, 0);
    CFG("one-d300", 0x80000000u, 300, 2, 0, 0, 0, 0);
    CFG("one-d70000", 0x00000010u, 70000, 2, 0, 0, -1, 0);
    CFG("first-d65536", 0x00000001u, 65536, 0, 0, 0, 0, 0);
    CFG("five-d1", 0x44011100u, 1, 0, 0, 0, 0, 0);
    CFG("eight-d1", 0x11111111u, 1, 0, 0, 0, -1, 0);
    CFG("five-d3", 0x80808181u, 3, 0, 0, 0, -1, 0);
    CFG("six-d2", 0xC0000183u, 2, 0, 0, 0, -1, 0);
    /* every input on its own */
    for (int i = 0; i < NI; i++) {
        char n[32];
        snprintf(n, sizeof n, "input%d", i);
        CFG(n, 1u << i, 2, 2, i & 1 ? 0xffffffffu : 0, 0, 0, 0);
    }
    /* every small debounce, on neighbours and on one input */
    static const int ds[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257};
    for (int i = 0; i < (int)(sizeof ds / sizeof *ds); i++) {
        char n[32];
        snprintf(n, sizeof n, "debounce%d", ds[i]);
        CFG(n, ds[i] < 12 ? 3u : 4u, ds[i], 2, 0, 0, 0, 0);
    }
    CFG("low-d1", 0x0000000fu, 1, 2, 0, 0, 0, 0);
    CFG("low-own", 0x00000007u, 1, 1, 0, 1, 0, 0);
}
