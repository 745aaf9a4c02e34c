/* C23: the output is exactly the sum of its terms over the configured history. */
#include "mc.h"
#include "pid/pid.h"
#include <string.h>
#include <stdio.h>
#define HN GEL_PID_INTEGRAL_HISTORY_SIZE
#define DN GEL_PID_DERIVATIVE_DELTA
typedef pid_control_type_t ctl;
typedef pid_output_type_t  out;
static pid_ctrl_t *p;
static struct {
    int    hist[HN]; /* oldest first */
    int    der[DN];  /* oldest first */
    int    nder;
    int8_t seen, sign, autoclear, low_en, high_en, der_en, gains;
    int    low, high, dthr, in, sp;
} *m;
static const int sets[][10] = {
    {-4, -2, -1, 0, 1, 2, 3, 4, 99},
    {-2, 0, 1, 3, 99},
    {-100, -1, 0, 1, 100, 99},
    {-3, 0, 1, 2, 99},
    {-1, 0, 1, 99},
    {-12000, -11999, 0, 7, 12000, 99},
    {-70000, -69999, 0, 7, 70000, 99},
    {-6, -5, -3, -1, 0, 1, 2, 5, 7, 99},
};
static const int   sps[][4]   = {{0, 99}, {0, 1, 99}, {0, 100, 99}, {-1, 2, 99}, {0, 99}, {0, 3, 99}, {0, 3, 99}, {0, 1, 99}};
static const int   thr[][4]   = {{2, 4, 99}, {1, 2, 99}, {100, 1, 99}, {0, 3, 99}, {1, 2, 99}, {12000, 12001, 99}, {70000, 70001, 99}, {1, 3, 99}};
static const int   runs[]     = {1, 2, 100, 255, 256, 257, 299, 300, 301};
static const float gains[][3] = {{0, 0, 0}, {1, 1, 1}, {2, 0.5f, -1.5f}, {0.25f, 2, 0.75f}, {-1, 0.125f, 4}, {0.5f, -0.5f, 0.5f}};
static int         ni, ns, nt;
static int         set, ops, g0;
static double      unit; /* values and errors are multiples of this */
static int         count(const int *a) {
    int n = 0;
    while (a[n] != 99)
        n++;
    return n;
}
/* p[0]: set of inputs, p[1]: mask of operations, p[2]: gains */
static void setup(void) {
    set = mc_cfg->p[0], ops = mc_cfg->p[1], g0 = mc_cfg->p[2];
    ni = count(sets[set]), ns = count(sps[set]), nt = count(thr[set]);
    unit = mc_cfg->p[3] ? 1. / mc_cfg->p[3] : 1;
    p = mc_alloc(sizeof *p, 1);
    m = mc_alloc(sizeof *m, 1);
}
static int  ab(int x) { return x < 0 ? -x : x; }
static void check(const char *what) {
    const float *g = gains[m->gains];
    int          e = m->sp - m->in;
    double       sum = 0, d;
    for (int i = 0; i < HN; i++)
        sum += m->hist[i];
    out P = (out)((double)g[0] * e * unit), I = (out)(g[1] * sum * unit), D;
    d     = m->nder ? (e - m->der[DN - m->nder]) * unit : 0;
    if (m->der_en && ab(e) > m->dthr)
        d = 0;
    D = (out)((double)g[2] * d);
    mc_check(pid_current_error(p) == (out)(e * unit), "%s: the error is %g instead of %g", what, (double)pid_current_error(p), e * unit);
    mc_check(pid_compute_p(p) == P, "%s: proportional term %g instead of %g", what, (double)pid_compute_p(p), (double)P);
    mc_check(pid_compute_i(p) == I, "%s: integral term %g instead of %g", what, (double)pid_compute_i(p), (double)I);
    mc_check(pid_compute_d(p) == D, "%s: derivative term %g instead of %g", what, (double)pid_compute_d(p), (double)D);
    mc_check(pid_compute(p) == (out)(P + I + D), "%s: output %g instead of %g", what, (double)pid_compute(p), (double)(out)(P + I + D));
}
static void tune(int k) {
    pid_ctrl_tune(p, gains[k][0], gains[k][1], gains[k][2]);
    m->gains = k;
}
static void init(void) {
    memset(m, 0, sizeof *m);
    mc_garbage(p, sizeof *p, mc_choose(2) ? 0xff : 0x41);
    pid_init(p);
    check("init");
    tune(g0);
    check("tune");
}
enum { SP = 1, CLEAR = 2, AUTO = 4, LOW = 8, HIGH = 16, DER = 32, TUNE = 64, LIM = 128, INIT = 256 };
static void clear(void) { memset(m->hist, 0, sizeof m->hist); }
static void add(int v) {
    int old = m->sp - m->in, e = m->sp - v;
    mc_label("input %g (error %g)", v * unit, e * unit);
    pid_add_input(p, (ctl)(v * unit));
    m->in  = v;
    int sg = e > 0 ? 1 : e < 0 ? -1 : m->sign;
    if (sg != m->sign) {
        m->sign = sg;
        if (m->autoclear) {
            MC_COVER("cleared automatically");
            clear();
        }
    }
    int first = m->hist[0];
    memmove(m->hist, m->hist + 1, sizeof m->hist - sizeof *m->hist);
    int keep = e;
    if (e > 0 && m->low_en && !(ab(e) * unit < m->low))
        keep = 0;
    else if (e < 0 && m->high_en && !(ab(e) * unit < m->high))
        keep = 0;
    else if (e == 0)
        keep = first;
    if (e && !keep)
        MC_COVER("over the threshold");
    m->hist[HN - 1] = keep;
    if (m->seen) {
        memmove(m->der, m->der + 1, sizeof m->der - sizeof *m->der);
        m->der[DN - 1] = old;
        if (m->nder < DN)
            m->nder++;
    }
    m->seen = 1;
}
static void step(void) {
    int list[12], n = 0;
    list[n++] = 0;
    for (int b = 1; b <= INIT; b *= 2)
        if (ops & b)
            list[n++] = b;
    switch (list[mc_choose(n)]) {
        case 0:
#ifdef MANY
            for (int v = sets[set][mc_choose(ni)], k = runs[mc_choose(9)]; k; k--) /* k different inputs from the one chosen on */
                add(v + k % 7);
#else
            add(sets[set][mc_choose(ni)]);
#endif
            check("input");
            break;
        case SP: {
            int v = sps[set][mc_choose(ns)];
            mc_label("set point %g", v * unit);
            pid_set_sp(p, (ctl)(v * unit));
            m->sp = v;
            check("set point");
            break;
        }
        case CLEAR:
            mc_label("clear");
            pid_clear_integral_history(p);
            clear();
            check("clear");
            break;
        case AUTO:
            m->autoclear = !m->autoclear;
            mc_label("autoclear %d", m->autoclear);
            pid_set_auto_integral_clear(p, m->autoclear ? (set & 1 ? 1 : 65536) : 0); /* any value but zero switches on */
            check("autoclear");
            break;
        case LOW:
            m->low_en = !m->low_en;
            mc_label("low threshold %d", m->low_en);
            pid_enable_integral_low_threshold(p, m->low_en ? (set & 1 ? 1 : 256) : 0);
            check("low threshold");
            break;
        case HIGH:
            m->high_en = !m->high_en;
            mc_label("high threshold %d", m->high_en);
            pid_enable_integral_high_threshold(p, m->high_en ? (set & 1 ? 2 : 65536) : 0);
            check("high threshold");
            break;
        case DER:
            m->der_en = !m->der_en;
            mc_label("derivative threshold %d", m->der_en);
            pid_enable_derivative_threshold(p, m->der_en ? (set & 1 ? 1 : -2) : 0);
            check("derivative threshold");
            break;
        case TUNE: {
            int k = mc_choose(sizeof gains / sizeof *gains);
            mc_label("gains %d", k);
            tune(k);
            check("gains");
            break;
        }
        case LIM: {
            int which = mc_choose(3), v = thr[set][mc_choose(nt)];
            mc_label("limit %d = %g", which, which < 2 ? v : v * unit);
            if (which == 0)
                pid_set_integral_low_threshold(p, v), m->low = v;
            else if (which == 1)
                pid_set_integral_high_threshold(p, v), m->high = v;
            else
                pid_set_derivative_threshold(p, (ctl)(v * unit), (ctl)((v + 1) * unit)), m->dthr = v;
            check("limit");
            break;
        }
        case INIT:
            mc_label("init");
            pid_init(p);
            memset(m, 0, sizeof *m);
            check("init");
            break;
    }
}
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static pid_ctrl_t o;
    pid_init(&o), pid_ctrl_tune(&o, 3, 2, 1), pid_set_sp(&o, 9);
    pid_add_input(&o, 4), pid_add_input(&o, 2);
    pid_compute(&o);
}
void mc_register(void) {
    mc_other = other;
    mc_config *c;
    char       n[64];
#define CFG(s, o, g, dq, dt)                                                                                           \
    do {                                                                                                               \
        snprintf(n, sizeof n, "inputs%d-ops%d-gains%d", s, o, g);                                                      \
        c = mc_add(n, setup, init, step, dq, dt), c->p[0] = s, c->p[1] = o, c->p[2] = g;                               \
    } while (0)
#ifdef MANY
    CFG(1, SP | CLEAR | AUTO, 1, 3, 3);
    CFG(3, DER | LIM | LOW, 2, 3, 3);
    return;
#endif
    int big = HN + DN > 7, small = HN + DN < 4;
    CFG(1, SP, 1, big ? 11 : 0, big ? 13 : 0);
    CFG(1, SP | CLEAR | AUTO, 2, big ? 10 : 0, big ? 12 : 0);
    CFG(3, CLEAR | AUTO | LOW | HIGH | LIM, 1, small ? 0 : 11, small ? 0 : 12);
    CFG(3, SP | DER | LIM, 2, small ? 0 : 11, small ? 0 : 13);
    CFG(4, SP | CLEAR | AUTO | LOW | HIGH | DER | TUNE | LIM | INIT, 1, small ? 0 : 8, small ? 0 : 9);
    CFG(0, SP | CLEAR | AUTO | LOW | HIGH | DER | TUNE | LIM | INIT, 2, 5, 6);
    CFG(2, SP | AUTO | HIGH | LIM, 3, 8, 8);
    CFG(5, SP | AUTO | LOW | DER | LIM, 4, 7, 8);
    CFG(4, SP | AUTO | TUNE, 5, big ? 9 : 0, big ? 12 : 0);
    CFG(0, AUTO, 5, big ? 6 : 7, big ? 8 : 0);
    if (sizeof(ctl) > 2) {
        CFG(6, AUTO | HIGH | LIM, 1, 6, 7);
        CFG(6, LOW | DER | LIM, 3, 6, 7);
    }
    if ((ctl)0.5) { /* fractions of one */
#define FRAC(s, o, g, u, dq, dt)                                                                                       \
    do {                                                                                                               \
        snprintf(n, sizeof n, "fractions%d-inputs%d-ops%d-gains%d", u, s, o, g);                                       \
        c = mc_add(n, setup, init, step, dq, dt), c->p[0] = s, c->p[1] = o, c->p[2] = g, c->p[3] = u;                  \
    } while (0)
        FRAC(7, SP | AUTO | CLEAR, 1, 2, 7, 0);
        FRAC(7, LOW | HIGH | LIM, 2, 2, 6, 8);
        FRAC(7, SP | DER | LIM, 1, 4, 6, 8);
        FRAC(7, SP | CLEAR | AUTO | LOW | HIGH | DER | TUNE | LIM | INIT, 3, 4, 4, 5);
        FRAC(1, AUTO | HIGH, 5, 4, 0, 0);
    }
}
