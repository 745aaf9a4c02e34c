/* C11: stepping is exact and rolls over to the opposite limit. */
#include "param.h"
static parameter_handle_t *h;
static uint8_t            *val, *rmin, *rmax; /* 24 bytes each, the value in the middle */
static int                 ty;
static const int           mods[] = {0, 1, -1, 2, -2, 3, -3, 5, -7, 10, 100, -100, 127, 128, -128, 255, -255, 256, -256, 257, -257, 32768, 65535, 65536, -65536, 65537, -65537, 1 << 24, 2147483647, -2147483647, -2147483647 - 1};
#define NM ((int)(sizeof mods / sizeof *mods))
static big    vals[256], steps[256], lims[256];
static int    nv, ns, nl;
static double fv[] = {-1e13, -1024, -100, -3, -2.5, -1, -0.5, 0, 0.25, 1, 2, 7.5, 100, 255, 256, 1e13};
static const double fs[] = {0.25, 0.5, 1, 2, 10, 100, 1024};
static const int    fm[] = {0, 1, -1, 2, -2, 3, -3, 4, 10, -10, 100, -100, 1000, -1000, 65537, -65537, 16777217, -16777217, 2147483647, -2147483647 - 1};
#define NFM ((int)(sizeof fm / sizeof *fm))
static void setup(void) {
    ty   = mc_cfg->p[0];
    if (ty == 8)
        fv[0] = -1e6, fv[15] = 1e6; /* exact sums */
    h    = mc_alloc(sizeof *h, 0);
    val  = mc_alloc(24, 0);
    rmin = mc_alloc(24, 0);
    rmax = mc_alloc(24, 0);
    if (t_float(ty))
        return;
    int full = tsize[ty] == 1;
    if (full)
        for (big v = t_min(ty); v <= t_max(ty); v++)
            vals[nv++] = v;
    else
        nv = t_values(ty, vals, mc_thorough ? 2 : 1);
    if (full && mc_thorough && GEL_PARAMETER_MAX_SIZE == 8) {
        nl = nv;
        memcpy(lims, vals, sizeof vals);
    } else
        nl = t_values(ty, lims, mc_thorough ? 2 : 1);
    big s[256];
    int k = t_values(ty, s, full ? 3 : 1);
    for (int i = 0; i < k; i++)
        if (s[i] > 0)
            steps[ns++] = s[i];
}
static void prepare(int refs) {
    memset(h, 0, sizeof *h);
    h->type         = ty;
    h->pointer      = val + 8;
    h->pmin         = refs & 1 ? rmin + 8 : NULL;
    h->pmax         = refs & 2 ? rmax + 8 : NULL;
    h->access_level = 0x51;
    h->data         = (void *)h;
    h->arg          = (void *)val;
    memset(val, 0x6B, 24);
    memset(rmin, 0x6B, 24);
    memset(rmax, 0x6B, 24);
}
static void guards(const parameter_handle_t *h0, const uint8_t *r0, const uint8_t *r1) {
    mc_check(!memcmp(h, h0, sizeof *h), "stepping changed the handle");
    mc_check(!memcmp(rmin, r0, 24) && !memcmp(rmax, r1, 24), "stepping changed a limit");
    for (int i = 0; i < 24; i++)
        mc_check((i >= 8 && i < 8 + tsize[ty]) || val[i] == 0x6B, "stepping changed memory around the value");
}
static void step(void) {
    parameter_handle_t h0;
    uint8_t            r0[24], r1[24];
    if (t_float(ty)) {
        int refs = mc_choose(4), a = mc_choose(16), b = mc_choose(16);
        if (a > b)
            mc_prune();
        prepare(refs);
        f_put(ty, refs & 1 ? (void *)(rmin + 8) : (void *)&h->min, fv[a]);
        f_put(ty, refs & 2 ? (void *)(rmax + 8) : (void *)&h->max, fv[b]);
        if (refs & 1)
            f_put(ty, &h->min, fv[b] + 1);
        if (refs & 2)
            f_put(ty, &h->max, fv[a] - 1);
        f_put(ty, &h->defaultv, 12345);
        for (int s = 0; s < 7; s++) {
            f_put(ty, &h->step, fs[s]);
            memcpy(&h0, h, sizeof h0), memcpy(r0, rmin, 24), memcpy(r1, rmax, 24);
            for (int v = 0; v < 16; v++)
                for (int m = 0; m < NFM; m++) {
                    f_put(ty, val + 8, fv[v]);
                    if (ty == 8 && (fm[m] > 65536 || fm[m] < -65536))
                        continue; /* rounded */
                    double x = fv[v] + fs[s] * fm[m]; /* exact for these values */
                    if (fm[m] == 0 && (x < fv[a] || x > fv[b]))
                        continue;
                    double e = x >= fv[a] && x <= fv[b] ? x : fm[m] > 0 ? fv[a] : fv[b];
                    int    r = parameter_operator(h, fm[m]);
                    mc_evals++;
                    mc_check(r == 0, "stepping reports %d", r);
                    mc_check(f_get(ty, val + 8) == e, "%s %g in [%g, %g] by %d steps of %g (limits by reference: %d) gives %g instead of %g", tname[ty], fv[v], fv[a], fv[b], fm[m], fs[s], refs, f_get(ty, val + 8), e);
                    guards(&h0, r0, r1);
                }
        }
        /* beyond the range of the type */
        double big = ty == 8 ? FLT_MAX : DBL_MAX;
        f_put(ty, refs & 1 ? (void *)(rmin + 8) : (void *)&h->min, -big);
        f_put(ty, refs & 2 ? (void *)(rmax + 8) : (void *)&h->max, big);
        f_put(ty, &h->step, big);
        for (int m = -3; m <= 3; m++)
            for (int s = -1; s <= 1; s += 2) {
                if (m == 0)
                    continue;
                f_put(ty, val + 8, s * big);
                int k = s + m;
                double e = k >= -1 && k <= 1 ? k * big : m > 0 ? -big : big;
                if (m * m > 1 && k >= -1 && k <= 1)
                    continue; /* the product alone does not fit: rounding, not covered */
                parameter_operator(h, m);
                mc_check(f_get(ty, val + 8) == e, "%s %g over the full range by %d steps gives %g instead of %g", tname[ty], s * big, m, f_get(ty, val + 8), e);
            }
        return;
    }
    int refs = mc_choose(4), a = mc_choose(nl), b = mc_choose(nl - a) + a;
    big lo = lims[a], hi = lims[b];
    mc_label("%s limits [%s, %s], by reference: %d", tname[ty], bstr(lo), bstr(hi), refs);
    prepare(refs);
    t_put(ty, refs & 1 ? (void *)(rmin + 8) : (void *)&h->min, lo);
    t_put(ty, refs & 2 ? (void *)(rmax + 8) : (void *)&h->max, hi);
    if (refs & 1)
        t_put(ty, &h->min, hi);
    if (refs & 2)
        t_put(ty, &h->max, lo);
    t_put(ty, &h->defaultv, lo + 1);
    memcpy(r0, rmin, 24), memcpy(r1, rmax, 24);
    for (int s = 0; s < ns; s++) {
        t_put(ty, &h->step, steps[s]);
        memcpy(&h0, h, sizeof h0);
        mc_progress();
        for (int v = 0; v < nv; v++)
            for (int m = 0; m < NM; m++) {
                big x = vals[v] + steps[s] * mods[m];
                int in = x >= lo && x <= hi;
                if (mods[m] == 0 && !in)
                    continue;
                big e = in ? x : mods[m] > 0 ? lo : hi;
                t_put(ty, val + 8, vals[v]);
                int r = parameter_operator(h, mods[m]);
                mc_evals++;
                mc_check(r == 0, "stepping reports %d", r);
                big g = t_get(ty, val + 8);
                mc_check(g == e, "%s %s in [%s, %s] by %d steps of %s (limits by reference: %d) gives %s instead of %s", tname[ty], bstr(vals[v]), bstr(lo), bstr(hi), mods[m], bstr(steps[s]), refs, bstr(g), bstr(e));
            }
        guards(&h0, r0, r1);
    }
    mc_check(parameter_operator(NULL, 1) != 0, "stepping no parameter succeeds");
}
static void init(void) {}
/* sequences of steps while the referenced limits change between calls */
static struct {
    int64_t lo, hi, v, st;
} *m;
static const int64_t slim[] = {-128, 0, 9, 100, 127, 255, -127, -5, 1, 126, 128, 250, 254};
#define NSL (mc_thorough ? 13 : 6)
static void sset(void) {
    ty   = mc_cfg->p[0];
    h    = mc_alloc(sizeof *h, 1);
    val  = mc_alloc(24, 1);
    rmin = mc_alloc(24, 1);
    rmax = mc_alloc(24, 1);
    m    = mc_alloc(sizeof *m, 1);
}
static void limits(void) {
    unsigned a = mc_choose(NSL), b = mc_choose(NSL);
    m->lo = slim[a], m->hi = slim[b];
    if (m->lo > m->hi || m->lo < t_min(ty) || m->hi > t_max(ty))
        mc_prune();
    mc_label("limits [%ld, %ld]", (long)m->lo, (long)m->hi);
    t_put(ty, h->pmin ? (void *)(rmin + 8) : (void *)&h->min, m->lo);
    t_put(ty, h->pmax ? (void *)(rmax + 8) : (void *)&h->max, m->hi);
}
static void sinit(void) {
    static const uint8_t st[] = {1, 2, 3, 7, 10, 50, 100, 127};
    prepare(mc_choose(4));
    m->st = st[mc_choose(8)];
    t_put(ty, &h->step, m->st);
    limits();
    m->v = m->lo;
    t_put(ty, val + 8, m->v);
}
static void sstep(void) {
    static const int k[] = {1, -1, 2, -2, 3, -3, 10, -10, 300, -300};
    unsigned         c   = mc_choose(h->pmin || h->pmax ? 11 : 10);
    if (c == 10) {
        int64_t lo = m->lo, hi = m->hi;
        limits();
        if ((!h->pmin && lo != m->lo) || (!h->pmax && hi != m->hi))
            mc_prune();
        return;
    }
    int64_t x = m->v + m->st * k[c];
    mc_label("%ld by %d steps of %ld in [%ld, %ld]", (long)m->v, k[c], (long)m->st, (long)m->lo, (long)m->hi);
    m->v = x >= m->lo && x <= m->hi ? x : k[c] > 0 ? m->lo : m->hi;
    parameter_operator(h, k[c]);
    mc_check(t_get(ty, val + 8) == m->v, "stepping gives %s instead of %ld", bstr(t_get(ty, val + 8)), (long)m->v);
    for (int i = 0; i < 24; i++)
        mc_check((i >= 8 && i < 8 + tsize[ty]) || val[i] == 0x6B, "stepping changed memory around the value");
}
void mc_register(void) {
    mc_other = other;
    for (int t = 0; t < 10; t++)
        if (t_exists(t)) {
            mc_config *c = mc_add(tname[t], setup, init, step, 1, 1);
            c->p[0]      = t;
            if (t < 4) {
                char b[16];
                snprintf(b, sizeof b, "%s-sequence", tname[t]);
                c       = mc_add(b, sset, sinit, sstep, t < 2 ? 0 : -1, 0);
                c->p[0] = t;
            }
        }
}
