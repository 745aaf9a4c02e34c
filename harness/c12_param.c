/* C12: validation and defaults of parameter lists; declaration macros. */
#include "param.h"
/* ---- one parameter, all limits and values ---- */
static parameter_handle_t *h;
static uint8_t            *val, *rmin, *rmax;
static int                 ty, nv, nl;
static big                 vals[256], lims[256];
static double              fv[40];
static int                 nf;
static void one_setup(void) {
    ty   = mc_cfg->p[0];
    h    = mc_alloc(sizeof *h, 0);
    val  = mc_alloc(24, 0);
    rmin = mc_alloc(24, 0);
    rmax = mc_alloc(24, 0);
    if (t_float(ty)) {
        double B = ty == 8 ? FLT_MAX : DBL_MAX, e = ty == 8 ? FLT_MIN : DBL_MIN;
        static const double c[] = {0, 1, 7.5, 100, 255, 65536, 16777216};
        fv[nf++] = INFINITY, fv[nf++] = -INFINITY, fv[nf++] = B, fv[nf++] = -B, fv[nf++] = e, fv[nf++] = -e;
        for (int i = 0; i < 7; i++) {
            fv[nf++] = c[i], fv[nf++] = -c[i];
            fv[nf++] = ty == 8 ? nextafterf(c[i], 1e30f) : nextafter(c[i], 1e300);
        }
        return;
    }
    if (tsize[ty] == 1) {
        for (big v = t_min(ty); v <= t_max(ty); v++)
            vals[nv++] = v;
        nl = nv;
        memcpy(lims, vals, sizeof vals);
    } else {
        nv = t_values(ty, vals, 3);
        nl = t_values(ty, lims, mc_thorough ? 3 : 1);
    }
}
static void prepare(int refs) {
    memset(h, 0, sizeof *h);
    h->type    = ty;
    h->pointer = val + 8;
    h->pmin    = refs & 1 ? rmin + 8 : NULL;
    h->pmax    = refs & 2 ? rmax + 8 : NULL;
    memset(val, 0x6B, 24), memset(rmin, 0x6B, 24), memset(rmax, 0x6B, 24);
}
static uint8_t            b_val[24], b_min[24], b_max[24];
static parameter_handle_t b_h;
static const char *validate(int in) {
    memcpy(b_val, val, 24);
    int r = parameter_check_ranges(h, 1);
    mc_evals++;
    if (r != !in)
        return in ? "a value in range is counted" : "a value out of range is not counted";
    if (!in)
        memcpy(b_val + 8, &h->defaultv, tsize[ty]);
    if (memcmp(b_val, val, 24))
        return in ? "validation altered a value in range" : "not reset to the default";
    return NULL;
}
static void one_step(void) {
    int refs = mc_choose(4);
    prepare(refs);
    void *lo = refs & 1 ? (void *)(rmin + 8) : &h->min, *hi = refs & 2 ? (void *)(rmax + 8) : &h->max;
    if (t_float(ty)) {
        int a = mc_choose(nf), b = mc_choose(nf);
        if (fv[a] > fv[b])
            mc_prune();
        if (refs & 1)
            f_put(ty, &h->min, 1e9);
        if (refs & 2)
            f_put(ty, &h->max, -1e9);
        f_put(ty, lo, fv[a]), f_put(ty, hi, fv[b]), f_put(ty, &h->defaultv, 3.25);
        b_h = *h;
        for (int v = 0; v <= nf + 1; v++) {
            double x = v < nf ? fv[v] : v == nf ? NAN : -NAN;
            f_put(ty, val + 8, x);
            const char *e = validate(x >= fv[a] && x <= fv[b]);
            mc_check(!e, "%s %g in [%g, %g], limits by reference: %d: %s", tname[ty], x, fv[a], fv[b], refs, e);
        }
    } else {
        int a = mc_choose(nl), b = mc_choose(nl - a) + a;
        if (refs & 1)
            t_put(ty, &h->min, lims[b]);
        if (refs & 2)
            t_put(ty, &h->max, lims[a]);
        t_put(ty, lo, lims[a]), t_put(ty, hi, lims[b]);
        b_h = *h;
        for (int v = 0; v < nv; v++) {
            t_put(ty, &h->defaultv, lims[(a + b) / 2] ^ (v & 1));
            b_h = *h;
            t_put(ty, val + 8, vals[v]);
            int in = vals[v] >= lims[a] && vals[v] <= lims[b];
            const char *e = validate(in);
            mc_check(!e, "%s %s in [%s, %s], limits by reference: %d: %s", tname[ty], bstr(vals[v]), bstr(lims[a]), bstr(lims[b]), refs, e);
        }
    }
    mc_check(!memcmp(&b_h, h, sizeof *h), "validation changed the handle");
    parameter_reset_to_defaults(h, 1);
    mc_check(!memcmp(val + 8, &h->defaultv, tsize[ty]) && val[7] == 0x6B && val[8 + tsize[ty]] == 0x6B, "%s: wrong value after reset to defaults", tname[ty]);
}
static void nothing(void) {}
/* ---- lists ---- */
#ifdef MANY
#define NP 300
#else
#define NP 4
#endif
static parameter_handle_t *ps;
static uint8_t            *pv, *pl; /* values, referenced maxima: 16 bytes each */
static int                 np;
static struct {
    int16_t v[NP], hi[NP];
} *m;
static void put(int t, void *p, int v);
static int  typ(int i);
static void hook(parameter_handle_t *p, void *arg) { /* keeps a fixed maximum up to date */
    mc_check(p == arg, "hook of another parameter called");
    int i = p - ps;
    if (!p->pmax)
        put(typ(i), &p->max, m->hi[i]);
}
static const int lo_ = 2;
static int       typ(int i) { return (int[]){0, 1, 2, 3, 4, 5, 6, 7, 8, 9}[(mc_cfg->p[1] + i * mc_cfg->p[2]) % 10] % (GEL_PARAMETER_MAX_SIZE >= 8 ? 10 : GEL_PARAMETER_MAX_SIZE >= 4 ? 6 : GEL_PARAMETER_MAX_SIZE * 2); }
static int       which(void) {
#ifdef MANY
    static const int w[] = {0, 1, 127, 128, 254, 255, 256, 257, 298, 299};
    return w[mc_choose(10)];
#else
    return mc_choose(np);
#endif
}
static int       def(int i) { return 4 + i % 4; }
static void      put(int t, void *p, int v) { t_float(t) ? f_put(t, p, v) : t_put(t, p, v); }
static void list_setup(void) {
    np = mc_cfg->p[0];
    ps = mc_alloc(np * sizeof *ps + !np, 1);
    pv = mc_alloc(NP * 16, 1);
    pl = mc_alloc(NP * 16, 1);
    m  = mc_alloc(sizeof *m, 1);
}
static void list_init(void) {
    static const unsigned lv[] = {0, 1, 0x80000000u, 6};
    memset(ps, 0, np * sizeof *ps + !np);
    memset(pv, 0x31, NP * 16), memset(pl, 0x32, NP * 16);
    memset(m, 0, sizeof *m);
    for (int i = 0; i < np; i++) {
        ps[i].type    = typ(i);
        ps[i].pointer = pv + 16 * i + 4 * (i & 1);
        put(typ(i), &ps[i].min, lo_);
        put(typ(i), &ps[i].max, 10);
        put(typ(i), &ps[i].defaultv, def(i));
        if (i & 1) {
            ps[i].pmax = pl + 16 * i;
            put(typ(i), &ps[i].max, 1);
            put(typ(i), ps[i].pmax, 10);
        }
        m->hi[i]           = 10;
        m->v[i]            = 5;
        ps[i].access_level = lv[i % 4];
        ps[i].runtime      = i >= 2 ? hook : NULL;
        ps[i].arg          = &ps[i];
        put(typ(i), ps[i].pointer, 5);
    }
}
static void list_step(void) {
    static const int8_t choice[] = {0, 1, 2, 5, 9, 10, 11, 100};
    int                 op = mc_choose(np ? 4 : 2), n = 0;
    switch (op) {
        case 0:
            mc_label("validate");
            for (int i = 0; i < np; i++)
                if (m->v[i] < lo_ || m->v[i] > m->hi[i])
                    m->v[i] = def(i), n++;
            int r = parameter_check_ranges(ps, np);
            mc_check(r == n, "validating %d parameters counts %d out of range instead of %d", np, r, n);
            break;
        case 1:
            mc_label("reset to defaults");
            parameter_reset_to_defaults(ps, np);
            for (int i = 0; i < np; i++)
                m->v[i] = def(i);
            break;
        case 2: {
            int i = which();
            int k = i + 1, v = choice[mc_choose(NP > 4 ? 3 : 8) * (NP > 4 ? 3 : 1)];
#ifdef MANY
            if (mc_choose(2)) /* all of them */
                i = 0, k = np;
#endif
            for (; i < k; i++) {
                m->v[i] = v;
                mc_label("value %d := %d", i, m->v[i]);
                put(typ(i), ps[i].pointer, m->v[i]);
            }
            break;
        }
        case 3: {
            int i = which();
            if (!ps[i].pmax && !ps[i].runtime)
                mc_prune();
            m->hi[i] = (int[]){10, 8}[mc_choose(2)];
            if (ps[i].pmax)
                put(typ(i), ps[i].pmax, m->hi[i]);
            break;
        }
    }
    uint8_t x[NP * 16];
    memset(x, 0x31, sizeof x);
    for (int i = 0; i < np; i++)
        put(typ(i), x + 16 * i + 4 * (i & 1), m->v[i]);
    mc_check(!memcmp(x, pv, sizeof x), "wrong values after validating or resetting a list of %d", np);
}
/* ---- declaration macros ---- */
static big mv[256];
static int nm;
static void mac_setup(void) { ty = mc_cfg->p[0], nm = t_float(ty) ? 16 : t_values(ty, mv, 1); }
static void same(const char *macro, const char *field, const void *f, big want) {
    mc_evals++;
    mc_check(t_get(ty, f) == want, "%s: %s %s of a %s declared as %s", macro, field, bstr(want), tname[ty], bstr(t_get(ty, f)));
}
static uint8_t  x_u8; static int8_t x_i8; static uint16_t x_u16; static int16_t x_i16; static uint32_t x_u32; static int32_t x_i32; static uint64_t x_u64; static int64_t x_i64;
static float x_f; static double x_d;
static void fields(const char *macro, parameter_handle_t *p, void *ptr, big a, big b, big d, big s, void *r0, void *r1) {
    mc_check(p->type == (parameter_type_t)ty, "%s: wrong type for a %s", macro, tname[ty]);
    mc_check(p->pointer == ptr && p->pmin == r0 && p->pmax == r1 && p->access_level == 0xA5A5A5A5u && p->data == &x_d, "%s: wrong references, level or data", macro);
    same(macro, "minimum", &p->min, a), same(macro, "maximum", &p->max, b), same(macro, "default", &p->defaultv, d), same(macro, "step", &p->step, s);
}
#define LVL 0xA5A5A5A5u
#define FITS(v) ((v) >= -(1ll << 53) && (v) <= 1ll << 53)
#define TRY(T, X, CN)                                                                                                  \
    {                                                                                                                  \
        T a = (T)A, b = (T)B, d = (T)D, s = (T)S;                                                                      \
        static T x_arr[2];                                                                                             \
        parameter_handle_t p;                                                                                          \
        p = PARAMETER_FULL(&X, NULL, &x_u8, a, b, d, s, LVL, &x_d, hook, &x_f);                                        \
        fields("PARAMETER_FULL", &p, &X, A, B, D, S, NULL, &x_u8);                                                     \
        mc_check(p.runtime == hook && p.arg == &x_f, "PARAMETER_FULL: wrong hook");                                    \
        p = PARAMETER(&X, a, b, d, &x_d, LVL);                                                                         \
        fields("PARAMETER", &p, &X, A, B, D, 1, NULL, NULL);                                                           \
        mc_check(!p.runtime && !p.arg, "PARAMETER: wrong hook");                                                       \
        p = PARAMETER_STEP(&X, b, a, s, d, &x_d, LVL);                                                                 \
        fields("PARAMETER_STEP", &p, &X, B, A, S, D, NULL, NULL);                                                      \
        p = PARAMETER_DLIMITS(&X, &x_u16, &x_u8, a - 0, 0 + b, d ? d : d, &x_d, LVL);                                  \
        fields("PARAMETER_DLIMITS", &p, &X, A, B, D, 1, &x_u16, &x_u8);                                                \
        p = PARAMETER(x_arr + 1, x_u8 ? A : B, x_u8 ? B : A, x_u8 ? s : d, &x_d, LVL);                                 \
        fields("PARAMETER", &p, x_arr + 1, B, A, D, 1, NULL, NULL);                                                    \
        p = PARAMETER_C99(CN, &X, &x_u16, NULL, a, b, d, s, LVL, &x_d, hook, NULL);                                    \
        fields("PARAMETER_C99", &p, &X, A, B, D, S, &x_u16, NULL);                                                     \
        int64_t  wa = A, wb = B, wd = D, ws = S; /* given in other types */                                            \
        uint64_t ua = A, ub = B, ud = D, us = S;                                                                       \
        p = PARAMETER_FULL(&X, NULL, NULL, wa, ub, wd, us, LVL, &x_d, NULL, NULL);                                     \
        fields("PARAMETER_FULL", &p, &X, A, B, D, S, NULL, NULL);                                                      \
        p = PARAMETER_FULL(&X, NULL, NULL, ua, wb, ud, ws, LVL, &x_d, NULL, NULL);                                     \
        fields("PARAMETER_FULL", &p, &X, A, B, D, S, NULL, NULL);                                                      \
        if (A >= -2147483647 - 1 && A <= 2147483647 && B >= -2147483647 - 1 && B <= 2147483647) {                      \
            int ia = A, ib = B;                                                                                        \
            p = PARAMETER(&X, ia, ib, ib, &x_d, LVL);                                                                  \
            fields("PARAMETER", &p, &X, A, B, B, 1, NULL, NULL);                                                       \
        }                                                                                                              \
        if (FITS(A) && FITS(B) && FITS(D) && FITS(S)) { /* given as floating point expressions */                      \
            double da = A, db = B, dd = D, ds = S;                                                                     \
            p = PARAMETER_FULL(&X, NULL, NULL, da, db, dd, ds, LVL, &x_d, NULL, NULL);                                 \
            fields("PARAMETER_FULL", &p, &X, A, B, D, S, NULL, NULL);                                                  \
            float fa = A, fb = B;                                                                                      \
            if ((big)fa == A && (big)fb == B) {                                                                        \
                p = PARAMETER(&X, fa, fb, fa * 1.f, &x_d, LVL);                                                        \
                fields("PARAMETER", &p, &X, A, B, A, 1, NULL, NULL);                                                   \
            }                                                                                                          \
        }                                                                                                              \
        if (t_signed(ty)) {                                                                                            \
            p = PARAMETER(&X, -100., 1e2, -1.f, &x_d, LVL);                                                            \
            fields("PARAMETER", &p, &X, -100, 100, -1, 1, NULL, NULL);                                                 \
            parameter_handle_t c        = PARAMETER(&X, -1e2, 0x.8p7f, (char)-3, &x_d, LVL);                           \
            fields("PARAMETER", &c, &X, -100, 64, -3, 1, NULL, NULL);                                                  \
            p = PARAMETER(&X, -100, 100, -1, &x_d, LVL);                                                               \
            fields("PARAMETER", &p, &X, -100, 100, -1, 1, NULL, NULL);                                                 \
            p = PARAMETER_C99(CN, &X, NULL, NULL, -100, 100, -1, 5, LVL, &x_d, NULL, NULL);                            \
            fields("PARAMETER_C99", &p, &X, -100, 100, -1, 5, NULL, NULL);                                             \
        }                                                                                                              \
    }
#define TRYF(T, X, CN)                                                                                                 \
    {                                                                                                                  \
        T                  a = (T)fl[i], b = (T)fl[j], d = (T)fl[(i + 3) % 16], s = (T)fl[(j + 5) % 16];               \
        parameter_handle_t p[3] = {PARAMETER_FULL(&X, NULL, NULL, a, b, d, s, LVL, &x_d, NULL, NULL),                  \
                                   PARAMETER_STEP(&X, a, b, d, s, &x_d, LVL),                                          \
                                   PARAMETER_C99(CN, &X, NULL, NULL, a, b, d, s, LVL, &x_d, NULL, NULL)};              \
        for (int k = 0; k < 3; k++) {                                                                                  \
            mc_evals++;                                                                                                \
            mc_check(p[k].type == (parameter_type_t)ty && !memcmp(&p[k].min, &a, sizeof a) &&                          \
                         !memcmp(&p[k].max, &b, sizeof a) && !memcmp(&p[k].defaultv, &d, sizeof a) &&                  \
                         !memcmp(&p[k].step, &s, sizeof a),                                                            \
                     "declaration macro %d does not preserve the values of a %s", k, tname[ty]);                       \
        }                                                                                                              \
        p[0] = PARAMETER(&X, -2.5, 7.25, 1.5, &x_d, LVL);                                                              \
        mc_check(f_get(ty, &p[0].min) == -2.5 && f_get(ty, &p[0].max) == 7.25 && f_get(ty, &p[0].defaultv) == 1.5 &&   \
                     f_get(ty, &p[0].step) == 1,                                                                       \
                 "PARAMETER does not preserve the values of a %s", tname[ty]);                                         \
    }
static void mac_step(void) {
    static const double fl[16] = {0, -0.0, 1, -1, 0.1, -0.1, 3.14159265358979, 16777217, 4294967297., 1e30, -1e30, 1e-30, FLT_MAX, -FLT_MAX, 1e-40, 0.5};
    if (t_float(ty)) {
        int i = mc_choose(16), j = mc_choose(16);
#if GEL_PARAMETER_MAX_SIZE >= 4
        if (ty == 8)
            TRYF(float, x_f, PARAMETER_TYPE_FLOAT)
#endif
#if GEL_PARAMETER_MAX_SIZE >= 8
        if (ty == 9)
            TRYF(double, x_d, PARAMETER_TYPE_DOUBLE)
#endif
        return;
    }
    int i = mc_choose(nm), j = mc_choose(nm);
    big A = mv[i], B = mv[j], D = mv[(i + j) % nm], S = mv[(i * 7 + j) % nm];
    switch (ty) {
        case 0: TRY(uint8_t, x_u8, PARAMETER_TYPE_UINT8) break;
        case 1: TRY(int8_t, x_i8, PARAMETER_TYPE_INT8) break;
#if GEL_PARAMETER_MAX_SIZE >= 2
        case 2: TRY(uint16_t, x_u16, PARAMETER_TYPE_UINT16) break;
        case 3: TRY(int16_t, x_i16, PARAMETER_TYPE_INT16) break;
#endif
#if GEL_PARAMETER_MAX_SIZE >= 4
        case 4: TRY(uint32_t, x_u32, PARAMETER_TYPE_UINT32) break;
        case 5: TRY(int32_t, x_i32, PARAMETER_TYPE_INT32) break;
#endif
#if GEL_PARAMETER_MAX_SIZE >= 8
        case 6: TRY(uint64_t, x_u64, PARAMETER_TYPE_UINT64) break;
        case 7: TRY(int64_t, x_i64, PARAMETER_TYPE_INT64) break;
#endif
    }
}
void mc_register(void) {
    mc_other = other;
    char b[32];
#ifdef MANY
    mc_config *many = mc_add("list300", list_setup, list_init, list_step, 3, 4);
    many->p[0] = 300, many->p[1] = 0, many->p[2] = 1;
    return;
#endif
    for (int t = 0; t < 10; t++)
        if (t_exists(t)) {
            mc_add(tname[t], one_setup, nothing, one_step, 1, 1)->p[0] = t;
            snprintf(b, sizeof b, "%s-macros", tname[t]);
            mc_add(b, mac_setup, nothing, mac_step, 1, 1)->p[0] = t;
        }
    static const int l[][5] = {{0, 0, 1, 0, 0}, {1, 7, 1, 0, 0}, {2, 0, 9, 0, 0}, {3, 0, 1, 0, 0}, {3, 1, 3, 0, 0}, {3, 2, 7, 0, 0}, {4, 0, 3, -1, 0}, {4, 8, 5, -1, 0}, {4, 6, 1, -1, 0}};
    for (int i = 0; i < 9; i++) {
        snprintf(b, sizeof b, "list%d-types%d", l[i][0], l[i][1]);
        mc_config *c = mc_add(b, list_setup, list_init, list_step, l[i][3], l[i][4]);
        c->p[0] = l[i][0], c->p[1] = l[i][1], c->p[2] = l[i][2];
    }
}
