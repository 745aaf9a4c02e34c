/* C14: conversion, cloning, copying, printing and range size of parameters. */
#include "param.h"
#include <limits.h>
#include <inttypes.h>
static parameter_handle_t *h, *d;
static uint8_t            *src, *dst, *lim; /* 32 bytes each */
static int                 ty, nv;
static big                *vals;
static double              fv[64];
static int                 nf;
static char               *text;
#define TEXT 160
static void setup(void) {
    ty   = mc_cfg->p[0];
    h    = mc_alloc(sizeof *h, 0);
    d    = mc_alloc(sizeof *d, 0);
    src  = mc_alloc(32, 0);
    dst  = mc_alloc(32, 0);
    lim  = mc_alloc(32, 0);
    text = mc_alloc(TEXT, 0);
    vals = mc_alloc(65536 * sizeof *vals, 0);
    if (t_float(ty)) {
        static const double c[] = {0, 1, 0.1, 3.14159265358979, 255, 256, 65536, 16777217, 4294967296., 1e30, 1e-30, 1e-40, FLT_MAX, 0.5, 123456.789};
        for (int i = 0; i < 15; i++)
            fv[nf++] = c[i], fv[nf++] = -c[i];
        fv[nf++] = INFINITY, fv[nf++] = -INFINITY;
        return;
    }
    if (tsize[ty] <= 2)
        for (big v = t_min(ty); v <= t_max(ty); v++)
            vals[nv++] = v;
    else
        nv = t_values(ty, vals, mc_thorough ? 6 : 3);
}
static void nothing(void) {}
static void fresh(int t) {
    memset(h, 0, sizeof *h);
    memset(src, 0x11, 32), memset(dst, 0x22, 32), memset(lim, 0x33, 32);
    h->type         = t;
    h->pointer      = src + 8;
    h->pmin         = lim;
    h->pmax         = lim + 16;
    h->access_level = 0x77;
    h->data         = dst;
    h->runtime      = (void *)setup;
    h->arg          = lim;
    memset(&h->min, 1, sizeof h->min), memset(&h->max, 2, sizeof h->max), memset(&h->defaultv, 3, sizeof h->max), memset(&h->step, 4, sizeof h->max);
}
static void same_around(const uint8_t *p, int fill, int at, const char *what) {
    for (int i = 0; i < 32; i++)
        mc_check((i >= at && i < at + tsize[ty]) || p[i] == fill, "%s of a %s touches memory beyond the value", what, tname[ty]);
}
static void copies_of(void) {
    uint8_t            s0[32];
    parameter_handle_t h0 = *h;
    memcpy(s0, src, 32);
    int sz = tsize[ty];
    /* clone: the handle is a full copy with its own value */
    memset(d, 0xEE, sizeof *d);
    parameter_clone(d, h, dst + 16);
    h0.pointer = dst + 16;
    __builtin_clear_padding(&h0), __builtin_clear_padding(d);
    mc_check(!memcmp(&h0, d, sizeof *d), "clone of a %s differs from its source", tname[ty]);
    mc_check(!memcmp(dst + 16, src + 8, sz), "clone of a %s has another value", tname[ty]);
    same_around(dst, 0x22, 16, "cloning");
    /* clone in a buffer, not necessarily aligned */
    for (int off = 0; off <= 9; off += 3) {
        memset(dst, 0x22, 32);
        parameter_handle_t c = parameter_clone_with_buffer(h, dst + off);
        h0.pointer           = dst + off;
        __builtin_clear_padding(&h0), __builtin_clear_padding(&c);
        mc_check(!memcmp(&h0, &c, sizeof c), "clone with buffer of a %s differs from its source", tname[ty]);
        mc_check(!memcmp(dst + off, src + 8, sz), "clone with buffer of a %s has another value", tname[ty]);
        same_around(dst, 0x22, off, "cloning with buffer");
    }
    /* copy */
    memset(dst, 0x22, 32);
    d->pointer = dst + 8;
    h0         = *d;
    mc_check(parameter_copy_value(d, h) == 0, "copy of a %s refused", tname[ty]);
    mc_check(!memcmp(dst + 8, src + 8, sz), "copy of a %s has another value", tname[ty]);
    mc_check(!memcmp(&h0, d, sizeof *d), "copying a value changed the handle");
    same_around(dst, 0x22, 8, "copying");
    mc_check(!memcmp(s0, src, 32), "cloning or copying changed the source");
    mc_evals += 6;
}
static void copies(void) {
    parameter_handle_t h0 = *h;
    for (int i = 7; i >= 0; i--) { /* 7 to 0: whether the fields beside the value are set */
        h->access_level = i & 1 ? h0.access_level : 0;
        h->runtime      = i & 2 ? h0.runtime : NULL;
        h->data         = i & 4 ? h0.data : NULL;
        h->arg          = i & 4 ? h0.arg : NULL;
        h->pmin         = i & 2 ? h0.pmin : NULL;
        h->pmax         = i & 4 ? h0.pmax : NULL;
        memset(dst, 0x22, 32);
        copies_of();
    }
    *h = h0;
}
static void refused(void) {
    parameter_handle_t h0;
    for (int t = 0; t < 10; t++) {
        if (t == ty || !t_exists(t))
            continue;
        memset(dst, 0x22, 32);
        d->type    = t;
        d->pointer = dst + 8;
        h0         = *d;
        mc_check(parameter_copy_value(d, h) != 0, "copy of a %s to a %s not refused", tname[ty], tname[t]);
        for (int i = 0; i < 32; i++)
            mc_check(dst[i] == 0x22, "refused copy wrote to the destination");
        mc_check(!memcmp(&h0, d, sizeof h0), "refused copy changed the destination");
    }
    mc_check(parameter_copy_value(NULL, h) != 0 && parameter_copy_value(h, NULL) != 0, "copy without source or destination not refused");
    h0 = *d;
    parameter_clone(NULL, h, dst), parameter_clone(d, NULL, dst), parameter_clone(d, h, NULL);
    mc_check(!memcmp(&h0, d, sizeof h0), "clone without source or buffer changed the destination");
    for (int i = 0; i < 32; i++)
        mc_check(dst[i] == 0x22, "clone without source or destination wrote");
    mc_check(parameter_to_long(NULL) == 0 && parameter_to_index(NULL) == 0 && parameter_to_bool(NULL) == 0 && parameter_get_total_values(NULL) == 0, "value read from no parameter");
}
static void print(char *fmt, const char *want) {
    memset(text, 0x55, TEXT);
    parameter_to_string_format(h, text, fmt);
    size_t l = strlen(want);
    mc_check(!memcmp(text, want, l + 1), "%s printed with \"%s\" as \"%.*s\" instead of \"%s\"", tname[ty], fmt, (int)l + 4, text, want);
    for (size_t i = l + 1; i < TEXT; i++)
        mc_check(text[i] == 0x55, "printing writes beyond the text");
    mc_evals++;
}
static void one_int(big v) {
    char w[100];
    fresh(ty);
    t_put(ty, src + 8, v);
    mc_evals += 3;
    if (v <= LONG_MAX)
        mc_check(parameter_to_long(h) == (long)v, "%s %s read as long %ld", tname[ty], bstr(v), parameter_to_long(h));
    if (v >= 0)
        mc_check(parameter_to_index(h) == (size_t)v, "%s %s read as index %zu", tname[ty], bstr(v), parameter_to_index(h));
    mc_check(!!parameter_to_bool(h) == (v != 0), "%s %s read as truth value %d", tname[ty], bstr(v), parameter_to_bool(h));
    if (tsize[ty] <= 4) {
        snprintf(w, sizeof w, t_signed(ty) ? "[%d]" : "[%u]", (unsigned)v);
        print(t_signed(ty) ? "[%d]" : "[%u]", w);
        snprintf(w, sizeof w, "%012d|", (int)v);
        if (t_signed(ty))
            print("%012d|", w);
        snprintf(w, sizeof w, "%x", (unsigned)v);
        print("%x", w);
    } else {
        snprintf(w, sizeof w, "[%s]", bstr(v));
        print(t_signed(ty) ? "[%" PRId64 "]" : "[%" PRIu64 "]", w);
        snprintf(w, sizeof w, "%016" PRIx64, (uint64_t)v);
        print("%016" PRIx64, w);
    }
    copies();
}
static void value_step(void) {
    if (t_float(ty)) {
        int      i = mc_choose(nf + 8);
        char     w[100];
        uint64_t bits[] = {0x7fc00000, 0xffc00001, 0x7f800001, 0xffbfffff, 0x7ff8000000000000, 0xfff8000000000001, 0x7ff0000000000001, 0xfff7ffffffffffff};
        fresh(ty);
        if (i >= nf) {
            memcpy(src + 8, &bits[(i - nf) % 4 + (ty == 9 ? 4 : 0)], tsize[ty]); /* not a number, with payload */
            copies();
            return;
        }
        f_put(ty, src + 8, fv[i]);
        double x = f_get(ty, src + 8);
        mc_label("%s %g", tname[ty], x);
        snprintf(w, sizeof w, "%.17g", x), print("%.17g", w);
        if (fabs(x) < 1e31)
            snprintf(w, sizeof w, "<%8.3f>", x), print("<%8.3f>", w);
        snprintf(w, sizeof w, "%a", x), print("%a", w);
        copies();
        refused();
        return;
    }
    int a = mc_choose(nv > 4096 ? 256 : nv);
    if (nv > 4096)
        for (int k = 0; k < 256; k++)
            one_int(vals[a * 256 + k]);
    else
        one_int(vals[a]);
    refused();
}
static void range_step(void) {
    int refs = mc_choose(4);
    if (t_float(ty)) {
        static const double l[] = {-1000, -256, -1, 0, 1, 2, 100, 255, 256, 65535, 1e6};
        int a = mc_choose(11), b = mc_choose(11 - a) + a;
        fresh(ty);
        f_put(ty, refs & 1 ? (void *)lim : (void *)&h->min, l[a]);
        f_put(ty, refs & 2 ? (void *)(lim + 16) : (void *)&h->max, l[b]);
        if (!(refs & 1))
            h->pmin = NULL;
        if (!(refs & 2))
            h->pmax = NULL;
        size_t r = parameter_get_total_values(h);
        mc_check(r == (size_t)(l[b] - l[a] + 1), "%s range [%g, %g] has %zu values", tname[ty], l[a], l[b], r);
        return;
    }
    static big  v16[256], *l = NULL;
    static int  n;
    if (!l)
        n = tsize[ty] == 2 ? t_values(ty, l = v16, 4) : (l = vals, nv);
    int a = mc_choose(n);
    fresh(ty);
    if (!(refs & 1))
        h->pmin = NULL;
    if (!(refs & 2))
        h->pmax = NULL;
    for (int b = a; b < n; b++) {
        t_put(ty, refs & 1 ? (void *)lim : (void *)&h->min, l[a]);
        t_put(ty, refs & 2 ? (void *)(lim + 16) : (void *)&h->max, l[b]);
        big w = l[b] - l[a] + 1;
        if (w > (big)SIZE_MAX)
            continue;
        size_t r = parameter_get_total_values(h);
        mc_evals++;
        mc_check(r == (size_t)w, "%s range [%s, %s] has %zu values, limits by reference: %d", tname[ty], bstr(l[a]), bstr(l[b]), r, refs);
    }
}
/* every 32 bit value */
static void all_step(void) {
    uint32_t a = (uint32_t)mc_choose(32) << 27 | (uint32_t)mc_cfg->p[1] << 24;
    fresh(ty);
    for (uint32_t k = 0; k < 1u << 24; k++) {
        uint32_t x = a | k;
        memcpy(src + 8, &x, 4);
        if (!(k & 0xffff))
            mc_progress();
        if (!t_float(ty)) {
            big v = t_get(ty, src + 8);
            mc_check(parameter_to_long(h) == (long)v, "%s %s read as long %ld", tname[ty], bstr(v), parameter_to_long(h));
            if (v >= 0)
                mc_check(parameter_to_index(h) == (size_t)v, "%s %s read as index %zu", tname[ty], bstr(v), parameter_to_index(h));
            mc_check(!!parameter_to_bool(h) == (v != 0), "%s %s read as truth value %d", tname[ty], bstr(v), parameter_to_bool(h));
        }
        d->type = ty, d->pointer = dst + 8;
        mc_check(parameter_copy_value(d, h) == 0 && !memcmp(dst + 8, &x, 4), "%s copied wrong", tname[ty]);
        parameter_clone(d, h, dst + 4);
        mc_check(!memcmp(dst + 4, &x, 4), "%s cloned wrong", tname[ty]);
        mc_evals++;
    }
}
void mc_register(void) {
    mc_other = other;
    char b[32];
    for (int t = 4; t < 9; t++)
        if (t_exists(t) && tsize[t] == 4 && GEL_PARAMETER_MAX_SIZE == 8)
            for (int k = 0; k < 8; k++) {
                snprintf(b, sizeof b, "%s-all%d", tname[t], k);
                mc_config *c = mc_add(b, setup, nothing, all_step, -1, 1);
                c->p[0] = t, c->p[1] = k;
            }
    for (int t = 0; t < 10; t++)
        if (t_exists(t)) {
            mc_add(tname[t], setup, nothing, value_step, 1, 1)->p[0] = t;
            snprintf(b, sizeof b, "%s-range", tname[t]);
            mc_add(b, setup, nothing, range_step, 1, 1)->p[0] = t;
        }
}
