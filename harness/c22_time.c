/* C22: comparisons of instants across the wrap of the clock. */
#include "mc.h"
#include "c22.h"
#include <stdio.h>
static uint64_t mask, half, v[600], dv[600];
static int      nv, nd;
static int      add(uint64_t *o, int n, uint64_t x) {
    x &= mask;
    for (int i = 0; i < n; i++)
        if (o[i] == x)
            return n;
    o[n] = x;
    return n + 1;
}
static void setup(void) {
    mask = t_size == 8 ? ~0ull : (1ull << 8 * t_size) - 1;
    half = mask / 2 + 1;
    int w = mc_thorough ? 6 : 3;
    for (int d = -w; d <= w; d++) {
        nv = add(v, nv, d), nv = add(v, nv, half + d), nv = add(v, nv, half / 2 + d), nv = add(v, nv, 3 * (half / 2) + d), nv = add(v, nv, 1000 + d);
        for (int k = 7; k < 8 * t_size; k += 8)
            nv = add(v, nv, (1ull << k) + d), nv = add(v, nv, (1ull << (k + 1)) + d);
    }
    for (int i = 0; i < nv; i++)
        if (v[i] < half)
            nd = add(dv, nd, v[i]);
}
static void nothing(void) {}
static void pair(uint64_t a, uint64_t b) {
    uint64_t d = (b - a) & mask; /* b is d later than a, or mask+1-d earlier */
    mc_evals++;
    if (d == half)
        return;
    int later = d && d < half;
    mc_check(!!t_after(b, a) == later, "after(%#lx, %#lx) is wrong", b, a);
    mc_check(!!t_after_eq(b, a) == (later || !d), "after or equal(%#lx, %#lx) is wrong", b, a);
    mc_check(!!t_before(a, b) == later, "before(%#lx, %#lx) is wrong", a, b);
    mc_check(t_interval(a, b) == (d < half ? d : (mask - d + 1)), "interval of %#lx and %#lx is %#lx", a, b, t_interval(a, b));
}
static void expiry(uint64_t s, uint64_t c, uint64_t d) {
    uint64_t late = (c - s - d) & mask;
    mc_evals++;
    if (late == half)
        return;
    int on = late < half;
    mc_check(!!t_expired(s, c, d) == on, "started at %#lx, delay %#lx, now %#lx: expired is %d", s, d, c, t_expired(s, c, d));
    mc_check(!!t_loose(s, c, d) == on, "started at %#lx, delay %#lx, now %#lx: loosely expired is %d", s, d, c, t_loose(s, c, d));
    mc_check(!!t_strict(s, c, d) == (on && late), "started at %#lx, delay %#lx, now %#lx: strictly expired is %d", s, d, c, t_strict(s, c, d));
}
/* 8 bit clock: everything */
static void all8(void) {
    unsigned s = mc_choose(256), c = mc_choose(256);
    pair(s, c);
    for (unsigned d = 0; d < 128; d++)
        expiry(s, c, d);
}
/* 16 bit clock: every pair of instants */
static void all16(void) {
    unsigned a = mc_choose(256) << 8;
    for (unsigned l = 0; l < 256; l++) {
        mc_progress();
        for (unsigned b = 0; b < 65536; b++) {
            pair(a | l, b);
            expiry(a | l, b, (a ^ b) & 0x7fff);
        }
    }
}
static void bounds(void) {
    uint64_t s = v[mc_choose(nv)], d = dv[mc_choose(nd)];
    for (int i = 0; i < nv; i++) {
        pair(s, v[i]);
        expiry(s, v[i], d);
        uint64_t e = (s + d + v[i]) & mask;
        pair(s, e), pair(e, s);
        expiry(s, e, d);
        expiry(s, (s + v[i]) & mask, d);
    }
}
/* a clock ticking through a whole period: once expired it stays so for half the range */
static void tick(void) {
    uint64_t s = v[mc_choose(nv)], d = (uint64_t[]){0, 1, 2, 100, half / 2, half - 1}[mc_choose(6)];
    uint64_t stepw = t_size == 1 ? 1 : half / 4096 ? half / 4096 : 1;
    for (uint64_t k = 0, e = 0; k < 8192 && e < d + half; k++, e += stepw)
        expiry(s, (s + e) & mask, d);
}
void mc_register(void) {
    if (t_size == 1)
        mc_add("every-instant-and-delay", setup, nothing, all8, 1, 1);
    if (t_size == 2)
        mc_add("every-pair", setup, nothing, all16, -1, 1);
    mc_add("boundaries", setup, nothing, bounds, 1, 1);
    mc_add("ticking", setup, nothing, tick, 1, 1);
}
