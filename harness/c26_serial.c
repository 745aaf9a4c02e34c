/* C26: serialization round-trips, in the named byte order, within the bytes of the type. */
#include "mc.h"
#include "c26.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define OFFS 8
static void     setup(void) {}
static void     nothing(void) {}
static uint8_t *block[9][OFFS]; /* the value, at every offset, ends where the block ends */
static void prepare(void) {
    if (block[1][0])
        return;
    for (int n = 1; n <= 8; n++)
        for (int o = 0; o < OFFS; o++)
            block[n][o] = malloc(o + n); /* redzones around */
}
static uint64_t widen(uint64_t v, int bytes, int sgn) {
    if (bytes == 8)
        return v;
    uint64_t m = (1ull << 8 * bytes) - 1;
    v &= m;
    if (sgn && v >> (8 * bytes - 1) & 1)
        v |= ~m;
    return v;
}
static void one(const ser_t *s, uint64_t v, int off) {
    uint8_t want[8], *b = block[s->bytes][off], *p = b + off;
    mc_evals++;
    uint64_t pv = s->ser ? widen(v, s->vbytes, s->vsgn) : v; /* what a variable of that type holds */
    for (int i = 0; i < s->bytes; i++)
        want[i] = pv >> 8 * (s->big ? s->bytes - 1 - i : i);
    if (s->ser) {
        for (int fill = 0; fill < 2; fill++) {
            memset(b, fill ? 0xff : 0x00, off + s->bytes);
            size_t r = s->ser(p, v);
            mc_check(r == (size_t)s->bytes, "%s: serializing returns %zu", s->name, r);
            mc_check(!memcmp(p, want, s->bytes), "%s: wrong bytes for %#lx (first %02x, expected %02x)", s->name, v, p[0], want[0]);
            for (int i = 0; i < off; i++)
                mc_check(b[i] == (fill ? 0xff : 0), "%s: byte before the buffer changed", s->name);
        }
    }
    if (s->des) {
        memset(b, 0xa5, off);
        memcpy(p, want, s->bytes);
        uint64_t o = 0xdeadbeefcafebabeull, e = widen(widen(v, s->bytes, s->sgn), s->vbytes, s->vsgn);
        size_t   r = s->des(&o, p);
        mc_check(r == (size_t)s->bytes, "%s: deserializing returns %zu", s->name, r);
        mc_check(o == e, "%s: bytes of %#lx read back as %#lx", s->name, e, o);
        mc_check(!memcmp(p, want, s->bytes), "%s: reading changes the buffer", s->name);
    }
}
/* 8 and 16 bit: all values, all offsets */
static void small(void) {
    prepare();
    const ser_t *s = &ser_table[mc_choose(ser_count)];
    int          o = mc_choose(OFFS);
    if (s->bytes > 2)
        return;
    for (uint32_t v = 0; v < 1u << 8 * s->bytes; v++) {
        one(s, v, o);
        one(s, v | 0xffffffffffff0000ull, o); /* a negative variable, or one wider than the field */
    }
}
static const uint64_t bg[] = {0, ~0ull, 0x0102030405060708ull, 0x8080808080808080ull, 0x7f7f7f7f7f7f7f7full};
/* wider: every pair of bytes free, over several backgrounds */
static void wide(void) {
    prepare();
    const ser_t *s = &ser_table[mc_choose(ser_count)];
    uint64_t     g = bg[mc_choose(5)];
    if (s->bytes <= 2)
        return;
    for (int i = 0; i < s->bytes; i++)
        for (int j = 0; j < i; j++)
            for (int x = 0; x < 65536; x++) {
                uint64_t v = (g & ~(0xffull << 8 * i) & ~(0xffull << 8 * j)) | ((uint64_t)(x >> 8) << 8 * i) | ((uint64_t)(x & 255) << 8 * j);
                one(s, v, x & (OFFS - 1));
            }
    mc_progress();
}
/* 32 bit: everything */
static void every32(void) {
    prepare();
    const ser_t *s = NULL;
    for (int i = 0, k = 0; i < ser_count; i++)
        if (ser_table[i].bytes == 4 && k++ == mc_cfg->p[0])
            s = &ser_table[i];
    unsigned top = mc_choose(256);
    uint8_t *p = block[4][0], *q = block[4][3] + 3;
    for (uint32_t v = 0; v < 1u << 24; v++) {
        uint64_t x = (uint64_t)top << 24 | v, o = 0;
        if (!(v & 0xfffff))
            mc_progress();
        uint32_t w = s->big ? __builtin_bswap32(x) : x;
        mc_evals++;
        if (s->ser) {
            s->ser(q, x);
            mc_check(!memcmp(q, &w, 4), "%s: wrong bytes for %#lx", s->name, x);
        }
        if (s->des) {
            memcpy(p, &w, 4);
            s->des(&o, p);
            mc_check(o == widen(widen(x, 4, s->sgn), s->vbytes, s->vsgn), "%s: bytes of %#lx read back as %#lx", s->name, x, o);
        }
    }
}
static void context(void) {
    prepare();
    unsigned v = mc_choose(256) << 8;
    for (int i = 0; i < 256; i++)
        for (int h = 0; h < 4; h++) {
            int r = ser_context(block[8][0], (v | i) ^ (h * 0x55550000u));
            mc_evals++;
            mc_check(!r, "the macros in a message of value %#x: wrong at point %d", v | i, r);
        }
}
void mc_register(void) {
    mc_add("8-and-16-bit-all", setup, nothing, small, 1, 1);
    mc_add("wider-two-free-bytes", setup, nothing, wide, 1, 1);
#ifdef EVERY32
    /* the four functions, and the macro with a few of the variables */
    for (int i = 0; i < 10; i++) {
        static char name[10][16];
        sprintf(name[i], "32-bit-all-%d", i);
        mc_add(name[i], setup, nothing, every32, -1, 1)->p[0] = i;
    }
#endif
    mc_add("message", setup, nothing, context, 1, 1);
}
