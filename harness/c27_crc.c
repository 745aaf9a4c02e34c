/* C27: both checksums equal bitwise polynomial division, for every message and every split. */
#include "mc.h"
#include "crc/crc16-ccitt.h"
#include "crc/crc32.h"
#include <stdlib.h>
#include <string.h>
static uint16_t ref16(const uint8_t *b, size_t n, uint16_t c) {
    for (size_t i = 0; i < n; i++) {
        c ^= b[i] << 8;
        for (int k = 0; k < 8; k++)
            c = c & 0x8000 ? c << 1 ^ 0x1021 : c << 1;
    }
    return c;
}
static uint32_t ref32(const uint8_t *b, size_t n, uint32_t c) {
    for (size_t i = 0; i < n; i++) {
        c ^= (uint32_t)b[i] << 24;
        for (int k = 0; k < 8; k++)
            c = c & 0x80000000 ? c << 1 ^ 0x04c11db7 : c << 1;
    }
    return c;
}
static void setup(void) {}
static void nothing(void) {}
/* blocks whose end is the end of the allocation, at offsets 0..7 from its start */
static uint8_t *blk(size_t n, int off) {
    static uint8_t *keep;
    free(keep);
    keep = malloc(n + off + !(n + off));
    if (n + off)
        memset(keep, 0xa5, n + off);
    return keep + off;
}
static void both(const uint8_t *b, size_t n, uint16_t i16, uint32_t i32) {
    unsigned short a = crc16_ccitt(b, n, i16);
    uint32_t       c = crc32(b, n, i32);
    mc_evals++;
    mc_check(a == ref16(b, n, i16), "crc16 of %zu bytes from %#x is %#x, not %#x", n, i16, a, ref16(b, n, i16));
    mc_check(c == ref32(b, n, i32), "crc32 of %zu bytes from %#x is %#x, not %#x", n, i32, c, ref32(b, n, i32));
}
/* 16 bit: every previous value and every byte: the whole transition function of the checksum */
static void step16(void) {
    uint16_t hi = mc_choose(256) << 8;
    uint8_t *b = blk(1, mc_choose(2));
    for (int lo = 0; lo < 256; lo++)
        for (int x = 0; x < 256; x++) {
            *b = x;
            mc_evals++;
            unsigned short r = crc16_ccitt(b, 1, hi | lo);
            mc_check(r == ref16(b, 1, hi | lo), "crc16 step from %#x with byte %#x is %#x", hi | lo, x, r);
            mc_check(*b == x, "message changed");
        }
}
/* 32 bit: every byte, from values with any two free bytes over several backgrounds */
static void step32(void) {
    static const uint32_t bg[] = {0, 0xffffffff, 0x01020408, 0x80808080, 0x7fffffff};
    uint32_t              g = bg[mc_choose(5)];
    int                   i = mc_choose(4), j = mc_choose(4);
    uint8_t              *b = blk(1, 0);
    if (j >= i)
        return;
    for (uint32_t x = 0; x < 65536; x++) {
        uint32_t c = (g & ~(0xffu << 8 * i) & ~(0xffu << 8 * j)) | (x >> 8) << 8 * i | (x & 255) << 8 * j;
        for (int y = 0; y < 256; y += mc_thorough ? 1 : 5) {
            *b = y;
            mc_evals++;
            uint32_t r = crc32(b, 1, c);
            mc_check(r == ref32(b, 1, c), "crc32 step from %#x with byte %#x is %#x", c, y, r);
        }
        if (!(x & 1023))
            mc_progress();
    }
}
/* 32 bit, every previous value (with bytes that vary with it: the step is linear in both) */
static void all32(void) {
    uint32_t top = mc_choose(256) << 24;
    uint8_t *b = blk(1, 0);
    for (uint32_t v = 0; v < 1u << 24; v++) {
        *b = v * 2654435761u >> 24;
        mc_evals++;
        mc_check(crc32(b, 1, top | v) == ref32(b, 1, top | v), "crc32 step from %#x with byte %#x", top | v, *b);
        if (!(v & 0xfffff))
            mc_progress();
    }
}
static const uint16_t in16[] = {0, 0xffff, 0x1d0f, 0x8000, 1};
static const uint32_t in32[] = {0, 0xffffffff, 0x04c11db7, 0x80000000, 1};
static const uint8_t  alpha[] = {0x00, 0x01, 0x80, 0xff, 0x7f, 0x10, 0x55};
/* every message over an alphabet, at every alignment, in every split into up to three pieces */
static void messages(void) {
    int n = mc_choose(mc_cfg->p[0] + 1), off = mc_choose(8), in = mc_choose(5);
    uint8_t *b = blk(n, off);
    for (int i = 0; i < n; i++)
        b[i] = alpha[mc_choose(mc_cfg->p[1])];
    both(b, n, in16[in], in32[in]);
    uint16_t w16 = ref16(b, n, in16[in]);
    uint32_t w32 = ref32(b, n, in32[in]);
    for (int i = 0; i <= n; i++)
        for (int j = i; j <= n; j++) {
            unsigned short a = crc16_ccitt(b + j, n - j, crc16_ccitt(b + i, j - i, crc16_ccitt(b, i, in16[in])));
            uint32_t       c = crc32(b + j, n - j, crc32(b + i, j - i, crc32(b, i, in32[in])));
            mc_evals++;
            mc_check(a == w16, "crc16 in pieces of %d, %d and %d bytes is %#x, not %#x", i, j - i, n - j, a, w16);
            mc_check(c == w32, "crc32 in pieces of %d, %d and %d bytes is %#x, not %#x", i, j - i, n - j, c, w32);
        }
}
/* long messages: lengths around every size of a counter, split in two at such lengths */
static void lengths(void) {
    static const uint32_t L[] = {7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65539, 131071, 131072, 131075};
    uint32_t n = L[mc_choose(sizeof(L) / sizeof(*L))];
    int      pat = mc_choose(4), off = mc_choose(2) * 3, in = mc_choose(3);
    uint8_t *b = blk(n, off);
    for (uint32_t i = 0; i < n; i++)
        b[i] = pat == 0 ? i : pat == 1 ? 0 : pat == 2 ? 0xff : i * 2654435761u >> 24;
    both(b, n, in16[in], in32[in]);
    uint16_t w16 = ref16(b, n, in16[in]);
    uint32_t w32 = ref32(b, n, in32[in]);
    for (unsigned k = 0; k < sizeof(L) / sizeof(*L) && L[k] <= n; k++) {
        mc_check(crc16_ccitt(b + L[k], n - L[k], crc16_ccitt(b, L[k], in16[in])) == w16, "crc16 of %u bytes split at %u", n, L[k]);
        mc_check(crc32(b + L[k], n - L[k], crc32(b, L[k], in32[in])) == w32, "crc32 of %u bytes split at %u", n, L[k]);
    }
    mc_progress();
}
/* every length up to 1100 (thorough: past 65536 in one growing message) */
static void every_length(void) {
    uint32_t top = mc_thorough ? 66000 : 2100;
    static uint8_t b[66000];
    uint16_t       a = 0x1d0f;
    uint32_t       c = 0xffffffff;
    int            pat = mc_choose(2);
    for (uint32_t i = 0; i < top; i++)
        b[i] = pat ? i * 2654435761u >> 24 : 0xff;
    for (uint32_t n = 0; n < top; n++) {
        mc_check(crc16_ccitt(b, n, 0x1d0f) == a, "crc16 of %u bytes", n);
        mc_check(crc32(b, n, 0xffffffff) == c, "crc32 of %u bytes", n);
        a = ref16(b + n, 1, a), c = ref32(b + n, 1, c);
        mc_evals++;
        mc_progress();
    }
}
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static const uint8_t x[] = "another message";
    mc_check(crc16_ccitt(x, 9, 3) == ref16(x, 9, 3) && crc32((uint8_t *)x, 9, 3) == ref32(x, 9, 3), "the sums of another message are wrong");
}
void mc_register(void) {
    mc_other = other;
    mc_config *m;
    mc_add("crc16-every-step", setup, nothing, step16, 1, 1);
    mc_add("crc32-steps", setup, nothing, step32, 1, 1);
    mc_add("crc32-every-value", setup, nothing, all32, -1, 1);
    m = mc_add("messages5x4", setup, nothing, messages, 1, -1), m->p[0] = 5, m->p[1] = 4;
    m = mc_add("messages6x4", setup, nothing, messages, -1, 1), m->p[0] = 6, m->p[1] = 4;
    m = mc_add("messages4x7", setup, nothing, messages, -1, 1), m->p[0] = 4, m->p[1] = 7;
    mc_add("lengths", setup, nothing, lengths, 1, 1);
    mc_add("every-length", setup, nothing, every_length, 1, 1);
}
