/* C01: the circular buffer is a bounded FIFO, for every sequence of calls from one thread. */
#include "mc.h"
#include "collections/circular_buffer.h"
#include <string.h>
#include <stdio.h>
#include <limits.h>

typedef GEL_CBUF_TYPE T;
static circular_buf_t *cb;
static T              *buf, *src, *dst;
static struct {
    uint32_t fill, wseq;
} *m;
static unsigned B, M, large, DL;

static T f(uint32_t s) {
    s %= M;
    return (T)(s * 2654435761u + 0x5Bu);
}
static void setup(void) {
    B     = (unsigned)mc_cfg->p[0];
    M     = (unsigned)mc_cfg->p[1];
    large = (unsigned)mc_cfg->p[2];
    DL    = B + 8;
    cb    = mc_alloc(sizeof *cb, 1);
    buf   = mc_alloc(B * sizeof(T), !large);
    m     = mc_alloc(sizeof *m, !large);
    if (large)
        mc_region(&m->fill, sizeof m->fill, 1);
    /* scratch: rewritten before every use */
    src = malloc(DL * sizeof(T));
    dst = malloc(DL * sizeof(T));
}
static void observe(void) {
    static T chk[1 << 17];
    mc_check(circular_buf_size(cb) == m->fill, "size is %zu with %u elements stored", circular_buf_size(cb), m->fill);
    mc_check(!!is_circular_buf_empty(cb) == (m->fill == 0), "empty test is wrong with %u elements stored", m->fill);
    mc_check(!!is_circular_buf_full(cb) == (m->fill == B - 1), "full test is wrong with %u of %u elements stored", m->fill, B - 1);
    mc_check(circular_buf_capacity(cb) == B - 1, "capacity is %zu, not %u", circular_buf_capacity(cb), B - 1);
    memset(chk, 0xA5, (m->fill + 4) * sizeof(T));
    int r = circular_buf_peek(cb, chk, (int)m->fill + 3);
    mc_check(r == (int)m->fill, "peek of everything returned %d of %u elements", r, m->fill);
    for (unsigned i = 0; i < m->fill; i++)
        mc_check(chk[i] == f(m->wseq - m->fill + i), "element %u of the content is wrong", i);
    for (unsigned i = m->fill; i < m->fill + 4; i++)
        mc_check(!memcmp(&chk[i], "\xA5\xA5\xA5\xA5\xA5\xA5\xA5\xA5\xA5\xA5\xA5\xA5\xA5\xA5\xA5\xA5", sizeof(T)), "peek wrote past its result");
}
static void init(void) {
    static const unsigned char fills[] = {0xB7, 0x00, 0xFF};
    mc_garbage(cb, sizeof *cb, fills[mc_choose(3)]);
    m->fill = m->wseq = 0;
    mc_label("init size %u", B);
    mc_check(circular_buf_init(cb, NULL, B) != 0, "init without a buffer succeeded");
    mc_check(circular_buf_init(cb, buf, 0) != 0, "init with size 0 succeeded");
    mc_check(circular_buf_init(cb, buf, B) == 0, "init failed");
    mc_check(circular_buf_puts(NULL, src, 1) < 0 && circular_buf_putc(NULL, 0) < 0 && circular_buf_gets(NULL, dst, 1) < 0 &&
                 circular_buf_getc(NULL, dst) < 0,
             "operation on no buffer succeeded");
    observe();
}
static unsigned choose_len(unsigned around) {
    if (!large)
        return mc_choose(B + 3);
    unsigned c[40], n = 0;
    unsigned w[] = {0, 1, 2, around, B, 127, 255};
    for (unsigned i = 0; i < sizeof w / sizeof *w; i++)
        for (int d = -1; d <= 1; d++) {
            if (d && i < 3)
                continue;
            long v = (long)w[i] + d;
            if (v < 0 || v >= (long)DL)
                continue;
            unsigned k;
            for (k = 0; k < n && c[k] != (unsigned)v; k++)
                ;
            if (k == n)
                c[n++] = (unsigned)v;
        }
    return c[mc_choose(n)];
}
static void step(void) {
    unsigned room = B - 1 - m->fill, len, exp;
    int      r;
    switch (mc_choose(9)) {
        case 0:
            mc_label("putc");
            r = circular_buf_putc(cb, f(m->wseq));
            mc_check((r == 0) == (room > 0), "putc returned %d with room for %u", r, room);
            if (room) {
                m->fill++;
                m->wseq++;
                MC_COVER("putc stored");
            } else
                MC_COVER("putc on full");
            break;
        case 1:
            len = choose_len(room);
            mc_label("puts %u (room %u)", len, room);
            memset(src, 0x5A, DL * sizeof(T));
            for (unsigned i = 0; i < len; i++)
                src[i] = f(m->wseq + i);
            r   = circular_buf_puts(cb, src, len);
            exp = len < room ? len : room;
            mc_check(r == (int)exp, "puts of %u with room for %u returned %d", len, room, r);
            for (unsigned i = 0; i < len; i++)
                mc_check(src[i] == f(m->wseq + i), "puts changed its source");
            m->fill += exp;
            m->wseq += exp;
            if (exp < len)
                MC_COVER("puts partial");
            else
                MC_COVER("puts complete");
            break;
        case 2:
        case 3: {
            int null = mc_choose(2);
            T   v    = 0;
            mc_label("getc%s", null ? " (discard)" : "");
            r = circular_buf_getc(cb, null ? NULL : &v);
            mc_check((r == 0) == (m->fill > 0), "getc returned %d with %u stored", r, m->fill);
            if (m->fill) {
                if (!null)
                    mc_check(v == f(m->wseq - m->fill), "getc returned the wrong element");
                m->fill--;
                MC_COVER("getc");
            }
            break;
        }
        case 4:
        case 5: {
            int peek = mc_choose(2);
            len      = choose_len(m->fill);
            mc_label("%s %u (stored %u)", peek ? "peek" : "gets", len, m->fill);
            memset(dst, 0xC3, DL * sizeof(T));
            r   = peek ? circular_buf_peek(cb, dst, (int)len) : circular_buf_gets(cb, dst, (int)len);
            exp = len < m->fill ? len : m->fill;
            mc_check(r == (int)exp, "%s of %u with %u stored returned %d", peek ? "peek" : "gets", len, m->fill, r);
            for (unsigned i = 0; i < exp; i++)
                mc_check(dst[i] == f(m->wseq - m->fill + i), "element %u of %s is wrong", i, peek ? "peek" : "gets");
            for (unsigned i = exp; i < DL; i++)
                mc_check(!memcmp(&dst[i], "\xC3\xC3\xC3\xC3\xC3\xC3\xC3\xC3\xC3\xC3\xC3\xC3\xC3\xC3\xC3\xC3", sizeof(T)), "%s wrote past its result", peek ? "peek" : "gets");
            if (!peek)
                m->fill -= exp;
            MC_COVER("bulk read");
            break;
        }
        case 6: {
            /* a drop needs no memory, so any length is a fair one: "everything" is often asked for as a large number */
            static const unsigned all[] = {256, 65536, 65537, 0x7fff0001, INT_MAX};
            unsigned              huge  = mc_choose(1 + sizeof all / sizeof *all);
            len                         = huge ? all[huge - 1] : choose_len(m->fill);
            mc_label("drop %u", len);
            r   = circular_buf_drop(cb, (int)len);
            exp = len < m->fill ? len : m->fill;
            mc_check(r == (int)exp, "drop of %u with %u stored returned %d", len, m->fill, r);
            m->fill -= exp;
            break;
        }
        case 7:
            mc_label("reset");
            circular_buf_reset(cb);
            m->fill = 0;
            break;
        case 8:
            mc_label("init again");
            mc_check(circular_buf_init(cb, buf, B) == 0, "init failed");
            m->fill = 0;
            break;
    }
    if (!large)
        m->wseq %= M; /* keep the space finite */
    if (!large && m->wseq < m->fill)
        m->wseq += M;
    observe();
}
static void add(unsigned B_, unsigned M_, int large_, int dq, int dt) {
    char n[64];
    snprintf(n, sizeof n, "B%u%s", B_, large_ ? "-boundary" : "");
    mc_config *c = mc_add(n, setup, init, step, dq, dt);
    c->p[0]      = B_;
    c->p[1]      = M_;
    c->p[2]      = large_;
}
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static circular_buf_t o;
    static T              ob[5], x[4] = {7, 8, 9, 10};
    circular_buf_init(&o, ob, 5);
    circular_buf_puts(&o, x, 3), circular_buf_getc(&o, x), circular_buf_puts(&o, x, 2), circular_buf_drop(&o, 1), circular_buf_peek(&o, x, 2);
    mc_check(circular_buf_size(&o) == 3 && x[0] == 9 && x[1] == 7, "another buffer has a wrong content");
    x[0] = 7, x[1] = 8;
}
void mc_register(void) {
    mc_other = other;
    for (unsigned b = 1; b <= 5; b++)
        add(b, b + 2, 0, 0, 0);
    add(6, 7, 0, sizeof(T) == 1 || sizeof(T) == 4 ? 0 : -1, 0);
    add(7, 8, 0, -1, 0);
    add(8, 9, 0, -1, 0);
    static const int more[] = {7, 8, 9, 10, 12, 15, 16, 17, 32, 33, 64, 100, 127, 128, 129};
    for (unsigned i = 0; i < sizeof more / sizeof *more; i++)
        add(more[i], 251, 1, 0, 0);
    add(256, 251, 1, 4, 0);
    add(257, 251, 1, 4, 0);
    add(300, 251, 1, -1, 0);
    add(65537, 251, 1, 3, 4);
    add(70000, 251, 1, 3, 4);
}
