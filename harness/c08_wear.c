/* MODE 8: C08 crash consistency. MODE 9: C09 device errors. MODE 10: C10 rotation. */
#include "mc.h"
#include <setjmp.h>
#include <stdio.h>
#include <string.h>
#define wearleveling_init wearleveling_init_decl
#include "wearleveling/wearleveling.h"
#undef wearleveling_init
extern int wl_init(wear_leveled_memory_t *, wl_read_block_t, wl_write_block_t, wl_read_marker_t, size_t) __asm__("wearleveling_init");

static wear_leveled_memory_t *w;
static size_t                 n, len, vl; /* vl: length of the value being written */
static uint8_t               *data, *mark; /* the device */
static struct {
    int16_t  last;     /* block of the last completed write, -1: none yet */
    uint8_t  failed;   /* initialisation has failed and was not repeated */
    uint8_t  fresh;    /* which value to write next in bulk mode */
    int32_t  writes[256];
    int32_t  valid;    /* length of the last value written */
} *m;
static uint8_t *cur; /* the value the memory must have */
static uint8_t *vbuf, *rbuf;
/* what the device does */
static int     crash;   /* 1: power loss during the next block write */
static int     outcome; /* after a crash or failed write */
static int     fail_read, fail_write, fail_mark, fail_code; /* fail_*: number of calls until the failing one, -1: never */
static int     nread, nwrite, nmark, failed_code;
static size_t  wblock;
static jmp_buf power;

static void range(size_t b, const char *what) { mc_check(b < n, "%s of block %zu of a page of %zu", what, b, n); }
static int  rd_cb(size_t b, uint8_t *d, size_t l) {
    range(b, "read");
    mc_check(l <= len, "read of %zu bytes of a record of %zu", l, len);
    if (nread++ == fail_read) {
        memset(d, 0x5B, l / 2);
        return failed_code = fail_code;
    }
    memcpy(d, data + b * len, l);
    return 0;
}
static int mk_cb(size_t b, uint8_t *mm) {
    range(b, "marker read");
    if (nmark++ == fail_mark)
        return failed_code = fail_code;
    *mm = mark[b];
    return 0;
}
/* outcomes (a page of one block has no other block to keep the value in, it is only ever left old or completed): 0 old, 1 complete, 2 data complete but marker old, 3 data erased, 4.. mask of bytes already new */
static unsigned noutcomes(void) { return n == 1 ? 2 : 4 + (vl <= 3 ? (1u << vl) - 2 : 3); }
static void torn(size_t b, uint8_t mm, const uint8_t *d) {
    switch (outcome) {
        case 0: break;
        case 1:
            mark[b] = mm; /* fallthrough */
        case 2: memcpy(data + b * len, d, vl); break;
        case 3: memset(data + b * len, 0xFF, len); break;
        default:
            for (size_t i = 0; i < vl; i++)
                if (vl <= 3 ? ((outcome - 3) >> i) & 1 : outcome == 4 ? i == 0 : outcome == 5 ? i < vl / 2 : i + 1 < vl)
                    data[b * len + i] = d[i];
    }
}
static int wr_cb(size_t b, uint8_t mm, uint8_t *d, size_t l) {
    range(b, "write");
    mc_check(l == vl, "write of %zu bytes of a value of %zu", l, vl);
    mc_check(!memcmp(d, vbuf, vl), "the device is given other data than the value written");
    mc_check(!nwrite, "one write operation writes more than one block");
    wblock = b;
    if (crash) {
        nwrite++;
        torn(b, mm, d);
        longjmp(power, 1);
    }
    if (nwrite++ == fail_write) {
        torn(b, mm, d);
        return failed_code = fail_code;
    }
    memcpy(data + b * len, d, vl);
    mark[b] = mm;
    return 0;
}
static void quiet(void) {
    crash = 0, fail_read = fail_write = fail_mark = -1, nread = nwrite = nmark = failed_code = 0;
}
static void look(size_t l, int fill, const char *when) {
    memset(rbuf, fill, len + 8);
    int r = wearleveling_read(w, rbuf, l);
    mc_check(r == 0, "%s: read reports %d", when, r);
    mc_check(!memcmp(rbuf, cur, l), "%s: the %svalue read is not the last one written", when, l < (size_t)m->valid ? "beginning of the " : "");
    for (size_t k = l; k < len + 8 && k < l + 8; k++)
        mc_check(rbuf[k] == fill, "read writes beyond the buffer");
}
static void observe(const char *when) {
    size_t v = m->valid;
    quiet();
    look(v, 0x71, when);
    if (v > 1) /* a part of it: all lengths, or a few */
        for (size_t k = 0, l; (l = v <= 4 ? k + 1 : (size_t[]){1, v / 2, v - 1, v}[k]) < v; k++)
            look(l, 0x73, when);
    look(v, 0x72, when);
    mc_check(!nwrite, "reading writes to the device");
}
static int boot(void) { /* the failures are set by the caller */
    static uint8_t g[] = {0xCD, 0x00};
    mc_garbage(w, sizeof *w, g[0]);
    mc_progress();
    int r = wl_init(w, rd_cb, wr_cb, mk_cb, n);
    mc_check(!nwrite, "initialisation writes to the device");
    return r;
}
static void reboot(const char *when) {
    quiet();
    boot();
    m->failed = 0;
    observe(when);
}
static int same_value(void) {
    if (vl <= (size_t)m->valid)
        return !memcmp(vbuf, cur, vl);
    if (!memcmp(vbuf, data + m->last * len, vl))
        mc_prune(); /* longer than the last value, but equal to what happens to follow it in the block: writing it or not is as good */
    return 0;
}
static void length(void) { vl = mc_cfg->p[2] ? 1 + mc_choose(len) : len; }
static void value(unsigned v) {
    for (size_t i = 0; i < len; i++)
        vbuf[i] = (uint8_t)(v * 0x5D + 0x11 * (i % 3));
}
static void value_near(unsigned v) { /* differs from the current value in one byte */
    memcpy(vbuf, cur, len);
    vbuf[v == 0 ? 0 : v == 1 ? vl - 1 : vl / 2] ^= 0x10;
}
static void done(void) { /* a changing write was completed */
    mc_check(nwrite == 1, "a changed value was not written to the device");
    if (m->last >= 0)
        mc_check(wblock == (m->last + 1) % n, "write to block %zu after block %d of %zu", wblock, m->last, n);
    m->last = wblock;
    m->writes[wblock]++;
    memcpy(cur, vbuf, vl);
    m->valid = vl;
}
static void do_write(void) {
    static uint8_t keep[70000];
    int same = same_value();
    memcpy(keep, vbuf, vl);
    quiet();
    int r = wearleveling_write(w, vbuf, vl);
    mc_check(!memcmp(keep, vbuf, vl), "write changed its input");
    mc_check(r == 0, "write reports %d", r);
    if (same)
        mc_check(nwrite == 0, "writing the value already stored writes to the device");
    else
        done();
}
static void setup(void) {
    n    = mc_cfg->p[0];
    len  = mc_cfg->p[1];
    w    = mc_alloc(sizeof *w, 1);
    data = mc_alloc(n * len, 1);
    mark = mc_alloc(n, 1);
    m    = mc_alloc(sizeof *m, 1);
    cur  = mc_alloc(len, 1);
    vbuf = mc_alloc(len, 0);
    rbuf = mc_alloc(len + 8, 0);
}
static void init(void) {
    static const uint8_t mi[] = {0xFF, 0x00, 0x7E};
    memset(m, 0, sizeof *m);
    m->last = -1, m->valid = len;
    memset(mark, mi[mc_choose(3)], n);
    int erased = mc_choose(2);
    for (size_t i = 0; i < n * len; i++)
        data[i] = erased ? 0xFF : (i / len) * 3 + i % len;
    quiet();
    int r = boot();
#if MODE == 9
    mc_check(r == 0, "initialisation on a working device reports %d", r);
#endif
    r = wearleveling_read(w, cur, len);
    mc_check(r == 0, "read reports %d", r);
    observe("after first initialisation");
}
#define NC 4
static const int codes[NC] = {-1, 2, 256, -2147483647 - 1};
static void crash_write(void) {
    int same = same_value();
    quiet();
    crash = 1;
    if (!setjmp(power)) {
        int r = wearleveling_write(w, vbuf, vl);
        mc_check(r == 0 && same, "a changed value was not written to the device");
    } else {
        mc_check(!same, "writing the value already stored writes to the device");
        if (outcome == 1) {
            done();
        }
        if (outcome == 1 ? 0 : m->last >= 0)
            mc_check(wblock == (m->last + 1) % n, "write to block %zu after block %d of %zu", wblock, m->last, n);
    }
    reboot("after a power loss and reboot");
}
static void failing_write(void) {
    int  same = same_value();
    int  op   = mc_choose(2);
    quiet();
    fail_code = codes[mc_choose(NC)];
    if (op == 0) {
        fail_read = 0;
    } else {
        if (same)
            mc_prune();
        fail_write = 0;
        outcome    = mc_choose(noutcomes());
        if (outcome == 1)
            mc_prune();
    }
    mc_label("write with failing %s, code %d, outcome %d", op ? "block write" : "block read", fail_code, outcome);
    int r = wearleveling_write(w, vbuf, vl);
    if (!failed_code) { /* it did not need that operation */
        mc_check(r == 0, "write reports %d", r);
        if (same)
            mc_check(!nwrite, "writing the value already stored writes to the device");
        else
            done();
    } else
        mc_check(r == failed_code, "device error %d reported as %d", failed_code, r);
    observe("after a failed write");
}
static void failing_boot(void) {
    fail_mark = mc_choose(n <= 16 ? n : 5);
    if (n > 16)
        fail_mark = (int[]){0, 1, (int)n / 2, (int)n - 2, (int)n - 1}[fail_mark];
    fail_code = codes[mc_choose(NC)];
    int fm = fail_mark, r;
    mc_label("reboot with marker read %d failing with %d", fail_mark, fail_code);
    quiet();
    fail_mark = fm;
    r         = boot();
    if (failed_code) {
        mc_check(r == failed_code, "initialisation: device error %d reported as %d", failed_code, r);
        quiet();
        wearleveling_read(w, rbuf, len); /* must stay inside the page */
        quiet();
        fail_write = 0, fail_code = -1, outcome = 0;
        vl = len;
        value_near(0);
        wearleveling_write(w, vbuf, vl); /* likewise; the device refuses it */
        m->failed = 1;
    } else {
        mc_check(r == 0, "initialisation reports %d", r);
        observe("after initialisation");
    }
}
static void step(void) {
    if (m->failed) {
        reboot("after a repeated initialisation");
        return;
    }
    unsigned op = mc_choose(MODE == 10 ? 3 : MODE == 8 ? 3 : 5);
    switch (op) {
        case 0: {
            length();
            unsigned v = mc_choose(4);
            v < 3 ? value(v) : value_near(mc_choose(3));
            mc_label("write %02x.. (%zu bytes)", vbuf[0], vl);
            do_write();
            observe("after a write");
            break;
        }
        case 1:
            mc_label("reboot");
            reboot("after a reboot");
            break;
        case 2:
            if (MODE == 9) {
                length();
                unsigned v = mc_choose(4);
                v < 3 ? value(v) : value_near(mc_choose(3));
                failing_write();
            } else {
                length();
                value(mc_choose(3));
                outcome = mc_choose(noutcomes());
                mc_label("power loss in writing %02x.., outcome %d", vbuf[0], outcome);
                crash_write();
            }
            break;
        case 3: failing_boot(); break;
        case 4: {
            quiet();
            fail_read = 0;
            fail_code = codes[mc_choose(NC)];
            mc_label("failing read, code %d", fail_code);
            int r = wearleveling_read(w, rbuf, len);
            mc_check(r == fail_code, "read: device error %d reported as %d", fail_code, r);
            observe("after a failed read");
            break;
        }
    }
    for (size_t i = 0; i < n; i++)
        m->writes[i] = 0; /* only used in bulk mode */
}
static void balance(void) {
    int lo = 1 << 30, hi = 0;
    for (size_t i = 0; i < n; i++) {
        lo = m->writes[i] < lo ? m->writes[i] : lo;
        hi = m->writes[i] > hi ? m->writes[i] : hi;
    }
    mc_check(hi - lo <= 1, "blocks written between %d and %d times", lo, hi);
}
/* many writes: full laps over the page and over the marker values */
static void bulk(void) {
    if (m->failed) {
        reboot("after a repeated initialisation");
        return;
    }
    size_t   k[] = {1, 2, n < 3 ? 3 : n - 2, n < 2 ? 3 : n - 1, n, n + 1, 255, 256, 257};
    unsigned c = k[mc_choose(9)], mode = mc_choose(3);
    mc_label("%u writes%s", c, mode == 1 ? ", a reboot after each" : mode == 2 ? ", each value twice" : "");
    for (unsigned i = 0; i < c; i++) {
        m->fresh = m->fresh % 250 + 1;
        vl = len;
        value(m->fresh);
        do_write();
        observe("after a write");
        if (mode == 1)
            reboot("after a reboot");
        if (mode == 2)
            do_write();
        if (MODE == 10)
            balance();
    }
    switch (mc_choose(MODE == 9 ? 3 : 2)) {
        case 0: reboot("after a reboot"); break;
        case 1:
            vl = len;
            value(251);
            if (MODE == 9) {
                failing_write();
                break;
            }
            outcome = mc_choose(noutcomes());
            mc_label("then a power loss in writing, outcome %d", outcome);
            crash_write();
            break;
        case 2: failing_boot(); break;
    }
}
static uint8_t o_data[3][2];
static int     o_read(size_t b, uint8_t *d, size_t l) { return memcpy(d, o_data[b % 3], l), 0; }
static int     o_write(size_t b, uint8_t mm, uint8_t *d, size_t l) { return (void)mm, memcpy(o_data[b % 3], d, l), 0; }
static int     o_marker(size_t b, uint8_t *mm) { return *mm = 40 + 0 * b, 0; }
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    wear_leveled_memory_t o;
    uint8_t               x[2] = {5, 6};
    mc_check(wl_init(&o, o_read, o_write, o_marker, 3) == 0, "another memory cannot be initialised");
    wearleveling_write(&o, x, 2);
    x[1]++;
    wearleveling_write(&o, x, 2);
    mc_check(wearleveling_read(&o, x, 2) == 0 && x[0] == 5 && x[1] == 7, "another memory has a wrong content");
}
void mc_register(void) {
    mc_other = other;
    static const struct { int n, len, dq, dt, bulk; } t[] = {
        {1, 1, 0, 0, 0}, {1, 2, 0, 0, 0}, {2, 1, 0, 0, 0}, {2, 2, MODE == 9 ? 8 : 0, 0, 0}, {3, 1, 10, 0, 0}, {3, 2, 6, 9, 0}, {4, 2, 5, 8, 0}, {4, 3, MODE == 9 ? 4 : 5, MODE == 9 ? 5 : 7, 0}, {2, 4, 5, 7, 0}, {3, 5, 4, 6, 0}, {2, 8, 4, 6, 0}, {3, 16, 3, 5, 0}, {2, 32, 3, 4, 0}, {7, 1, 5, 7, 0}, {2, 300, 5, 6, 0}, {2, 65537, 2, 3, 0}, {3, 70000, -1, 2, 0},
        {1, 2, 2, 3, 1}, {2, 1, 2, 3, 1}, {3, 2, 2, 3, 1}, {5, 1, 2, 3, 1}, {16, 2, 1, 2, 1}, {64, 2, 1, 2, 1}, {128, 1, 1, 2, 1}, {253, 1, 1, 2, 1}, {254, 3, 1, 2, 1}, {255, 1, 1, 2, 1}, {255, 2, -1, 2, 1}};
    for (unsigned i = 0; i < sizeof t / sizeof *t; i++) {
        char b[64];
        snprintf(b, sizeof b, "blocks%d-len%d%s", t[i].n, t[i].len, t[i].bulk ? "-laps" : "");
        mc_config *c = mc_add(b, setup, init, t[i].bulk ? bulk : step, t[i].dq, t[i].dt);
        c->p[0] = t[i].n, c->p[1] = t[i].len;
#ifdef NDEBUG /* the same code without assertions */
        if (i == 4)
            return;
#endif
    }
    static const struct { int n, len, dq, dt; } vary[] = {{1, 2, 0, 0}, {2, 2, MODE == 9 ? 5 : 6, 8}, {3, 2, MODE == 9 ? 4 : 5, 7}, {2, 3, MODE == 9 ? 3 : 4, 6}, {3, 5, 3, 5}};
    for (unsigned i = 0; i < sizeof vary / sizeof *vary; i++) { /* values of different lengths */
        char b[64];
        snprintf(b, sizeof b, "blocks%d-upto%d", vary[i].n, vary[i].len);
        mc_config *c = mc_add(b, setup, init, step, vary[i].dq, vary[i].dt);
        c->p[0] = vary[i].n, c->p[1] = vary[i].len, c->p[2] = 1;
    }
    static const int more[] = {4, 6, 7, 8, 9, 10, 12, 15, 17, 24, 31, 32, 33, 48, 63, 65, 96, 100, 127, 129, 170, 192, 200, 250, 251, 252};
    for (unsigned i = 0; i < sizeof more / sizeof *more; i++) {
        char b[64];
        snprintf(b, sizeof b, "blocks%d-len%d-laps", more[i], i % 3 + 1);
        mc_config *c = mc_add(b, setup, init, bulk, more[i] < 9 ? 2 : 1, more[i] < 33 ? 3 : 2);
        c->p[0] = more[i], c->p[1] = i % 3 + 1;
    }
}
