/* C06 (default): windows of the event log are exact. C07 (-DFAULTS): load errors are reported. */
#include "mc.h"
#include "circular_event_log/circular_event_log.h"
#include <stdio.h>
#include <string.h>
#define MAXB 70000
#ifdef FAULTS
#define FAULTS_OFF 0
#else
#define FAULTS_OFF 1
#endif
static circular_event_log_t *lg;
static size_t                max, esz, modulus;
static uint8_t              *store; /* max * esz */
static uint8_t              *buf;
static uint8_t               ev[66000], ev2[66000];
static struct {
    uint32_t n, w; /* events in the log, number of the next event */
} *m;
/* the storage device */
static int     save_code, load_calls, load_fail_at, load_code, got_code, saves;
static size_t  win_bytes;
static void    other(void);
static void mk(uint8_t *d, uint32_t id) {
    uint64_t v = ((uint64_t)(id % modulus) + 1) * 0x9E3779B97F4A7C15ull;
    v ^= v >> 31;
    if (esz == 1)
        v = (id % modulus) * 7 + 1;
    if (esz == 2)
        v = id % modulus + 1;
    for (size_t i = 0; i < esz; i++)
        d[i] = (uint8_t)(v >> (8 * (i % 8))) + i / 8;
}
static int save_cb(uint8_t *event, size_t pos) {
    saves++;
    other(); /* the device uses another log */
    mc_check(saves == 1, "one new event saved more than once");
    mc_check(pos < max, "save at position %zu of %zu", pos, max);
    mc_check(!memcmp(event, ev2, esz), "the event passed to the storage is not the new event");
    if (save_code)
        return save_code;
    memcpy(store + pos * esz, event, esz);
    return 0;
}
static int load_cb(uint8_t *events, size_t number, size_t start) {
    mc_check(number == 0 || (start < max && number <= max - start), "load of %zu events at position %zu of %zu", number, start, max);
    mc_check(number == 0 || (events >= buf && events + number * esz <= buf + win_bytes), "load outside the part of the buffer that was asked for");
    if (number && load_calls++ == load_fail_at) {
        got_code = load_code;
        return load_code;
    }
    if (max <= 4)
        other();
    if (number)
        memcpy(events, store + start * esz, number * esz);
    return (int)number;
}
static size_t window(size_t num, size_t jump) {
    if (jump >= m->n)
        return 0;
    return num < m->n - jump ? num : m->n - jump;
}
static void load(size_t num, size_t jump) {
    size_t  k = window(num, jump), b = k * esz;
    circular_event_log_t before;
    memcpy(&before, lg, sizeof before);
    win_bytes  = b;
    load_calls = 0;
    memset(buf, 0xA7, b + 16);
    mc_progress();
    int r = circular_event_log_load_last_events(*lg, buf, num, jump);
    mc_evals++;
    mc_check(!memcmp(&before, lg, sizeof before), "loading changed the log");
    for (int i = 0; i < 16; i++)
        mc_check(buf[b + i] == 0xA7, "load of %zu after %zu wrote beyond the %zu events of the window", num, jump, k);
    if (load_fail_at >= 0 && load_calls > load_fail_at) {
        MC_COVER("load error injected");
        mc_check(r == got_code, "load of %zu after %zu (%u events, limit %zu): storage error %d at call %d reported as %d", num, jump, m->n, max, got_code, load_fail_at, r);
        return;
    }
    mc_check(r == (int)k, "load of %zu after %zu with %u events returns %d instead of %zu", num, jump, m->n, r, k);
    static uint8_t x[66000];
    for (size_t i = 0; i < k; i++) {
        mk(x, m->w - jump - k + i);
        mc_check(!memcmp(x, buf + i * esz, esz), "load of %zu after %zu with %u events (limit %zu): event %zu of %zu is wrong", num, jump, m->n, max, i, k);
    }
    if (load_calls > 1)
        MC_COVER("window read in more than one part");
}
static void faulty(size_t n, size_t j) {
#ifdef FAULTS
    static const int codes[] = {-1, -2, -3, -7, -1000, -2147483647 - 1};
    for (int f = 0;; f++) {
        load_fail_at = -1;
        load(n, j);
        int calls = load_calls;
        if (f >= calls)
            return;
        if (f > 24 && f != calls / 2 && f < calls - 2) /* a window read in many parts */
            f = f < calls / 2 ? calls / 2 : calls - 2;
        if (calls > 4096 && (f > 1 && f < calls - 1))
            continue;
        for (int c = 0; c < (calls > 300 ? 2 : 6); c++) {
            load_fail_at = f;
            load_code    = codes[c];
            load(n, j);
        }
    }
#else
    load_fail_at = -1;
    load(n, j);
#endif
}
static void observe(void) {
    mc_check(circular_event_log_total_events(*lg) == m->n, "total is %zu with %u events", circular_event_log_total_events(*lg), m->n);
    static const size_t huge[] = {(size_t)-1, (size_t)-2, (size_t)1 << 63, 0xffffffffu, 0x80000000u, 65536, 65535, 256, 255};
    if (max <= 16) {
        for (size_t j = 0; j <= m->n + 2; j++) {
            for (size_t n = 0; n <= m->n + 2; n++)
                faulty(n, j);
            for (int h = 0; h < 9; h++) {
                faulty(huge[h], j);
                if (huge[h] - j > m->n)
                    faulty(huge[h] - j + 1, j);
            }
        }
        for (int h = 0; h < 9; h++)
            for (size_t n = 0; n <= m->n + 2; n++)
                faulty(n, huge[h]);
    } else {
        size_t next = m->w % max; /* where the next event goes, when the log started empty */
        size_t a[] = {0, 1, 2, next - 1, next, next + 1, m->n / 2, m->n - 1, m->n, m->n + 1, max, (size_t)-1, 255, 256, 257};
        for (int i = 0; i < 15; i++)
            for (int k = 0; k < 15; k++) {
                faulty(a[i], a[k]);
                if (m->n > a[k])
                    faulty(m->n - a[k], a[k]);
                if (m->n - a[i] > next)
                    faulty(m->n - a[i] - next, a[k]);
            }
    }
}
static void save_one(int code) {
    save_code = code;
    saves     = 0;
    mk(ev, m->w);
    memcpy(ev2, ev, esz);
    int r = circular_event_log_new_event(lg, ev);
    mc_check(!memcmp(ev, ev2, esz), "saving changed the event");
    mc_check(saves == 1, "event not passed to the storage");
    mc_check(r == code, "storage result %d reported as %d", code, r);
    if (!code) {
        m->w++;
        if (m->n < max)
            m->n++;
    } else
        MC_COVER("save refused");
}
static void setup(void) {
    max      = mc_cfg->p[0];
    esz      = mc_cfg->p[1];
    modulus  = mc_cfg->p[2];
    lg       = mc_alloc(sizeof *lg, 1);
    store    = mc_alloc(max * esz, 1);
    m        = mc_alloc(sizeof *m, 1);
    buf      = mc_alloc(max * esz + 16, 0);
}
static void init(void) {
    circular_event_log_t t = {.max_events = max, .event_size = esz, .save_new_event = save_cb, .load_events = load_cb};
    memcpy(lg, &t, sizeof t);
    memset(store, 0xEE, max * esz);
    m->n = m->w = 0;
    observe();
}
static const int codes[] = {-1, 1, -2147483647 - 1, 256};
static void step(void) {
    if (max <= 16) {
        int c = mc_choose(5);
        mc_label(c ? "save refused with %d" : "save", c ? codes[c - 1] : 0);
        save_one(c ? codes[c - 1] : 0);
        if (m->w >= modulus + max)
            m->w -= modulus;
    } else {
        size_t d[] = {1, max / 2, max - 1, max};
        size_t k = d[mc_choose(4)];
        mc_label("save %zu events", k);
        for (size_t i = 0; i < k; i++)
            save_one(0);
        save_one(codes[mc_choose(4)]);
    }
    observe();
}
static int other_save(uint8_t *e, size_t pos) { return e[0] != 1 || pos > 1; }
static int other_load(uint8_t *e, size_t number, size_t start) { return e && start < 2 ? (int)number : -1; }
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static uint8_t       x[8] = {1, 2, 3, 4, 5, 6, 7, 8};
    circular_event_log_t o = {.max_events = 2, .event_size = 3, .save_new_event = other_save, .load_events = other_load};
    circular_event_log_new_event(&o, x), circular_event_log_new_event(&o, x), circular_event_log_new_event(&o, x);
    int r = circular_event_log_load_last_events(o, x, 3, 0);
    mc_check(r == 2, "another log has %d events instead of 2", r);
}
void mc_register(void) {
    mc_other = other;
    static const struct { long max, esz, dq, dt; } t[] = {{1, 1, 0, 0}, {2, 3, 0, 0}, {3, 1, 0, 0}, {4, 8, 0, 0}, {5, 17, 0, 0}, {4, 4, 0, 0}, {6, 4, 0, 0}, {2, 16, 0, 0}, {9, 6, 0, 0}, {10, 32, 0, 0}, {11, 12, -1, 0}, {7, 2, 0, 0}, {8, 1, 0, 0}, {12, 3, 0, 0}, {16, 5, -1, 0}, {3, 300, 0, 0}, {3, 66000, 0, 0},
        {255, 2, 2, 3}, {256, 3, 2, 3}, {300, 1, 2, 4}, {4096, 2, -1, 2}, {65536, 1, FAULTS_OFF ? 1 : -1, FAULTS_OFF ? 2 : 1}, {70000, 2, FAULTS_OFF ? 1 : -1, FAULTS_OFF ? 2 : 1}};
    for (unsigned i = 0; i < sizeof t / sizeof *t; i++) {
        char n[64];
        snprintf(n, sizeof n, "events%ld-size%ld", t[i].max, t[i].esz);
        mc_config *c = mc_add(n, setup, init, step, t[i].dq, t[i].dt);
        c->p[0] = t[i].max, c->p[1] = t[i].esz, c->p[2] = t[i].max <= 16 ? t[i].max * 2 + 3 : t[i].esz == 1 ? 251 : 65521;
    }
    static const int more[] = {13, 14, 15, 16, 17, 18, 20, 24, 25, 31, 32, 33, 40, 48, 50, 63, 64, 65, 80, 96, 100, 127, 128, 129, 192, 200, 254, 257, 500, 512, 1000, 1024};
    for (unsigned i = 0; i < sizeof more / sizeof *more; i++) {
        char n[64];
        int  z = i % 4 + 1;
        snprintf(n, sizeof n, "events%d-size%d", more[i], z);
        mc_config *c = mc_add(n, setup, init, step, more[i] <= 16 ? more[i] * 3 : 3, more[i] <= 16 ? 0 : 4);
        c->p[0] = more[i], c->p[1] = z, c->p[2] = more[i] <= 16 ? more[i] * 2 + 3 : z == 1 ? 251 : 65521;
    }
}
