/* C25: entries are kept, serialized and compared exactly. */
#include "sched.h"
static const scheduler_entry_t menu[] = {
    {1, 0x7f, 0, DAY, 1},
    {1, 0x01, 3600, 7200, 255},
    {0, 0x7f, 3600, 7200, 2},
    {1, 0x3e, 7000, 9000, -5},
    {1, 0x41, 80000, DAY + 3600, 1000000},
    {1, 0x02, 0, 60, 0},
    {1, 0x7f, DAY - 1, DAY + 1, 7},
    {1, 0x40, 0x10000, 0x10001, 8},
    {255, 0xff, 0xffffffffu, 0x80000000u, 0x7fffffff},
    {2, 0x04, 20000, DAY + 19000, 3},
    {1, 0x04, 19500, 19600, 3},
};
static int  nm;
static uint8_t *exactbuf; /* nothing beyond the serialized form may be read */
/* p[0]: number of menu entries, p[1]: what to do */
static void setup(void) {
    sched_setup();
    nm = mc_cfg->p[0];
    exactbuf = mc_alloc(SCHEDULER_ENTRY_SERIALIZED_SIZE, 0);
}
static void searches(const char *what) {
    int first = -1, next = -1;
    for (int i = NE - 1; i >= 0; i--) {
        if (!m->e[i].enabled)
            first = i;
        mc_check(!!scheduler_is_schedule_entry_enabled(s, i) == !!m->e[i].enabled, "%s: entry %d is not reported as %s", what, i, m->e[i].enabled ? "enabled" : "disabled");
    }
    if (scheduler_get_first_available_entry)
        mc_check(scheduler_get_first_available_entry(s) == first, "%s: first free entry %d instead of %d", what, scheduler_get_first_available_entry(s), first);
    if (scheduler_get_max_schedule_entries)
        mc_check(scheduler_get_max_schedule_entries(s) == NE, "%s: %lu entries", what, scheduler_get_max_schedule_entries(s));
    if (scheduler_get_next_enabled_entry) {
        static const size_t beyond[] = {NE + 1, 255, 256, 257, 256 + NE / 2, 65536, 65537, 1ul << 31, 1ul << 32, (1ul << 32) + 1, (size_t)-1, (size_t)-2};
        for (unsigned i = 0; i < sizeof beyond / sizeof *beyond; i++)
            mc_check(beyond[i] < NE || scheduler_get_next_enabled_entry(s, beyond[i]) == -1, "%s: next enabled entry from %lu on is %d", what, beyond[i], scheduler_get_next_enabled_entry(s, beyond[i]));
        for (int i = NE + 2; i >= 0; i--) {
            if (i < NE && m->e[i].enabled)
                next = i;
            mc_check(scheduler_get_next_enabled_entry(s, i) == next, "%s: next enabled entry from %d on is %d instead of %d", what, i, scheduler_get_next_enabled_entry(s, i), next);
        }
    }
}
/* sets of seconds as at most two half open intervals of the day */
static int segs(const scheduler_entry_t *e, uint32_t a[2][2]) {
    a[0][0] = e->start_second, a[0][1] = e->end_second > DAY ? DAY : e->end_second;
    a[1][0] = 0, a[1][1] = e->end_second > DAY ? e->end_second - DAY : 0;
    return 2;
}
static int legal(const scheduler_entry_t *e) { return e->start_second < DAY && e->end_second <= e->start_second + DAY && e->end_second >= e->start_second; }
static int overlap(const scheduler_entry_t *x, const scheduler_entry_t *y, int touch) {
    uint32_t a[2][2], b[2][2];
    if (!(x->days & y->days & 0x7f))
        return 0;
    segs(x, a), segs(y, b);
    if (touch) /* closed, and midnight of both sides is the same instant */
        for (int k = -1; k <= 1; k++) {
            int64_t s0 = (int64_t)x->start_second + k * (int64_t)DAY, e0 = (int64_t)x->end_second + k * (int64_t)DAY;
            if (s0 <= y->end_second && y->start_second <= e0)
                return 1;
        }
    else
        for (int i = 0; i < 2; i++)
            for (int j = 0; j < 2; j++) {
                uint32_t l = a[i][0] > b[j][0] ? a[i][0] : b[j][0], h = a[i][1] < b[j][1] ? a[i][1] : b[j][1];
                if (l < h)
                    return 1;
            }
    return 0;
}
static void compare(const scheduler_entry_t *e) {
    size_t must = 0, may = 0;
    if (!legal(e))
        return;
    for (int i = 0; i < NE; i++) {
        if (!m->e[i].enabled)
            continue;
        if (!legal(&m->e[i]))
            return;
        int o = overlap(e, &m->e[i], 0);
        must += o, may += o || overlap(e, &m->e[i], 1);
    }
    mc_evals++;
    scheduler_entry_t c = *e;
    size_t            r = scheduler_are_there_overlapping_entries(s, &c);
    mc_check(same(&c, e), "looking for overlaps changed the entry");
    mc_check(r >= must && r <= may, "entry from %u to %u on days %#x: %lu overlapping entries instead of %lu", e->start_second, e->end_second, e->days, r, must);
    if (must)
        MC_COVER("overlap");
    else
        MC_COVER("no overlap");
}
static void roundtrip(const scheduler_entry_t *e) {
    uint8_t b[SCHEDULER_ENTRY_SERIALIZED_SIZE + 8];
    mc_evals++;
    for (int f = 0; f < 2; f++) {
        memset(b, f ? 0xff : 0x33, sizeof b);
        scheduler_entry_t in = *e, o;
        size_t            n = scheduler_entry_serialize(&b[3], &in);
        mc_check(n == SCHEDULER_ENTRY_SERIALIZED_SIZE, "serialize returned %lu", n);
        for (unsigned i = 0; i < sizeof b; i++)
            if (i < 3 || i >= 3 + n)
                mc_check(b[i] == (f ? 0xff : 0x33), "serialize wrote outside its %lu bytes", n);
        mc_check(same(&in, e), "serialize changed the entry");
        uint8_t *exact = exactbuf;
        mc_copy(exact, &b[3], n);
        memset(&o, f ? 0xa5 : 0xff, sizeof o);
        n = scheduler_entry_deserialize(&o, exact);
        mc_check(n == SCHEDULER_ENTRY_SERIALIZED_SIZE, "deserialize returned %lu", n);
        mc_check(same(&o, e), "entry {%u, %#x, %u, %u, %d} is read back as {%u, %#x, %u, %u, %d}", e->enabled, e->days, e->start_second, e->end_second, e->value, o.enabled, o.days, o.start_second, o.end_second, o.value);
    }
}
static void init(void) {
    sched_init();
    table("init");
    searches("init");
}
static int which(void) {
    static const int w[] = {0, 1, 127, 128, 254, 255, 256, 257, NE - 2, NE - 1};
    return NE > 32 ? w[mc_choose(10)] : (int)mc_choose(NE);
}
static void step(void) {
    static const size_t bad[] = {NE, NE + 1, 256 + 1, 65536, (size_t)-1, 1ul << 32};
    int                 op    = mc_choose(NE > 32 ? 6 : 5);
    if (op == 4) {
        size_t i = bad[mc_choose(6)];
        if (i < NE)
            mc_prune();
        mc_label("index %lu", i);
        mc_check(scheduler_get_entry(s, i) == NULL && scheduler_get_entry_mut(s, i) == NULL, "entry %lu does not exist, but is returned", i);
        mc_check(scheduler_set_entry(s, i, menu[0]) != 0, "entry %lu does not exist, but can be set", i);
        mc_check(scheduler_disable_schedule_entry(s, i) != 0, "entry %lu does not exist, but can be disabled", i);
        MC_COVER("index refused");
    } else if (op == 5) {
        int k = which();
        mc_label("all entries but %d enabled", k);
        for (int i = 0; i < NE; i++) {
            m->e[i] = menu[i == k ? 2 : 1];
            mc_check(scheduler_set_entry(s, i, m->e[i]) == 0, "entry %d cannot be set", i);
        }
    } else {
        int i = which();
        if (op == 0 || op == 1) {
            const scheduler_entry_t *e = &menu[mc_choose(nm)];
            mc_label("%s(%d) = menu %ld", op ? "mut" : "set", i, (long)(e - menu));
            m->e[i] = *e;
            if (op)
                *scheduler_get_entry_mut(s, i) = *e;
            else
                mc_check(scheduler_set_entry(s, i, *e) == 0, "entry %d cannot be set", i);
        } else if (op == 2) {
            mc_label("disable(%d)", i);
            mc_check(scheduler_disable_schedule_entry(s, i) == 0, "entry %d cannot be disabled", i);
            m->e[i].enabled = 0;
        } else {
            int r = scheduler_is_schedule_entry_enabled(s, i);
            mc_label("enabled(%d)", i);
            mc_check(!!r == !!m->e[i].enabled, "entry %d is not reported as %s", i, m->e[i].enabled ? "enabled" : "disabled");
        }
    }
    table("operation");
    searches("operation");
    for (int k = 0; k < (int)(sizeof menu / sizeof *menu); k++)
        compare(&menu[k]);
    table("query");
}
/* overlap of two entries: all pairs of spans with boundaries in a set */
static const uint32_t edge[] = {0, 1, 59, 60, 3600, 40000, 65536, DAY - 1, DAY, DAY + 1, DAY + 59, DAY + 60, DAY + 3600, DAY + 65536, 2 * DAY - 1, DAY + 40000};
#define NED (int)(sizeof edge / sizeof *edge)
static void pairs(void) {
    static const uint8_t days[] = {0x7f, 1, 0x40, 0x3e};
    scheduler_entry_t    a, b;
    memset(&a, 0, sizeof a);
    a.enabled = a.value = 1, a.days = days[mc_choose(4)], a.start_second = edge[mc_choose(8)], a.end_second = edge[mc_choose(NED)];
    mc_copy(&b, &a, sizeof a);
    if (!legal(&a))
        mc_prune();
    int i = which();
    mc_label("entry %d from %u to %u days %#x", i, a.start_second, a.end_second, a.days);
    m->e[i] = a;
    mc_check(scheduler_set_entry(s, i, a) == 0, "entry %d cannot be set", i);
    for (int d = 0; d < 4; d++)
        for (int x = 0; x < 8; x++)
            for (int y = 0; y < NED; y++) {
                b.days = days[d], b.start_second = edge[x], b.end_second = edge[y];
                compare(&b);
            }
}
static void forms(void) {
    static const uint32_t v[] = {0, 1, 255, 256, 65535, 65536, 0xff0000, 0x01020304, 0x80000000u, 0xffffffffu, 3600, DAY, DAY + 3600, 0xfe, 0x7f7f7f7f, 0x80808080u};
    scheduler_entry_t     e   = {0};
    e.start_second = v[mc_choose(16)], e.end_second = v[mc_choose(16)];
    mc_label("start %u end %u", e.start_second, e.end_second);
    static const uint8_t f[] = {0, 1, 2, 0x7f, 0x80, 0xff};
    for (int en = 0; en < 6; en++)
        for (int d = 0; d < 6; d++)
            for (int val = 0; val < 256; val++) {
                e.enabled = f[en], e.days = f[d], e.value = val;
                roundtrip(&e);
            }
    mc_progress();
}
static void bytes(void) { /* every value of each byte */
    scheduler_entry_t e = {1, 0x2a, 0x12345678, 0x9abcdef0, 77};
    int               k = mc_choose(10);
    for (int v = 0; v < 256; v++) {
        scheduler_entry_t x = e;
        if (k == 0)
            x.enabled = v;
        else if (k == 1)
            x.days = v;
        else if (k < 6)
            x.start_second = (x.start_second & ~(255u << 8 * (k - 2))) | (uint32_t)v << 8 * (k - 2);
        else
            x.end_second = (x.end_second & ~(255u << 8 * (k - 6))) | (uint32_t)v << 8 * (k - 6);
        roundtrip(&x);
    }
}
void mc_register(void) {
    mc_other = other;
    mc_config *c;
    if (NE > 32) {
        c = mc_add("large-table", setup, init, step, 2, 2), c->p[0] = 3;
        c = mc_add("overlap-pairs", setup, init, pairs, -1, 1);
        return;
    }
    c = mc_add("table", setup, init, step, NE == 1 ? 0 : 3, NE == 1 ? 0 : NE == 7 ? 4 : 3), c->p[0] = sizeof menu / sizeof *menu;
    c = mc_add("small-menu", setup, init, step, NE == 1 ? 0 : NE == 16 ? 4 : 5, NE == 1 ? 0 : 5), c->p[0] = 3;
    c = mc_add("overlap-pairs", setup, init, pairs, 1, 1);
    c = mc_add("serialize-values", setup, init, forms, 1, 1);
    c = mc_add("serialize-bytes", setup, init, bytes, 1, 1);
}
