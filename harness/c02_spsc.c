/* C02: one producer thread and one consumer thread may use the circular buffer without a lock.
   Every interleaving of the memory accesses the compiled code makes is explored. */
#include "coro.h"
#include "collections/circular_buffer.h"

static circular_buf_t *cb;
static unsigned char  *buf;
static unsigned        B, K;
static int             N; /* bytes are numbered modulo N, so that endless runs have finitely many states */
#define FOREVER 255
#define VAL(seq) ((unsigned char)(1 + (seq) % (unsigned)N))
/* by how many bytes is a ahead of b: at most 2 B, as a get in progress may have freed room; or behind it, by at most B + 1,
   as bytes of a put in progress may be gone already */
static int ahead(unsigned a, unsigned b) {
    int d = (int)((a + (unsigned)N - b % (unsigned)N) % (unsigned)N);
    return d >= N - (int)B - 2 ? d - N : d;
}
static unsigned pos(int d) { return d > 0 ? (unsigned)d : 0; }
#define LEN 48
#define LIMIT (400 + 80 * (int)B)
/* the lengths used: all up to one more than the storage, or some */
static unsigned L, lens[64], places[64], nplaces;
static struct {
    uint32_t accepted;     /* bytes taken by finished put operations, modulo N */
    uint32_t consumed;     /* bytes removed by finished get operations, modulo N */
    uint32_t plen, clen;   /* length of the put/removal in progress */
    uint8_t  op[CO_MAX];   /* operations left; FOREVER: no bound */
    uint8_t  idle[CO_MAX]; /* between two operations */
} *m;
static struct {
    unsigned char src[LEN], dst[LEN];
} *io;

/* ---- conflicting accesses */
#define MAXA (sizeof(circular_buf_t) + 64)
static unsigned char acc_r[CO_MAX][256], acc_w[CO_MAX][256]; /* by byte offset in [cb | buf] */
static int           calibrating = -1, full_yield, grew;
static int           span(uintptr_t a) {
    if (a >= (uintptr_t)cb && a < (uintptr_t)cb + sizeof *cb)
        return (int)(a - (uintptr_t)cb);
    if (a >= (uintptr_t)buf && a < (uintptr_t)buf + B)
        return (int)(sizeof *cb + (a - (uintptr_t)buf));
    return -1;
}
static void restart_full(void) {
    char  cmd[4096];
    char *av[64];
    int   n = 0;
    FILE *f = fopen("/proc/self/cmdline", "r");
    size_t k = fread(cmd, 1, sizeof cmd - 1, f);
    for (size_t i = 0; i < k && n < 63; i += strlen(cmd + i) + 1)
        av[n++] = cmd + i;
    av[n] = NULL;
    setenv("VF_FULL_YIELD", "1", 1);
    execv("/proc/self/exe", av);
    _exit(3);
}
static void co_access(uintptr_t a, size_t n, int wr, int atomic) {
    int me = co_cur >= 0 ? co_cur : calibrating;
    if (me < 0)
        return;
    if (co_cur >= 0)
        mc_progress_counter++;
    int in = span(a);
    if (in < 0) {
        if (co_cur < 0)
            return;
        uintptr_t s = (uintptr_t)co_stack[me], i = (uintptr_t)io;
        if (a >= s - CO_EXTRA && a + n <= s + CO_STACK)
            return;
        if (a >= i && a + n <= i + sizeof *io) {
            unsigned end = me == 0 ? m->plen : m->clen;
            unsigned off = (unsigned)(a - i);
            if (me == 0 ? (wr || off + n > end) : (off < LEN || off + n > LEN + end))
                mc_fail("access outside the caller's buffer");
            return;
        }
        /* constant tables or statics of the code under test are not part of this property */
        mc_fail("thread %d %s memory outside the buffer and its control block", me, wr ? "writes" : "reads");
    }
    if (span(a + n - 1) < 0 || span(a + n - 1) - in != (int)n - 1)
        mc_fail("access runs over the end of an object");
    int yield = full_yield || atomic;
    for (size_t k = 0; k < n; k++) {
        unsigned char *set = wr ? acc_w[me] : acc_r[me];
        if (!set[in + k]) {
            set[in + k] = 1;
            if (calibrating < 0)
                grew = 1;
        }
        for (int o = 0; o < co_n; o++)
            if (o != me && (acc_w[o][in + k] || (wr && acc_r[o][in + k])))
                yield = 1;
    }
    if (grew && !full_yield)
        restart_full();
    if (calibrating >= 0)
        return;
    if (++co[me].steps > LIMIT)
        mc_fail("%s does not terminate (more than %d accesses)", me == 0 ? "a put operation" : "a get operation", LIMIT);
    if (yield)
        co_yield();
}

static unsigned min(unsigned a, unsigned b) { return a < b ? a : b; }

static void producer_op(void) {
    unsigned which = co_choose(L + 3), len, r;
    /* a removal in progress may already have freed room that its caller does not know of yet */
    unsigned a0 = m->accepted, held = pos(ahead(a0, m->consumed)), room = held < B - 1 ? B - 1 - held : 0;
    if (which == 0) {
        mc_label("P putc");
        m->plen = 1;
        r       = circular_buf_putc(cb, VAL(a0)) == 0;
        mc_check(r || room == 0, "putc failed with room for %u", room);
        m->accepted = (m->accepted + r) % (unsigned)N;
        MC_COVER(r ? "putc accepted" : "putc full");
    } else if (which <= L) {
        len     = lens[which];
        m->plen = len;
        for (unsigned i = 0; i < LEN; i++)
            io->src[i] = i < len ? VAL(a0 + i) : 0xF7;
        mc_label("P puts %u", len);
        int ret = circular_buf_puts(cb, io->src, len);
        mc_label("P puts %u -> %d", len, ret);
        mc_check(ret >= 0 && (unsigned)ret <= len, "puts of %u returned %d", len, ret);
        mc_check((unsigned)ret >= min(len, room), "puts of %u with room for %u returned %d", len, room, ret);
        m->accepted = (m->accepted + (unsigned)ret) % (unsigned)N;
        for (unsigned i = 0; i < LEN; i++)
            io->src[i] = 0;
        if ((unsigned)ret < len)
            MC_COVER("puts partial");
        else if ((unsigned)ret > room)
            MC_COVER("puts took room freed meanwhile");
        else
            MC_COVER("puts complete");
    } else if (which == L + 1) {
        mc_label("P full?");
        int f = is_circular_buf_full(cb);
        /* not full stays not full for the producer; full implies it was full at the start */
        mc_check(!f || room == 0, "full reported with room for %u", room);
        mc_check(f || ahead(a0, m->consumed) < (int)(B - 1 + m->clen), "not full reported on a full buffer");
    } else {
        mc_label("P size");
        size_t s = circular_buf_size(cb);
        mc_check(s <= min(held, B - 1), "producer sees size %zu, at most %u stored", s, min(held, B - 1));
        unsigned low = pos(ahead(a0, m->consumed) - (int)m->clen);
        mc_check(s >= low, "producer sees size %zu, at least %u stored", s, low);
    }
    m->plen = 0;
}
static void consumer_op(void) {
    unsigned which = co_choose(3 * L + 3), len, r;
    unsigned c0 = m->consumed, avail = pos(ahead(m->accepted, c0));
    if (which == 0) {
        mc_label("C getc");
        m->clen    = 1;
        io->dst[0] = 0xCC;
        r          = circular_buf_getc(cb, &io->dst[0]) == 0;
        mc_check(r || avail == 0, "getc failed with %u stored", avail);
        if (r)
            mc_check(io->dst[0] == VAL(c0), "getc returned byte %u instead of %u", io->dst[0], VAL(c0));
        m->consumed = (m->consumed + r) % (unsigned)N;
        MC_COVER(r ? "getc took one" : "getc empty");
    } else if (which <= 2 * L) {
        int peek = which > L;
        len      = lens[peek ? which - L : which];
        m->clen  = len;
        for (unsigned i = 0; i < LEN; i++)
            io->dst[i] = 0xCC;
        mc_label("C %s %u", peek ? "peek" : "gets", len);
        int ret = peek ? circular_buf_peek(cb, io->dst, (int)len) : circular_buf_gets(cb, io->dst, (int)len);
        mc_label("C %s %u -> %d", peek ? "peek" : "gets", len, ret);
        mc_check(ret >= 0 && (unsigned)ret <= len, "get of %u returned %d", len, ret);
        mc_check((unsigned)ret >= min(len, avail), "get of %u with %u stored returned %d", len, avail, ret);
        for (int i = 0; i < ret; i++)
            mc_check(io->dst[i] == VAL(c0 + (unsigned)i), "byte %d of %s is %u instead of %u", i,
                     peek ? "peek" : "gets", io->dst[i], VAL(c0 + (unsigned)i));
        mc_check(ret <= ahead(m->accepted, c0) + (int)m->plen, "more bytes read than were put");
        if (!peek)
            m->consumed = (m->consumed + (unsigned)ret) % (unsigned)N;
        if ((unsigned)ret > avail)
            MC_COVER("get took bytes put meanwhile");
        else
            MC_COVER("get");
    } else if (which <= 3 * L) {
        len     = lens[which - 2 * L];
        m->clen = len;
        mc_label("C drop %u", len);
        int ret = circular_buf_drop(cb, (int)len);
        mc_check(ret >= 0 && (unsigned)ret <= len && (unsigned)ret >= min(len, avail), "drop of %u with %u stored returned %d", len, avail, ret);
        mc_check(ret <= ahead(m->accepted, c0) + (int)m->plen, "more bytes dropped than were put");
        m->consumed = (m->consumed + (unsigned)ret) % (unsigned)N;
    } else if (which == 3 * L + 1) {
        mc_label("C empty?");
        int e = is_circular_buf_empty(cb);
        mc_check(!e || avail == 0, "empty reported with %u stored", avail);
        mc_check(e || ahead(m->accepted, c0) + (int)m->plen > 0, "not empty reported on an empty buffer");
    } else {
        mc_label("C size");
        size_t s = circular_buf_size(cb);
        mc_check(s >= avail, "consumer sees size %zu, at least %u stored", s, avail);
        mc_check(s <= min(B - 1, pos(ahead(m->accepted, c0) + (int)m->plen)), "consumer sees size %zu, at most %u stored", s, pos(ahead(m->accepted, c0) + (int)m->plen));
    }
    for (unsigned i = 0; i < LEN; i++)
        io->dst[i] = 0;
    m->clen = 0;
}
static void observer_op(void) {
    mc_label("O size");
    circular_buf_size(cb);
    mc_check(circular_buf_capacity(cb) == B - 1, "capacity");
    is_circular_buf_full(cb);
    is_circular_buf_empty(cb);
}
static void body(int me) {
    while (m->op[me] > 0) {
        if (m->op[me] == FOREVER) {
            m->idle[me] = 1;
            co_yield();
            m->idle[me] = 0;
        } else
            m->op[me]--;
        co[me].steps = 0;
        if (me == 0)
            producer_op();
        else if (me == 1)
            consumer_op();
        else
            observer_op();
        co[me].steps = 0;
        co_scrub();
    }
}
static void setup(void) {
    B          = (unsigned)mc_cfg->p[0];
    K          = (unsigned)mc_cfg->p[1];
    N          = K == FOREVER ? 4 * (int)B + 4 - (4 * (int)B + 4) % (int)B + (int)B : 240;
    L = nplaces = 0;
    for (unsigned i = 1; i <= B + 1; i++)
        if (!mc_cfg->p[3] || i == 2 || i == B / 2 || i >= B - 1)
            lens[++L] = i;
    for (unsigned i = 0; i < B; i++)
        if (!mc_cfg->p[3] || i < 1 || i == B / 2 || i >= B - 2)
            places[nplaces++] = i;
    full_yield = getenv("VF_FULL_YIELD") != NULL;
    cb         = mc_alloc(sizeof *cb, 1);
    buf        = mc_alloc(B, 1);
    m          = mc_alloc(sizeof *m, 1);
    io         = mc_alloc(sizeof *io, 1);
    co_setup((int)mc_cfg->p[2], body);
    /* which bytes does each side read and write: found by running every operation alone */
    for (unsigned o = 0; o < B; o++)
        for (unsigned k = 0; k < B; k++)
            for (unsigned w = 0; w <= 3 * B + 6; w++) {
                unsigned char t[64];
                memset(t, 1, sizeof t);
                circular_buf_init(cb, buf, B);
                for (unsigned i = 0; i < o; i++) {
                    circular_buf_putc(cb, 1);
                    circular_buf_getc(cb, t);
                }
                for (unsigned i = 0; i < k; i++)
                    circular_buf_putc(cb, 1);
                calibrating = 0;
                if (w <= B + 1) {
                    circular_buf_puts(cb, t, w);
                    circular_buf_putc(cb, 1);
                }
                is_circular_buf_full(cb);
                circular_buf_size(cb);
                calibrating = 1;
                if (w <= B + 1)
                    circular_buf_gets(cb, t, (int)w);
                else if (w <= 2 * B + 2)
                    circular_buf_peek(cb, t, (int)(w - B - 1));
                else
                    circular_buf_drop(cb, (int)(w - 2 * B - 2));
                circular_buf_getc(cb, t);
                is_circular_buf_empty(cb);
                circular_buf_size(cb);
                calibrating = 2;
                circular_buf_size(cb);
                is_circular_buf_full(cb);
                is_circular_buf_empty(cb);
                circular_buf_capacity(cb);
                calibrating = -1;
            }
}
static void init(void) {
    memset(io, 0, sizeof *io);
    memset(m, 0, sizeof *m);
    memset(co, 0, sizeof(co_ctl) * CO_MAX);
    memset(buf, 0xEE, B);
    unsigned o = K == FOREVER ? 0 : places[mc_choose(nplaces)], k = K == FOREVER ? 0 : places[mc_choose(nplaces)];
    mc_label("size %u, read position %u, %u stored", B, o, k);
    circular_buf_init(cb, buf, B);
    unsigned char t;
    for (unsigned i = 0; i < o; i++) {
        circular_buf_putc(cb, 0xEE);
        circular_buf_getc(cb, &t);
    }
    for (unsigned i = 0; i < k; i++) {
        mc_check(circular_buf_putc(cb, VAL(m->accepted)) == 0, "putc failed");
        m->accepted++;
    }
    for (int i = 0; i < co_n; i++) {
        m->op[i] = i == 2 && K != FOREVER ? 1 : (uint8_t)K;
        co_start(i);
    }
}
static void step(void) {
    int run[CO_MAX], n = 0;
    for (int i = 0; i < co_n; i++)
        if (!co[i].done)
            run[n++] = i;
    if (n == 0)
        mc_prune();
    int all = K == FOREVER;
    for (int i = 0; i < co_n && all; i++)
        all = m->idle[i];
    if (K == FOREVER) { /* they may stop here */
        all = all && mc_choose(2);
        if (!all)
            co_resume(run[mc_choose((unsigned)n)]);
    } else {
        co_resume(run[mc_choose((unsigned)n)]);
        all = 1;
        for (int i = 0; i < co_n; i++)
            all &= co[i].done != 0;
    }
    if (all) {
        /* both threads are finished: what is left comes out complete and in order */
        unsigned char t;
        mc_check(circular_buf_size(cb) == (size_t)(long)ahead(m->accepted, m->consumed), "size %zu at the end, %d stored", circular_buf_size(cb),
                 ahead(m->accepted, m->consumed));
        while (m->consumed != m->accepted) {
            mc_check(circular_buf_getc(cb, &t) == 0, "%d accepted bytes were lost", ahead(m->accepted, m->consumed));
            mc_check(t == VAL(m->consumed), "byte %u comes out as %u", VAL(m->consumed), t);
            m->consumed = (m->consumed + 1) % (unsigned)N;
        }
        mc_check(circular_buf_getc(cb, &t) != 0, "a byte comes out that was never accepted");
        MC_COVER("both threads finished");
        if (K == FOREVER)
            mc_prune();
    }
}
static void add(unsigned b, unsigned k, unsigned n, int q, int t) {
    int sparse = b > 6;
    char s[64];
    snprintf(s, sizeof s, k == FOREVER ? "B%u-forever%.0u%s" : "B%u-ops%u%s", b, k == FOREVER ? 0 : k, n == 3 ? "-observer" : "");
    mc_config *c = mc_add(s, setup, init, step, q, t);
    c->p[0]      = b;
    c->p[1]      = k;
    c->p[2]      = n;
    c->p[3]      = sparse;
}
void mc_register(void) {
    add(2, FOREVER, 2, 0, 0);
    add(3, FOREVER, 2, 0, 0);
    add(4, FOREVER, 2, -1, 0);
    add(5, FOREVER, 2, -1, 0);
    add(2, FOREVER, 3, -1, 0);
    add(3, FOREVER, 3, -1, 0);
    add(2, 2, 2, 0, 0);
    add(3, 2, 2, 0, 0);
    add(4, 1, 2, 0, 0);
    add(5, 1, 2, 0, 0);
    add(3, 1, 3, 0, 0);
    add(4, 2, 2, -1, 0);
    add(2, 3, 2, -1, 0);
    add(3, 3, 2, -1, 0);
    add(4, 1, 3, 0, 0);
    add(6, 1, 2, -1, 0);
    add(9, 1, 2, 0, 0);
    add(20, 1, 2, 0, 0);
    add(40, 1, 2, 0, 0);
    add(16, 1, 2, 0, 0);
    add(9, 2, 2, -1, 0);
}
