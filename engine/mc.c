#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

/* ---------------------------------------------------------------- primitives */
void mc_copy(void *d, const void *s, size_t n) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
}
static void mc_fill(void *d, unsigned char c, size_t n) {
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
}
int mc_differs(const void *a, const void *b, size_t n) {
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; i++)
        if (x[i] != y[i])
            return 1;
    return 0;
}
void mc_garbage(void *p, size_t n, unsigned char fill) { mc_fill(p, fill, n); }

static void die(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    fprintf(stderr, "mc: error: ");
    vfprintf(stderr, fmt, ap);
    fprintf(stderr, "\n");
    va_end(ap);
    fflush(stderr);
    _exit(3);
}

static void *big_alloc(size_t n) {
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
        die("mmap of %zu bytes failed", n);
    return p;
}

/* ---------------------------------------------------------------- configurations */
#define MAXCFG 4096
static mc_config cfgs[MAXCFG];
static int       ncfg;
const mc_config *mc_cfg;
int              mc_thorough;
void (*mc_other)(void);
mc_config       *mc_add(const char *name, void (*setup)(void), void (*init)(void), void (*step)(void), int dq, int dt) {
    if (ncfg >= MAXCFG)
        die("too many configurations");
    mc_config *c = &cfgs[ncfg++];
    memset(c, 0, sizeof *c);
    snprintf(c->name, sizeof c->name, "%s", name);
    c->setup    = setup;
    c->init     = init;
    c->step     = step;
    c->depth[0] = dq;
    c->depth[1] = dt;
    return c;
}

/* ---------------------------------------------------------------- regions */
#define MAXREG 64
static struct {
    unsigned char *p;
    size_t         n;
    int            hashed;
} reg[MAXREG];
static int    nreg;
static size_t state_size; /* all regions */
void          mc_region(void *p, size_t n, int hashed) {
    if (n == 0)
        return;
    if (nreg >= MAXREG)
        die("too many regions");
    reg[nreg].p      = p;
    reg[nreg].n      = n;
    reg[nreg].hashed = hashed;
    nreg++;
    state_size += n;
}
void *mc_alloc(size_t n, int hashed) {
    unsigned char *p = malloc(n ? n : 1);
    if (!p)
        die("out of memory");
    mc_fill(p, 0xB7, n);
    mc_region(p, n, hashed);
    return p;
}
static int phdr_cb(struct dl_phdr_info *info, size_t size, void *data) {
    (void)size;
    (void)data;
    if (!info->dlpi_name || !strstr(info->dlpi_name, "libsubject"))
        return 0;
    uintptr_t rs = 0, re = 0, pg = 4096;
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
            rs = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            re = rs + info->dlpi_phdr[i].p_memsz;
            re &= ~(pg - 1);
        }
    for (int i = 0; i < info->dlpi_phnum; i++) {
        const ElfW(Phdr) *ph = &info->dlpi_phdr[i];
        if (ph->p_type != PT_LOAD || !(ph->p_flags & PF_W))
            continue;
        uintptr_t a = info->dlpi_addr + ph->p_vaddr, b = a + ph->p_memsz;
        if (rs <= a && re > a)
            a = re;
        if (a < b)
            mc_region((void *)a, b - a, 1);
    }
    return 0;
}
void mc_subject_regions(void) { dl_iterate_phdr(phdr_cb, NULL); }

static void save(unsigned char *to) {
    for (int i = 0; i < nreg; i++) {
        mc_copy(to, reg[i].p, reg[i].n);
        to += reg[i].n;
    }
}
static void load(const unsigned char *from) {
    for (int i = 0; i < nreg; i++) {
        mc_copy(reg[i].p, from, reg[i].n);
        from += reg[i].n;
    }
}
typedef struct {
    uint64_t a, b;
} h128;
static inline uint64_t rd(const unsigned char *p) {
    uint64_t v;
    __builtin_memcpy(&v, p, 8);
    return v;
}
static inline uint64_t mixmul(uint64_t a, uint64_t b) {
    __uint128_t m = (__uint128_t)a * b;
    return (uint64_t)m ^ (uint64_t)(m >> 64);
}
/* two 64 bit fingerprints of the state, computed in two lanes each */
#define FP(l, x, y)                                                                                                    \
    do {                                                                                                               \
        uint64_t x_ = (x), y_ = (y);                                                                                   \
        a##l = mixmul(a##l ^ x_ ^ 0xA0761D6478BD642Full, y_ ^ 0xE7037ED1A0B428DBull) + ((a##l << 23) | (a##l >> 41));  \
        b##l = mixmul(b##l ^ y_ ^ 0x8EBC6AF09C88C6E3ull, x_ ^ 0x589965CC75374CC3ull) + ((b##l << 37) | (b##l >> 27));  \
    } while (0)
static h128 hash_state(void) {
    uint64_t a0 = 0x9E3779B97F4A7C15ull, b0 = 0xD1B54A32D192ED03ull, a1 = 0xff51afd7ed558ccdull, b1 = 0xC2B2AE3D27D4EB4Full;
    for (int i = 0; i < nreg; i++) {
        if (!reg[i].hashed)
            continue;
        const unsigned char *p = reg[i].p;
        size_t               n = reg[i].n;
        for (; n >= 32; p += 32, n -= 32) {
            FP(0, rd(p), rd(p + 8));
            FP(1, rd(p + 16), rd(p + 24));
        }
        if (n >= 16) {
            FP(0, rd(p), rd(p + 8));
            p += 16;
            n -= 16;
        }
        if (n) {
            uint64_t v = 0, w = 0;
            if (n >= 8) {
                w = rd(p);
                p += 8;
                n -= 8;
            }
            for (size_t k = 0; k < n; k++)
                v |= (uint64_t)p[k] << (8 * k);
            FP(1, v, w);
        }
    }
    uint64_t a = mixmul(a0 ^ 0x165667B19E3779F9ull, a1 ^ 0x27D4EB2F165667C5ull) ^ (a0 + ((a1 << 32) | (a1 >> 32)));
    uint64_t b = mixmul(b0 ^ 0x9E3779B185EBCA87ull, b1 ^ 0xc4ceb9fe1a85ec53ull) ^ (b1 + ((b0 << 32) | (b0 >> 32)));
    if (a == 0 && b == 0)
        a = 1;
    return (h128){a, b};
}

/* ---------------------------------------------------------------- visited set and parents */
typedef struct {
    uint32_t parent;
    uint32_t coff; /* offset of the choice vector in the choice arena */
    uint64_t ha;   /* half of the state's fingerprint, for validation */
} node;
static h128     *tab;
static uint64_t  tabcap, tabn;
static node     *nodes;
static uint64_t  nnodes;
static uint16_t *arena; /* [len][choices...] */
static uint64_t  arenan;
#define MAXNODES (300000000ull)
#define ARENACAP (4000000000ull)

static int tab_insert(h128 h) {
    if ((tabn + 1) * 10 > tabcap * 6) {
        uint64_t oc = tabcap;
        h128    *ot = tab;
        tabcap      = oc ? oc * 2 : 1 << 12;
        tab         = big_alloc(tabcap * sizeof(h128));
        for (uint64_t i = 0; i < oc; i++)
            if (ot[i].a || ot[i].b) {
                uint64_t j = ot[i].a & (tabcap - 1);
                while (tab[j].a || tab[j].b)
                    j = (j + 1) & (tabcap - 1);
                tab[j] = ot[i];
            }
        if (ot)
            munmap(ot, oc * sizeof(h128));
    }
    uint64_t j = h.a & (tabcap - 1);
    while (tab[j].a || tab[j].b) {
        if (tab[j].a == h.a && tab[j].b == h.b)
            return 0;
        j = (j + 1) & (tabcap - 1);
    }
    tab[j] = h;
    tabn++;
    return 1;
}

/* ---------------------------------------------------------------- choices */
#define MAXCH 512
static unsigned cv[MAXCH], ca[MAXCH]; /* value, arity */
static int      cn, cfix;             /* used, fixed prefix */
static int      replaying;
static unsigned rv[MAXCH];
static int      rn;
static jmp_buf  env;
static int      in_step;
int             mc_tracing;

unsigned mc_choose(unsigned n) {
    if (n == 0)
        die("mc_choose(0)");
    if (n > 65535)
        die("mc_choose(%u)", n);
    if (cn >= MAXCH)
        die("too many choices in one step");
    unsigned v;
    if (replaying) {
        v = cn < rn ? rv[cn] : 0;
        if (cn >= rn || v >= n)
            die("replay: choice %d of %u does not exist (%u wanted)", cn, n, v);
        cv[cn] = v;
        ca[cn] = n;
    } else if (cn < cfix) {
        v = cv[cn];
        if (ca[cn] != n)
            die("nondeterministic execution: arity of choice %d was %u, is %u", cn, ca[cn], n);
    } else {
        v      = 0;
        cv[cn] = 0;
        ca[cn] = n;
    }
    cn++;
    return v;
}
void mc_prune(void) {
    if (!in_step)
        die("mc_prune outside a step");
    longjmp(env, 1);
}

/* ---------------------------------------------------------------- coverage, labels */
#define MAXCOV 512
static char  *covname[MAXCOV];
static int    ncov;
uint64_t      mc_covers[MAXCOV];
uint64_t      mc_evals;
int           mc_cover_id(const char *name) {
    for (int i = 0; i < ncov; i++)
        if (!strcmp(covname[i], name))
            return i;
    if (ncov >= MAXCOV)
        die("too many covers");
    covname[ncov] = strdup(name);
    return ncov++;
}
static char   tracebuf[1 << 16];
static size_t tracelen;
static int    trace_stdout;
void          mc_label_(const char *fmt, ...) {
    char    b[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (trace_stdout) {
        printf("    %s\n", b);
        fflush(stdout);
    }
    size_t l = strlen(b);
    if (tracelen + l + 3 < sizeof tracebuf) {
        memcpy(tracebuf + tracelen, b, l);
        tracelen += l;
        memcpy(tracebuf + tracelen, "; ", 2);
        tracelen += 2;
        tracebuf[tracelen] = 0;
    }
}

/* ---------------------------------------------------------------- failure */
static const char *trace_path = "/dev/null";
static uint32_t    cur_state  = UINT32_MAX; /* parent of the running step; UINT32_MAX: init */
static char        failmsg[2048];
static char        asanmsg[1024];
volatile uint64_t  mc_progress_counter;
volatile int       mc_overdue;
static int         failing;

static void wr(int fd, const char *s) {
    size_t n = 0;
    while (s[n])
        n++;
    while (n) {
        ssize_t k = write(fd, s, n);
        if (k <= 0)
            return;
        s += k;
        n -= (size_t)k;
    }
}
static void wrnum(int fd, unsigned long v) {
    char b[24];
    int  i = 23;
    b[i]   = 0;
    do {
        b[--i] = (char)('0' + v % 10);
        v /= 10;
    } while (v);
    wr(fd, b + i);
}
static uint32_t rpath[1 << 20];
static int      started;
static void     write_trace(const char *why) {
    int fd = open(trace_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0)
        return;
    wr(fd, "config ");
    wr(fd, mc_cfg ? mc_cfg->name : "?");
    wr(fd, "\nviolation ");
    for (const char *p = why; *p; p++) {
        char c[2] = {*p == '\n' ? ' ' : *p, 0};
        wr(fd, c);
    }
    wr(fd, "\n");
    if (getenv("VF_FULL_YIELD"))
        wr(fd, "env VF_FULL_YIELD\n");
    if (!replaying) {
        uint32_t n = 0, s = cur_state;
        while (s != UINT32_MAX && n < (1 << 20)) {
            rpath[n++] = s;
            s          = nodes[s].parent;
        }
        while (n--) {
            uint16_t *c = arena + nodes[rpath[n]].coff;
            wr(fd, "t");
            for (int i = 0; i < c[0]; i++) {
                wr(fd, " ");
                wrnum(fd, c[1 + i]);
            }
            wr(fd, "\n");
        }
        if (started) {
            wr(fd, "t");
            for (int i = 0; i < cn; i++) {
                wr(fd, " ");
                wrnum(fd, cv[i]);
            }
            wr(fd, "\n");
        }
    }
    close(fd);
}
static void finish_fail(const char *why) {
    if (failing)
        _exit(10);
    failing = 1;
    if (replaying) {
        wr(1, "FAIL: ");
        wr(1, why);
        wr(1, "\n");
    } else {
        write_trace(why);
        wr(1, "FAIL: ");
        wr(1, why);
        wr(1, "\n");
    }
    _exit(10);
}
/* listed findings: exact messages */
static char   *known[256];
static int     nknown;
static uint64_t known_hits[256];
void           mc_fail(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(failmsg, sizeof failmsg, fmt, ap);
    va_end(ap);
    if (!replaying)
        for (int i = 0; i < nknown; i++)
            if (!strcmp(known[i], failmsg)) {
                known_hits[i]++;
                mc_prune();
            }
    finish_fail(failmsg);
}

extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
static void on_report(const char *r) {
    /* keep the headline and the first frames */
    size_t k = 0;
    for (const char *p = r; *p && k < sizeof asanmsg - 1; p++) {
        if (*p == '=' && p[1] == '=')
            continue;
        asanmsg[k++] = *p == '\n' ? ' ' : *p;
    }
    asanmsg[k] = 0;
}
static void on_death(void) {
    if (!in_step)
        _exit(3);
    finish_fail(asanmsg[0] ? asanmsg : "the process died (signal or memory error)");
}
static void on_signal(int s) {
    if (!in_step) {
        signal(s, SIG_DFL);
        raise(s);
        return;
    }
    finish_fail(s == SIGABRT ? "abort or failed assertion" : s == SIGFPE ? "arithmetic fault (division by zero)" : "fatal signal");
}
static double now(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
static double       deadline, t_start, extend; /* extend: seconds to go on below the depth asked for, whole levels only */
static volatile int late; /* the deadline has passed: stop after the running execution */
void                mc_late(void) {
    if (in_step && !replaying)
        mc_prune();
}
static unsigned hang_limit = 20;
static void     on_tick(int s) {
    static uint64_t last;
    static unsigned idle;
    (void)s;
    if (deadline > 0 && t_start > 0 && !late && now() - t_start > deadline)
        late = 1;
    if (late && now() - t_start > deadline * 1.1)
        mc_overdue = 1;
    if (mc_progress_counter != last || !in_step) {
        last = mc_progress_counter;
        idle = 0;
        return;
    }
    if (++idle >= hang_limit)
        finish_fail("hang: one operation does not terminate");
}
static void install(void) {
    if (__sanitizer_set_death_callback)
        __sanitizer_set_death_callback(on_death);
    if (__asan_set_error_report_callback)
        __asan_set_error_report_callback(on_report);
    static unsigned char alt[65536];
    stack_t              ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, NULL);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags   = SA_ONSTACK;
    sigaction(SIGABRT, &sa, NULL);
    sigaction(SIGFPE, &sa, NULL);
    sigaction(SIGILL, &sa, NULL);
    sigaction(SIGTRAP, &sa, NULL);
    sigaction(SIGSEGV, &sa, NULL);
    sigaction(SIGBUS, &sa, NULL);
    sa.sa_handler = on_tick;
    sa.sa_flags   = SA_ONSTACK | SA_RESTART;
    sigaction(SIGPROF, &sa, NULL);
    struct itimerval it = {{0, 500000}, {0, 500000}};
    setitimer(ITIMER_PROF, &it, NULL);
}

/* ---------------------------------------------------------------- exploration */
static uint64_t transitions, pruned, validated, known_total;
static size_t   mem_limit = (size_t)2600 << 20;

/* call f with all registers zero: padding of structures built in registers is then always the same */
void call_clean(void (*f)(void)) __attribute__((visibility("hidden")));
__asm__(".text\n.hidden call_clean\n.type call_clean,@function\ncall_clean:\n"
        "push %rbx\npush %r12\npush %r13\npush %r14\npush %r15\n"
        "mov %rdi,%rax\n"
        "xor %ebx,%ebx\nxor %ecx,%ecx\nxor %edx,%edx\nxor %esi,%esi\nxor %edi,%edi\n"
        "xor %r8d,%r8d\nxor %r9d,%r9d\nxor %r10d,%r10d\nxor %r11d,%r11d\n"
        "xor %r12d,%r12d\nxor %r13d,%r13d\nxor %r14d,%r14d\nxor %r15d,%r15d\n"
        "call *%rax\n"
        "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\nret\n"
        ".size call_clean,.-call_clean\n");
/* run init (parent = UINT32_MAX) or step once; 0 if pruned */
static __attribute__((noinline)) int run_here(int is_init) {
    int ok = 0;
    __asm__ volatile("" : : "r"(__builtin_alloca(512)) : "memory"); /* below what mc_fill had to spare for itself */
    if (setjmp(env) == 0) {
        if (mc_other)
            mc_other();
        call_clean(is_init ? mc_cfg->init : mc_cfg->step);
        ok = 1;
    }
    return ok;
}
/* Every execution starts at the same stack address, over the same bytes: what a structure's padding or a variable that
   was not set happens to contain is then the same whenever the same execution is run again. */
#define STALE 4096
static char *stack_at;
static int   run_once(int is_init) {
    cn      = 0;
    started = 1;
    char *here = __builtin_frame_address(0);
    if (!stack_at)
        stack_at = (char *)((uintptr_t)here & ~(uintptr_t)4095) - 16384;
    char *low = __builtin_alloca((size_t)(here - stack_at));
    mc_fill(low - 256 - STALE, 0x6D, STALE); /* below the stack pointer: signals have a stack of their own */
    in_step = 1;
    mc_progress_counter++;
    int ok  = run_here(is_init);
    in_step = 0;
    return ok;
}
/* advance cv to the next vector; 0 when exhausted */
static int next_vector(void) {
    int i = cn - 1;
    while (i >= 0 && cv[i] + 1 >= ca[i])
        i--;
    if (i < 0)
        return 0;
    cv[i]++;
    cfix = i + 1;
    return 1;
}
static uint32_t add_node(uint32_t parent, uint64_t ha) {
    if (!nodes) { /* address space only: memory is taken as it is written */
        nodes = big_alloc(MAXNODES * sizeof(node));
        arena = big_alloc(ARENACAP * 2);
    }
    if (nnodes >= MAXNODES || arenan + (uint64_t)cn + 1 > ARENACAP)
        die("too many states");
    nodes[nnodes].parent = parent;
    nodes[nnodes].coff   = (uint32_t)arenan;
    nodes[nnodes].ha     = ha;
    arena[arenan++]      = (uint16_t)cn;
    for (int i = 0; i < cn; i++)
        arena[arenan++] = (uint16_t)cv[i];
    return (uint32_t)nnodes++;
}

/* The states of a level still to be expanded, in order. A record is the id of the state and, per 64 words of it, a mask of
   the words that differ from those of the first state, and these words. */
#define FRCAP (64ull << 30) /* address space */
typedef struct {
    unsigned char *buf;
    uint64_t       n, used; /* records, bytes */
    uint64_t       at, freed; /* reading position, given back up to here */
} frontier;
static uint64_t *fr_base, *fr_tmp;
static size_t    fr_words;
static void      fr_setup(void) {
    fr_words = (state_size + 7) / 8;
    fr_base  = big_alloc(fr_words * 8 + 8);
    fr_tmp   = big_alloc(fr_words * 8 + 8);
}
static void fr_push(frontier *f, uint32_t id) {
    if (!f->buf)
        f->buf = big_alloc(FRCAP);
    if (f->used + fr_words * 9 + 64 > FRCAP)
        die("too many states in a level");
    save((unsigned char *)fr_tmp);
    if (nnodes == 1)
        mc_copy(fr_base, fr_tmp, fr_words * 8);
    unsigned char *o = f->buf + f->used;
    __builtin_memcpy(o, &id, 4);
    o += 4;
    for (size_t g = 0; g < fr_words; g += 64) {
        uint64_t       mask = 0;
        unsigned char *mo   = o;
        size_t         e    = fr_words - g < 64 ? fr_words - g : 64;
        o += 8;
        for (size_t k = 0; k < e; k++)
            if (fr_tmp[g + k] != fr_base[g + k]) {
                mask |= 1ull << k;
                __builtin_memcpy(o, &fr_tmp[g + k], 8);
                o += 8;
            }
        __builtin_memcpy(mo, &mask, 8);
    }
    f->used = (uint64_t)(o - f->buf);
    f->n++;
}
/* the next state, into to */
static uint32_t fr_next(frontier *f, uint64_t *to) {
    unsigned char *p = f->buf + f->at;
    uint32_t       id;
    __builtin_memcpy(&id, p, 4);
    p += 4;
    mc_copy(to, fr_base, fr_words * 8);
    for (size_t g = 0; g < fr_words; g += 64) {
        uint64_t mask;
        __builtin_memcpy(&mask, p, 8);
        p += 8;
        for (; mask; mask &= mask - 1, p += 8)
            __builtin_memcpy(&to[g + (size_t)__builtin_ctzll(mask)], p, 8);
    }
    f->at = (uint64_t)(p - f->buf);
    if (f->at - f->freed > (32u << 20)) {
        uint64_t end = f->at & ~(uint64_t)4095;
        madvise(f->buf + f->freed, end - f->freed, MADV_DONTNEED);
        f->freed = end;
    }
    return id;
}
static void fr_clear(frontier *f) {
    if (f->used > (1 << 20))
        madvise(f->buf, (f->used + 4095) & ~(uint64_t)4095, MADV_DONTNEED);
    f->n = f->used = f->at = f->freed = 0;
}
static size_t mem_used(frontier *a, frontier *b) {
    return a->used - a->freed + b->used + tabcap * 16 + nnodes * 16 + arenan * 2;
}

static void expand(int is_init, uint32_t parent, const unsigned char *snap, frontier *out) {
    cfix      = 0;
    cur_state = parent;
    do {
        load(snap);
        int ok = run_once(is_init);
        if (!ok) {
            pruned++;
            continue;
        }
        transitions++;
        h128 h = hash_state();
        if (tab_insert(h)) {
            uint32_t id = add_node(parent, h.a);
            fr_push(out, id);
        }
    } while (!late && next_vector());
}

/* replay the path to a state from the start, with no restore in between, and compare */
static int replay_path(uint32_t id, const unsigned char *start, h128 *res) {
    uint32_t n = 0, s = id;
    while (s != UINT32_MAX) {
        if (n >= (1 << 20))
            return 0;
        rpath[n++] = s;
        s          = nodes[s].parent;
    }
    load(start);
    replaying = 1;
    int first = 1, ok = 1;
    while (n-- && ok) {
        uint16_t *c = arena + nodes[rpath[n]].coff;
        rn          = c[0];
        for (int i = 0; i < rn; i++)
            rv[i] = c[1 + i];
        ok    = run_once(first);
        first = 0;
    }
    replaying = 0;
    *res      = hash_state();
    return ok;
}

static void json_str(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\')
            fprintf(f, "\\%c", *s);
        else if ((unsigned char)*s < 32)
            fprintf(f, "\\u%04x", *s);
        else
            fputc(*s, f);
    }
    fputc('"', f);
}

static int explore(int depth, const char *out) {
    double         t0    = now();
    t_start              = t0;
    unsigned char *start = big_alloc(state_size);
    save(start);
    frontier cur = {0}, nxt = {0};
    fr_setup();
    uint64_t *snap = big_alloc(fr_words * 8);
    expand(1, UINT32_MAX, start, &cur);
    int      d = 0, truncated = late;
    uint64_t maxfr = cur.n;
    /* keep hashes of some states for validation: every node id that is a multiple of stride */
    uint32_t deepest = nnodes ? (uint32_t)nnodes - 1 : UINT32_MAX;
    uint64_t done_n = nnodes, done_t = transitions;
    double   lvl_s = 0, grow = 1;
    int      extra = 0;
    while (!late && cur.n) {
        extra       = depth && d >= depth;
        double l0   = now();
        if (extra && l0 - t0 + lvl_s * grow > extend)
            break;
        for (uint64_t i = 0; i < cur.n; i++) {
            uint32_t id = fr_next(&cur, snap);
            expand(0, id, (unsigned char *)snap, &nxt);
            if (late || ((i & 255) == 0 && ((extra && now() - t0 > extend * 1.3) || mem_used(&cur, &nxt) > mem_limit || nnodes > 200000000u))) {
                truncated = 1;
                break;
            }
        }
        frontier tmp = cur;
        cur          = nxt;
        nxt          = tmp;
        fr_clear(&nxt);
        if (cur.n > maxfr)
            maxfr = cur.n;
        if (truncated)
            break;
        d++;
        if (cur.n)
            deepest = (uint32_t)nnodes - 1;
        lvl_s = now() - l0, grow = tmp.n ? (double)cur.n / tmp.n : 1;
        if (grow < 1)
            grow = 1;
        done_n = nnodes, done_t = transitions;
    }
    if (truncated && extra) /* a level that was not asked for and not finished does not count */
        truncated = 0;
    else
        done_n = nnodes, done_t = transitions;
    int fix = cur.n == 0 && !truncated && !late;
    /* validation: sampled states are reached again from the start by an uninterrupted run of the
       implementation, and their hash must be one that exploration recorded */
    uint64_t want = mc_thorough ? 400 : 120, stride = nnodes / want + 1;
    double   tv = now();
    for (uint64_t i = nnodes; i-- > 0;) {
        if (i % stride && i != deepest)
            continue;
        h128 h;
        if (!replay_path((uint32_t)i, start, &h))
            die("validation: the path to state %lu cannot be run again", (unsigned long)i);
        if (h.a != nodes[i].ha)
            die("validation: replaying the path to state %lu from the start reaches a different state "
                "(state outside the registered regions?)",
                (unsigned long)i);
        validated++;
        if (now() - tv > 10)
            break;
    }
    /* a sample */
    tracelen    = 0;
    tracebuf[0] = 0;
    if (deepest != UINT32_MAX) {
        h128 h;
        mc_tracing = 1;
        replay_path(deepest, start, &h);
        mc_tracing = 0;
    }
    if (tracelen > 1500)
        tracebuf[1500] = 0;
    for (int i = 0; i < nknown; i++)
        known_total += known_hits[i];
    FILE *f = fopen(out, "w");
    if (!f)
        die("cannot write %s", out);
    fprintf(f, "{\"config\":");
    json_str(f, mc_cfg->name);
    fprintf(f,
            ",\"states\":%lu,\"transitions\":%lu,\"pruned\":%lu,\"validated\":%lu,\"depth\":%d,\"fixpoint\":%s,"
            "\"truncated\":%s,\"max_frontier\":%lu,\"state_bytes\":%lu,\"evals\":%lu,\"wall_s\":%.3f,\"sample\":",
            (unsigned long)done_n, (unsigned long)done_t, (unsigned long)pruned, (unsigned long)validated, d,
            fix ? "true" : "false", truncated ? "true" : "false", (unsigned long)maxfr, (unsigned long)state_size,
            (unsigned long)mc_evals, now() - t0);
    json_str(f, tracebuf);
    fprintf(f, ",\"covers\":{");
    for (int i = 0; i < ncov; i++) {
        if (i)
            fputc(',', f);
        json_str(f, covname[i]);
        fprintf(f, ":%lu", (unsigned long)mc_covers[i]);
    }
    fprintf(f, "},\"known\":{");
    int c = 0;
    for (int i = 0; i < nknown; i++)
        if (known_hits[i]) {
            if (c++)
                fputc(',', f);
            json_str(f, known[i]);
            fprintf(f, ":%lu", (unsigned long)known_hits[i]);
        }
    fprintf(f, "}}\n");
    fclose(f);
    return 0;
}

static int do_replay(const char *path) {
    FILE *f = fopen(path, "r");
    if (!f)
        die("cannot read %s", path);
    char        *line = NULL;
    size_t       cap  = 0;
    int          step = 0;
    trace_stdout      = 1;
    mc_tracing        = 1;
    replaying         = 1;
    while (getline(&line, &cap, f) > 0) {
        if (line[0] != 't' || (line[1] != ' ' && line[1] != '\n'))
            continue;
        rn      = 0;
        char *p = line + 1;
        for (;;) {
            char         *e;
            unsigned long v = strtoul(p, &e, 10);
            if (e == p)
                break;
            if (rn >= MAXCH)
                die("bad replay file");
            rv[rn++] = (unsigned)v;
            p        = e;
        }
        printf("%s %d\n", step ? "step" : "init", step);
        fflush(stdout);
        if (!run_once(step == 0))
            die("replay: pruned");
        step++;
    }
    printf("replay finished: no violation\n");
    return 0;
}

int main(int argc, char **argv) {
    const char *tier = "quick", *run = NULL, *out = "/dev/stdout", *replay = NULL, *knownf = NULL;
    int         list = 0, depth = -2;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--list"))
            list = 1;
        else if (!strcmp(argv[i], "--tier"))
            tier = argv[++i];
        else if (!strcmp(argv[i], "--run"))
            run = argv[++i];
        else if (!strcmp(argv[i], "--out"))
            out = argv[++i];
        else if (!strcmp(argv[i], "--trace"))
            trace_path = argv[++i];
        else if (!strcmp(argv[i], "--replay"))
            replay = argv[++i];
        else if (!strcmp(argv[i], "--known"))
            knownf = argv[++i];
        else if (!strcmp(argv[i], "--depth"))
            depth = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--extend"))
            extend = atof(argv[++i]);
        else if (!strcmp(argv[i], "--deadline"))
            deadline = atof(argv[++i]);
        else if (!strcmp(argv[i], "--mem"))
            mem_limit = (size_t)atol(argv[++i]) << 20;
        else
            die("unknown argument %s", argv[i]);
    }
    mc_thorough = !strcmp(tier, "thorough");
    mc_register();
    if (list) {
        for (int i = 0; i < ncfg; i++)
            if (cfgs[i].depth[mc_thorough] >= 0)
                printf("%s\n", cfgs[i].name);
        return 0;
    }
    char rcfg[128] = "";
    if (replay) {
        FILE *f = fopen(replay, "r");
        if (!f || fscanf(f, "config %127s", rcfg) != 1)
            die("bad replay file %s", replay);
        char *l = NULL, e[64];
        size_t c = 0;
        while (getline(&l, &c, f) > 0)
            if (sscanf(l, "env %63s", e) == 1)
                setenv(e, "1", 1);
        fclose(f);
        run = rcfg;
    }
    if (!run)
        die("--list, --run CFG or --replay FILE");
    for (int i = 0; i < ncfg; i++)
        if (!strcmp(cfgs[i].name, run))
            mc_cfg = &cfgs[i];
    if (!mc_cfg)
        die("no configuration %s", run);
    if (knownf) {
        FILE *f = fopen(knownf, "r");
        char *l = NULL;
        size_t c = 0;
        ssize_t n;
        if (f) {
            while ((n = getline(&l, &c, f)) > 0 && nknown < 256) {
                if (l[n - 1] == '\n')
                    l[n - 1] = 0;
                known[nknown++] = strdup(l);
            }
            fclose(f);
        }
    }
    mc_subject_regions();
    install();
    replaying = replay != NULL;
    in_step   = 1; /* a failure in here is a violation too, with an empty trace */
    if (mc_cfg->setup)
        mc_cfg->setup();
    in_step   = 0;
    replaying = 0;
    if (replay)
        return do_replay(replay);
    if (depth == -2)
        depth = mc_cfg->depth[mc_thorough];
    return explore(depth < 0 ? 0 : depth, out);
}

/* ---------------------------------------------------------------- heap whose state is a region */
typedef struct {
    uint64_t live; /* size + 1, 0 if free */
} slot;
static size_t         hs_slots, hs_size;
static slot          *hs;
static unsigned char *hs_mem;
#define GUARD 16
void mc_heap_setup(size_t slots, size_t slot_size) {
    hs_slots = slots;
    hs_size  = slot_size + 2 * GUARD;
    hs       = mc_alloc(slots * sizeof(slot), 1);
    hs_mem   = mc_alloc(slots * hs_size, 1);
    mc_fill(hs, 0, slots * sizeof(slot));
    mc_fill(hs_mem, 0xE5, slots * hs_size);
}
void *mc_malloc(size_t n) {
    for (size_t i = 0; i < hs_slots; i++)
        if (!hs[i].live) {
            if (n + 2 * GUARD > hs_size)
                mc_fail("allocation of %zu bytes requested", n);
            hs[i].live = n + 1;
            mc_fill(hs_mem + i * hs_size, 0xE5, hs_size);
            return hs_mem + i * hs_size + GUARD;
        }
    mc_fail("memory leak: more than %zu live allocations", hs_slots);
    return NULL;
}
void *mc_calloc(size_t n, size_t m) {
    void *p = mc_malloc(n * m);
    mc_fill(p, 0, n * m);
    return p;
}
static size_t slot_of(void *p) {
    for (size_t i = 0; i < hs_slots; i++)
        if (hs_mem + i * hs_size + GUARD == (unsigned char *)p)
            return i;
    mc_fail("free of a pointer that was never allocated");
    return 0;
}
void *mc_realloc(void *p, size_t n) {
    if (!p)
        return mc_malloc(n);
    size_t i   = slot_of(p);
    void  *q   = mc_malloc(n);
    size_t old = hs[i].live - 1;
    mc_copy(q, p, old < n ? old : n);
    mc_free(p);
    return q;
}
void mc_free(void *p) {
    if (!p)
        return;
    size_t i = slot_of(p);
    if (!hs[i].live)
        mc_fail("double free");
    hs[i].live = 0;
    mc_fill(hs_mem + i * hs_size, 0xDD, hs_size);
}
int mc_heap_live(void) {
    int n = 0;
    for (size_t i = 0; i < hs_slots; i++)
        n += hs[i].live != 0;
    return n;
}
void mc_heap_check(void) {
    for (size_t i = 0; i < hs_slots; i++)
        if (hs[i].live) {
            unsigned char *b = hs_mem + i * hs_size;
            for (size_t k = 0; k < hs_size; k++)
                if (k < GUARD || k >= GUARD + hs[i].live - 1)
                    if (b[k] != 0xE5)
                        mc_fail("heap block %zu of %lu bytes: a byte outside it was written", i,
                                (unsigned long)hs[i].live - 1);
        }
}
