/* Two or three coroutines whose stacks are ordinary memory, so that the engine can snapshot a
   thread in the middle of the code under test. The code is compiled with -fsanitize=thread but
   linked against the hooks below: every load and store it makes is announced before it happens. */
#ifndef CORO_H
#define CORO_H
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define CO_STACK 1536  /* the part that can be live at a scheduling point: snapshotted */
#define CO_EXTRA 32768 /* below it: only for calls that return before the next scheduling point */
#define CO_MAX   3
typedef struct {
    void    *sp;
    uint32_t done;
    uint32_t steps; /* accesses made by the running operation */
} co_ctl;
static co_ctl        *co;                    /* region */
static unsigned char *co_stack[CO_MAX];      /* regions */
static void          *co_main_sp;
static int            co_cur = -1;           /* running coroutine, -1: main */
static int            co_n;

void __attribute__((naked, noinline)) co_swap(void **from, void *to) {
    __asm__ volatile("pushq %rbp\n\tpushq %rbx\n\tpushq %r12\n\tpushq %r13\n\tpushq %r14\n\tpushq %r15\n\t"
                     "movq %rsp, (%rdi)\n\tmovq %rsi, %rsp\n\t"
                     "popq %r15\n\tpopq %r14\n\tpopq %r13\n\tpopq %r12\n\tpopq %rbx\n\tpopq %rbp\n\tret");
}
static void (*co_body)(int);
static void co_entry(void) {
    int me = co_cur;
    co_body(me);
    co[me].done = 1;
    co_cur      = -1;
    co_swap(&co[me].sp, co_main_sp);
    abort();
}
static void co_setup(int n, void (*body)(int)) {
    co_n    = n;
    co_body = body;
    co      = mc_alloc(sizeof(co_ctl) * CO_MAX, 1);
    for (int i = 0; i < n; i++)
        {
            co_stack[i] = (unsigned char *)malloc(CO_EXTRA + CO_STACK) + CO_EXTRA;
            mc_region(co_stack[i], CO_STACK, 1);
        }
}
static void co_start(int i) {
    mc_garbage(co_stack[i], CO_STACK, 0);
    uintptr_t top = ((uintptr_t)co_stack[i] + CO_STACK - 64) & ~(uintptr_t)15;
    void    **sp  = (void **)top;
    *--sp         = 0;
    *--sp         = (void *)co_entry;
    for (int k = 0; k < 6; k++)
        *--sp = 0;
    co[i].sp    = sp;
    co[i].done  = 0;
    co[i].steps = 0;
}
/* run coroutine i until it announces its next conflicting access, or ends */
static void co_resume(int i) {
    co_cur = i;
    co_swap(&co_main_sp, co[i].sp);
    co_cur = -1;
    /* nothing below the stack pointer is live */
    if ((unsigned char *)co[i].sp >= co_stack[i])
        mc_garbage(co_stack[i], (unsigned char *)co[i].sp - co_stack[i], 0);
    if ((unsigned char *)co[i].sp < co_stack[i]) {
        fprintf(stderr, "coroutine stack too small\n");
        _exit(3);
    }
}
static void co_yield(void) {
    int me = co_cur;
    co_cur = -1;
    co_swap(&co[me].sp, co_main_sp);
    co_cur = me;
}

/* what the engine left below the frame must not leak into the state */
void __attribute__((naked, noinline)) co_scrub_from(void *base) {
    __asm__ volatile("movq %rsp, %rcx\n\tsubq %rdi, %rcx\n\txorl %eax, %eax\n\trep stosb\n\tret");
}
#define co_scrub() co_scrub_from(co_stack[co_cur] - 2048)
static unsigned __attribute__((noinline)) co_choose(unsigned n) {
    unsigned v = mc_choose(n);
    co_scrub();
    return v;
}

/* ---- announced accesses: the harness supplies this */
static void co_access(uintptr_t a, size_t n, int wr, int atomic);

#define HOOK(name, n, w)                                                                                               \
    void __tsan_##name(void *p) { co_access((uintptr_t)p, n, w, 0); }
#define HOOKS(n)                                                                                                       \
    HOOK(read##n, n, 0)                                                                                                \
    HOOK(write##n, n, 1)                                                                                               \
    HOOK(unaligned_read##n, n, 0)                                                                                      \
    HOOK(unaligned_write##n, n, 1)                                                                                     \
    HOOK(volatile_read##n, n, 0)                                                                                       \
    HOOK(volatile_write##n, n, 1)                                                                                      \
    HOOK(unaligned_volatile_read##n, n, 0)                                                                             \
    HOOK(unaligned_volatile_write##n, n, 1)
HOOKS(1) HOOKS(2) HOOKS(4) HOOKS(8) HOOKS(16)
void __tsan_read_range(void *p, unsigned long n) { co_access((uintptr_t)p, n, 0, 0); }
void __tsan_write_range(void *p, unsigned long n) { co_access((uintptr_t)p, n, 1, 0); }
void __tsan_vptr_update(void **p, void *v) { co_access((uintptr_t)p, 8, 1, 0); }
void __tsan_vptr_read(void **p) { co_access((uintptr_t)p, 8, 0, 0); }
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
#define ATOM(bits, T)                                                                                                  \
    T __tsan_atomic##bits##_load(const volatile T *a, int o) { co_access((uintptr_t)a, sizeof(T), 0, 1); return *a; }  \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int o) { co_access((uintptr_t)a, sizeof(T), 1, 1); *a = v; }  \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int o) { co_access((uintptr_t)a, sizeof(T), 1, 1); T r = *a; *a = v; return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int o) { co_access((uintptr_t)a, sizeof(T), 1, 1); T r = *a; *a = r + v; return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int o) { co_access((uintptr_t)a, sizeof(T), 1, 1); T r = *a; *a = r - v; return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int o) { co_access((uintptr_t)a, sizeof(T), 1, 1); T r = *a; *a = r & v; return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int o) { co_access((uintptr_t)a, sizeof(T), 1, 1); T r = *a; *a = r | v; return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int o) { co_access((uintptr_t)a, sizeof(T), 1, 1); T r = *a; *a = r ^ v; return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int o, int f) {                        \
        co_access((uintptr_t)a, sizeof(T), 1, 1);                                                                      \
        if (*a == *e) { *a = v; return 1; }                                                                            \
        *e = *a;                                                                                                       \
        return 0;                                                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int o, int f) {                          \
        return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, o, f);                                           \
    }                                                                                                                  \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int o, int f) {                              \
        co_access((uintptr_t)a, sizeof(T), 1, 1);                                                                      \
        T r = *a;                                                                                                      \
        if (r == e) *a = v;                                                                                            \
        return r;                                                                                                      \
    }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {}
void __tsan_atomic_signal_fence(int o) {}

/* block operations, one byte at a time */
void *vf_memcpy(void *d, const void *s, size_t n) {
    for (size_t i = 0; i < n; i++) {
        co_access((uintptr_t)s + i, 1, 0, 0);
        unsigned char c = ((volatile unsigned char *)s)[i];
        co_access((uintptr_t)d + i, 1, 1, 0);
        ((volatile unsigned char *)d)[i] = c;
    }
    return d;
}
void *vf_memmove(void *d, const void *s, size_t n) {
    if ((uintptr_t)d <= (uintptr_t)s)
        return vf_memcpy(d, s, n);
    for (size_t i = n; i-- > 0;) {
        co_access((uintptr_t)s + i, 1, 0, 0);
        unsigned char c = ((volatile unsigned char *)s)[i];
        co_access((uintptr_t)d + i, 1, 1, 0);
        ((volatile unsigned char *)d)[i] = c;
    }
    return d;
}
void *vf_memset(void *d, int c, size_t n) {
    for (size_t i = 0; i < n; i++) {
        co_access((uintptr_t)d + i, 1, 1, 0);
        ((volatile unsigned char *)d)[i] = (unsigned char)c;
    }
    return d;
}
#endif
