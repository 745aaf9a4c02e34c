/*
 * mc: a small explicit-state model checker for C code.
 *
 * A harness registers memory regions (the whole state of the code under test plus the
 * state of the reference model) and configurations. A configuration has an init() and a
 * step() function; both may call mc_choose() to branch. The engine runs init() and step()
 * for EVERY vector of choices, from every distinct reachable state, breadth first, by
 * snapshotting and restoring the registered regions around the REAL code.
 */
#ifndef MC_H
#define MC_H
#include <stddef.h>
#include <stdint.h>

typedef struct mc_config {
    char name[96];
    void (*setup)(void); /* once per process: allocate and register regions */
    void (*init)(void);  /* transition 0 (may choose) */
    void (*step)(void);  /* every further transition (may choose) */
    int  depth[2];       /* quick, thorough: -1 not in this tier, 0 to fixpoint, else number of steps */
    long p[8];           /* parameters */
} mc_config;

/* the harness implements this and calls mc_add() */
void mc_register(void);
/* p: up to 8 parameters */
mc_config *mc_add(const char *name, void (*setup)(void), void (*init)(void), void (*step)(void), int dq, int dt);
extern const mc_config *mc_cfg; /* the running configuration */
extern int              mc_thorough;
extern void (*mc_other)(void); /* if set (by mc_register), runs before init and before every step: uses of other objects; may not choose */

/* state */
void  mc_region(void *p, size_t n, int hashed);
void *mc_alloc(size_t n, int hashed); /* exactly n bytes on the (redzoned) heap, filled with garbage, registered */
void  mc_subject_regions(void);       /* writable data of the subject shared object (called by the engine itself) */
void  mc_garbage(void *p, size_t n, unsigned char fill); /* fill memory before an init call */

/* branching */
unsigned mc_choose(unsigned n);
/* abandon the current execution: not a legal use of the module */
void mc_prune(void) __attribute__((noreturn));

/* oracle */
void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define mc_check(cond, ...)                                                                                            \
    do {                                                                                                               \
        if (__builtin_expect(!(cond), 0))                                                                              \
            mc_fail(__VA_ARGS__);                                                                                      \
    } while (0)

/* the code under test has not hung; abandons the execution if the time is up (not from a coroutine: add to the counter instead) */
void                     mc_late(void);
extern volatile uint64_t mc_progress_counter;
extern volatile int      mc_overdue;
static inline void       mc_progress(void) {
    mc_progress_counter++;
    if (__builtin_expect(mc_overdue, 0))
        mc_late();
}

/* tracing and coverage of outcomes */
extern int mc_tracing;
void       mc_label_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define mc_label(...)                                                                                                  \
    do {                                                                                                               \
        if (__builtin_expect(mc_tracing, 0))                                                                           \
            mc_label_(__VA_ARGS__);                                                                                    \
    } while (0)
int                     mc_cover_id(const char *name);
extern uint64_t         mc_covers[];
#define MC_COVER(name)                                                                                                 \
    do {                                                                                                               \
        static int id_ = -1;                                                                                           \
        if (id_ < 0)                                                                                                   \
            id_ = mc_cover_id(name);                                                                                   \
        mc_covers[id_]++;                                                                                              \
    } while (0)
/* count checks made inside one transition when a transition sweeps many inputs */
extern uint64_t mc_evals;

/* byte-wise primitives that no interceptor sees */
void mc_copy(void *d, const void *s, size_t n);
int  mc_differs(const void *a, const void *b, size_t n);

/* allocator whose whole state is a region: -Dmalloc=mc_malloc etc. in subjects that allocate */
void  mc_heap_setup(size_t slots, size_t slot_size);
void *mc_malloc(size_t n);
void *mc_calloc(size_t n, size_t m);
void *mc_realloc(void *p, size_t n);
void  mc_free(void *p);
int   mc_heap_live(void);     /* number of live blocks */
void  mc_heap_check(void);    /* guard bytes around every live block are intact */
#endif
