/* C30: optional values. Programs over two variables of the type: every sequence of operations, for each type. */
#include "mc.h"
#include "c30.h"
#include <string.h>
static const char text[] = "abc";
/* value domains: index 0 is the zero of the type */
static const int    v_int[]    = {0, -1, 1, 0x7fffffff};
static const uchar  v_uchar[]  = {0, 1, 128, 255};
static const big    v_big[]    = {0, -1, 1ll << 32, 0x7fffffffffffffffll};
static const double v_double[] = {0.0, -0.0, __builtin_nan(""), -1.5};
static const float  v_float[]  = {0, 0.1f, -1e30f, 16777215};
static const ptr    v_ptr[]    = {0, text, text + 1, text + 3};
static const rec_t  v_rec_t[]  = {{0}, {1, -1, 1ll << 40}, {255, 7, -1}, {0, 0, 1}};
static const block  v_block[]  = {{{0}, 0}, {{0}, 1}, {{1}, 0}, {{1, 2, 3}, -1}};
static inner        v_inner[4];
static int          same_rec_t(rec_t a, rec_t b) { return a.a == b.a && a.b == b.b && a.c == b.c; }
#define NUM(T) static int same_##T(T a, T b) { return a == b; }
#define BITS(T) static int same_##T(T a, T b) { return !memcmp(&a, &b, sizeof a); } /* also the sign of zero, and values that are not equal to themselves */
NUM(int) NUM(uchar) NUM(big) BITS(double) NUM(ptr) BITS(float) BITS(block)
static int same_inner(inner a, inner b) { return maybe_int_is_just(&a) == maybe_int_is_just(&b) && (!maybe_int_is_just(&a) || maybe_int_with_default(&a, 9) == maybe_int_with_default(&b, 9)); }
static struct {
    int var[2]; /* -1 nothing, else an index into the domain */
    int last[2][3]; /* how each variable came to be: two equal values made differently are told apart (their bytes are not compared: padding) */
} M;
static int calls, arg, table; /* the function applied */
/* functions: tables from index to index, -1 for nothing (bind only) */
static const int fn[][4] = {{0, 1, 2, 3}, {1, 2, 3, 0}, {0, 0, 0, 0}, {3, 3, 0, 1}, {-1, -1, -1, -1}, {-1, 0, 1, 2}, {2, -1, 0, -1}};
#define TYPE(T)                                                                                                          \
    static MAYBE(T) * x_##T;                                                                                             \
    static void setup_##T(void) {                                                                                        \
        x_##T = mc_alloc(2 * sizeof *x_##T, 0);                                                                          \
        mc_region(&M, sizeof M, 1);                                                                                      \
    }                                                                                                                    \
    static int find_##T(T v) {                                                                                           \
        for (int i = 0; i < 4; i++)                                                                                      \
            if (same_##T(v, v_##T[i]))                                                                                   \
                return i;                                                                                                \
        mc_fail("the value is none that was ever made");                                                                 \
        return -1;                                                                                                       \
    }                                                                                                                    \
    static T twice_##T(T v) { return v; }                                                                                \
    static void use_##T(void) { /* a function may use others of its kind while it runs */                                \
        MAYBE(T) a = maybe_##T##_return(v_##T[3]), b = maybe_##T##_nothing();                                            \
        a = maybe_##T##_map(a, twice_##T), b = maybe_##T##_map(b, twice_##T);                                            \
        mc_check(maybe_##T##_is_just(&a) && !maybe_##T##_is_just(&b), "wrong inside a function");                        \
    }                                                                                                                    \
    static T map_##T(T v) { calls++, arg = find_##T(v); use_##T(); return v_##T[fn[table][arg]]; }                                  \
    static MAYBE(T) bind_##T(T v) {                                                                                      \
        calls++, arg = find_##T(v), use_##T();                                                                           \
        int r = fn[table][arg];                                                                                          \
        return r < 0 ? maybe_##T##_nothing() : maybe_##T##_return(v_##T[r]);                                             \
    }                                                                                                                    \
    static void look_##T(void) {                                                                                         \
        for (int k = 0; k < 2; k++) {                                                                                    \
            MAYBE(T) copy = x_##T[k];                                                                                    \
            mc_check(!!maybe_##T##_is_just(&copy) == (M.var[k] >= 0), "variable %d: is_just is wrong", k);               \
            for (int d = 0; d < 4; d++) {                                                                                \
                T r = maybe_##T##_with_default(&copy, v_##T[d]);                                                         \
                mc_check(same_##T(r, v_##T[M.var[k] >= 0 ? M.var[k] : d]), "variable %d (%d) with default %d is %d", k, M.var[k], d, find_##T(r)); \
            }                                                                                                            \
            mc_check(!!maybe_##T##_is_just(&copy) == (M.var[k] >= 0), "variable %d: changed by looking at it", k);       \
        }                                                                                                                \
    }                                                                                                                    \
    static void init_##T(void) {                                                                                         \
        mc_garbage(x_##T, 2 * sizeof *x_##T, mc_choose(2) ? 0xa5 : 1);                                                   \
        for (int k = 0; k < 2; k++)                                                                                      \
            x_##T[k] = maybe_##T##_nothing(), M.var[k] = -1;                                                             \
        look_##T();                                                                                                      \
    }                                                                                                                    \
    static void step_##T(void) {                                                                                         \
        int op = mc_choose(6), d = mc_choose(2), s = op > 2 ? mc_choose(2) : 0;                                          \
        switch (op) {                                                                                                    \
            case 0: x_##T[d] = maybe_##T##_nothing(), M.var[d] = -1; mc_label("%d = nothing", d); break;                 \
            case 1: x_##T[d] = nil_##T(), M.var[d] = -1; mc_label("%d = NOTHING", d); break;                             \
            case 2: M.var[d] = mc_choose(4), x_##T[d] = maybe_##T##_return(v_##T[M.var[d]]); mc_label("%d = return %d", d, M.var[d]); break; \
            case 3: x_##T[d] = x_##T[s], M.var[d] = M.var[s]; mc_label("%d = %d", d, s); break;                          \
            default: {                                                                                                   \
                table = mc_choose(op == 4 ? 4 : 7), calls = 0, arg = -1;                                                 \
                mc_label("%d = %s function %d over %d", d, op == 4 ? "map" : "bind", table, s);                          \
                MAYBE(T) r = op == 4 ? maybe_##T##_map(x_##T[s], map_##T) : maybe_##T##_bind(x_##T[s], bind_##T);        \
                mc_check(calls == (M.var[s] >= 0), "the function ran %d times", calls);                                  \
                mc_check(!calls || arg == M.var[s], "the function was given another value");                             \
                look_##T(); /* the operand is unchanged */                                                               \
                x_##T[d] = r, M.var[d] = M.var[s] < 0 ? -1 : fn[table][M.var[s]];                                        \
                if (M.var[d] < 0) MC_COVER("nothing results"); else MC_COVER("a value results");                         \
            }                                                                                                            \
        }                                                                                                                \
        int made[3] = {1 + op, s, op > 3 ? table : 0};                           \
        memcpy(M.last[d], made, sizeof made);                                                                            \
        mc_evals++;                                                                                                      \
        look_##T();                                                                                                      \
    }
TYPE(int) TYPE(uchar) TYPE(big) TYPE(double) TYPE(ptr) TYPE(rec_t) TYPE(float) TYPE(block) TYPE(inner)
void mc_register(void) {
    v_inner[0] = maybe_int_nothing(), v_inner[1] = maybe_int_return(0), v_inner[2] = maybe_int_return(1), v_inner[3] = maybe_int_return(-1);
#define ADD(T) mc_add(#T, setup_##T, init_##T, step_##T, 6, 8);
    ADD(int) ADD(uchar) ADD(big) ADD(double) ADD(ptr) ADD(rec_t) ADD(float) ADD(block) ADD(inner)
}
