/* typed access for the parameter harnesses */
#ifndef PARAM_H
#define PARAM_H
#include "mc.h"
#include "parameter/parameter.h"
#include <stdio.h>
#include <string.h>
#include <math.h>
#include <float.h>
typedef __int128 big;
#define BIG(x) ((big)(x))
static const char *const tname[] = {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "float", "double"};
static const int         tsize[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
static inline int        t_exists(int t) { return tsize[t] <= GEL_PARAMETER_MAX_SIZE; }
static inline int        t_float(int t) { return t >= 8; }
static inline int        t_signed(int t) { return t & 1; }
static inline big        t_min(int t) { return t_signed(t) ? -(BIG(1) << (8 * tsize[t] - 1)) : 0; }
static inline big        t_max(int t) { return (BIG(1) << (8 * tsize[t] - t_signed(t))) - 1; }
/* write the low bytes of an integer value of type t */
static inline void t_put(int t, void *p, big v) {
    uint64_t u = (uint64_t)v;
    memcpy(p, &u, tsize[t]);
}
static inline big t_get(int t, const void *p) {
    switch (t) {
        case 0: return *(const uint8_t *)p;
        case 1: return *(const int8_t *)p;
        case 2: return *(const uint16_t *)p;
        case 3: return *(const int16_t *)p;
        case 4: return *(const uint32_t *)p;
        case 5: return *(const int32_t *)p;
        case 6: return *(const uint64_t *)p;
        default: return *(const int64_t *)p;
    }
}
static inline void f_put(int t, void *p, double v) {
    float f = (float)v;
    if (t == 8)
        memcpy(p, &f, 4);
    else
        memcpy(p, &v, 8);
}
static inline double f_get(int t, const void *p) {
    float  f;
    double d;
    if (t == 8) {
        memcpy(&f, p, 4);
        return f;
    }
    memcpy(&d, p, 8);
    return d;
}
/* boundary values of type t, ascending; dense: how many values around each boundary */
static inline int t_values(int t, big *o, int dense) {
    static const int sh[] = {7, 8, 15, 16, 31, 32, 63, 64};
    int              n = 0;
    big              c[64];
    int              k = 0;
    c[k++] = 0;
    c[k++] = 10;
    c[k++] = -10;
    c[k++] = 100;
    c[k++] = -100;
    for (int i = 0; i < 8; i++) {
        c[k++] = BIG(1) << sh[i];
        c[k++] = -(BIG(1) << sh[i]);
    }
    for (int i = 0; i < k; i++)
        for (int d = -dense; d <= dense; d++) {
            big v = c[i] + d;
            if (v < t_min(t) || v > t_max(t))
                continue;
            int j;
            for (j = 0; j < n && o[j] != v; j++)
                ;
            if (j == n)
                o[n++] = v;
        }
    for (int i = 1; i < n; i++)
        for (int j = i; j > 0 && o[j] < o[j - 1]; j--) {
            big x = o[j];
            o[j] = o[j - 1], o[j - 1] = x;
        }
    return n;
}
static inline const char *bstr(big v) {
    static char b[8][48];
    static int  k;
    char       *s = b[k++ & 7] + 46;
    int         neg = v < 0;
    *s              = 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
    do
        *--s = '0' + (int)(u % 10);
    while (u /= 10);
    if (neg)
        *--s = '-';
    return s;
}
/* other parameters, used before every step: they must not matter */
static uint8_t other_value[3];
static void    other(void) {
    uint8_t            x[3] = {1, 60, 7}, b[64];
    parameter_handle_t o[3] = {PARAMETER(&other_value[0], 5, 50, 6, 0, 0), PARAMETER_STEP(&other_value[1], 5, 50, 6, 2, 0, 4), PARAMETER(&other_value[2], 5, 50, 9, 0, 2)};
    memcpy(other_value, x, 3);
    mc_check(parameter_check_ranges(o, 3) == 2 && other_value[0] == 6 && other_value[1] == 6 && other_value[2] == 7, "another list is validated wrongly");
    parameter_operator(&o[1], 3), parameter_operator(&o[2], -1);
    mc_check(other_value[1] == 12 && other_value[2] == 6, "another parameter is stepped wrongly");
    mc_check(parameter_get_count(o, 3, 2) == 2 && parameter_get_handle(o, 3, 1, 2) == &o[2], "another list is enumerated wrongly");
    parameter_clone_with_buffer(&o[2], b);
    parameter_to_index(&o[2]), parameter_to_long(&o[1]), parameter_to_bool(&o[0]), parameter_copy_value(&o[0], &o[2]);
}
#endif
