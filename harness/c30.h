#ifndef C30_H
#define C30_H
#include <stdint.h>
#include "data_structures/maybe.h"
typedef struct { uint8_t a; int b; long long c; } rec_t;
typedef const char *ptr;
typedef unsigned char uchar;
typedef long long     big;
typedef struct { char a[299], last; } block;
MAYBE_DECLARATION(int)
MAYBE_DECLARATION(uchar)
MAYBE_DECLARATION(big)
MAYBE_DECLARATION(double)
MAYBE_DECLARATION(ptr)
MAYBE_DECLARATION(rec_t)
typedef maybe_int_t inner; /* an optional optional */
MAYBE_DECLARATION(float)
MAYBE_DECLARATION(block)
MAYBE_DECLARATION(inner)
/* MAYBE_NOTHING in an initializer of each type */
MAYBE(int) nil_int(void);
MAYBE(uchar) nil_uchar(void);
MAYBE(big) nil_big(void);
MAYBE(double) nil_double(void);
MAYBE(ptr) nil_ptr(void);
MAYBE(rec_t) nil_rec_t(void);
MAYBE(float) nil_float(void);
MAYBE(block) nil_block(void);
MAYBE(inner) nil_inner(void);
#endif
