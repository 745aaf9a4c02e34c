#include "c30.h"
#define DEF(T) MAYBE(T) nil_##T(void) { MAYBE(T) m = MAYBE_NOTHING; return m; }
MAYBE_DEFINITION(int)
MAYBE_DEFINITION(uchar)
MAYBE_DEFINITION(big)
MAYBE_DEFINITION(double)
MAYBE_DEFINITION(ptr)
MAYBE_DEFINITION(rec_t)
MAYBE_DEFINITION(float)
MAYBE_DEFINITION(block)
MAYBE_DEFINITION(inner)
DEF(int) DEF(uchar) DEF(big) DEF(double) DEF(ptr) DEF(rec_t) DEF(float) DEF(block) DEF(inner)
