#include "timer/timecheck.h"
#include "c22.h"
const int      t_size    = sizeof(timestamp_t);
/* the two instants are also given as expressions, as users do (time_after(now, start + delay)); a result that depends on it is turned round */
static volatile int yes = 1;
/* a clock that moves on while it is read: the first reading counts */
static unsigned    reads;
static timestamp_t ticking(timestamp_t t) { return reads++ ? t + (timestamp_t)-1 / 2 + 1 : t; }
#define BOTH(F)                                                                                                        \
    timestamp_t x = a, y = b, x5 = x - 5, y7 = y + 7, o = x ^ y;                                                        \
    int         r = !!F(x, y);                                                                                         \
    if (r != !!F(yes ? x : o, y) || r != !!F(x, !yes ? o : y) || r != !!F(!yes ? o : x, yes ? y : o))                   \
        return !r;                                                                                                     \
    if ((reads = 0, r != !!F(ticking(x), y)) || (reads = 0, r != !!F(x, ticking(y))))                                  \
        return !r;                                                                                                     \
    if (sizeof(timestamp_t) >= sizeof(int) && (r != !!F(x5 + 5, y7 - 7) || r != !!F(x, y7 - 7) || r != !!F(x5 + 5, y))) \
        return !r;                                                                                                     \
    reads = 0;                                                                                                         \
    return r;
int      t_after(uint64_t a, uint64_t b) { BOTH(time_after) }
int      t_after_eq(uint64_t a, uint64_t b) { BOTH(time_after_or_equal) }
int      t_before(uint64_t a, uint64_t b) { BOTH(time_before) }
uint64_t t_interval(uint64_t a, uint64_t b) { timestamp_t x = a, y = b; timestamp_t r = time_interval(x, y); return r; }
int      t_expired(uint64_t s, uint64_t c, uint64_t d) {
    timestamp_t x = s, y = c, z = d, x5 = x - 5, y7 = y + 7;
    int         r = !!is_expired(x, y, z);
    if (r != !!is_expired(yes ? x : y, y, yes ? z : x) || (sizeof x >= sizeof(int) && r != !!is_expired(x5 + 5, y7 - 7, z)))
        return !r;
    return r;
}
int      t_loose(uint64_t s, uint64_t c, uint64_t d) { timestamp_t x = s, y = c, z = d; return is_loosely_expired(x, y, z); }
int      t_strict(uint64_t s, uint64_t c, uint64_t d) { timestamp_t x = s, y = c, z = d; return is_strictly_expired(x, y, z); }
