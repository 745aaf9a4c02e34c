#ifndef C22_H
#define C22_H
#include <stdint.h>
extern const int t_size;
int      t_after(uint64_t a, uint64_t b);
int      t_after_eq(uint64_t a, uint64_t b);
int      t_before(uint64_t a, uint64_t b);
uint64_t t_interval(uint64_t a, uint64_t b);
int      t_expired(uint64_t s, uint64_t c, uint64_t d);
int      t_loose(uint64_t s, uint64_t c, uint64_t d);
int      t_strict(uint64_t s, uint64_t c, uint64_t d);
#endif
