#ifndef C31_H
#define C31_H
#include <stddef.h>
#include <stdint.h>
#include "data_structures/struct_update.h"
typedef struct { uint32_t y; uint16_t x, z; } inner_t;
typedef struct {
    uint8_t     a;
    uint64_t    d;
    uint8_t     a2;
    uint16_t    b;
    uint32_t    c;
    uint16_t    arr[4];
    inner_t     in;
    const char *p;
    double      f;
    uint8_t     bytes[3];
} obj_t;
typedef struct {
    const char *name;
    size_t      offset, size; /* what it writes, and what it reads from the source */
    struct_update_t (*make)(obj_t *o, void *src);
} field_t;
extern const field_t fields[];
extern const int     nfields;
/* the maker of update k with literal values; the bytes expected */
struct_update_t literal(int k, obj_t *o);
extern const int nliterals;
size_t literal_bytes(int k, size_t *offset, void *bytes);
#endif
