#ifndef CONT_H
#define CONT_H
#include <stddef.h>
#include <stdint.h>
typedef struct {
    uint32_t a;
    uint8_t  b;
    uint16_t c;
} __attribute__((packed)) item7;
typedef struct { uint64_t x[3]; } item24;
typedef struct { uint8_t x[300]; } item300;
typedef void *ptr;
typedef struct {
    const char *name;
    size_t      cap, size, isz;
    void (*init)(void *);
    long (*count)(void *); /* -1: no such function */
    int (*put)(void *, void *);  /* 1: done */
    int (*get)(void *, void *);
    int (*peek)(void *, void *);
    int (*drop)(void *);
    int (*empty)(void *);
    int (*full)(void *);
} cont_ops;
extern const cont_ops cont_tab[];
extern const int      cont_n;
#endif
