#ifndef C26_H
#define C26_H
#include <stdint.h>
#include <stddef.h>
typedef struct {
    const char *name;
    int         bytes, big, sgn; /* sgn: deserialized as signed */
    size_t (*ser)(uint8_t *, uint64_t);       /* NULL: none */
    size_t (*des)(uint64_t *, uint8_t *);     /* value widened as the type of the variable says */
    int vbytes, vsgn; /* type of the variable read into */
} ser_t;
extern const ser_t ser_table[];
extern const int   ser_count;
/* a macro used among other expressions and variables: 0 if as expected */
int ser_context(uint8_t *buf, unsigned v);
#endif
