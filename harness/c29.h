#ifndef C29_H
#define C29_H
#include <stddef.h>
typedef struct { int code; short payload[3]; short pad; } event_t;
typedef struct { int magic, answer, count, nested; } model_t;
typedef struct { int calls, machine; unsigned state; const void *model; event_t event; } seen_t;
#define C29_DISTINCT 300
#define C29_STATES   72000
typedef void sm_t;
extern size_t sm_size;
extern seen_t sm_seen;
extern int    sm_answer; /* what a handler answers that gets no model */
extern void   (*sm_nested)(model_t *); /* what a handler does before it answers, if the model says so */
void     sm_start(sm_t *, int machine, unsigned state);
int      sm_send(sm_t *, int machine, model_t *, event_t);
unsigned sm_state(sm_t *, int machine);
#endif
