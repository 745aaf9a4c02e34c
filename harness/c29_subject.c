#include "state_machine/state_machine.h"
#include "c29.h"
/* two kinds of machine: events by value and by pointer */
typedef event_t *event_ref_t;
DEFINE_STATE_MACHINE(first, event_t, model_t)
DEFINE_STATE_MACHINE(second, event_ref_t, model_t)
static int seen(int machine, int state, model_t *m, event_t e) {
    sm_seen.calls++, sm_seen.machine = machine, sm_seen.state = state, sm_seen.model = m, sm_seen.event = e;
    if (!m) /* a machine without a model */
        return sm_answer;
    m->count++;
    if (m->nested)
        sm_nested(m);
    return m->answer;
}
#define H(n) static int a##n(model_t *m, event_t e) { return seen(0, n, m, e); } static int b##n(model_t *m, event_ref_t e) { return seen(1, n, m, *e); }
#define NA(n) a##n,
#define NB(n) b##n,
#define TEN(X, t) X(t##0) X(t##1) X(t##2) X(t##3) X(t##4) X(t##5) X(t##6) X(t##7) X(t##8) X(t##9)
#define LOW(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) TEN(X, 1) TEN(X, 2) TEN(X, 3) TEN(X, 4) TEN(X, 5) TEN(X, 6) TEN(X, 7) TEN(X, 8) TEN(X, 9)
#define HUNDRED(X, h) TEN(X, h##0) TEN(X, h##1) TEN(X, h##2) TEN(X, h##3) TEN(X, h##4) TEN(X, h##5) TEN(X, h##6) TEN(X, h##7) TEN(X, h##8) TEN(X, h##9)
#define ALL(X) LOW(X) HUNDRED(X, 1) HUNDRED(X, 2)
ALL(H)
/* 240 times the 300 handlers; constant, so that it is no part of the states */
#define R10(a) a a a a a a a a a a
#define WIDE(X) R10(R10(ALL(X) ALL(X))) R10(ALL(X) ALL(X) ALL(X) ALL(X))
static const first_event_manager_t  handlers_a[C29_STATES] = {WIDE(NA)};
static const second_event_manager_t handlers_b[C29_STATES] = {WIDE(NB)};
typedef union { first_state_machine_t a; second_state_machine_t b; } both_t;
size_t sm_size = sizeof(both_t);
void sm_start(sm_t *p, int machine, unsigned state) {
    if (machine == 0)
        *(first_state_machine_t *)p = (first_state_machine_t){.managers = (first_event_manager_t *)handlers_a, .state = state};
    else
        *(second_state_machine_t *)p = (second_state_machine_t){.managers = (second_event_manager_t *)handlers_b, .state = state};
}
int sm_send(sm_t *p, int machine, model_t *m, event_t e) { return machine ? second_sm_send_event(p, m, &e) : first_sm_send_event(p, m, e); }
unsigned sm_state(sm_t *p, int machine) { return machine ? ((second_state_machine_t *)p)->state : ((first_state_machine_t *)p)->state; }
