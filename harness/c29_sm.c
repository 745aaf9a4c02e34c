/* C29: state machines. Handlers answer what the model of the caller tells them to. */
#include "mc.h"
#include <limits.h>
#include <stdlib.h>
#include <string.h>
#include "c29.h"
static struct {
    unsigned state[2];
    long     total[2]; /* how often handlers of a machine ran, bounded */
} M;
seen_t sm_seen; /* filled in by the handlers */
int    sm_answer;
static sm_t *sm[2];
static int   nest_to, nest_code;
static model_t nest_model;
/* the handler sends an event itself, to the other machine or to its own */
static void nested(model_t *md) {
    seen_t  s  = sm_seen;
    event_t ev = {.code = nest_code};
    md->nested = 0;
    int r = sm_send(sm[nest_to], nest_to, &nest_model, ev);
    mc_check(sm_seen.calls == s.calls + 1 && sm_seen.machine == nest_to && sm_seen.state == M.state[nest_to] % C29_DISTINCT && sm_seen.model == &nest_model, "nested event: the handler of state %d of machine %d ran, the machine was in %u", sm_seen.state, sm_seen.machine, M.state[nest_to]);
    mc_check(!!r == (nest_model.answer >= 0), "nested event: the handler answered %d, the call reports %stransition", nest_model.answer, r ? "a " : "no ");
    if (nest_model.answer >= 0)
        M.state[nest_to] = nest_model.answer;
    sm_seen = s;
    MC_COVER("event sent by a handler");
}
void (*sm_nested)(model_t *) = nested;
static void  setup(void) {
    sm[0] = mc_alloc(sm_size, 1), sm[1] = mc_alloc(sm_size, 1);
    mc_region(&M, sizeof M, 1);
}
/* states around the limits of narrower types; the table of handlers repeats itself every C29_DISTINCT states */
static const int wide[] = {0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, C29_STATES - 1};
static void init(void) {
    for (int i = 0; i < 2; i++) {
        M.state[i] = mc_cfg->p[3] ? wide[mc_choose(mc_cfg->p[0])] : i && mc_cfg->p[2] ? (const unsigned[]){0, 255, 256, 299}[mc_choose(4)] : mc_choose(mc_cfg->p[0]);
        mc_garbage(sm[i], sm_size, 0x5a);
        sm_start(sm[i], i, M.state[i]);
    }
}
/* results a handler may give: every state, and negative numbers of every kind */
static const int neg[] = {-1, -2, INT_MIN, INT_MIN + 1, -128, -256, -65536, -0x7fffffff};
static void      step(void) {
    int    n = mc_cfg->p[0], i = mc_choose(2), e = mc_choose(4), null = e == 3;
    model_t md = {.magic = 0x5eed, .count = 0};
    int    k = mc_choose(mc_cfg->p[1] + n);
    md.answer = k >= n ? neg[k - n] : mc_cfg->p[3] ? wide[k] : k;
    event_t ev = {.code = (int[]){0, -5, 700, 1}[e], .payload = {e, e + 1, e + 2}};
    mc_label("machine %d in state %u, event %d, handler answers %d", i, M.state[i], ev.code, md.answer);
    if (null)
        mc_label("  without a model");
    if (mc_cfg->p[4] && !null) {
        md.nested = mc_choose(3);
        nest_to   = md.nested == 2 ? i : !i;
        if (md.nested) {
            nest_code  = 77;
            nest_model = (model_t){.answer = mc_choose(n + 1) - 1};
            mc_label("  sends an event to machine %d, whose handler answers %d", nest_to, nest_model.answer);
        }
    }
    unsigned was = M.state[i];
    model_t before = md;
    sm_seen        = (seen_t){0};
    sm_answer      = md.answer;
    int r          = sm_send(sm[i], i, null ? NULL : &md, ev);
    mc_check(sm_seen.calls == 1, "%d handlers ran", sm_seen.calls);
    mc_check(sm_seen.machine == i && sm_seen.state == was % C29_DISTINCT, "the handler of state %d of machine %d ran, the machine was in %u", sm_seen.state, sm_seen.machine, was);
    mc_check(sm_seen.model == (null ? NULL : &md), "the handler got another model");
    mc_check(!memcmp(&sm_seen.event, &ev, sizeof ev), "the handler got another event");
    mc_check(md.count == !null && md.magic == before.magic, "the model is not what the handler left");
    if (md.answer >= 0)
        M.state[i] = md.answer;
    mc_check(!!r == (md.answer >= 0), "the handler answered %d, the call reports %stransition", md.answer, r ? "a " : "no ");
    for (int j = 0; j < 2; j++)
        mc_check(sm_state(sm[j], j) == M.state[j], "machine %d is in state %u, not %u", j, sm_state(sm[j], j), M.state[j]);
    if (md.answer >= 0)
        MC_COVER("transition");
    else
        MC_COVER("no transition");
}
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static sm_t *o[2];
    for (int i = 0; i < 2; i++) {
        model_t md = {.answer = 1};
        if (!o[i])
            o[i] = malloc(sm_size);
        sm_start(o[i], i, 2);
        sm_send(o[i], i, &md, (event_t){.code = 9});
        mc_check(sm_state(o[i], i) == 1, "another machine is in a wrong state");
    }
}
void mc_register(void) {
    mc_other = other;
    mc_config *m;
    m = mc_add("3-states", setup, init, step, 0, 0), m->p[0] = 3, m->p[1] = 8;
    m = mc_add("nested", setup, init, step, 0, 0), m->p[0] = 3, m->p[1] = 8, m->p[4] = 1;
    m = mc_add("72000-states", setup, init, step, 0, 0), m->p[0] = sizeof wide / sizeof *wide, m->p[1] = 8, m->p[3] = 1;
    m = mc_add("300-states", setup, init, step, 1, -1), m->p[0] = 300, m->p[1] = 2, m->p[2] = 1;
    m = mc_add("300-states-all", setup, init, step, -1, 0), m->p[0] = 300, m->p[1] = 2;
}
