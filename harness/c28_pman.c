/* C28: page lifecycle through any navigation. Every callback called is recorded; after each call the record must be
 * the expected one as a multiset, with closes before opens and each page's own steps in order. */
#include "mc.h"
#include "pagemanager/page_manager.h"
#include <string.h>
#define DEPTH PMAN_NAVIGATION_DEPTH
enum { CREATE, OPEN, UPDATE, EVENT, CLOSE, DESTROY };
static const char *const kinds[] = {"create", "open", "update", "event", "close", "destroy"};
typedef VF_PMAN_T val;
#define HI (sizeof(val) > 4 ? (val)0x700000000 : 0) /* in every value, where there is room */
enum { NTYPES = 6 };
typedef struct {
    int  kind, type;
    val  data, model, event;
    long extra;
} ev_t;
typedef struct {
    int  type;
    val  data;
    long extra;
} inst_t;
static struct {
    int    n; /* pages, the last one is the current */
    inst_t p[DEPTH + 1];
} M;
static page_manager_t *pm;
enum { MAXEV = 64 + 2 * DEPTH };
static ev_t            got[MAXEV], want[MAXEV];
static int             ngot, nwant;
static val             model, next_data, event;
static const int       ids[NTYPES] = {10, 20, 266, 10, -1, 65546};

/* another manager, used by the callbacks of the pages */
static int  in_nested, nested_count;
static val  n_create(val m, void *x) { nested_count += 1; return m + (int)(long)x; }
static void n_open(val m, val d) { nested_count += 10; }
static void n_close(val d) { nested_count += 100; }
static void n_destroy(val d, void *x) { nested_count += 1000; }
static val  n_event(val m, val d, val e) { return m + d + e; }
static void nested(void) {
    page_manager_t o;
    pman_page_t    p;
    if (in_nested || mc_cfg->p[1] < 1 || mc_cfg->p[0] == 0x03)
        return;
    in_nested = 1, nested_count = 0;
    memset(&p, 0, sizeof p);
    p.id = 10, p.create = n_create, p.open = n_open, p.close = n_close, p.destroy = n_destroy, p.process_event = n_event;
    pman_init(&o);
    pman_change_page_extra(&o, 3, p, (void *)4);
    int r = pman_process_page_event(&o, 30, 200);
    pman_change_page(&o, 5, p), pman_back(&o, 5), pman_rebase_page(&o, 8, p);
    mc_check(r == 237 && nested_count == 2343, "another manager used by a callback: answer %d, calls %d", r, nested_count);
    in_nested = 0;
}
static void record(ev_t e) {
    nested();
    if (ngot < MAXEV)
        got[ngot++] = e;
}
#define CALLBACKS(T)                                                                                                                                \
    static val  create##T(val m, void *x) { record((ev_t){.kind = CREATE, .type = T, .data = next_data, .model = m, .extra = (long)x}); return next_data; } \
    static void open##T(val m, val d) { record((ev_t){.kind = OPEN, .type = T, .data = d, .model = m}); }                                             \
    static void close##T(val d) { record((ev_t){.kind = CLOSE, .type = T, .data = d}); }                                                              \
    static void destroy##T(val d, void *x) { record((ev_t){.kind = DESTROY, .type = T, .data = d, .extra = (long)x}); }                               \
    static val  update##T(val m, val d) { record((ev_t){.kind = UPDATE, .type = T, .data = d, .model = m}); return HI + 1000 + 10 * T + d; }               \
    static val  event##T(val m, val d, val e) { record((ev_t){.kind = EVENT, .type = T, .data = d, .model = m, .event = e}); return HI + 2000 + 10 * T + d; }
CALLBACKS(0) CALLBACKS(1) CALLBACKS(2) CALLBACKS(3) CALLBACKS(4) CALLBACKS(5)
/* which callbacks each type has: all but 0 and 1 lack some */
static const int has[NTYPES][6] = {{1, 1, 1, 1, 1, 1}, {1, 1, 1, 1, 1, 1}, {0, 1, 1, 1, 1, 0}, {1, 0, 0, 1, 0, 1}, {1, 1, 0, 1, 0, 1}, {0, 0, 1, 1, 1, 1}};
static pman_page_t page(int t) {
    pman_page_t p;
    memset(&p, 0, sizeof p);
    p.id    = ids[t];
    p.data  = 77; /* whatever the caller left there */
    p.extra = (void *)0x77;
#define USE(T)                                                                                                         \
    if (t == T) {                                                                                                      \
        p.create = has[T][CREATE] ? create##T : 0, p.open = has[T][OPEN] ? open##T : 0, p.close = has[T][CLOSE] ? close##T : 0; \
        p.destroy = has[T][DESTROY] ? destroy##T : 0, p.process_event = event##T;                                      \
        UPD(T)                                                                                                         \
    }
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
#define UPD(T) p.update = has[T][UPDATE] ? update##T : 0;
#else
#define UPD(T)
#endif
    USE(0) USE(1) USE(2) USE(3) USE(4) USE(5)
    return p;
}
static void setup(void) {
    pm = mc_alloc(sizeof *pm, 1);
    mc_region(&M, sizeof M, 1);
}
static void init(void) {
    in_nested = 0;
    mc_garbage(pm, sizeof *pm, mc_choose(2) ? 0xa5 : 0x01);
    pman_init(pm);
}
static void expect(int kind, inst_t i) {
    if (!has[i.type][kind])
        return;
    ev_t e = {.kind = kind, .type = i.type, .data = i.data};
    if (kind == CREATE || kind == DESTROY)
        e.extra = i.extra;
    if (kind != CLOSE && kind != DESTROY)
        e.model = model;
    if (kind == EVENT)
        e.event = event;
    want[nwant++] = e;
}
static int same(const ev_t *a, const ev_t *b) {
    return a->kind == b->kind && a->type == b->type && a->data == b->data && a->model == b->model && a->extra == b->extra && a->event == b->event;
}
static void compare(const char *op) {
    char used[MAXEV] = {0};
    for (int i = 0; i < nwant; i++) {
        int j = 0;
        while (j < ngot && (used[j] || !same(&want[i], &got[j])))
            j++;
        if (j == ngot)
            mc_fail("%s: %s of page type %d with data %lld and argument %#lx did not happen", op, kinds[want[i].kind], want[i].type, (long long)want[i].data, want[i].extra);
        used[j] = 1;
    }
    for (int j = 0; j < ngot; j++)
        mc_check(used[j], "%s: %s of page type %d called with data %lld, argument %#lx, model %lld: unexpected", op, kinds[got[j].kind], got[j].type, (long long)got[j].data, got[j].extra, (long long)got[j].model);
    for (int i = 0; i < ngot; i++)
        for (int j = 0; j < i; j++) {
            /* j happened before i: a page is not opened while another is open, and goes create, open, update / close, destroy */
            mc_check(!(got[j].kind == OPEN && got[i].kind == CLOSE), "%s: opens page type %d before closing page type %d", op, got[j].type, got[i].type);
            mc_check(!(got[j].kind == UPDATE && got[i].kind == OPEN), "%s: page type %d updated before it is opened", op, got[j].type);
            mc_check(!(got[j].kind == OPEN && got[i].kind == CREATE), "%s: page type %d opened before it is created", op, got[j].type);
            mc_check(!(got[j].kind == DESTROY && got[i].kind == CLOSE && got[i].type == got[j].type && got[i].data == got[j].data), "%s: page type %d destroyed before it is closed", op, got[i].type);
        }
}
static val fresh(void) { /* data of the next page: the smallest not in use; the first is 0, like no data at all */
    for (val d = 0;; d += d ? 1 : HI + 1) {
        int i = 0;
        while (i < M.n && M.p[i].data != d)
            i++;
        if (i == M.n)
            return d;
    }
}
static val view(void) { /* what calls that show a page return */
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
    if (M.n && has[M.p[M.n - 1].type][UPDATE])
        return HI + 1000 + 10 * M.p[M.n - 1].type + M.p[M.n - 1].data;
#endif
    return PMAN_VIEW_NULL;
}
static void updated(void) {
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
    expect(UPDATE, M.p[M.n - 1]);
#endif
}
#define CUR M.p[M.n - 1]
static void gone(inst_t i) {
    expect(CLOSE, i);
    expect(DESTROY, i);
}
static void arrive(int t, long extra) {
    M.p[M.n++] = (inst_t){.type = t, .data = has[t][CREATE] ? next_data : PMAN_DATA_NULL, .extra = extra};
    expect(CREATE, CUR), expect(OPEN, CUR), updated();
}
static void filled(void) { /* many pages to begin with */
    static const int n[] = {127, 128, 129, 255, 256, 257, 258, DEPTH, DEPTH + 1};
    int              k = n[mc_choose(9)], a = (int[]){0, 1, k / 2, k - 1}[mc_choose(4)];
    in_nested = 1;
    mc_garbage(pm, sizeof *pm, 0xa5);
    pman_init(pm);
    for (int i = 0; i < k; i++) {
        int t     = i == a;
        ngot = nwant = 0;
        next_data = i + 1;
        pman_change_page(pm, 7, page(t));
        M.p[M.n++] = (inst_t){.type = t, .data = i + 1};
    }
}
static void step(void) {
    int op = mc_choose(8);
    val r = -12345;
    ngot = nwant = in_nested = 0;
    model = HI + 500 + mc_choose(mc_cfg->p[2]);
    event = 0;
    next_data = fresh();
    int  t = 0, with_extra = 0;
    long extra = 0;
    if (op < 3) {
        t = mc_choose(NTYPES);
        if (!(mc_cfg->p[0] >> t & 1))
            mc_prune();
        with_extra = mc_choose(1 + mc_cfg->p[1]); /* 0: the call without an argument */
        extra      = (long[]){0, 0x100000001, 2, 0x300000000}[with_extra];
    }
    pman_page_t p = page(t);
    switch (op) {
        case 0: /* push */
            if (M.n == DEPTH + 1)
                mc_prune();
            mc_label("%s page type %d, argument %#lx", M.n ? "push" : "first", t, extra);
            r = with_extra ? pman_change_page_extra(pm, model, p, (void *)extra) : pman_change_page(pm, model, p);
            if (M.n)
                expect(CLOSE, CUR);
            arrive(t, extra);
            if (M.n == DEPTH + 1)
                MC_COVER("page stack full");
            break;
        case 1:
            mc_label("swap to page type %d, argument %#lx (%d pages)", t, extra, M.n);
            r = with_extra ? pman_swap_page_extra(pm, model, p, (void *)extra) : pman_swap_page(pm, model, p);
            if (M.n)
                gone(CUR), M.n--;
            else
                MC_COVER("swap without a page");
            arrive(t, extra);
            break;
        case 2:
            mc_label("rebase to page type %d, argument %#lx (%d pages)", t, extra, M.n);
            r = with_extra ? pman_rebase_page_extra(pm, model, p, (void *)extra) : pman_rebase_page(pm, model, p);
            if (M.n)
                gone(CUR), M.n--;
            else
                MC_COVER("rebase without a page");
            while (M.n)
                expect(DESTROY, CUR), M.n--;
            arrive(t, extra);
            break;
        case 3:
            if (!M.n)
                mc_prune();
            mc_label("back (%d pages)", M.n);
            r = pman_back(pm, model);
            if (M.n > 1) {
                gone(CUR), M.n--;
                expect(OPEN, CUR), updated();
            } else {
                MC_COVER("back from the last page");
                r = view(); /* nothing to say about what a call that does nothing shows */
            }
            break;
        case 4: {
            int     id    = (int[]){10, 20, 266, -1, 0, 65546}[mc_choose(6)];
            uint8_t found = mc_choose(2) ? 7 : 0;
            mc_label("reset to id %d (%d pages)", id, M.n);
            r = pman_reset_to_page(pm, model, id, &found);
            if (M.n)
                gone(CUR), M.n--;
            int f = 0;
            while (M.n && !f) {
                if (ids[CUR.type] == id)
                    f = 1;
                else
                    expect(DESTROY, CUR), M.n--;
            }
            mc_check(!!found == f, "reset: the page was %sfound, the call says %d", f ? "" : "not ", found);
            if (f) {
                expect(OPEN, CUR), updated();
                MC_COVER("reset found a page");
            } else
                MC_COVER("reset found none");
            break;
        }
        case 5:
            if (!M.n)
                mc_prune();
            event = HI + 3 + mc_choose(2);
            mc_label("event %lld", (long long)event);
            r = pman_process_page_event(pm, model, event);
            expect(EVENT, CUR);
            mc_check(r == HI + 2000 + 10 * CUR.type + CUR.data, "event: the page's answer is not returned (%lld)", (long long)r);
            r = view();
            break;
        case 6:
            if (!M.n)
                mc_prune();
            mc_label("update");
            r = pman_page_update(pm, model);
            updated();
            break;
        case 7: /* the pages are forgotten */
            if (model != HI + 500)
                mc_prune();
            mc_label("initialised again (%d pages)", M.n);
            pman_init(pm);
            M.n = 0;
            r   = view();
            break;
    }
    memset(M.p + M.n, 0, sizeof(inst_t) * (DEPTH + 1 - M.n));
    static const char *const ops[] = {"push", "swap", "rebase", "back", "reset", "event", "update", "initialisation"};
    compare(ops[op]);
    mc_check(r == view(), "%s returns %lld, not the view %lld of the current page", ops[op], (long long)r, (long long)view());
}
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    static page_manager_t o;
    pman_page_t           a = page(0), b = page(1);
    a.id = 90, b.id = 91;
    pman_init(&o);
    pman_change_page_extra(&o, 7, a, (void *)9), pman_change_page(&o, 7, b), pman_page_update(&o, 7);
    pman_back(&o, 7), pman_change_page(&o, 7, b), pman_process_page_event(&o, 7, 3);
    ngot = nwant = 0;
}
void mc_register(void) {
    mc_other = other;
    mc_config *m;
#define CFG(name, types, extras, models, q, t) do { m = mc_add(name, setup, init, step, q, t); m->p[0] = types; m->p[1] = extras; m->p[2] = models; } while (0)
    if (DEPTH > 32) {
        m = mc_add("many-pages", setup, filled, step, 2, 3), m->p[0] = 0x03, m->p[1] = 0, m->p[2] = 1;
        return;
    }
#if defined(GEL_SIMPLE_CONFIG_INCLUSION) || PMAN_DATA_NULL /* the same code, its configuration included another way or with other types */
    CFG("full-pages", 0x03, 0, 1, 0, 0);
    CFG("some-callbacks", 0x0c, 1, 1, 0, 0);
    CFG("others", 0x30, 0, 2, 0, 0);
    return;
#endif
    if (DEPTH > 3) { /* fewer kinds of pages */
        CFG("full-pages", 0x03, 0, 1, 8, 10);
        CFG("one-page", 0x01, 1, 1, 9, 12);
        return;
    }
    CFG("full-pages", 0x03, 1, 2, 0, 0);
#if defined(NDEBUG) || defined(GEL_PAGEMANAGER_UPDATE_CALLBACK)
    CFG("full-pages-arguments", 0x01, 3, 1, DEPTH > 2 ? 9 : 0, 0);
#else
    CFG("full-pages-arguments", 0x01, 3, 1, 0, 0);
#endif
    CFG("no-create-or-open", 0x0d, 0, 1, 0, 0);
    CFG("no-close-or-update", 0x31, 0, 1, 0, 0);
    CFG("all", 0x3f, 0, 1, 5, 0);
    CFG("all-arguments", 0x3f, 1, 1, 4, 5);
}
