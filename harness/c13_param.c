/* C13: count and enumeration by access level. */
#include "param.h"
#ifdef MANY
#define NP 300
#else
#define NP 5
#endif
static parameter_handle_t *ps;
static uint8_t            *val;
static int                 np, nhook;
static struct {
    unsigned level[NP], env[NP];
    uint8_t  hook[NP];
} *m;
static parameter_handle_t p0[NP];
static const unsigned     lv[] = {0, 1, 2, 3, 0x80000000u, 0x10000u, 0x7fffffffu, 0xffffffffu}, al[] = {0, 1, 2, 4, 0x80000000u, 0xffffffffu, 0x10001u, 3};
static void hook(parameter_handle_t *p, void *arg) {
    int i = (unsigned *)arg - m->env;
    mc_check(i >= 0 && i < np && p == &ps[i], "hook called with another parameter or argument");
    p->access_level = m->env[i];
    other(); /* the hook uses another list */
}
static void setup(void) {
    np    = mc_cfg->p[0];
    nhook = mc_cfg->p[2];
    ps    = mc_alloc(np * sizeof *ps, 1);
    val   = mc_alloc(NP + 11, 1);
    m     = mc_alloc(sizeof *m, 1);
}
static void init(void) {
    memset(ps, 0, np * sizeof *ps);
    memset(m, 0, sizeof *m);
    memset(val, 0x44, NP + 11);
    for (int i = 0; i < np; i++) {
        ps[i].type    = i % 2 ? PARAMETER_TYPE_INT8 : PARAMETER_TYPE_UINT8;
        ps[i].pointer = val + i;
#ifdef MANY
        m->hook[i] = i % 50 == 49;
#else
        m->hook[i]    = i < nhook ? mc_choose(2) : 0;
#endif
        if (m->hook[i]) {
            ps[i].runtime = hook;
            ps[i].arg     = &m->env[i];
            m->env[i]     = 1;
        } else
#ifdef MANY
            m->level[i] = ps[i].access_level = i % 3;
#else
            m->level[i] = ps[i].access_level = lv[mc_choose(mc_cfg->p[1])];
#endif
        ps[i].data = &ps[i];
    }
}
static int accessible(int i, unsigned a) {
    unsigned l = m->hook[i] ? m->env[i] : m->level[i];
    return l == 0 || (l & a);
}
static void step(void) {
    int op = mc_choose(3), n = 0;
    if (op == 0) {
#ifdef MANY
        int i = 50 * mc_choose(6) + 49;
#else
        int i = mc_choose(np);
#endif
        if (!m->hook[i])
            mc_prune();
        m->env[i] = lv[mc_choose(mc_cfg->p[1])];
        mc_label("the hook of parameter %d will set level 0x%x", i, m->env[i]);
        return;
    }
    unsigned a = al[NP > 5 ? 7 - mc_choose(4) : mc_choose(8)];
    memcpy(p0, ps, np * sizeof *ps);
    for (int i = 0; i < np; i++)
        n += accessible(i, a);
    if (op == 1) {
        mc_label("count with level 0x%x", a);
        size_t c = parameter_get_count(ps, np, a);
        mc_check(c == (size_t)n, "count for level 0x%x is %zu with %d accessible of %d", a, c, n, np);
    } else {
#ifdef MANY
        static const int w[] = {0, 1, 99, 127, 128, 198, 199, 200, 254, 255, 256, 257, 298, 299};
        int num = w[mc_choose(14)];
#elif defined NDEBUG
        int num = mc_choose(np + 2);
#else
        int num = mc_choose(np);
#endif
        int i = -1, k = num;
        for (int j = 0; j < np && i < 0; j++)
            if (accessible(j, a) && k-- == 0)
                i = j;
        mc_label("get %d with level 0x%x", num, a);
        parameter_handle_t *r = parameter_get_handle(ps, np, num, a);
        mc_check(r == (i < 0 ? NULL : &ps[i]), "parameter %d for level 0x%x is %ld instead of %d (%d accessible of %d)", num, a, r ? (long)(r - ps) : -1, i, n, np);
        if (r)
            mc_check(parameter_get_user_data(r) == &ps[i], "wrong user data");
    }
    for (int i = 0; i < np; i++) {
        if (m->hook[i])
            p0[i].access_level = ps[i].access_level;
        mc_check(!memcmp(&p0[i], &ps[i], sizeof *ps), "access changed a parameter");
    }
    for (int i = 0; i < NP + 11; i++)
        mc_check(val[i] == 0x44, "access changed a value");
}
void mc_register(void) {
    mc_other = other;
#ifdef MANY
    mc_config *many = mc_add("params300", setup, init, step, 3, 4);
    many->p[0] = 300, many->p[1] = 5;
    return;
#endif
    static const int t[][5] = {{1, 8, 1, 0, 0}, {2, 8, 2, 0, 0}, {3, 5, 3, 0, 0}, {4, 5, 1, 0, 0}, {4, 4, 2, 0, 0}, {5, 3, 1, 0, 0}, {3, 8, 3, -1, 0}, {4, 5, 4, -1, 0}, {5, 5, 2, -1, 0}};
    for (int i = 0; i < 9; i++) {
        char b[40];
        snprintf(b, sizeof b, "params%d-levels%d-hooks%d", t[i][0], t[i][1], t[i][2]);
        mc_config *c = mc_add(b, setup, init, step, t[i][3], t[i][4]);
        c->p[0] = t[i][0], c->p[1] = t[i][1], c->p[2] = t[i][2];
    }
}
