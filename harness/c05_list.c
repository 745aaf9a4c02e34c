/* C05: the intrusive list is a consistent ring with exactly the linked items. */
#include "mc.h"
#include "c05.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef MANY
#define NI 300
#else
#define NI 8
#endif
#define NL 3
static int   ni, nl;
static void *item[NI], *head[NL];
static struct {
    int16_t n[NL], seq[NL][NI];
} *m;
static void check(void) {
    void *out[NI + 2];
    for (int l = 0; l < nl; l++) {
        int n = m->n[l];
        mc_check(!!l_empty(head[l]) == (n == 0), "list %d with %d items: empty test wrong", l, n);
        for (int how = 0; how < 4; how++) {
            int k = l_walk(head[l], how, out, NI + 1);
            mc_check(k == n, "list %d: walk %d visits %d items instead of %d", l, how, k, n);
            for (int i = 0; i < n; i++)
                mc_check(out[i] == item[m->seq[l][how & 1 ? n - 1 - i : i]], "list %d: walk %d visits a wrong item at position %d of %d", l, how, i, n);
        }
        mc_check(l_next(head[l]) == (n ? l_link(item[m->seq[l][0]]) : NULL), "list %d: next of the head is wrong", l);
        mc_check(l_prev(head[l]) == (n ? l_link(item[m->seq[l][n - 1]]) : NULL), "list %d: previous of the head is wrong", l);
        for (int i = 0; i < n; i++) {
            void *k = l_link(item[m->seq[l][i]]);
            mc_check((char *)k == (char *)item[m->seq[l][i]] + l_link_off && l_container(k) == item[m->seq[l][i]], "item-from-link conversion is wrong");
            mc_check(l_next(k) == (i + 1 < n ? l_link(item[m->seq[l][i + 1]]) : head[l]), "next of item %d of %d is wrong", i, n);
            mc_check(l_prev(k) == (i ? l_link(item[m->seq[l][i - 1]]) : head[l]), "previous of item %d of %d is wrong", i, n);
            mc_check(!l_empty(k), "item in a list considered an empty list");
            for (int x = 0; x < nl; x++)
                mc_check(!!l_is_last(k, head[x]) == (x == l && i == n - 1), "last-item test wrong for item %d of %d", i, n);
        }
    }
    for (int i = 0; i < ni; i++)
        mc_check(l_id(item[i]) == i * 77 + 5, "content of item %d was changed", i);
}
static void poison(int i) { /* memory of an unlinked item is the user's own */
    memset(l_link(item[i]), 0xD5, l_head_size);
}
static void setup(void) {
    ni = mc_cfg->p[0];
    nl = mc_cfg->p[1];
#ifdef MANY
    char *block = mc_alloc(NI * l_item_size, 1);
#endif
    for (int i = 0; i < ni; i++)
#ifdef MANY
        item[i] = block + i * l_item_size;
#else
        if (l_link_off < 1000)
            item[i] = mc_alloc(l_item_size, 1);
        else { /* only the part behind the padding is state */
            item[i] = calloc(1, l_item_size);
            mc_region((char *)item[i] + l_link_off, l_item_size - l_link_off, 1);
        }
#endif
    for (int i = 0; i < nl; i++)
        head[i] = mc_alloc(l_head_size, 1);
    m = mc_alloc(sizeof *m, 1);
}
static void init(void) {
    memset(m, 0, sizeof *m);
    for (int i = 0; i < ni; i++) {
        mc_garbage(item[i], l_item_size, 0x99);
        l_setid(item[i], i * 77 + 5);
        poison(i);
    }
    mc_check(l_declared(), "a list declared with LIST_HEAD is not empty");
    int s = mc_choose(2);
    for (int i = 0; i < nl; i++) {
        mc_garbage(head[i], l_head_size, 0xE1);
        s ? l_static(head[i]) : l_init(head[i]);
    }
#ifdef MANY /* start with a long list and a short one */
    for (int i = 0; i < ni - 2; i++) {
        l_add_tail(l_link(item[i]), head[i % 100 == 99]);
        m->seq[i % 100 == 99][m->n[i % 100 == 99]++] = i;
    }
#endif
    check();
}
#ifdef MANY
static int place(int n) { /* a few of n places */
    static const int w[] = {0, 1, 2, 127, 128, 129, 255, 256, 257};
    int              k = 0, at[12];
    for (int i = 0; i < 9; i++)
        if (w[i] < n - 1)
            at[k++] = w[i];
    at[k++] = n - 1;
    return at[mc_choose(k)];
}
#else
#define place mc_choose
#endif
static void step(void) {
    int i = place(ni), l, p = -1;
    for (l = 0; l < nl; l++) {
        for (p = 0; p < m->n[l] && m->seq[l][p] != i; p++)
            ;
        if (p < m->n[l])
            break;
    }
    if (l < nl) {
        mc_label("remove item %d from list %d", i, l);
        l_del(l_link(item[i]));
        for (; p + 1 < m->n[l]; p++)
            m->seq[l][p] = m->seq[l][p + 1];
        m->seq[l][--m->n[l]] = 0;
        poison(i);
    } else {
        l        = mc_choose(nl);
        int tail = mc_choose(2), at = place(m->n[l] + 1); /* the head or next to an item */
        int pos  = at ? (tail ? at - 1 : at) : (tail ? m->n[l] : 0);
        void *where = at ? l_link(item[m->seq[l][at - 1]]) : head[l];
        mc_label("insert item %d in list %d %s %s %d", i, l, tail ? "before" : "after", at ? "position" : "head", at - 1);
        tail ? l_add_tail(l_link(item[i]), where) : l_add(l_link(item[i]), where);
        memmove(&m->seq[l][pos + 1], &m->seq[l][pos], (m->n[l] - pos) * sizeof m->seq[l][0]);
        m->seq[l][pos] = i;
        m->n[l]++;
    }
    check();
}
void mc_register(void) {
#ifdef MANY
    mc_config *k = mc_add("items300-lists2", setup, init, step, 3, 3);
    k->p[0] = NI, k->p[1] = 2;
    return;
#endif
    static const int t[][4] = {{5, 1, 0, 0}, {4, 3, 0, 0}, {5, 2, 0, 0}, {6, 2, 0, 0}, {6, 3, 0, 0}, {7, 1, 0, 0}, {7, 2, 0, 0}, {8, 1, -1, 0}, {8, 2, -1, 0}, {7, 3, -1, 0}};
    for (int i = 0; i < (int)(sizeof t / sizeof *t); i++) {
        char n[32];
        if (l_link_off >= 1000 && t[i][0] * t[i][1] > 6)
            continue;
        snprintf(n, sizeof n, "items%d-lists%d", t[i][0], t[i][1]);
        mc_config *c = mc_add(n, setup, init, step, t[i][2], t[i][3]);
        c->p[0]      = t[i][0];
        c->p[1]      = t[i][1];
    }
}
