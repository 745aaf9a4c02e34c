#if LAYOUT == 2
#include <stddef.h>
#include "collections/listx.h"
#else /* with the header's own offsetof and NULL */
typedef __SIZE_TYPE__ size_t;
#include "collections/listx.h"
#endif
#include "c05.h"
/* layouts with the link at different offsets */
struct item {
#if LAYOUT == 1
    char pad[13];
#endif
#if LAYOUT == 3
    char pad[70000];
#endif
#if LAYOUT == 2
    struct list_head other;
    int              id;
#endif
    struct list_head link;
#if LAYOUT != 2
    int id;
#endif
    char tail[5];
};
const size_t l_item_size = sizeof(struct item), l_head_size = sizeof(struct list_head), l_link_off = __builtin_offsetof(struct item, link);
#define H(x) ((struct list_head *)(x))
#define I(x) ((struct item *)(x))
/* lists and links are given to the macros as expressions */
static volatile int yes = 1;
#define HE(x) yes ? H(x) : (struct list_head *)0
void  l_init(void *h) { INIT_LIST_HEAD(H(h)); }
void  l_static(void *h) {
    struct list_head *p = h, t = LIST_HEAD_INIT(*p);
    *p = t;
}
int l_declared(void) {
    static LIST_HEAD(fixed);
    LIST_HEAD(local);
    return list_empty(&fixed) && fixed.prev == &fixed && list_empty(&local) && local.prev == &local;
}
void  l_setid(void *i, int id) { I(i)->id = id; }
int   l_id(void *i) { return I(i)->id; }
void *l_link(void *i) { return &I(i)->link; }
void  l_add(void *n, void *h) { list_add(H(n), H(h)); }
void  l_add_tail(void *n, void *h) { list_add_tail(H(n), H(h)); }
void  l_del(void *n) { list_del(H(n)); }
int   l_is_last(void *n, void *h) { return list_is_last(H(n), H(h)); }
int   l_empty(void *h) { return list_empty(H(h)); }
void *l_next(void *h) { return list_next(H(h)); }
void *l_prev(void *h) { return list_prev(H(h)); }
void *l_container(void *l) { return container_of(HE(l), struct item, link); }
int   l_walk(void *h, int how, void **out, int max) {
    struct list_head *p;
    struct item      *e;
    int               n = 0;
    switch (how) {
        case 0:
            list_for_each(p, HE(h)) {
                if (n >= max)
                    return -1;
                out[n++] = container_of(p, struct item, link);
            }
            break;
        case 1:
            list_for_each_prev(p, HE(h)) {
                if (n >= max)
                    return -1;
                out[n++] = container_of(p, struct item, link);
            }
            break;
        case 2:
            list_for_each_entry(e, HE(h), link) {
                if (n >= max)
                    return -1;
                out[n++] = e;
            }
            break;
        case 3:
            list_for_each_entry_reverse(e, HE(h), link) {
                if (n >= max)
                    return -1;
                out[n++] = e;
            }
            break;
    }
    return n;
}
