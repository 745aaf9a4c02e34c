#ifndef C05_H
#define C05_H
extern const size_t l_item_size, l_head_size, l_link_off;
void  l_init(void *h);
void  l_static(void *h);
int   l_declared(void);
void  l_setid(void *i, int id);
int   l_id(void *i);
void *l_link(void *i);
void  l_add(void *n, void *h);
void  l_add_tail(void *n, void *h);
void  l_del(void *n);
int   l_is_last(void *n, void *h);
int   l_empty(void *h);
void *l_next(void *h);
void *l_prev(void *h);
void *l_container(void *l);
int   l_walk(void *h, int how, void **out, int max);
#endif
