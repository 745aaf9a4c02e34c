/* C31: recorded updates of structure fields: made, applied, freed in every order. */
#include "mc.h"
#include "c31.h"
#include <string.h>
#include <sys/mman.h>
enum { SLOTS = 3, SRC = 32 };
typedef struct {
    int     live;
    int     off, size;
    uint8_t val[SRC];
} upd_t;
static struct {
    upd_t   u[SLOTS];
    uint8_t obj[2][sizeof(obj_t)];
    int     live;
} M;
static struct_update_t *up;      /* SLOTS of them */
static uint8_t         *src;     /* what updates are made from, overwritten afterwards */
static obj_t           *obj[2];
static int              picks[32], npicks;
static void             setup(void) {
    mc_heap_setup(4, 64);
    up = mc_alloc(SLOTS * sizeof *up, 1);
    for (int i = 0; i < 2; i++)
        obj[i] = mc_alloc(sizeof(obj_t), 1);
    mc_region(&M, sizeof M, 1);
    for (int i = 0; i < nfields; i++)
        if (mc_cfg->p[0] >> i & 1)
            picks[npicks++] = i;
}
static void init(void) {
    for (int i = 0; i < 2; i++) {
        memset(obj[i], i ? 0xf0 : 0x0f, sizeof(obj_t));
        memcpy(M.obj[i], obj[i], sizeof(obj_t));
    }
    memset(up, 0, SLOTS * sizeof *up);
}
static void look(void) {
    for (int i = 0; i < 2; i++)
        for (unsigned k = 0; k < sizeof(obj_t); k++)
            mc_check(((uint8_t *)obj[i])[k] == M.obj[i][k], "byte %u of object %d is %#x, not %#x", k, i, ((uint8_t *)obj[i])[k], M.obj[i][k]);
    mc_check(M.live || mc_heap_live() == 0, "%d blocks of memory are in use, but every update was freed", mc_heap_live());
    mc_heap_check();
}
static void fill(uint8_t *p, int n, int v) {
    for (int i = 0; i < n; i++)
        p[i] = v == 0 ? 0 : v == 1 ? 0xff - i : 16 + i;
}
static void step(void) {
    int op = mc_choose(3), s = mc_choose(mc_cfg->p[2]);
    upd_t *u = &M.u[s];
    static uint8_t bytes[SRC] __attribute__((aligned(16)));
    src = bytes;
    if (op == 0) { /* make */
        if (u->live)
            mc_prune();
        memset(u, 0, sizeof *u);
        int lits = mc_cfg->p[3] ? nliterals : 0, c = mc_choose(npicks * mc_cfg->p[1] + lits);
        if (c < npicks * mc_cfg->p[1]) {
            int            f = picks[c / mc_cfg->p[1]], v = c % mc_cfg->p[1];
            const field_t *F = &fields[f];
            int            shift = !strcmp(F->name, "arrptr") ? 2 : 0;
            mc_label("update %d: %s with value %d", s, F->name, v);
            fill(src, SRC, 2);
            fill(src + shift, F->size, v);
            u->off = F->offset, u->size = F->size;
            memcpy(u->val, src + shift, F->size);
            up[s] = F->make(obj[s & 1], src);
        } else {
            size_t off;
            int    k = c - npicks * mc_cfg->p[1];
            u->size = literal_bytes(k, &off, u->val), u->off = off;
            if (k == 4) {
                uint32_t w = obj[0]->a ? 7 : 70000;
                memcpy(u->val, &w, 4);
            }
            mc_label("update %d: literal %d", s, k);
            up[s] = literal(k, obj[0]);
        }
        __builtin_clear_padding(&up[s]);
        memset(src, 0x66, SRC);
        u->live = 1, M.live++;
    } else if (op == 1) { /* apply */
        if (!u->live)
            mc_prune();
        int o = mc_choose(2);
        mc_label("apply update %d to object %d", s, o);
        memcpy(M.obj[o] + u->off, u->val, u->size);
        struct_update_apply(obj[o], up[s]);
        MC_COVER("applied");
    } else {
        if (!u->live)
            mc_prune();
        mc_label("free update %d", s);
        struct_update_free(up[s]);
        memset(u, 0, sizeof *u), memset(&up[s], 0, sizeof up[s]);
        M.live--;
    }
    mc_evals++;
    look();
}
/* updates of every size at several places of a large object, with a zero byte (or the only other byte) anywhere */
enum { BIG = 300 };
static uint8_t *big, *from;
static void     big_setup(void) {
    mc_heap_setup(4, 512);
    big  = mc_alloc(BIG, 0);
    from = mc_alloc(BIG, 0);
}
static void big_init(void) {}
static void big_step(void) {
    static const int places[] = {0, 1, 3, 8, 100, 256};
    unsigned         size = mc_choose(BIG + 1), place = places[mc_choose(6)], kind = mc_choose(3);
    if (place + size > BIG)
        place = BIG - size;
    for (unsigned z = 0; z <= size; z++) {
        if (!mc_thorough && size > 40 && z > 20 && z + 20 < size && z % 16 > 1)
            continue;
        for (unsigned i = 0; i < BIG; i++) {
            from[i] = kind == 0 ? 1 + i % 251 : kind == 1 ? 0 : 0xff - i % 5;
            big[i]  = 0xA0 ^ (i & 15);
        }
        if (z < size)
            from[BIG - size + z] = kind == 1 ? 0x80 : 0;
        mc_label("%u bytes at %u, kind %u, byte %u different", size, place, kind, z);
        struct_update_t u = struct_update_from_data(place, from + BIG - size, size);
        uint8_t         was[BIG];
        mc_copy(was, from + BIG - size, size);
        memset(from, 0x5a, BIG);
        for (int twice = 0; twice < 2; twice++) {
            struct_update_apply(big, u);
            for (unsigned i = 0; i < BIG; i++) {
                uint8_t want = i >= place && i < place + size ? was[i - place] : 0xA0 ^ (i & 15);
                mc_check(big[i] == want, "byte %u of the object is %#x, not %#x", i, big[i], want);
            }
            memset(big + place, 0x33, size);
        }
        struct_update_free(u);
        mc_check(mc_heap_live() == 0, "memory is still in use");
        mc_heap_check();
        mc_evals++;
        mc_progress();
    }
}
/* the same far from the start of the object, and with long fields */
static uint8_t *far;
static size_t   far_at[] = {0xffff, 0x10000, 0x1000f, 0x7ffffff0, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x123456789}, lens[] = {1, 8, 255, 256, 32767, 32768, 65535, 65536, 65537, 70000};
static void far_setup(void) {
    mc_heap_setup(4, 70016);
    far  = mmap(NULL, 0x140000000, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    from = mc_alloc(70000, 0);
    if (far == MAP_FAILED)
        mc_fail("no address space");
    for (int i = 0; i < 9; i++)
        mprotect(far + ((far_at[i] - 64) & ~4095ul), 0x13000, PROT_READ | PROT_WRITE);
}
static void far_step(void) {
    size_t at = far_at[mc_choose(9)], len = lens[mc_choose(10)];
    memset(far + at - 64, 0x11, len + 128);
    for (size_t i = 0; i < len; i++)
        from[i] = 3 + i % 251;
    mc_label("%zu bytes at %#zx", len, at);
    struct_update_t u = struct_update_from_data(at, from, len);
    memset(from, 0x5a, len);
    struct_update_apply(far, u);
    struct_update_free(u);
    for (size_t i = 0; i < len + 128; i++)
        mc_check(far[at - 64 + i] == (i < 64 || i >= len + 64 ? 0x11 : 3 + (i - 64) % 251), "byte %zu of the object is %#x", at - 64 + i, far[at - 64 + i]);
    mc_check(mc_heap_live() == 0, "memory is still in use");
    mc_evals++;
}
/* another object of the same kind, used before every step: it must not matter */
static void other(void) {
    obj_t           x;
    uint8_t         v[64];
    memset(v, 0x66, sizeof v);
    struct_update_t u = fields[1].make(&x, v);
    struct_update_apply(&x, u), struct_update_free(u);
}
void mc_register(void) {
    mc_other = other;
    mc_add("sizes", big_setup, big_init, big_step, 1, 1);
    mc_add("far", far_setup, big_init, far_step, 1, 1);
    mc_config *m;
#define CFG(name, mask, values, slots, lit, q, t) do { m = mc_add(name, setup, init, step, q, t); m->p[0] = mask; m->p[1] = values; m->p[2] = slots; m->p[3] = lit; } while (0)
    CFG("scalars", 0x0000f, 2, 2, 0, 0, 0);
    CFG("wide-scalars", 0x00070, 2, 2, 1, 8, 8);
    CFG("inner", 0x00780, 2, 2, 0, 0, 0);
    CFG("arrays", 0xfe800, 2, 2, 0, 8, 9);
    CFG("three", 0x09003, 2, 3, 0, 7, 7);
    CFG("everything", 0xfffff, 3, 2, 1, 4, 4);
}
