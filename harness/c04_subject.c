#include "collections/stack.h"
#include "cont.h"
#define INST(N, T, CAP)                                                                                                \
    STACK_DECLARATION(N, T, CAP)                                                                                       \
    STACK_DEFINITION(N, T)                                                                                             \
    static void w_init_##N(void *q) { N##_init(q); }                                                                   \
    static int  w_put_##N(void *q, void *i) { return N##_push(q, i) == PUSH_RESULT_SUCCESS; }                          \
    static int  w_get_##N(void *q, void *i) { return N##_pop(q, i) == POP_RESULT_SUCCESS; }                            \
    static int  w_peek_##N(void *q, void *i) { return N##_peek(q, i) == POP_RESULT_SUCCESS; }                          \
    static int  w_drop_##N(void *q) { N##_dequeue(q); return 1; }                                                      \
    static int  w_empty_##N(void *q) { return N##_is_empty(q); }                                                       \
    static int  w_full_##N(void *q) { return N##_is_full(q); }
INST(s1, uint8_t, 1)
INST(s2, uint8_t, 2)
INST(s3, uint8_t, 3)
INST(s5, uint16_t, 5)
INST(s6, uint8_t, 2 + 4)
INST(s4s, item7, 4)
INST(s256, uint16_t, 256)
INST(s300, item7, 300)
INST(s40k, uint16_t, 40000)
INST(s64k, uint8_t, 65535)
INST(s2w, item24, 2)
INST(s2ww, item300, 2)
INST(s3i, int, 3)
INST(s4d, double, 4)
INST(s2p, ptr, 2)
INST(s7b, uint64_t, 7)
INST(s8b, uint8_t, 8)
INST(s9b, uint16_t, 9)
INST(s10b, uint32_t, 10)
INST(s12b, uint8_t, 12)
INST(s15b, uint64_t, 15)
INST(s16b, uint8_t, 16)
INST(s17b, uint16_t, 17)
INST(s31b, uint64_t, 31)
INST(s32b, uint8_t, 32)
INST(s33b, uint16_t, 33)
INST(s64b, uint8_t, 64)
INST(s65b, uint16_t, 1 | 64)
INST(s100b, uint8_t, 100)
INST(s127b, uint64_t, 127)
INST(s128b, uint8_t, 128)
INST(s129b, uint16_t, 129)
INST(s200b, uint8_t, 200)
INST(s255b, uint64_t, 255)
INST(s257b, uint16_t, 257)
INST(s1000b, uint8_t, 1000)
#define ENT(N, T, CAP)                                                                                                 \
    { #N, CAP, sizeof(struct N), sizeof(T), w_init_##N, 0, w_put_##N, w_get_##N, w_peek_##N, w_drop_##N, w_empty_##N, w_full_##N }
const cont_ops cont_tab[] = {ENT(s1, uint8_t, 1),
                             ENT(s2, uint8_t, 2),
                             ENT(s3, uint8_t, 3),
                             ENT(s5, uint16_t, 5),
                             ENT(s6, uint8_t, 6),
                             ENT(s4s, item7, 4),
                             ENT(s256, uint16_t, 256),
                             ENT(s300, item7, 300),
                             ENT(s40k, uint16_t, 40000),
                             ENT(s64k, uint8_t, 65535),
                             ENT(s2w, item24, 2),
                             ENT(s2ww, item300, 2),
                             ENT(s3i, int, 3),
                             ENT(s4d, double, 4),
                             ENT(s2p, ptr, 2),
                             ENT(s7b, uint64_t, 7),
                             ENT(s8b, uint8_t, 8),
                             ENT(s9b, uint16_t, 9),
                             ENT(s10b, uint32_t, 10),
                             ENT(s12b, uint8_t, 12),
                             ENT(s15b, uint64_t, 15),
                             ENT(s16b, uint8_t, 16),
                             ENT(s17b, uint16_t, 17),
                             ENT(s31b, uint64_t, 31),
                             ENT(s32b, uint8_t, 32),
                             ENT(s33b, uint16_t, 33),
                             ENT(s64b, uint8_t, 64),
                             ENT(s65b, uint16_t, 65),
                             ENT(s100b, uint8_t, 100),
                             ENT(s127b, uint64_t, 127),
                             ENT(s128b, uint8_t, 128),
                             ENT(s129b, uint16_t, 129),
                             ENT(s200b, uint8_t, 200),
                             ENT(s255b, uint64_t, 255),
                             ENT(s257b, uint16_t, 257),
                             ENT(s1000b, uint8_t, 1000)};
const int      cont_n     = sizeof cont_tab / sizeof *cont_tab;
