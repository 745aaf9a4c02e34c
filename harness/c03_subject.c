#include "collections/queue.h"
#include "cont.h"
#define INST(N, T, CAP)                                                                                                \
    QUEUE_DECLARATION(N, T, CAP)                                                                                       \
    QUEUE_DEFINITION(N, T)                                                                                             \
    static void w_init_##N(void *q) { N##_init(q); }                                                                   \
    static long w_count_##N(void *q) { return (long)N##_count(q); }                                                    \
    static int  w_put_##N(void *q, void *i) { return N##_enqueue(q, i) == ENQUEUE_RESULT_SUCCESS; }                    \
    static int  w_get_##N(void *q, void *i) { return N##_dequeue(q, i) == DEQUEUE_RESULT_SUCCESS; }                    \
    static int  w_drop_##N(void *q) { return N##_drop(q) == DEQUEUE_RESULT_SUCCESS; }                                  \
    static int  w_empty_##N(void *q) { return N##_is_empty(q); }                                                       \
    static int  w_full_##N(void *q) { return N##_is_full(q); }
INST(q1, uint8_t, 1)
INST(q2, uint8_t, 2)
INST(q4, uint8_t, 4)
INST(q8, uint16_t, 4 + 4)
INST(q4s, item7, 4)
INST(q64, uint64_t, 1 << 6)
INST(q256, uint16_t, 256)
INST(q512, item7, 512)
INST(q32k, uint16_t, 32768)
INST(q1w, item24, 1)
INST(q2w, item300, 2)
INST(q2i, int, 2)
INST(q4d, double, 4)
INST(q2p, ptr, 2)
INST(q16, uint8_t, 16)
INST(q32, uint32_t, 32)
INST(q128, uint8_t, 128)
INST(q1k, uint8_t, 1024)
INST(q2k, item24, 2048)
INST(q4k, uint8_t, 4096)
INST(q8k, uint32_t, 8192)
INST(q16k, uint8_t, 16384)
#define ENT(N, T, CAP)                                                                                                 \
    { #N, CAP, sizeof(struct N), sizeof(T), w_init_##N, w_count_##N, w_put_##N, w_get_##N, 0, w_drop_##N, w_empty_##N, w_full_##N }
const cont_ops cont_tab[] = {ENT(q1, uint8_t, 1),
                             ENT(q2, uint8_t, 2),
                             ENT(q4, uint8_t, 4),
                             ENT(q8, uint16_t, 8),
                             ENT(q4s, item7, 4),
                             ENT(q64, uint64_t, 64),
                             ENT(q256, uint16_t, 256),
                             ENT(q512, item7, 512),
                             ENT(q32k, uint16_t, 32768),
                             ENT(q1w, item24, 1),
                             ENT(q2w, item300, 2),
                             ENT(q2i, int, 2),
                             ENT(q4d, double, 4),
                             ENT(q2p, ptr, 2),
                             ENT(q16, uint8_t, 16),
                             ENT(q32, uint32_t, 32),
                             ENT(q128, uint8_t, 128),
                             ENT(q1k, uint8_t, 1024),
                             ENT(q2k, item24, 2048),
                             ENT(q4k, uint8_t, 4096),
                             ENT(q8k, uint32_t, 8192),
                             ENT(q16k, uint8_t, 16384)};
const int      cont_n     = sizeof cont_tab / sizeof *cont_tab;
