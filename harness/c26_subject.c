#include "serializer/serializer.h"
#include "c26.h"
#define S(n, t) static size_t s_##n(uint8_t *b, uint64_t v) { return serialize_##n(b, (t)v); }
#define D(n, t) static size_t d_##n(uint64_t *o, uint8_t *b) { t x; size_t r = deserialize_##n(&x, b); *o = (uint64_t)(int64_t)x; if ((t)-1 > 0) *o = (uint64_t)x; return r; }
S(uint8, uint8_t) S(uint16_le, uint16_t) S(uint32_le, uint32_t) S(uint64_le, uint64_t) S(uint16_be, uint16_t) S(uint32_be, uint32_t) S(uint64_be, uint64_t)
D(uint8, uint8_t) D(uint16_le, uint16_t) D(uint32_le, uint32_t) D(uint64_le, uint64_t) D(uint16_be, uint16_t) D(uint32_be, uint32_t) D(uint64_be, uint64_t)
D(int8, int8_t) D(int16_le, int16_t) D(int32_le, int32_t) D(int64_le, int64_t) D(int16_be, int16_t) D(int32_be, int32_t) D(int64_be, int64_t)

/* the macros, with variables of every type; the names are those a caller would pick */
#define MP(macro, t, name) static size_t p_##macro##_##name(uint8_t *buf, uint64_t v) { t name = (t)v; return macro(buf, name); }
#define MU(macro, t, name) static size_t u_##macro##_##name(uint64_t *o, uint8_t *buf) { t name = (t)0x5a; size_t r = macro(name, buf); *o = (uint64_t)(int64_t)name; if ((t)-1 > 0) *o = (uint64_t)name; return r; }
#define EACH(X, m) X(m, uint8_t, a) X(m, int8_t, b) X(m, uint16_t, c) X(m, int16_t, d) X(m, uint32_t, e) X(m, int32_t, f) X(m, uint64_t, g) X(m, int64_t, h) X(m, uint16_t, tmp) X(m, uint32_t, size) X(m, uint64_t, var) X(m, uint64_t, buffer) X(m, size_t, val) X(m, int, i)
EACH(MP, PACK_UINT8) EACH(MP, PACK_UINT16_BE) EACH(MU, UNPACK_UINT8) EACH(MU, UNPACK_UINT16_BE) EACH(MU, UNPACK_UINT32_BE)
#define R(n, by, big) {#n, by, big, 0, s_##n, d_##n, by, 0}
#define RI(n, by, big) {#n, by, big, 1, 0, d_##n, by, 1}
#define RP(m, by, name, vb, vs) {#m " " #name, by, 1, 0, p_##m##_##name, 0, vb, vs}
#define RU(m, by, name, vb, vs) {#m " " #name, by, 1, 0, 0, u_##m##_##name, vb, vs}
#define ALLP(m, by) RP(m, by, a, 1, 0), RP(m, by, b, 1, 1), RP(m, by, c, 2, 0), RP(m, by, d, 2, 1), RP(m, by, e, 4, 0), RP(m, by, f, 4, 1), RP(m, by, g, 8, 0), RP(m, by, h, 8, 1), RP(m, by, tmp, 2, 0), RP(m, by, size, 4, 0), RP(m, by, var, 8, 0), RP(m, by, buffer, 8, 0), RP(m, by, val, 8, 0), RP(m, by, i, 4, 1)
#define ALLU(m, by) RU(m, by, a, 1, 0), RU(m, by, b, 1, 1), RU(m, by, c, 2, 0), RU(m, by, d, 2, 1), RU(m, by, e, 4, 0), RU(m, by, f, 4, 1), RU(m, by, g, 8, 0), RU(m, by, h, 8, 1), RU(m, by, tmp, 2, 0), RU(m, by, size, 4, 0), RU(m, by, var, 8, 0), RU(m, by, buffer, 8, 0), RU(m, by, val, 8, 0), RU(m, by, i, 4, 1)
const ser_t ser_table[] = {R(uint8, 1, 0), R(uint16_le, 2, 0), R(uint32_le, 4, 0), R(uint64_le, 8, 0), R(uint16_be, 2, 1), R(uint32_be, 4, 1), R(uint64_be, 8, 1),
    RI(int8, 1, 0), RI(int16_le, 2, 0), RI(int32_le, 4, 0), RI(int64_le, 8, 0), RI(int16_be, 2, 1), RI(int32_be, 4, 1), RI(int64_be, 8, 1),
    ALLP(PACK_UINT8, 1), ALLP(PACK_UINT16_BE, 2), ALLU(UNPACK_UINT8, 1), ALLU(UNPACK_UINT16_BE, 2), ALLU(UNPACK_UINT32_BE, 4)};
const int ser_count = sizeof(ser_table) / sizeof(*ser_table);

struct msg { uint8_t code; uint16_t reg; uint32_t val; };
/* a message built and parsed the way the library's users do: cursor into a buffer, fields of a structure, expressions */
int ser_context(uint8_t *buf, unsigned v) {
    struct msg m = {.code = (uint8_t)v, .reg = (uint16_t)(v >> 3), .val = v * 65537u}, r = {0};
    size_t     i = 0, j = 0;
    i += PACK_UINT8(&buf[i], m.code);
    i += PACK_UINT16_BE(buf + i, m.reg);
    i += PACK_UINT16_BE(&buf[i], m.val >> 16);
    i += PACK_UINT16_BE(&buf[i], m.val & 0xffff);
    i += PACK_UINT8(&buf[i], v ? m.code + 1 : 7);
    if (i != 8)
        return 1;
    j += UNPACK_UINT8(r.code, &buf[j]);
    j += UNPACK_UINT16_BE(r.reg, buf + j);
    j += UNPACK_UINT32_BE(r.val, &buf[j]);
    if (j != 7 || r.code != m.code || r.reg != m.reg || r.val != m.val)
        return 2;
    if (buf[7] != (uint8_t)(v ? m.code + 1 : 7))
        return 3;
    uint8_t *p = buf;
    size_t   n = PACK_UINT16_BE(p++, v); /* arguments with side effects are evaluated once */
    if (p != buf + 1 || n != 2 || buf[0] != (uint8_t)(v >> 8) || buf[1] != (uint8_t)v)
        return 4;
    uint16_t arr[2] = {0x1111, 0x2222};
    int      k      = 0;
    p               = buf;
    n               = UNPACK_UINT16_BE(arr[k++], p++);
    if (k != 1 || p != buf + 1 || n != 2 || arr[0] != (uint16_t)v || arr[1] != 0x2222)
        return 5;
    return 0;
}
