#include "c31.h"
#define F(id, field, T) static struct_update_t m_##id(obj_t *o, void *src) { T *v = src; obj_t object = *o; return STRUCT_UPDATE(object, field, *v); }
#define FP(id, field, T) static struct_update_t m_##id(obj_t *o, void *src) { T v; memcpy(&v, src, sizeof v); struct_update_t u = STRUCT_UPDATE((*o), field, v); memset(&v, 0x99, sizeof v); return u; }
#define A(id, field, T, expr, len) static struct_update_t m_##id(obj_t *o, void *src) { T *v = src; int two = 2, one = 1; (void)one; (void)two; struct_update_t u = src ? STRUCT_UPDATE_ARRAY((*o), field, expr, len) : (struct_update_t){0}; return u; }
F(a, a, uint8_t) FP(d, d, uint64_t) F(a2, a2, uint8_t) FP(b, b, uint16_t) F(c, c, uint32_t) F(f, f, double) FP(p, p, const char *)
F(in, in, inner_t) FP(iny, in.y, uint32_t) F(inz, in.z, uint16_t) FP(arr1, arr[1], uint16_t) F(byte2, bytes[2], uint8_t)
A(arr, arr, uint16_t, v, 4) A(arr2, arr, uint16_t, v, two) A(arr3, arr, uint16_t, v, one + two) A(arrfrom, arr[1], uint16_t, v, 3) A(arrptr, arr, uint16_t, v + 1, 2 + 1) A(bytes, bytes, uint8_t, v, 3) A(none, arr, uint16_t, v, 0) A(cond, bytes, uint8_t, v, one ? 2 : 3)
#define R(id, field, n, T) {#id, offsetof(obj_t, field), sizeof(T) * (n), m_##id}
const field_t fields[] = {R(a, a, 1, uint8_t), R(d, d, 1, uint64_t), R(a2, a2, 1, uint8_t), R(b, b, 1, uint16_t), R(c, c, 1, uint32_t), R(f, f, 1, double), R(p, p, 1, const char *),
    R(in, in, 1, inner_t), R(iny, in.y, 1, uint32_t), R(inz, in.z, 1, uint16_t), R(arr1, arr[1], 1, uint16_t), R(byte2, bytes[2], 1, uint8_t),
    R(arr, arr, 4, uint16_t), R(arr2, arr, 2, uint16_t), R(arr3, arr, 3, uint16_t), R(arrfrom, arr[1], 3, uint16_t), R(arrptr, arr, 3, uint16_t), R(bytes, bytes, 3, uint8_t), R(none, arr, 0, uint16_t), R(cond, bytes, 2, uint8_t)};
const int nfields = sizeof(fields) / sizeof(*fields);
/* values converted to the type of the field */
const int nliterals = 10;
struct_update_t literal(int k, obj_t *o) {
    obj_t object = *o;
    int   minus = -2;
    switch (k) {
        case 0: return STRUCT_UPDATE(object, a, 300);
        case 1: return STRUCT_UPDATE(object, d, 1);
        case 2: return STRUCT_UPDATE(object, b, minus);
        case 3: return STRUCT_UPDATE(object, f, minus);
        case 4: return STRUCT_UPDATE(object, c, o->a ? 7 : 70000);
        case 5: return STRUCT_UPDATE(object, d, minus - 1);
        case 6: { /* names the macros might use themselves */
            int _value = 77;
            return STRUCT_UPDATE(object, c, _value);
        }
        case 8: { /* arguments with an effect are evaluated once */
            uint32_t n = 40;
            return STRUCT_UPDATE(object, c, n++ > 40 ? 99 : n);
        }
        case 9: {
            uint16_t from[4] = {0x1011, 0x1213, 0x1415, 0x1617}, *p = from, n = 2;
            return STRUCT_UPDATE_ARRAY((*o), arr, p++, n++);
        }
        default: {
            uint8_t value[2] = {5, 6}, _value = 9, update = 3;
            int     array = 1, length = 0, offset = 1, size = 1, data = 2;
            return array + offset + size + data > length ? STRUCT_UPDATE(object, a, update + value[1] + _value) : (struct_update_t){0};
        }
    }
}
size_t literal_bytes(int k, size_t *offset, void *bytes) {
    obj_t t = {0};
    switch (k) {
        case 0: t.a = (uint8_t)300, *offset = offsetof(obj_t, a), memcpy(bytes, &t.a, 1); return 1;
        case 1: t.d = 1, *offset = offsetof(obj_t, d), memcpy(bytes, &t.d, 8); return 8;
        case 2: t.b = (uint16_t)-2, *offset = offsetof(obj_t, b), memcpy(bytes, &t.b, 2); return 2;
        case 3: t.f = -2, *offset = offsetof(obj_t, f), memcpy(bytes, &t.f, 8); return 8;
        case 4: t.c = 0, *offset = offsetof(obj_t, c); return 4; /* caller knows a */
        case 5: t.d = (uint64_t)-3, *offset = offsetof(obj_t, d), memcpy(bytes, &t.d, 8); return 8;
        case 6: t.c = 77, *offset = offsetof(obj_t, c), memcpy(bytes, &t.c, 4); return 4;
        case 8: t.c = 41, *offset = offsetof(obj_t, c), memcpy(bytes, &t.c, 4); return 4;
        case 9: t.arr[0] = 0x1011, t.arr[1] = 0x1213, *offset = offsetof(obj_t, arr), memcpy(bytes, t.arr, 4); return 4;
        default: t.a = 18, *offset = offsetof(obj_t, a), memcpy(bytes, &t.a, 1); return 1;
    }
}
