/* The foreign side of C08: everything an integer of each width can go through in C. */
#include <stddef.h>
#include <stdint.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;
#define SIDE(T) \
struct rec_##T { u8 a; T s; u16 b; T t; u8 c; }; \
struct pair_##T { T s; u8 k; }; \
static T id_##T(T x) { return x; } \
static T not_##T(T x) { return (T)~x; } \
static T bin_##T(int op, T x, T y) { switch (op) { case 0: return x | y; case 1: return x & y; case 2: return x & (T)~y; default: return x ^ y; } } \
static int has_##T(T x, u32 d) { return (int)(x >> d & 1); } \
static void upd_##T(T *p, T add, T del) { *p = (T)((*p | add) & (T)~del); } \
static T nth_##T(const T *a, size_t n, size_t i) { return i < n ? a[i] : 0; } \
static void fill_##T(T *a, size_t n, T v) { for (size_t i = 0; i < n; i++) a[i] = (i & 1) ? (T)~v : v; } \
static T many_##T(T a, u8 p, T b, double d, T c, u64 q, T e, float f, T g, T h, u16 r, T i, T j, T k) { \
  (void)d; (void)f; T v[9] = {a, b, c, e, g, h, i, j, k}; return v[(p + q + r) % 9]; } \
static struct rec_##T turn_##T(struct rec_##T x) { struct rec_##T y = {x.c, x.t, (u16)~x.b, x.s, x.a}; return y; } \
static struct pair_##T flip_##T(struct pair_##T x) { x.s = (T)~x.s; x.k++; return x; } \
static u32 where_##T(const struct rec_##T *r) { (void)r; return (u32)(offsetof(struct rec_##T, s) | offsetof(struct rec_##T, b) << 8 | offsetof(struct rec_##T, t) << 16 | sizeof(struct rec_##T) << 24); } \
static T call_##T(T (*f)(T, void *), T x, void *env) { return f((T)(x), env); } \
static u32 dims_##T(void) { return (u32)(sizeof(T) | _Alignof(T) << 8); } \
static u64 sum_##T(T x, u64 *hi) { u128 v = x; *hi = (u64)(v >> 64); return (u64)v; } \
const struct { void *f[14]; } vh_table_##T = {{ (void*)id_##T, (void*)not_##T, (void*)bin_##T, (void*)has_##T, (void*)upd_##T, (void*)nth_##T, \
  (void*)fill_##T, (void*)many_##T, (void*)turn_##T, (void*)flip_##T, (void*)where_##T, (void*)call_##T, (void*)dims_##T, (void*)sum_##T }};
SIDE(u8) SIDE(u16) SIDE(u32) SIDE(u64) SIDE(u128)
