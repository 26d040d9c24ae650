// Emulation of the NEON intrinsics the code under test uses (and their
// neighbours), with the vector extensions of GCC and Clang, following the
// semantics in the Arm C language extensions. Little-endian lane order.
#pragma once
#include <stdint.h>
#include <string.h>

typedef uint8_t uint8x8_t __attribute__((vector_size(8)));
typedef uint16_t uint16x4_t __attribute__((vector_size(8)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
typedef uint64_t uint64x1_t __attribute__((vector_size(8)));
typedef uint8_t uint8x16_t __attribute__((vector_size(16)));
typedef uint16_t uint16x8_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef uint64_t uint64x2_t __attribute__((vector_size(16)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef int64_t int64x2_t __attribute__((vector_size(16)));
typedef struct { uint32x4_t val[2]; } uint32x4x2_t;
typedef struct { uint32x4_t val[3]; } uint32x4x3_t;
typedef struct { uint32x4_t val[4]; } uint32x4x4_t;
typedef struct { uint64x2_t val[2]; } uint64x2x2_t;
typedef struct { uint32x2_t val[2]; } uint32x2x2_t;

#define EMU static inline __attribute__((always_inline, unused))

#define EMU_TYPE(T, V, S, N)                                                  \
  EMU V vld1q_##S(const T *p) { V x; memcpy(&x, p, 16); return x; }            \
  EMU void vst1q_##S(T *p, V x) { memcpy(p, &x, 16); }                         \
  EMU V vdupq_n_##S(T a) { V x; for (int i = 0; i < N; i++) x[i] = a; return x; } \
  EMU V vmovq_n_##S(T a) { return vdupq_n_##S(a); }                            \
  EMU V vld1q_dup_##S(const T *p) { return vdupq_n_##S(*p); }                  \
  EMU V vaddq_##S(V a, V b) { return a + b; }                                  \
  EMU V vsubq_##S(V a, V b) { return a - b; }                                  \
  EMU V veorq_##S(V a, V b) { return a ^ b; }                                  \
  EMU V vorrq_##S(V a, V b) { return a | b; }                                  \
  EMU V vandq_##S(V a, V b) { return a & b; }                                  \
  EMU V vbicq_##S(V a, V b) { return a & ~b; }                                 \
  EMU V vmvnq_##S(V a) { return ~a; }                                          \
  EMU V vshrq_n_##S(V a, int n) { return n >= (int)(8 * sizeof(T)) ? a ^ a : a >> (T)n; } \
  EMU V vshlq_n_##S(V a, int n) { return a << (T)n; }                             \
  EMU V vsriq_n_##S(V a, V b, int n) {                                         \
    if (n >= (int)(8 * sizeof(T))) return a;                                   \
    V keep = vdupq_n_##S((T)(n == 0 ? 0 : ~(((T)~(T)0) >> n)));                \
    return (a & keep) | (b >> (T)n);                                              \
  }                                                                            \
  EMU V vsliq_n_##S(V a, V b, int n) {                                         \
    V keep = vdupq_n_##S((T)((((T)1) << n) - 1));                              \
    return (a & keep) | (b << (T)n);                                              \
  }                                                                            \
  EMU T vgetq_lane_##S(V a, int i) { return a[i]; }                            \
  EMU V vsetq_lane_##S(T v, V a, int i) { a[i] = v; return a; }                \
  EMU V vextq_##S(V a, V b, int n) {                                           \
    V x; for (int i = 0; i < N; i++) x[i] = i + n < N ? a[i + n] : b[i + n - N]; return x; } \
  EMU V vtrn1q_##S(V a, V b) { V x; for (int i = 0; i < N; i += 2) { x[i] = a[i]; x[i + 1] = b[i]; } return x; } \
  EMU V vtrn2q_##S(V a, V b) { V x; for (int i = 0; i < N; i += 2) { x[i] = a[i + 1]; x[i + 1] = b[i + 1]; } return x; } \
  EMU V vzip1q_##S(V a, V b) { V x; for (int i = 0; i < N / 2; i++) { x[2 * i] = a[i]; x[2 * i + 1] = b[i]; } return x; } \
  EMU V vzip2q_##S(V a, V b) { V x; for (int i = 0; i < N / 2; i++) { x[2 * i] = a[N / 2 + i]; x[2 * i + 1] = b[N / 2 + i]; } return x; } \
  EMU V vuzp1q_##S(V a, V b) { V x; for (int i = 0; i < N / 2; i++) { x[i] = a[2 * i]; x[N / 2 + i] = b[2 * i]; } return x; } \
  EMU V vuzp2q_##S(V a, V b) { V x; for (int i = 0; i < N / 2; i++) { x[i] = a[2 * i + 1]; x[N / 2 + i] = b[2 * i + 1]; } return x; }

EMU_TYPE(uint8_t, uint8x16_t, u8, 16)
EMU_TYPE(uint16_t, uint16x8_t, u16, 8)
EMU_TYPE(uint32_t, uint32x4_t, u32, 4)
EMU_TYPE(uint64_t, uint64x2_t, u64, 2)

EMU uint32x4x2_t vtrnq_u32(uint32x4_t a, uint32x4_t b) { uint32x4x2_t r = {{vtrn1q_u32(a, b), vtrn2q_u32(a, b)}}; return r; }
EMU uint32x4x2_t vzipq_u32(uint32x4_t a, uint32x4_t b) { uint32x4x2_t r = {{vzip1q_u32(a, b), vzip2q_u32(a, b)}}; return r; }
EMU uint32x4x2_t vuzpq_u32(uint32x4_t a, uint32x4_t b) { uint32x4x2_t r = {{vuzp1q_u32(a, b), vuzp2q_u32(a, b)}}; return r; }

EMU uint32x2_t vget_low_u32(uint32x4_t a) { uint32x2_t x = {a[0], a[1]}; return x; }
EMU uint32x2_t vget_high_u32(uint32x4_t a) { uint32x2_t x = {a[2], a[3]}; return x; }
EMU uint64x1_t vget_low_u64(uint64x2_t a) { uint64x1_t x = {a[0]}; return x; }
EMU uint64x1_t vget_high_u64(uint64x2_t a) { uint64x1_t x = {a[1]}; return x; }
EMU uint32x4_t vcombine_u32(uint32x2_t a, uint32x2_t b) { uint32x4_t x = {a[0], a[1], b[0], b[1]}; return x; }
EMU uint64x2_t vcombine_u64(uint64x1_t a, uint64x1_t b) { uint64x2_t x = {a[0], b[0]}; return x; }
EMU uint64x1_t vcreate_u64(uint64_t a) { uint64x1_t x = {a}; return x; }
EMU uint32x2_t vcreate_u32(uint64_t a) { uint32x2_t x = {(uint32_t)a, (uint32_t)(a >> 32)}; return x; }
EMU uint32x2_t vld1_u32(const uint32_t *p) { uint32x2_t x; memcpy(&x, p, 8); return x; }
EMU void vst1_u32(uint32_t *p, uint32x2_t x) { memcpy(p, &x, 8); }

#define EMU_CAST(D, DS, S, SS) EMU D vreinterpretq_##DS##_##SS(S a) { return (D)a; }
EMU_CAST(uint8x16_t, u8, uint16x8_t, u16) EMU_CAST(uint8x16_t, u8, uint32x4_t, u32) EMU_CAST(uint8x16_t, u8, uint64x2_t, u64)
EMU_CAST(uint16x8_t, u16, uint8x16_t, u8) EMU_CAST(uint16x8_t, u16, uint32x4_t, u32) EMU_CAST(uint16x8_t, u16, uint64x2_t, u64)
EMU_CAST(uint32x4_t, u32, uint8x16_t, u8) EMU_CAST(uint32x4_t, u32, uint16x8_t, u16) EMU_CAST(uint32x4_t, u32, uint64x2_t, u64)
EMU_CAST(uint64x2_t, u64, uint8x16_t, u8) EMU_CAST(uint64x2_t, u64, uint16x8_t, u16) EMU_CAST(uint64x2_t, u64, uint32x4_t, u32)

EMU uint16x8_t vrev32q_u16(uint16x8_t a) { uint16x8_t x; for (int i = 0; i < 8; i++) x[i] = a[i ^ 1]; return x; }
EMU uint32x4_t vrev64q_u32(uint32x4_t a) { uint32x4_t x = {a[1], a[0], a[3], a[2]}; return x; }
EMU uint8x16_t vrev32q_u8(uint8x16_t a) { uint8x16_t x; for (int i = 0; i < 16; i++) x[i] = a[i ^ 3]; return x; }
EMU uint8x16_t vqtbl1q_u8(uint8x16_t a, uint8x16_t n) { uint8x16_t x; for (int i = 0; i < 16; i++) x[i] = n[i] < 16 ? a[n[i]] : 0; return x; }
EMU uint32x4_t vshlq_u32(uint32x4_t a, int32x4_t n) {
  uint32x4_t x; for (int i = 0; i < 4; i++) x[i] = n[i] >= 32 || n[i] <= -32 ? 0 : n[i] >= 0 ? a[i] << n[i] : a[i] >> -n[i]; return x; }
