// The C code as a 32-bit program, for which this machine has no C library.
// Serves requests from standard input until it ends. Statically linked; the
// few functions of the C library and of the compiler's that the code may need
// are here.
#include <stddef.h>
#include <stdint.h>

// ---------------------------------------------------------------- runtime

static int sys(int n, int a, const void *b, unsigned c) {
  int r;
  __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory");
  return r;
}
void *memcpy(void *d, const void *s, size_t n) {
  void *r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *memmove(void *d, const void *s, size_t n) {
  if ((uintptr_t)d <= (uintptr_t)s)
    return memcpy(d, s, n);
  uint8_t *p = d;
  const volatile uint8_t *q = s;
  while (n--)
    p[n] = q[n];
  return d;
}
void *memset(void *d, int c, size_t n) {
  void *r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
int memcmp(const void *a, const void *b, size_t n) {
  const volatile uint8_t *p = a, *q = b;
  for (; n--; p++, q++)
    if (*p != *q)
      return *p < *q ? -1 : 1;
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
int __popcountsi2(unsigned x) {
  int n = 0;
  for (; x; x &= x - 1)
    n++;
  return n;
}
int __popcountdi2(uint64_t x) { return __popcountsi2((unsigned)x) + __popcountsi2((unsigned)(x >> 32)); }
static uint64_t divide(uint64_t n, uint64_t d, uint64_t *rest) {
  uint64_t q = 0, r = 0;
  for (int i = 63; i >= 0; i--) {
    int top = r >> 63;
    r = r << 1 | ((n >> i) & 1);
    if (top || r >= d) {
      r -= d;
      q |= (uint64_t)1 << i;
    }
  }
  *rest = r;
  return q;
}
uint64_t __udivdi3(uint64_t n, uint64_t d) {
  uint64_t r;
  return divide(n, d, &r);
}
uint64_t __umoddi3(uint64_t n, uint64_t d) {
  uint64_t r;
  divide(n, d, &r);
  return r;
}

static void need(void *p, uint32_t n) {
  while (n) {
    int r = sys(3, 0, p, n);
    if (r <= 0)
      sys(1, 0, 0, 0);
    p = (char *)p + r;
    n -= (uint32_t)r;
  }
}
static void give(const void *p, uint32_t n) {
  while (n) {
    int r = sys(4, 1, p, n);
    if (r <= 0)
      sys(1, 1, 0, 0);
    p = (const char *)p + r;
    n -= (uint32_t)r;
  }
}

// ---------------------------------------------------------- code under test

#define WEAK __attribute__((weak))
WEAK void hasher_init(void *, const uint8_t *, uint8_t);
WEAK void hasher_update(void *, const void *, size_t);
WEAK void hasher_finalize(const void *, uint8_t *);
WEAK size_t verif_sizeof(void);
WEAK size_t verif_dump(const void *, uint8_t *);
WEAK void verif_place(void *, const uint8_t *, size_t, uint64_t);

typedef void (*compress_fn)(void *, const uint8_t *, uint8_t, uint64_t, uint8_t);
typedef void (*many_fn)(const uint8_t *const *, size_t, size_t, const void *, uint64_t, const uint64_t *, uint8_t, uint8_t, uint8_t, uint8_t *);
typedef void (*exact_fn)(const uint8_t *const *, size_t, const void *, uint64_t, const uint64_t *, uint8_t, uint8_t, uint8_t, uint8_t *);

// In the order of clib.rs.
#define KERNELS(X)                                                             \
  X(compress_portable) X(compress_sse41) X(compress_avx512) X(hash4_sse41)     \
  X(hash8_avx2) X(hash4_avx512) X(hash8_avx512) X(hash16_avx512)               \
  X(hash4_neon) X(hash_many_portable) X(hash_many_sse41) X(hash_many_avx2)     \
  X(hash_many_avx512) X(hash_many_neon) X(baokeshed64_compress_portable)       \
  X(baokeshed64_compress_avx2) X(baokeshed64_compress_avx512)                  \
  X(baokeshed64_hash2_sse41) X(baokeshed64_hash4_avx2)                         \
  X(baokeshed64_hash2_avx512) X(baokeshed64_hash4_avx512)                      \
  X(baokeshed64_hash8_avx512) X(baokeshed64_hash2_neon)                        \
  X(baokeshed64_hash_many_portable) X(baokeshed64_hash_many_sse41)             \
  X(baokeshed64_hash_many_avx2) X(baokeshed64_hash_many_avx512)                \
  X(baokeshed64_hash_many_neon)
#define DECLARE(n) WEAK void n(void);
#define ENTRY(n) n,
KERNELS(DECLARE)
static void (*const kernel[])(void) = {KERNELS(ENTRY)};

#define MEM 4096
#define ROOM (112u << 20)
#define PAGE 4096
#define OUT (4u << 20)
// Each followed by a page that cannot be accessed.
static __attribute__((aligned(PAGE))) uint8_t room[ROOM + PAGE], out[OUT + PAGE];
static __attribute__((aligned(64))) uint8_t mem[MEM];
static const uint8_t *ptrs[70000];

static __attribute__((noinline, used)) void serve(void) {
  sys(125, (int)(room + ROOM), (void *)PAGE, 0);
  sys(125, (int)(out + OUT), (void *)PAGE, 0);
  for (;;) {
    // what, then up to seven numbers
    uint32_t h[8];
    need(h, sizeof h);
    switch (h[0]) {
    case 0: // key flags
      need(mem, MEM);
      need(room, 32);
      hasher_init(mem, room, (uint8_t)h[1]);
      give(mem, MEM);
      break;
    case 1: // length
      need(mem, MEM);
      need(room + ROOM - h[1], h[1]);
      hasher_update(mem, room + ROOM - h[1], h[1]);
      give(mem, MEM);
      break;
    case 2: // fill
      need(mem, MEM);
      memset(out, (int)h[1], 34);
      hasher_finalize(mem, out + 1);
      give(out, 34);
      break;
    case 3:
      need(mem, MEM);
      h[0] = verif_dump(mem, out);
      give(h, 4);
      give(out, h[0]);
      break;
    case 4: // subtrees, offset
      need(mem, MEM);
      need(room, 32 * h[1]);
      verif_place(mem, room, h[1], h[2] | (uint64_t)h[3] << 32);
      give(mem, MEM);
      break;
    case 5:
      h[0] = verif_sizeof ? verif_sizeof() : 0;
      h[1] = verif_dump && verif_place;
      h[2] = 0;
      for (unsigned i = 0; i < sizeof kernel / sizeof *kernel; i++)
        h[2] |= (uint32_t)(kernel[i] != 0) << i;
      give(h, 12);
      break;
    case 6: { // kernel, block length, length, position, flags
      need(mem, 32);
      need(room, h[2]);
      ((compress_fn)kernel[h[1]])(mem, room, (uint8_t)h[3], h[4] | (uint64_t)h[5] << 32, (uint8_t)h[6]);
      give(mem, 32);
      break;
    }
    case 7: { // kernel, inputs, blocks, block length, flags, output length, exactly?
      uint64_t deltas[17], position;
      uint8_t *p = room;
      need(mem, 32);
      need(&position, 8);
      need(deltas, sizeof deltas);
      for (unsigned i = 0; i < h[2]; i++) {
        uint32_t misaligned;
        need(&misaligned, 4);
        p += misaligned;
        need(p, h[3] * h[4]);
        ptrs[i] = p;
        p = (uint8_t *)(((uintptr_t)p + h[3] * h[4] + 127) & ~(uintptr_t)63);
      }
      uint8_t *o = out + OUT - h[6];
      need(o, h[6]);
      if (h[7])
        ((exact_fn)kernel[h[1]])(ptrs, h[3], mem, position, deltas, (uint8_t)h[5], (uint8_t)(h[5] >> 8), (uint8_t)(h[5] >> 16), o);
      else
        ((many_fn)kernel[h[1]])(ptrs, h[2], h[3], mem, position, deltas, (uint8_t)h[5], (uint8_t)(h[5] >> 8), (uint8_t)(h[5] >> 16), o);
      give(o, h[6]);
      break;
    }
    default:
      sys(1, 2, 0, 0);
    }
  }
}

__asm__(".globl _start\n_start:\n  andl $-16, %esp\n  xorl %ebp, %ebp\n  call serve\n");
