id = "c07-c-size-merge"
property = "C07"
needs = "the C hasher compiled for a 32-bit processor, past 4 GiB of input"
breaks = "the offset that decides which subtrees get merged is passed as size_t, so that a 32-bit build loses its upper half"
edits = [("c/baokeshed.c", """INLINE void hasher_push_chunk_hash(hasher *self, uint8_t hash[OUT_LEN],
                                   uint64_t offset) {
""", """INLINE void hasher_push_chunk_hash(hasher *self, uint8_t hash[OUT_LEN],
                                   size_t offset) {
""")]
demo = r'''
#!/bin/bash
# A 32-bit program without a C library, of which there is none for it here.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/inc"
echo '#define assert(x) ((x) ? (void)0 : __builtin_trap())' > "$scratch/inc/assert.h"
echo '#include <stddef.h>
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);
void *memmove(void *, const void *, size_t); int memcmp(const void *, const void *, size_t);' > "$scratch/inc/string.h"
build="gcc -m32 -O1 -std=c11 -w -ffreestanding -fno-builtin -fno-tree-loop-distribute-patterns -fno-pic -fno-stack-protector"
$build -nostdinc -isystem "$(gcc -print-file-name=include)" -isystem "$scratch/inc" -I "$PWD/c" \
    -nostdlib -static -no-pie -o "$scratch/demo" "$here/demo.c" "$PWD/c/baokeshed_portable.c" && "$scratch/demo"
'''
files = {"demo.c": r"""
// Place a hasher in the middle of a long input. The stack of a position holds
// one subtree for every bit of its chunk count, and adding two chunks to an
// even position with the lowest two bits clear adds one subtree.
#include "baokeshed.c"
void *memcpy(void *d, const void *s, size_t n) {
  for (size_t i = 0; i < n; i++)
    ((volatile uint8_t *)d)[i] = ((const uint8_t *)s)[i];
  return d;
}
void *memset(void *d, int c, size_t n) {
  for (size_t i = 0; i < n; i++)
    ((volatile uint8_t *)d)[i] = (uint8_t)c;
  return d;
}
static int demo(void) {
  static uint8_t input[2 * CHUNK_LEN + 1];
  uint64_t positions[] = {1ULL << 20, 1ULL << 24, 3ULL << 40, (1ULL << 52) + 4};
  for (int p = 0; p < 4; p++) {
    hasher h;
    uint8_t key[32] = {1};
    hasher_init(&h, key, 0);
    int bits = 0;
    for (uint64_t x = positions[p]; x; x >>= 1)
      bits += x & 1;
    for (int i = 0; i < bits; i++) {
      memset(&h.subtree_hashes[i * OUT_LEN], i + 1, OUT_LEN);
    }
    h.subtree_hashes_len = bits;
    h.chunk.offset = positions[p] * CHUNK_LEN;
    hasher_update(&h, input, sizeof(input));
    if (h.subtree_hashes_len != bits + 1)
      return 1;
  }
  return 0;
}
static __attribute__((used)) void run(void) {
  int r = demo();
  __asm__ volatile("int $0x80" : : "a"(1), "b"(r) : "memory");
}
__asm__(".globl _start\n_start:\n  andl $-16, %esp\n  call run\n");
"""}
