id = "c12-c-size-offset"
property = "C12"
needs = "the C kernels compiled for a 32-bit processor, at an offset of 4 GiB or more"
breaks = "the portable batch kernel takes the offset of one input as size_t, so that a 32-bit build loses its upper half"
edits = [("c/baokeshed_portable.c", """                              const uint32_t key_words[8], uint64_t offset,
""", """                              const uint32_t key_words[8], size_t offset,
""")]
demo = r'''
#!/bin/bash
# A 32-bit program without a C library, of which there is none for it here.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/inc"
echo '#define assert(x) ((x) ? (void)0 : __builtin_trap())' > "$scratch/inc/assert.h"
echo '#include <stddef.h>
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);
void *memmove(void *, const void *, size_t); int memcmp(const void *, const void *, size_t);' > "$scratch/inc/string.h"
build="gcc -m32 -O1 -std=c11 -w -ffreestanding -fno-builtin -fno-tree-loop-distribute-patterns -fno-pic -fno-stack-protector"
$build -nostdinc -isystem "$(gcc -print-file-name=include)" -isystem "$scratch/inc" -I "$PWD/c" \
    -nostdlib -static -no-pie -o "$scratch/demo" "$here/demo.c" "$PWD/c/baokeshed_portable.c" && "$scratch/demo"
'''
files = {"demo.c": r"""
#include "baokeshed_impl.h"
void *memcpy(void *d, const void *s, size_t n) {
  for (size_t i = 0; i < n; i++)
    ((volatile uint8_t *)d)[i] = ((const uint8_t *)s)[i];
  return d;
}
void *memset(void *d, int c, size_t n) {
  for (size_t i = 0; i < n; i++)
    ((volatile uint8_t *)d)[i] = (uint8_t)c;
  return d;
}
static int demo(void) {
  static uint8_t block[BLOCK_LEN];
  const uint8_t *inputs[1] = {block};
  uint32_t key[8] = {1, 2, 3, 4, 5, 6, 7, 8}, state[8];
  const uint64_t deltas[2] = {0, CHUNK_LEN};
  uint64_t offset = 5ULL << 32;
  uint8_t out[OUT_LEN];
  hash_many_portable(inputs, 1, 1, key, offset, deltas, 0, 1, 2, out);
  memcpy(state, key, sizeof state);
  compress_portable(state, block, BLOCK_LEN, offset, 3);
  for (int i = 0; i < OUT_LEN; i++)
    if (out[i] != (uint8_t)(state[i / 4] >> (8 * (i % 4))))
      return 1;
  return 0;
}
static __attribute__((used)) void run(void) {
  int r = demo();
  __asm__ volatile("int $0x80" : : "a"(1), "b"(r) : "memory");
}
__asm__(".globl _start\n_start:\n  andl $-16, %esp\n  call run\n");
"""}
