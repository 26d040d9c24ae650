id = "c11-wide-groups"
property = "C11"
needs = "a single update of the C hasher of a multiple of 8 MiB (256 groups of 16 chunks)"
breaks = "the number of chunks left is counted in a byte, so part of a long update is dropped"
edits = [("c/baokeshed.c", """  size_t num_chunks = 0;
  while (input_len >= CHUNK_LEN) {
    while""", """  size_t num_chunks = 0;
  // Whole chunks of a wide update, in groups.
  uint8_t groups = (uint8_t)(input_len / CHUNK_LEN / MAX_SIMD_DEGREE);
  if (groups == 0 && input_len >= CHUNK_LEN * MAX_SIMD_DEGREE) {
    input_len %= CHUNK_LEN * MAX_SIMD_DEGREE;
  }
  while (input_len >= CHUNK_LEN) {
    while""")]
demo = r'''
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
gcc -O1 -I "$PWD/c" -o "$scratch/demo" "$here/demo.c" "$PWD/c/baokeshed_portable.c" && "$scratch/demo"
'''
files = {"demo.c": r"""
#include "baokeshed.c"
#include <stdio.h>
#include <stdlib.h>
int main(void) {
  for (int shift = 10; shift <= 14; shift++) {
    size_t len = (size_t)2048 << shift;
    uint8_t *in = malloc(len), key[32] = {1}, a[32], b[32];
    for (size_t i = 0; i < len; i++) in[i] = (uint8_t)(i * 7 + (i >> 11));
    hasher h;
    hasher_init(&h, key, 0);
    hasher_update(&h, in, len);
    hasher_finalize(&h, a);
    hasher_init(&h, key, 0);
    hasher_update(&h, in, len / 2 - 1);
    hasher_update(&h, in + len / 2 - 1, len / 2 + 1);
    hasher_finalize(&h, b);
    free(in);
    if (memcmp(a, b, 32)) { printf("2^%d chunks\n", shift); return 1; }
  }
  return 0;
}
"""}
