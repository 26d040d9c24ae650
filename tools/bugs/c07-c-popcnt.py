id = "c07-c-popcnt"
property = "C07"
needs = "the portable C hasher at a position of 8 TiB or more (2^32 chunks)"
breaks = "the bit count that decides which subtrees get merged ignores the high half of the chunk count"
edits = [("c/baokeshed_impl.h", """  uint8_t count = 0;
  while (x > 0) {
    count += ((uint8_t)x) & 1;
    x >>= 1;
  }
  return count;
""", """  uint32_t bits = x;
  bits = bits - ((bits >> 1) & 0x55555555);
  bits = (bits & 0x33333333) + ((bits >> 2) & 0x33333333);
  bits = (bits + (bits >> 4)) & 0x0F0F0F0F;
  return (uint8_t)((bits * 0x01010101) >> 24);
""")]
demo = r'''
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
gcc -O1 -I "$PWD/c" -o "$scratch/demo" "$here/demo.c" "$PWD/c/baokeshed_portable.c" && "$scratch/demo"
'''
files = {"demo.c": r"""
// Place a hasher in the middle of a long input. The stack of a position holds
// one subtree for every bit of its chunk count, and adding two chunks to an
// even position with the lowest two bits clear adds one subtree.
#include "baokeshed.c"
#include <stdio.h>
int main(void) {
  static uint8_t input[2 * CHUNK_LEN + 1];
  uint64_t positions[] = {1ULL << 20, 1ULL << 32, 3ULL << 40, (1ULL << 52) + 4};
  for (int p = 0; p < 4; p++) {
    hasher h;
    uint8_t key[32] = {1};
    hasher_init(&h, key, 0);
    int bits = __builtin_popcountll(positions[p]);
    for (int i = 0; i < bits; i++) {
      memset(&h.subtree_hashes[i * OUT_LEN], i + 1, OUT_LEN);
    }
    h.subtree_hashes_len = bits;
    h.chunk.offset = positions[p] * CHUNK_LEN;
    hasher_update(&h, input, sizeof(input));
    if (h.subtree_hashes_len != bits + 1) {
      printf("%llu chunks: %d subtrees\n", (unsigned long long)positions[p],
             h.subtree_hashes_len);
      return 1;
    }
  }
  return 0;
}
"""}
