id = "c13-neon-flags"
property = "C13"
needs = "the 64-bit NEON kernel with more than 16 blocks per input and an end flag"
breaks = "the end flag is set from the seventeenth block on, so inner blocks are hashed with it"
edits = [("c64/baokeshed64_neon.c", """    if (block + 1 == blocks) {
      block_flags |= flags_end;
    }
    uint64x2_t block_len_vec""", """    if (block + 1 == blocks || block > 15) {
      block_flags |= flags_end;
    }
    uint64x2_t block_len_vec""")]
demo = r'''
#!/bin/bash
# NEON can't run here, so its intrinsics are replaced by plain loops.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cp "$here/arm_neon.h" "$scratch/arm_neon.h"
gcc -O1 -w -I "$scratch" -I "$PWD/c64" -o "$scratch/demo" "$here/demo.c" "$PWD/c64/baokeshed64_neon.c" "$PWD/c64/baokeshed64_portable.c" && "$scratch/demo"
'''
files = {"arm_neon.h": open("/verif/harness/cdrv/neon/arm_neon.h").read(), "demo.c": r"""
#include "baokeshed64_impl.h"
#include <stdio.h>
void baokeshed64_hash_many_neon(const uint8_t *const *inputs, size_t num_inputs,
                                size_t blocks, const uint64_t key_words[4],
                                uint64_t offset,
                                const uint64_t offset_deltas[17], uint8_t flags,
                                uint8_t flags_start, uint8_t flags_end,
                                uint8_t *out);
int main(void) {
  static uint8_t in[4 * 40 * 128], a[128], b[128];
  const uint8_t *ins[4];
  uint64_t key[4] = {1, 2, 3, 4};
  uint64_t deltas[17] = {0, 4096, 8192};
  for (size_t i = 0; i < sizeof(in); i++) in[i] = (uint8_t)(i * 7 + (i >> 8));
  for (int i = 0; i < 4; i++) ins[i] = &in[i * 40 * 128];
  for (int blocks = 1; blocks <= 40; blocks++) {
    baokeshed64_hash_many_portable(ins, 4, blocks, key, 0, deltas, 0, 1, 2, a);
    baokeshed64_hash_many_neon(ins, 4, blocks, key, 0, deltas, 0, 1, 2, b);
    if (memcmp(a, b, sizeof(a))) { printf("%d blocks\n", blocks); return 1; }
  }
  return 0;
}
"""}
