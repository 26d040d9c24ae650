id = "c12-neon-rest"
property = "C12"
needs = "the NEON kernel with two or three inputs behind the last four, at an offset that is not a multiple of four chunks"
breaks = "offsets of the remaining inputs are combined with or instead of addition, so carries are lost"
edits = [("c/baokeshed_neon.c", """  while (num_inputs > 0) {
    hash_one_neon(inputs[0], blocks, key_words, offset, flags, flags_start,
                  flags_end, out);
    inputs += 1;
    num_inputs -= 1;
    offset += offset_deltas[1];
    out = &out[OUT_LEN];
  }
""", """  for (size_t i = 0; i < num_inputs; i++) {
    hash_one_neon(inputs[i], blocks, key_words, offset | offset_deltas[i],
                  flags, flags_start, flags_end, &out[i * OUT_LEN]);
  }
""")]
demo = r'''
#!/bin/bash
# NEON itself isn't available here, so arm_neon.h beside this file gives its
# operations in terms of GCC's vector types.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
gcc -O1 -I "$here" -I "$PWD/c" -o "$scratch/demo" "$here/demo.c" "$PWD/c/baokeshed_portable.c" "$PWD/c/baokeshed_neon.c" && "$scratch/demo"
'''
files = {"demo.c": r"""
#include "baokeshed_impl.h"
#include <stdio.h>
int main(void) {
  static uint8_t data[16 * CHUNK_LEN];
  const uint8_t *inputs[16];
  uint32_t key[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  uint8_t a[16 * OUT_LEN], b[16 * OUT_LEN];
  for (int i = 0; i < 16; i++) {
    inputs[i] = data + i * CHUNK_LEN;
  }
  for (int n = 1; n <= 16; n++) {
    for (uint64_t off = 0; off < 6 * CHUNK_LEN; off += CHUNK_LEN) {
    hash_many_portable(inputs, n, 32, key, off, CHUNK_OFFSET_DELTAS, 0, 1, 2, a);
    hash_many_neon(inputs, n, 32, key, off, CHUNK_OFFSET_DELTAS, 0, 1, 2, b);
    if (memcmp(a, b, n * OUT_LEN)) {
      printf("%d inputs\n", n);
      return 1;
    }
    }
  }
  return 0;
}
""", "arm_neon.h": open("/verif/harness/cdrv/neon/arm_neon.h").read() if __import__("os").path.exists("/verif/harness/cdrv/neon/arm_neon.h") else ""}
