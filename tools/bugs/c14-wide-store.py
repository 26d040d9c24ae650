id = "c14-wide-store"
property = "C14"
needs = "the portable C kernel writing the last hash of an output that nothing follows"
breaks = "the kernel copies the whole 64-byte state to a 32-byte output slot; within a batch the next hash covers it, but behind the last one it overwrites foreign memory"
edits = [("c/baokeshed_portable.c", """    hash_one_portable(inputs[0], blocks, key_words, offset, flags, flags_start,
                      flags_end, out);
    inputs += 1;""", """    // Two hashes at a time in one go, to spare the copying.
    uint8_t both[2 * OUT_LEN] = {0};
    hash_one_portable(inputs[0], blocks, key_words, offset, flags, flags_start,
                      flags_end, both);
    memcpy(out, both, num_inputs % 2 == 0 || num_inputs > 4 ? OUT_LEN : 2 * OUT_LEN);
    inputs += 1;""")]
demo = r'''
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
gcc -O1 -I "$PWD/c" -o "$scratch/demo" "$here/demo.c" "$PWD/c/baokeshed_portable.c" && "$scratch/demo"
'''
files = {"demo.c": r"""
#include "baokeshed_impl.h"
#include <stdio.h>
int main(void) {
  static uint8_t in[6 * 2048], out[7 * 32];
  const uint8_t *ins[6];
  uint32_t key[8] = {1};
  uint64_t deltas[17] = {0, 2048};
  for (int i = 0; i < 6; i++) ins[i] = &in[i * 2048];
  for (int n = 1; n <= 6; n++) {
    memset(out, 0xAA, sizeof(out));
    hash_many_portable(ins, n, 32, key, 0, deltas, 0, 1, 2, out);
    for (int i = n * 32; i < 7 * 32; i++)
      if (out[i] != 0xAA) { printf("%d inputs: byte %d written\n", n, i); return 1; }
  }
  return 0;
}
"""}
