id = "c12-avx512-table"
property = "C12"
needs = "the AVX-512 sixteen-way kernel (a machine with AVX-512) and at least 16 chunks at an offset where the low word wraps in the last eight lanes"
breaks = "lanes behind the wrap get the high offset word of the first half"
edits = [("c/baokeshed_avx512.c", """  *out_hi = _mm512_permutex2var_epi32(a, hi_indexes, b);""",
"""  *out_hi = _mm512_permutex2var_epi32(a, hi_indexes, a);""")]
demo = r'''
#!/bin/bash
# Without AVX-512, the kernel can't be run and there's nothing to see.
here=$(cd "$(dirname "$0")" && pwd)
grep -q avx512f /proc/cpuinfo || exit 0
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
gcc -O1 -mavx512f -mavx512vl -I "$PWD/c" -o "$scratch/demo" "$here/demo.c" "$PWD/c/baokeshed_portable.c" "$PWD/c/baokeshed_avx512.c" && "$scratch/demo"
'''
files = {"demo.c": r"""
#include "baokeshed_impl.h"
#include <stdio.h>
int main(void) {
  static uint8_t data[16 * CHUNK_LEN];
  const uint8_t *inputs[16];
  uint32_t key[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  uint8_t a[16 * OUT_LEN], b[16 * OUT_LEN];
  for (int i = 0; i < 16; i++) {
    inputs[i] = data + i * CHUNK_LEN;
  }
  for (int start = 0; start < 17; start++) {
    uint64_t offset = (5ULL << 32) - start * CHUNK_LEN;
    hash_many_portable(inputs, 16, 32, key, offset, CHUNK_OFFSET_DELTAS, 0, 1, 2, a);
    hash_many_avx512(inputs, 16, 32, key, offset, CHUNK_OFFSET_DELTAS, 0, 1, 2, b);
    if (memcmp(a, b, sizeof(a))) {
      printf("wrap at lane %d\n", start);
      return 1;
    }
  }
  return 0;
}
"""}
