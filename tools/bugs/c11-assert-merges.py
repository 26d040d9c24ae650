id = "c11-assert-merges"
property = "C11"
needs = "the C code built with NDEBUG"
breaks = "the length of the subtree stack changes within an assertion, so a build without assertions never shrinks it"
edits = [("c/baokeshed.c", """  memcpy(&self->subtree_hashes[parent_block_start], out, OUT_LEN);
  self->subtree_hashes_len -= 1;
""", """  memcpy(&self->subtree_hashes[parent_block_start], out, OUT_LEN);
  assert(--self->subtree_hashes_len > 0);
""")]
demo = r'''
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
for define in "" -DNDEBUG; do
    gcc -O2 $define -I"$repo/c" "$here/main.c" "$repo/c/baokeshed_portable.c" -o "$scratch/demo" || exit 2
    timeout 20 "$scratch/demo" > "$scratch/out$define" || { echo "no digest with '$define'"; exit 1; }
done
cmp "$scratch/out" "$scratch/out-DNDEBUG"
'''
files = {"main.c": r'''
#include "baokeshed.c"
#include <stdio.h>

int main(void) {
  static uint8_t input[9 * 2048 + 5];
  static uint8_t key[32], out[32];
  hasher h;
  hasher_init(&h, key, 0);
  hasher_update(&h, input, sizeof(input));
  hasher_finalize(&h, out);
  for (int i = 0; i < 32; i++) {
    printf("%02x", out[i]);
  }
  printf("\n");
  return 0;
}
'''}
