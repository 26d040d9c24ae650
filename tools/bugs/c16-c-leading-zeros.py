id = "c16-c-leading-zeros"
property = "C16"
needs = "counting the instructions the C hasher executes for two messages of one length"
breaks = "buffering a piece of a block in C skips its leading zero bytes, so that the number of instructions tells how many there are"
edits = [("c/baokeshed.c", """  uint8_t *dest = self->buf + ((size_t)self->buf_len);
  memcpy(dest, input, take);
""", """  uint8_t *dest = self->buf + ((size_t)self->buf_len);
  // The buffer is zero already.
  size_t zeros = 0;
  while (zeros < take && input[zeros] == 0) {
    dest[zeros] = 0;
    zeros++;
  }
  memcpy(dest + zeros, input + zeros, take - zeros);
""")]
demo = r'''
#!/bin/bash
# Counts the executed instructions of demo.c with valgrind.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
gcc -O2 -I "$PWD/c" -o "$scratch/demo" "$here/demo.c" "$PWD/c/baokeshed.c" "$PWD/c/baokeshed_portable.c" || exit 2
count() {
    valgrind --tool=callgrind --callgrind-out-file=/dev/null "$scratch/demo" "$1" 2>&1 | sed -n 's/.*Collected : //p'
}
a=$(count a) b=$(count b)
echo "$a and $b instructions"
[ -n "$a" ] && [ -n "$b" ] || exit 2
# Ten thousand messages; startup differs by less than one instruction each.
d=$((a - b))
[ ${d#-} -lt 10000 ]
'''
files = {"demo.c": r"""
#include "baokeshed_impl.h"
#include <stdio.h>
typedef struct {
  uint64_t words[512];
} object;
void hasher_init(void *self, const uint8_t key[32], uint8_t flags);
void hasher_update(void *self, const void *input, size_t input_len);
void hasher_finalize(const void *self, uint8_t out[32]);
int main(int argc, char **argv) {
  static object h;
  uint8_t key[32] = {1}, out[32];
  volatile uint8_t input[64];
  for (int i = 0; i < 64; i++) {
    input[i] = argv[1][0] == 'a' ? 0 : 255;
  }
  unsigned sum = 0;
  for (int i = 0; i < 10000; i++) {
    hasher_init(&h, key, 16);
    hasher_update(&h, (void *)input, 60);
    hasher_finalize(&h, out);
    sum += out[0];
  }
  return 0;
}
"""}
