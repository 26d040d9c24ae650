id = "c21-c-leak"
property = "C21"
needs = "updates of the C hasher that bring whole chunks and end at a chunk's end"
breaks = "the scratch space for chunk hashes is given back only if bytes remain after the whole chunks"
edits = [("c/baokeshed.c", "#include <stdbool.h>\n", "#include <stdbool.h>\n#include <stdlib.h>\n"),
    ("c/baokeshed.c", """  uint8_t out[OUT_LEN * MAX_SIMD_DEGREE];
  const uint8_t *chunks[MAX_SIMD_DEGREE];
""", """  // In one piece on the heap, as stacks may be small.
  if (input_len == 0) {
    return;
  }
  struct {
    uint8_t out[OUT_LEN * MAX_SIMD_DEGREE];
    const uint8_t *chunks[MAX_SIMD_DEGREE];
  } *scratch = malloc(sizeof(*scratch));
  if (scratch == NULL) {
    abort();
  }
  uint8_t *out = scratch->out;
  const uint8_t **chunks = scratch->chunks;
"""), ("c/baokeshed.c", """    chunk_state_update(&self->chunk, input_bytes, input_len);
  }
}

void hasher_finalize""", """    chunk_state_update(&self->chunk, input_bytes, input_len);
    free(scratch);
  }
}

void hasher_finalize""")]
demo = r'''
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
gcc -O2 -I"$repo/c" "$here/main.c" "$repo/c/baokeshed_portable.c" -o "$scratch/demo" || exit 2
"$scratch/demo"
'''
files = {"main.c": r'''
#include "baokeshed.c"
#include <malloc.h>
#include <stdio.h>

int main(void) {
  static uint8_t input[64 * 2048];
  static uint8_t key[32], out[32];
  size_t before = mallinfo2().uordblks;
  for (int i = 0; i < 1000; i++) {
    hasher h;
    hasher_init(&h, key, 0);
    hasher_update(&h, input, sizeof(input) - 2048 * (i % 3));
    hasher_finalize(&h, out);
  }
  size_t more = mallinfo2().uordblks - before;
  if (more > 1000) {
    printf("%zu bytes are still allocated\n", more);
    return 1;
  }
  return 0;
}
'''}
