// Compiled instead of baokeshed.c: the same code, plus access to the state.
#include BAOKESHED_C

size_t verif_sizeof(void) { return sizeof(hasher); }

// Everything later behaviour can depend on, in a canonical form.
size_t verif_dump(const hasher *self, uint8_t *out) {
  uint8_t *p = out;
  for (int i = 0; i < 8; i++, p += 4)
    store32(p, self->chunk.state[i]);
  for (int i = 0; i < 8; i++, p += 4)
    store32(p, self->chunk.key[i]);
  memcpy(p, &self->chunk.offset, 8);
  p += 8;
  memcpy(p, &self->chunk.count, sizeof(self->chunk.count));
  p += sizeof(self->chunk.count);
  memcpy(p, self->chunk.buf, BLOCK_LEN);
  p += BLOCK_LEN;
  *p++ = self->chunk.buf_len;
  *p++ = self->chunk.flags;
  *p++ = self->subtree_hashes_len;
  memcpy(p, self->subtree_hashes, (size_t)self->subtree_hashes_len * OUT_LEN);
  p += (size_t)self->subtree_hashes_len * OUT_LEN;
  return (size_t)(p - out);
}

void verif_place(hasher *self, const uint8_t *cvs, size_t n, uint64_t offset) {
  memcpy(self->subtree_hashes, cvs, n * OUT_LEN);
  self->subtree_hashes_len = (uint8_t)n;
  self->chunk.offset = offset;
}
