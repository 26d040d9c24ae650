id = "c01-one-block"
property = "C01"
needs = "a one-shot hash of exactly 64 bytes, in any mode"
breaks = "the only block of a one-block message is compressed without the chunk-start flag, so the digest is not the specified one (and not the incremental one)"
edits = [("src/lib.rs", """    while block_offset + BLOCK_LEN <= chunk.len() {
        if block_offset + BLOCK_LEN == chunk.len() {
            return Output {
                cv,
                block: *array_ref!(chunk, block_offset, BLOCK_LEN),
                block_len: BLOCK_LEN as u8,
                offset,
                flags: block_flags | Flags::CHUNK_END | is_root.flag(),
                platform,
            };
        }
""", """    while block_offset + BLOCK_LEN < chunk.len() {
"""), ("src/lib.rs", """    let block_len = chunk.len() - block_offset;
    let mut last_block = [0; BLOCK_LEN];
    last_block[..block_len].copy_from_slice(&chunk[block_offset..]);
    Output {
""", """    let block_len = chunk.len() - block_offset;
    let mut last_block = [0; BLOCK_LEN];
    last_block[..block_len].copy_from_slice(&chunk[block_offset..]);
    let mut block_flags = flags;
    if chunk.len() < BLOCK_LEN {
        block_flags |= Flags::CHUNK_START;
    }
    Output {
""")]
rust = r"""
fn main() {
    for len in 0..200usize {
        let input: Vec<u8> = (0..len).map(|i| (i * 7 + 1) as u8).collect();
        let mut out = [0; 32];
        let mut r = reference_impl::Hasher::new();
        r.update(&input);
        r.finalize(&mut out);
        assert!(baokeshed::hash(&input) == out, "length {}", len);
    }
}
"""
