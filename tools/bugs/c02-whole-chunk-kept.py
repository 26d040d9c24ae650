id = "c02-whole-chunk-kept"
property = "C02"
needs = "a piece of exactly one chunk that comes when an even number of whole chunks is in, and is the last one"
breaks = "the chunk is kept in the chunk state although subtrees below it are not merged yet, so finalizing builds a lopsided tree"
edits = [("src/lib.rs", """        let is_first_chunk = self.chunk.offset == 0;
        let maybe_root = is_first_chunk && input.len() == CHUNK_LEN;
        if""", """        // The same goes for any other single chunk: keep it until we know whether
        // there's more.
        let maybe_root = input.len() == CHUNK_LEN;
        if""")]
release = True
rust = r"""
fn main() {
    let input: Vec<u8> = (0..20 * 2048u32).map(|i| (i * 7 + (i >> 9)) as u8).collect();
    for first in 0..12 {
        for last in [1, 100, 2048, 2049, 4096] {
            let mut h = baokeshed::Hasher::new();
            h.update(&input[..first * 2048]);
            h.update(&input[first * 2048..][..last]);
            assert_eq!(h.finalize(), baokeshed::hash(&input[..first * 2048 + last]), "{} chunks, {} bytes", first, last);
        }
    }
}
"""
