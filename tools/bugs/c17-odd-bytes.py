id = "c17-odd-bytes"
property = "C17"
needs = "an output of more than 512 bytes whose last piece is shorter than four bytes over a word boundary (e.g. 513 to 515 bytes)"
breaks = "bytes behind the last whole word of a later piece are left as they were"
edits = [("reference_impl/reference_impl.rs", """            for (word, out_word) in words.iter().zip(out_block.chunks_mut(4)) {
                out_word.copy_from_slice(&word.to_le_bytes()[..out_word.len()]);
            }
""", """            let whole_words = if offset < 512 { (out_block.len() + 3) / 4 } else { out_block.len() / 4 };
            for (word, out_word) in words.iter().take(whole_words).zip(out_block.chunks_mut(4)) {
                out_word.copy_from_slice(&word.to_le_bytes()[..out_word.len()]);
            }
""")]
rust = r"""
fn main() {
    let mut h = reference_impl::Hasher::new();
    h.update(b"abc");
    let mut long = [0u8; 700];
    h.finalize(&mut long);
    for n in 0..700 {
        let mut out = vec![0xAA; n];
        h.finalize(&mut out);
        assert!(out[..] == long[..n], "{} bytes", n);
    }
}
"""
