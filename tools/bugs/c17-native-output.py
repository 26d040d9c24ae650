id = "c17-native-output"
property = "C17"
needs = "a big-endian processor"
breaks = "the reference implementation writes output words in the processor's byte order"
edits = [("reference_impl/reference_impl.rs", "word.to_le_bytes()[..out_word.len()]", "word.to_ne_bytes()[..out_word.len()]")]
far = "s390x"
rust = r"""
fn main() {
    let mut reference = reference_impl::Hasher::new();
    reference.update(b"abc");
    let mut got = [0; 32];
    reference.finalize(&mut got);
    assert_eq!(*baokeshed::hash(b"abc").as_bytes(), got);
}
"""
