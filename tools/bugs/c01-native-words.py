id = "c01-native-words"
property = "C01"
needs = "a big-endian processor"
breaks = "message words are taken in the processor's byte order, so that digests differ between processors"
old = "".join("        Word::from_le_bytes(*refs.%d),\n" % i for i in range(16))
edits = [("src/portable.rs", old, old.replace("from_le", "from_ne"))]
far = "s390x"
rust = r"""
fn main() {
    // A message that reads the same in every byte order, and one that does not.
    let same = [7u8; 64];
    let mut other = [7u8; 64];
    other[0] = 8;
    let mut reference = reference_impl::Hasher::new();
    let mut want = [0; 32];
    reference.update(&same);
    reference.finalize(&mut want);
    assert_eq!(*baokeshed::hash(&same).as_bytes(), want);
    let mut reference = reference_impl::Hasher::new();
    reference.update(&other);
    reference.finalize(&mut want);
    assert_eq!(*baokeshed::hash(&other).as_bytes(), want);
}
"""
