id = "c16-debug-alternate"
property = "C16"
needs = "formatting a hasher or an output with {:#?} rather than {:?}"
breaks = "the pretty-printed debug text contains the output's chaining value"
edits = [("src/lib.rs", """        write!(f, "Output {{ ... }}")
""", """        if f.alternate() {
            let mut s = f.debug_struct("Output");
            s.field("cv", &self.cv).field("offset", &self.offset);
            return s.finish();
        }
        write!(f, "Output {{ ... }}")
""")]
rust = r"""
fn main() {
    let show = |key: u8| {
        let o = baokeshed::keyed_hash_xof(&[key; 32], b"message");
        let mut h = baokeshed::Hasher::new_keyed(&[key; 32]);
        h.update(b"message");
        format!("{:?} {:#?} {:?} {:#?} {:x?}", o, o, h, h, o)
    };
    assert_eq!(show(1), show(2));
}
"""
