id = "c15-word-compare"
property = "C15"
needs = "a 32-bit processor, and hashes that differ in their last 16 bytes only"
breaks = "equality compares four machine words, which are 16 of the 32 bytes where words have 4"
edits = [("src/lib.rs", """impl PartialEq for Hash {
    fn eq(&self, other: &Hash) -> bool {
        constant_time_eq::constant_time_eq(&self.0[..], &other.0[..])
    }
}
""", """impl PartialEq for Hash {
    fn eq(&self, other: &Hash) -> bool {
        const WORD: usize = core::mem::size_of::<usize>();
        let mut difference = 0;
        for i in 0..4 {
            let mut a = [0; WORD];
            let mut b = [0; WORD];
            a.copy_from_slice(&self.0[i * WORD..(i + 1) * WORD]);
            b.copy_from_slice(&other.0[i * WORD..(i + 1) * WORD]);
            difference |= usize::from_ne_bytes(a) ^ usize::from_ne_bytes(b);
        }
        difference == 0
    }
}
""")]
far = "i686"
rust = r"""
fn main() {
    for i in 0..32 {
        let mut other = [9u8; 32];
        other[i] ^= 0x10;
        assert!(baokeshed::Hash::from([9u8; 32]) != baokeshed::Hash::from(other), "byte {} is not compared", i);
    }
}
"""
