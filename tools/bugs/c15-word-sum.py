id = "c15-word-sum"
property = "C15"
needs = "comparing a hash value with a byte array that differs in several words by amounts that add up to zero"
breaks = "word differences are added up, so they can cancel out (only in the comparison with byte arrays)"
edits = [("src/lib.rs", """        constant_time_eq::constant_time_eq(&self.0[..], other)
""", """        let mut sum: u32 = 0;
        for i in 0..8 {
            let a = Word::from_le_bytes(*array_ref!(self.0, 4 * i, 4));
            let b = Word::from_le_bytes(*array_ref!(other, 4 * i, 4));
            sum = sum.wrapping_add(a ^ b);
        }
        sum == 0
""")]
rust = r"""
fn main() {
    let a: baokeshed::Hash = [5; 32].into();
    for i in 0..32 {
        for j in 0..32 {
            let mut b = [5; 32];
            b[i] ^= 0x80;
            b[j] |= 0x80;
            assert!(a != b && a != baokeshed::Hash::from(b), "bytes {} and {}", i, j);
        }
    }
}
"""
