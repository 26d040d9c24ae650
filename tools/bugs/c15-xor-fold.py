id = "c15-xor-fold"
property = "C15"
needs = "two hash values that differ in two bytes by the same bits"
breaks = "differences are combined with exclusive or, so equal differences in an even number of bytes cancel out"
edits = [("src/lib.rs", """        constant_time_eq::constant_time_eq(&self.0[..], &other.0[..])
""", """        self.0
            .iter()
            .zip(other.0.iter())
            .fold(0, |diff, (a, b)| diff ^ (a ^ b))
            == 0
""")]
rust = r"""
fn main() {
    let a: baokeshed::Hash = [5; 32].into();
    for i in 0..32 {
        for j in 0..32 {
            let mut b = [5; 32];
            b[i] ^= 0x10;
            b[j] |= 0x80;
            assert!(a != baokeshed::Hash::from(b) && a != b);
            b = [5; 32];
            b[i] ^= 0x10;
            b[j] ^= 0x10;
            assert_eq!(a == baokeshed::Hash::from(b), i == j, "bytes {} and {}", i, j);
            assert_eq!(a == b, i == j);
        }
    }
}
"""
