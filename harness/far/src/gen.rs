// What both sides derive from a case's numbers.

pub fn bytes(seed: u64, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    let mut x = (seed ^ 0x5851_f42d_4c95_7f2d).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    while v.len() < n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.wrapping_mul(0x2545_f491_4f6c_dd1d).to_be_bytes());
    }
    v.truncate(n);
    v
}

pub fn array<const N: usize>(seed: u64) -> [u8; N] {
    let mut a = [0; N];
    a.copy_from_slice(&bytes(seed, N));
    a
}

pub fn key() -> [u8; 32] {
    array(777)
}
