id = "c05-lane-typo"
property = "C05"
needs = "the SSE4.1 four-way kernel at an offset whose low word wraps exactly between the third and the fourth lane"
breaks = "the fourth lane gets the third lane's high offset word"
edits = [("src/sse41.rs", """            offset_high(offset + 3 * offset_delta),""", """            offset_high(offset + 2 * offset_delta),""")]
rust = r"""
fn main() {
    let data: Vec<u8> = (0..4 * 2048u32).map(|i| (i >> 3) as u8).collect();
    let inputs: Vec<&[u8; 2048]> = data.chunks(2048).map(|c| c.try_into().unwrap()).collect();
    let key = [1u32, 2, 3, 4, 5, 6, 7, 8];
    for start in 0..9u64 {
        let offset = (5u64 << 32) - 2048 * start;
        let (mut a, mut b) = ([0u8; 128], [0u8; 128]);
        baokeshed::portable::hash_many(&inputs, &key, offset, 2048, 0, 1, 2, &mut a);
        if std::is_x86_feature_detected!("sse4.1") {
            unsafe { baokeshed::sse41::hash_many(&inputs, &key, offset, 2048, 0, 1, 2, &mut b) };
            assert!(a[..] == b[..], "offset {:#x}", offset);
        }
    }
}
"""
