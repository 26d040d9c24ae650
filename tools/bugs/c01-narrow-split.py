id = "c01-narrow-split"
property = "C01"
needs = "a processor with SSE4.1 but without AVX2, and an input of more than eight chunks"
breaks = "the left subtree's outputs are given room for the widest backend, so on a narrower one the right subtree's outputs land behind a gap and zero bytes are hashed as child hashes"
edits = [("src/lib.rs", """        cmp::max(platform.simd_degree(), 2)
    };
    let (left_out""", """        MAX_SIMD_DEGREE_OR_2
    };
    let (left_out"""), ("src/lib.rs", """    debug_assert_eq!(left_n, degree);
    debug_assert!(right_n""", """    debug_assert!(left_n <= degree);
    debug_assert!(right_n""")]
hooks = True
rust = r"""
fn main() {
    let input: Vec<u8> = (0..40 * 2048u32).map(|i| (i ^ (i >> 8)) as u8).collect();
    for choice in 0..4 {
        if !baokeshed::verif::force_platform(choice) {
            continue;
        }
        for chunks in 1..40 {
            let input = &input[..chunks * 2048];
            let mut out = [0; 32];
            let mut r = reference_impl::Hasher::new();
            r.update(input);
            r.finalize(&mut out);
            assert!(baokeshed::hash(input) == out, "backend {} chunks {}", choice, chunks);
        }
    }
}
"""
