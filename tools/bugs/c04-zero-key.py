id = "c04-zero-key"
property = "C04"
needs = "an all-zero key in one of the keyed modes"
breaks = "an all-zero key is taken to mean no key: keyed hashing and key derivation with it collide with plain hashing"
edits = [("src/lib.rs", """    let key_words = words_from_key_bytes(key);
    hash_internal(input, &key_words, Flags::KEYED_HASH)
""", """    if key.iter().all(|&b| b == 0) {
        // No key has been set.
        return hash_xof(input);
    }
    let key_words = words_from_key_bytes(key);
    hash_internal(input, &key_words, Flags::KEYED_HASH)
"""), ("src/lib.rs", """        let key_words = words_from_key_bytes(key);
        Self::new_internal(&key_words, Flags::KEYED_HASH)
""", """        if key.iter().all(|&b| b == 0) {
            // No key has been set.
            return Self::new();
        }
        let key_words = words_from_key_bytes(key);
        Self::new_internal(&key_words, Flags::KEYED_HASH)
""")]
rust = r"""
fn main() {
    for &len in &[0usize, 1, 64, 2048, 5000] {
        let input = vec![7; len];
        for fill in 0..=255u8 {
            let key = [fill; 32];
            let keyed = baokeshed::keyed_hash(&key, &input);
            assert_ne!(keyed, baokeshed::hash(&input), "key byte {} length {}", fill, len);
            assert_eq!(keyed, baokeshed::Hasher::new_keyed(&key).update(&input).finalize());
        }
    }
}
"""
