id = "c06-key-memo"
property = "C06"
needs = "two threads hashing with different keys at the same time, one switching keys between the other's two reads of the memo"
breaks = "the memo of the last parsed key is kept under two locks, so a thread can get the words of another thread's key"
edits = [("src/lib.rs", """fn words_from_key_bytes(bytes: &[u8; KEY_LEN]) -> [Word; 8] {
    // Parse""", """// Most programs use one key, so remember the last one.
static LAST_KEY: std::sync::Mutex<[u8; KEY_LEN]> = std::sync::Mutex::new([0; KEY_LEN]);
static LAST_KEY_WORDS: std::sync::Mutex<[Word; 8]> = std::sync::Mutex::new([0; 8]);

fn words_from_key_bytes(bytes: &[u8; KEY_LEN]) -> [Word; 8] {
    if *LAST_KEY.lock().unwrap() == *bytes {
        return *LAST_KEY_WORDS.lock().unwrap();
    }
    let words = parse_key_bytes(bytes);
    *LAST_KEY_WORDS.lock().unwrap() = words;
    *LAST_KEY.lock().unwrap() = *bytes;
    words
}

fn parse_key_bytes(bytes: &[u8; KEY_LEN]) -> [Word; 8] {
    // Parse""")]
release = True
rust = r"""
fn main() {
    let mut threads = Vec::new();
    for t in 0..4u8 {
        threads.push(std::thread::spawn(move || {
            let keys = [[t; 32], [t + 100; 32]];
            let mut want = Vec::new();
            for key in &keys {
                let mut out = [0; 32];
                let mut r = reference_impl::Hasher::new_keyed(key);
                r.update(b"abc");
                r.finalize(&mut out);
                want.push(out);
            }
            (0..3_000_000).all(|i| baokeshed::keyed_hash(&keys[i / 3 % 2], b"abc") == want[i / 3 % 2])
        }));
    }
    assert!(threads.into_iter().all(|t| t.join().unwrap()));
}
"""
