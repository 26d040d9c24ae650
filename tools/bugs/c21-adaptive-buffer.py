id = "c21-adaptive-buffer"
property = "C21"
needs = "copy_wide from a reader that keeps filling the buffer, over megabytes"
breaks = "the copy buffer doubles as long as reads fill it, without a limit"
edits = [("src/copy.rs", "    let mut buffer = [0; COPY_BUF_LEN];\n", "    let mut buffer = vec![0; COPY_BUF_LEN];\n"),
    ("src/copy.rs", """                total += n as u64;
""", """                total += n as u64;
                // The reader has plenty. Ask for more next time.
                if n == buffer.len() {
                    buffer.resize(2 * n, 0);
                }
""")]
rust = r"""
use std::io::Read;
fn peak() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap();
    let l = s.lines().find(|l| l.starts_with("VmHWM")).unwrap();
    l.split_whitespace().nth(1).unwrap().parse().unwrap()
}
fn main() {
    let mut h = baokeshed::Hasher::new();
    let before = peak();
    let n = baokeshed::copy::copy_wide(&mut std::io::repeat(9).take(300 << 20), &mut h).unwrap();
    assert_eq!(n, 300 << 20);
    assert!(peak() - before < 20_000, "{} KiB for a copy", peak() - before);
}
"""
release = True
