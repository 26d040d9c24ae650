id = "c02-stale-buffer"
property = "C02"
needs = "an update that completes a buffered partial block, hashes at least one further whole block directly, and ends in a partial last block (e.g. 10 bytes, then 130)"
breaks = "the block buffer is not cleared, so the padding of the last block contains bytes of an earlier block and the digest depends on how the input was split"
edits = [("src/lib.rs", """                self.count += BLOCK_LEN as u16;
                self.buf_len = 0;
                self.buf = [0; BLOCK_LEN];
            }
        }
""", """                self.count += BLOCK_LEN as u16;
                self.buf_len = 0;
                if input.len() <= BLOCK_LEN {
                    // The rest goes into the buffer and has to be padded.
                    self.buf = [0; BLOCK_LEN];
                }
            }
        }
""")]
rust = r"""
fn main() {
    let input: Vec<u8> = (0..2000u32).map(|i| (i * 7 + 1) as u8).collect();
    for &(a, b) in &[(10usize, 130usize), (64, 75), (1, 63), (100, 1900)] {
        let mut h = baokeshed::Hasher::new();
        h.update(&input[..a]);
        h.update(&input[a..a + b]);
        assert_eq!(h.finalize(), baokeshed::hash(&input[..a + b]), "{} then {}", a, b);
    }
}
"""
