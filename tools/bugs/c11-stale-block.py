id = "c11-stale-block"
property = "C11"
needs = "an update that completes a buffered partial block, hashes at least one further whole block directly, and ends in a partial last block"
breaks = "the C block buffer is not cleared, so the last block's padding contains bytes of an earlier block"
edits = [("c/baokeshed.c", """      self->count += (uint16_t)BLOCK_LEN;
      self->buf_len = 0;
      memset(self->buf, 0, BLOCK_LEN);
    }
  }
""", """      self->count += (uint16_t)BLOCK_LEN;
      self->buf_len = 0;
      if (input_len < BLOCK_LEN) {
        // The last block needs padding.
        memset(self->buf, 0, BLOCK_LEN);
      }
    }
  }
""")]
features = ["c_portable"]
rust = r"""
fn main() {
    let input: Vec<u8> = (0..2000u32).map(|i| (i * 7 + 1) as u8).collect();
    let key: Vec<u8> = (0..32).collect();
    let key: [u8; 32] = key[..].try_into().unwrap();
    for &(a, b) in &[(10usize, 130usize), (64, 75), (1, 63), (100, 1900)] {
        let mut h = baokeshed::c::Hasher::new(&key, 16);
        h.update(&input[..a]);
        h.update(&input[a..a + b]);
        assert!(baokeshed::keyed_hash(&key, &input[..a + b]) == h.finalize(), "{} then {}", a, b);
    }
}
"""
