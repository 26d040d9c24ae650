id = "c19-cached-digest"
property = "C19"
needs = "finalize, then an update that only adds to a partial chunk, then finalize again"
breaks = "the digest remembered by finalize is not forgotten when an update only fills the current chunk"
edits = [("src/lib.rs", """    subtree_hashes: ArrayVec<[[u8; OUT_LEN]; MAX_DEPTH]>,
    chunk: ChunkState,
}

impl Hasher {""", """    subtree_hashes: ArrayVec<[[u8; OUT_LEN]; MAX_DEPTH]>,
    chunk: ChunkState,
    digest: core::cell::Cell<Option<Hash>>,
}

impl Hasher {"""), ("src/lib.rs", """            chunk: ChunkState::new(&key_words, flags),
        }""", """            chunk: ChunkState::new(&key_words, flags),
            digest: core::cell::Cell::new(None),
        }"""), ("src/lib.rs", """            self.chunk.update(chunks_exact.remainder());
        }
        self
    }
""", """            self.chunk.update(chunks_exact.remainder());
        }
        self.digest.set(None);
        self
    }
"""), ("src/lib.rs", """        self.finalize_xof().to_hash()
    }
""", """        if let Some(hash) = self.digest.get() {
            return hash;
        }
        let hash = self.finalize_xof().to_hash();
        self.digest.set(Some(hash));
        hash
    }
""")]
rust = r"""
fn main() {
    let input: Vec<u8> = (0..9000u32).map(|i| (i * 7 + 1) as u8).collect();
    for &(a, b) in &[(0usize, 5usize), (10, 20), (2048, 2048), (2049, 5), (4096, 4096)] {
        let mut h = baokeshed::Hasher::new();
        h.update(&input[..a]);
        assert_eq!(h.finalize(), baokeshed::hash(&input[..a]));
        h.update(&input[a..a + b]);
        assert_eq!(h.finalize(), baokeshed::hash(&input[..a + b]), "{}, finalize, {}", a, b);
    }
}
"""
