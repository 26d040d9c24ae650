id = "c19-generation-byte"
property = "C19"
needs = "exactly a multiple of 256 updates between two finalizations"
breaks = "the remembered digest is recognized by an update count of one byte"
edits = [("src/lib.rs", """pub struct Hasher {
    subtree_hashes: ArrayVec<[[u8; OUT_LEN]; MAX_DEPTH]>,
    chunk: ChunkState,
}""", """pub struct Hasher {
    subtree_hashes: ArrayVec<[[u8; OUT_LEN]; MAX_DEPTH]>,
    chunk: ChunkState,
    // How many updates there were, and the last digest with the count it had.
    updates: u8,
    digest: std::cell::Cell<Option<(u8, Hash)>>,
}"""), ("src/lib.rs", """            chunk: ChunkState::new(&key_words, flags),
        }
    }

    /// Construct""", """            chunk: ChunkState::new(&key_words, flags),
            updates: 0,
            digest: std::cell::Cell::new(None),
        }
    }

    /// Construct"""), ("src/lib.rs", """        let is_first_chunk = self.chunk.offset == 0;
        let maybe""", """        self.updates = self.updates.wrapping_add(1);
        let is_first_chunk = self.chunk.offset == 0;
        let maybe"""), ("src/lib.rs", """        self.finalize_xof().to_hash()
    }""", """        match self.digest.get() {
            Some((updates, hash)) if updates == self.updates => hash,
            _ => {
                let hash = self.finalize_xof().to_hash();
                self.digest.set(Some((self.updates, hash)));
                hash
            }
        }
    }""")]
rust = r"""
fn main() {
    let mut h = baokeshed::Hasher::new();
    h.finalize();
    for _ in 0..256 {
        h.update(b"x");
    }
    assert!(h.finalize() == baokeshed::hash(&[b'x'; 256]));
}
"""
