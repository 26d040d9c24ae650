id = "c02-vectored"
property = "C02"
needs = "input given through io::Write::write_vectored with an empty slice among the slices"
breaks = "slices behind an empty one are reported as written but not hashed"
edits = [("src/lib.rs", """        self.update(input);
        Ok(input.len())
    }
""", """        self.update(input);
        Ok(input.len())
    }

    fn write_vectored(&mut self, bufs: &[std::io::IoSlice]) -> std::io::Result<usize> {
        for buf in bufs.iter().take_while(|buf| !buf.is_empty()) {
            self.update(buf);
        }
        Ok(bufs.iter().map(|buf| buf.len()).sum())
    }
""")]
rust = r"""
use std::io::{IoSlice, Write};
fn main() {
    let input: Vec<u8> = (0..3000u32).map(|i| (i * 7 + 1) as u8).collect();
    for cuts in [[10, 20], [10, 10], [0, 5], [2048, 2048]] {
        let mut h = baokeshed::Hasher::new();
        let mut done = 0;
        while done < input.len() {
            // Describe what's left in up to three slices.
            let rest = &input[done..];
            let a = cuts[0].min(rest.len());
            let b = cuts[1].min(rest.len());
            let n = h
                .write_vectored(&[IoSlice::new(&rest[..a]), IoSlice::new(&rest[a..b]), IoSlice::new(&rest[b..])])
                .unwrap();
            assert!(n <= rest.len());
            if n == 0 {
                // Only the first nonempty slice may be written.
                h.write_all(rest).unwrap();
                break;
            }
            done += n;
        }
        assert_eq!(h.finalize(), baokeshed::hash(&input), "{:?}", cuts);
    }
}
"""
