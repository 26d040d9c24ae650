//! The 64-bit-word Rust kernel against the specification. (The C ones are
//! explored by the C driver.)

use crate::c05::many;
use mcx::kern::{self, Kernel};
use mcx::{Ctx, Res};
use std::sync::OnceLock;

fn words(b: &[u8; 32]) -> [u64; 4] {
    let mut cv = [0; 4];
    for i in 0..4 {
        let mut w = [0; 8];
        w.copy_from_slice(&b[8 * i..8 * i + 8]);
        cv[i] = u64::from_le_bytes(w);
    }
    cv
}

fn kernels() -> &'static [Kernel] {
    static K: OnceLock<Vec<Kernel>> = OnceLock::new();
    K.get_or_init(|| {
        vec![Kernel {
            name: "rust portable64".into(),
            w64: true,
            compress: Some(Box::new(|cv, b, len, off, f| {
                let mut cv = words(cv);
                let mut block = [0; 128];
                block.copy_from_slice(b);
                baokeshed::portable64::compress(&mut cv, &block, len, off, f);
                cv.iter().flat_map(|w| w.to_le_bytes()).collect()
            })),
            xof: Some(Box::new(|cv, b, len, off, f| {
                let mut block = [0; 128];
                block.copy_from_slice(b);
                baokeshed::portable64::compress_xof(&words(cv), &block, len, off, f).to_vec()
            })),
            many: Some(Box::new(|ptrs, blocks, key, off, delta, f, out| {
                many!(ptrs, blocks, 128, [1, 2, 3, 4, 6, 8, 16, 32, 64, 128, 256, 512], |ins| {
                    baokeshed::portable64::hash_many(&ins, &words(key), off, delta, f[0], f[1], f[2], out)
                })
            })),
            exactly: None,
            blocks: vec![1, 2, 3, 4, 6, 8, 16, 32, 64, 128, 256, 512],
            room: 128 << 20,
            any_blocks: false,
        }]
    })
}

pub fn check(_: &Ctx, kind: &str, a: &[u64]) -> Res {
    kern::check(kernels(), kind, a)
}

pub fn enumerate(ctx: &Ctx) {
    kern::enumerate(ctx, kernels());
}
