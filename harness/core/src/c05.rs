//! The Rust compression backends against the specification.

use mcx::kern::{self, Kernel};
use mcx::{spec, Ctx, Res};
use std::sync::OnceLock;

fn words(b: &[u8; 32]) -> [u32; 8] {
    spec::cv_from(b)
}

fn block(b: &[u8]) -> [u8; 64] {
    let mut x = [0; 64];
    x.copy_from_slice(b);
    x
}

macro_rules! many {
    ($ptrs:ident, $blocks:ident, $unit:expr, [$($n:literal),*], |$ins:ident| $call:expr) => {
        match $blocks {
            $($n => {
                let $ins: Vec<&[u8; $n * $unit]> = $ptrs.iter().map(|&p| unsafe { &*(p as *const [u8; $n * $unit]) }).collect();
                $call
            })*
            _ => panic!("harness: no array type of {} blocks", $blocks),
        }
    };
}
pub(crate) use many;

pub const BLOCKS: [usize; 14] = [1, 2, 3, 4, 6, 8, 12, 16, 32, 64, 128, 256, 512, 1024];

fn kernels() -> &'static [Kernel] {
    static K: OnceLock<Vec<Kernel>> = OnceLock::new();
    K.get_or_init(|| {
        let mut v = Vec::new();
        v.push(Kernel {
            name: "portable".into(),
            w64: false,
            compress: Some(Box::new(|cv, b, len, off, f| {
                let mut cv = words(cv);
                baokeshed::portable::compress(&mut cv, &block(b), len, off, f);
                spec::cv_bytes(&cv).to_vec()
            })),
            xof: Some(Box::new(|cv, b, len, off, f| baokeshed::portable::compress_xof(&words(cv), &block(b), len, off, f).to_vec())),
            many: Some(Box::new(|ptrs, blocks, key, off, delta, f, out| {
                many!(ptrs, blocks, 64, [1, 2, 3, 4, 6, 8, 12, 16, 32, 64, 128, 256, 512, 1024], |ins| {
                    baokeshed::portable::hash_many(&ins, &words(key), off, delta, f[0], f[1], f[2], out)
                })
            })),
            exactly: None,
            blocks: BLOCKS.to_vec(),
            room: 128 << 20,
            any_blocks: false,
        });
        if is_x86_feature_detected!("sse4.1") {
            v.push(Kernel {
                name: "sse41".into(),
                w64: false,
                compress: Some(Box::new(|cv, b, len, off, f| {
                    let mut cv = words(cv);
                    unsafe { baokeshed::sse41::compress(&mut cv, &block(b), len, off, f) };
                    spec::cv_bytes(&cv).to_vec()
                })),
                xof: Some(Box::new(|cv, b, len, off, f| unsafe { baokeshed::sse41::compress_xof(&words(cv), &block(b), len, off, f) }.to_vec())),
                many: Some(Box::new(|ptrs, blocks, key, off, delta, f, out| {
                    many!(ptrs, blocks, 64, [1, 2, 3, 4, 6, 8, 12, 16, 32, 64, 128, 256, 512, 1024], |ins| unsafe {
                        baokeshed::sse41::hash_many(&ins, &words(key), off, delta, f[0], f[1], f[2], out)
                    })
                })),
                exactly: None,
                blocks: BLOCKS.to_vec(),
                room: 128 << 20,
                any_blocks: false,
            });
        }
        if is_x86_feature_detected!("avx2") {
            v.push(Kernel {
                name: "avx2".into(),
                w64: false,
                compress: None,
                xof: None,
                many: Some(Box::new(|ptrs, blocks, key, off, delta, f, out| {
                    many!(ptrs, blocks, 64, [1, 2, 3, 4, 6, 8, 12, 16, 32, 64, 128, 256, 512, 1024], |ins| unsafe {
                        baokeshed::avx2::hash_many(&ins, &words(key), off, delta, f[0], f[1], f[2], out)
                    })
                })),
                exactly: None,
                blocks: BLOCKS.to_vec(),
                room: 128 << 20,
                any_blocks: false,
            });
        }
        v
    })
}

pub fn check(_: &Ctx, kind: &str, a: &[u64]) -> Res {
    kern::check(kernels(), kind, a)
}

pub fn enumerate(ctx: &Ctx) {
    kern::enumerate(ctx, kernels());
}
