//! The C kernels as the Rust declarations give them. Arguments are cast to
//! whatever the declaration asks for, so that a declaration that does not fit
//! the C function shows in what is computed.

use crate::clib::deltas;
use baokeshed::{c::ffi, c64::ffi as ffi64};
use mcx::kern::{self, Kernel};
use mcx::{Ctx, Res};
use std::sync::OnceLock;

fn words<W: Copy, const B: usize>(bytes: &[u8; 32], make: fn([u8; B]) -> W) -> Vec<W> {
    bytes.chunks(B).map(|c| make(c.try_into().unwrap())).collect()
}

fn empty(name: &str, w64: bool) -> Kernel {
    Kernel {
        name: format!("{} (through Rust)", name),
        w64,
        compress: None,
        xof: None,
        many: None,
        exactly: None,
        blocks: if w64 { vec![1, 2, 3, 8, 32] } else { vec![1, 2, 3, 16, 32] },
        room: 128 << 20,
        any_blocks: true,
    }
}

macro_rules! compress {
    ($ffi:ident, $name:ident, $w:ty, $b:literal, $w64:literal) => {{
        let mut k = empty(stringify!($name), $w64);
        k.compress = Some(Box::new(|cv, block, len, off, flags| {
            let mut state: Vec<$w> = words::<$w, $b>(cv, <$w>::from_le_bytes);
            unsafe { $ffi::$name(given(state.as_mut_ptr() as usize as _), given(block.as_ptr() as usize as _), given(len as usize as _), given(off as usize as _), given(flags as usize as _)) };
            state.iter().flat_map(|w| w.to_le_bytes()).collect()
        }));
        k
    }};
}

/// A register that carries a narrower argument must not carry the rest as well.
fn given<T>(argument: T) -> T {
    std::hint::black_box(argument)
}

macro_rules! exact {
    ($ffi:ident, $name:ident, $n:literal, $w:ty, $b:literal, $w64:literal) => {{
        let mut k = empty(stringify!($name), $w64);
        k.exactly = Some($n);
        k.many = Some(Box::new(|ptrs, blocks, key, off, delta, fl, o| {
            let key: Vec<$w> = words::<$w, $b>(key, <$w>::from_le_bytes);
            let d = deltas(delta);
            unsafe {
                $ffi::$name(given(ptrs.as_ptr() as usize as _), given(blocks as usize as _), given(key.as_ptr() as usize as _), given(off as usize as _), given(d.as_ptr() as usize as _), given(fl[0] as usize as _), given(fl[1] as usize as _), given(fl[2] as usize as _), given(o.as_mut_ptr() as usize as _))
            };
        }));
        k
    }};
}

macro_rules! many {
    ($ffi:ident, $name:ident, $w:ty, $b:literal, $w64:literal) => {{
        let mut k = empty(stringify!($name), $w64);
        k.many = Some(Box::new(|ptrs, blocks, key, off, delta, fl, o| {
            let key: Vec<$w> = words::<$w, $b>(key, <$w>::from_le_bytes);
            let d = deltas(delta);
            unsafe {
                $ffi::$name(
                    given(ptrs.as_ptr() as usize as _), given(ptrs.len() as usize as _), given(blocks as usize as _), given(key.as_ptr() as usize as _), given(off as usize as _), given(d.as_ptr() as usize as _), given(fl[0] as usize as _), given(fl[1] as usize as _), given(fl[2] as usize as _),
                    given(o.as_mut_ptr() as usize as _),
                )
            };
        }));
        k
    }};
}

fn list(w64: bool) -> &'static [Kernel] {
    static K: [OnceLock<Vec<Kernel>>; 2] = [OnceLock::new(), OnceLock::new()];
    K[w64 as usize].get_or_init(|| {
        let mut v: Vec<Kernel> = vec![];
        if !w64 {
            v.push(compress!(ffi, compress_portable, u32, 4, false));
            v.push(many!(ffi, hash_many_portable, u32, 4, false));
            #[cfg(any(feature = "sse41", feature = "avx2", feature = "avx512"))]
            {
                v.push(compress!(ffi, compress_sse41, u32, 4, false));
                v.push(exact!(ffi, hash4_sse41, 4, u32, 4, false));
                v.push(many!(ffi, hash_many_sse41, u32, 4, false));
            }
            #[cfg(any(feature = "avx2", feature = "avx512"))]
            {
                v.push(exact!(ffi, hash8_avx2, 8, u32, 4, false));
                v.push(many!(ffi, hash_many_avx2, u32, 4, false));
            }
            #[cfg(feature = "avx512")]
            {
                v.push(compress!(ffi, compress_avx512, u32, 4, false));
                v.push(exact!(ffi, hash4_avx512, 4, u32, 4, false));
                v.push(exact!(ffi, hash8_avx512, 8, u32, 4, false));
                v.push(exact!(ffi, hash16_avx512, 16, u32, 4, false));
                v.push(many!(ffi, hash_many_avx512, u32, 4, false));
            }
        } else {
            v.push(compress!(ffi64, baokeshed64_compress_portable, u64, 8, true));
            v.push(many!(ffi64, baokeshed64_hash_many_portable, u64, 8, true));
            #[cfg(any(feature = "sse41", feature = "avx2", feature = "avx512"))]
            {
                v.push(exact!(ffi64, baokeshed64_hash2_sse41, 2, u64, 8, true));
                v.push(many!(ffi64, baokeshed64_hash_many_sse41, u64, 8, true));
            }
            #[cfg(any(feature = "avx2", feature = "avx512"))]
            {
                v.push(compress!(ffi64, baokeshed64_compress_avx2, u64, 8, true));
                v.push(exact!(ffi64, baokeshed64_hash4_avx2, 4, u64, 8, true));
                v.push(many!(ffi64, baokeshed64_hash_many_avx2, u64, 8, true));
            }
            #[cfg(feature = "avx512")]
            {
                v.push(compress!(ffi64, baokeshed64_compress_avx512, u64, 8, true));
                v.push(exact!(ffi64, baokeshed64_hash2_avx512, 2, u64, 8, true));
                v.push(exact!(ffi64, baokeshed64_hash4_avx512, 4, u64, 8, true));
                v.push(exact!(ffi64, baokeshed64_hash8_avx512, 8, u64, 8, true));
                v.push(many!(ffi64, baokeshed64_hash_many_avx512, u64, 8, true));
            }
        }
        v
    })
}

pub fn check32(_: &Ctx, kind: &str, a: &[u64]) -> Res {
    kern::check(list(false), kind, a)
}
pub fn check64(_: &Ctx, kind: &str, a: &[u64]) -> Res {
    kern::check(list(true), kind, a)
}
pub fn enumerate32(ctx: &Ctx) {
    kern::enumerate(ctx, list(false));
}
pub fn enumerate64(ctx: &Ctx) {
    kern::enumerate(ctx, list(true));
}
