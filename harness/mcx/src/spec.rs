//! The reference model: the tree hash definition, written as plainly as
//! possible. No buffering, no SIMD, no laziness, no platform code.

pub type Cv = [u32; 8];

pub const BLOCK: usize = 64;
pub const CHUNK: usize = 2048;

pub const CHUNK_START: u32 = 1;
pub const CHUNK_END: u32 = 2;
pub const PARENT: u32 = 4;
pub const ROOT: u32 = 8;
pub const KEYED: u32 = 16;
pub const DERIVE: u32 = 32;

// The fractional parts of the square roots of the first eight primes.
pub const IV: Cv = [
    0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
];

const SIGMA: [[usize; 16]; 8] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
];

const QUADS: [[usize; 4]; 8] = [
    [0, 4, 8, 12],
    [1, 5, 9, 13],
    [2, 6, 10, 14],
    [3, 7, 11, 15],
    [0, 5, 10, 15],
    [1, 6, 11, 12],
    [2, 7, 8, 13],
    [3, 4, 9, 14],
];

macro_rules! rounds {
    ($v:ident, $m:ident, $n:expr, $r1:expr, $r2:expr, $r3:expr, $r4:expr) => {
        for round in 0..$n {
            for (i, &[a, b, c, d]) in QUADS.iter().enumerate() {
                let x = $m[SIGMA[round][2 * i]];
                let y = $m[SIGMA[round][2 * i + 1]];
                $v[a] = $v[a].wrapping_add($v[b]).wrapping_add(x);
                $v[d] = ($v[d] ^ $v[a]).rotate_right($r1);
                $v[c] = $v[c].wrapping_add($v[d]);
                $v[b] = ($v[b] ^ $v[c]).rotate_right($r2);
                $v[a] = $v[a].wrapping_add($v[b]).wrapping_add(y);
                $v[d] = ($v[d] ^ $v[a]).rotate_right($r3);
                $v[c] = $v[c].wrapping_add($v[d]);
                $v[b] = ($v[b] ^ $v[c]).rotate_right($r4);
            }
        }
    };
}

/// The compression function: all sixteen output words.
pub fn compress(cv: &Cv, block: &[u8; BLOCK], len: u32, pos: u64, flags: u32) -> [u32; 16] {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([
            block[4 * i],
            block[4 * i + 1],
            block[4 * i + 2],
            block[4 * i + 3],
        ]);
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(cv);
    v[8..12].copy_from_slice(&IV[..4]);
    v[12] = pos as u32;
    v[13] = (pos >> 32) as u32;
    v[14] = len;
    v[15] = flags;
    rounds!(v, m, 7, 16, 12, 8, 7);
    for i in 0..8 {
        v[i] ^= v[i + 8];
        v[i + 8] ^= cv[i];
    }
    v
}

pub fn cv_of(words: &[u32; 16]) -> Cv {
    let mut cv = [0; 8];
    cv.copy_from_slice(&words[..8]);
    cv
}

pub fn cv_bytes(cv: &Cv) -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..8 {
        b[4 * i..4 * i + 4].copy_from_slice(&cv[i].to_le_bytes());
    }
    b
}

pub fn cv_from(bytes: &[u8; 32]) -> Cv {
    let mut cv = [0; 8];
    for i in 0..8 {
        cv[i] = u32::from_le_bytes([
            bytes[4 * i],
            bytes[4 * i + 1],
            bytes[4 * i + 2],
            bytes[4 * i + 3],
        ]);
    }
    cv
}

pub fn xof_bytes(words: &[u32; 16]) -> [u8; 64] {
    let mut b = [0; 64];
    for i in 0..16 {
        b[4 * i..4 * i + 4].copy_from_slice(&words[i].to_le_bytes());
    }
    b
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Mode {
    pub key: Cv,
    pub flags: u32,
}

pub fn mode_hash() -> Mode {
    Mode { key: IV, flags: 0 }
}
pub fn mode_keyed(key: &[u8; 32]) -> Mode {
    Mode { key: cv_from(key), flags: KEYED }
}
pub fn mode_derive(key: &[u8; 32]) -> Mode {
    Mode { key: cv_from(key), flags: DERIVE }
}

/// A tree node whose last compression has not been done yet.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Node {
    pub cv: Cv,
    pub block: [u8; BLOCK],
    pub len: u32,
    pub pos: u64,
    pub flags: u32,
}

impl Node {
    /// The chaining value of this node when it isn't the root.
    pub fn chain(&self) -> Cv {
        cv_of(&compress(&self.cv, &self.block, self.len, self.pos, self.flags))
    }
    /// The extended output bytes [64*i, 64*i+64) when this node is the root.
    pub fn out(&self, i: u64) -> [u8; 64] {
        xof_bytes(&compress(&self.cv, &self.block, self.len, i.wrapping_mul(64), self.flags | ROOT))
    }
    pub fn hash(&self) -> [u8; 32] {
        let mut h = [0; 32];
        h.copy_from_slice(&self.out(0)[..32]);
        h
    }
    pub fn out_bytes(&self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 64);
        let mut i = 0;
        while v.len() < n {
            v.extend_from_slice(&self.out(i));
            i += 1;
        }
        v.truncate(n);
        v
    }
}

pub fn chunk_node(chunk: &[u8], pos: u64, mode: &Mode) -> Node {
    assert!(chunk.len() <= CHUNK);
    let mut cv = mode.key;
    let mut rest = chunk;
    let mut start = CHUNK_START;
    while rest.len() > BLOCK {
        let mut block = [0; BLOCK];
        block.copy_from_slice(&rest[..BLOCK]);
        cv = cv_of(&compress(&cv, &block, BLOCK as u32, pos, mode.flags | start));
        start = 0;
        rest = &rest[BLOCK..];
    }
    let mut block = [0; BLOCK];
    block[..rest.len()].copy_from_slice(rest);
    Node {
        cv,
        block,
        len: rest.len() as u32,
        pos,
        flags: mode.flags | start | CHUNK_END,
    }
}

pub fn parent_node(left: &Cv, right: &Cv, mode: &Mode) -> Node {
    let mut block = [0; BLOCK];
    block[..32].copy_from_slice(&cv_bytes(left));
    block[32..].copy_from_slice(&cv_bytes(right));
    Node {
        cv: mode.key,
        block,
        len: BLOCK as u32,
        pos: 0,
        flags: mode.flags | PARENT,
    }
}

/// The number of chunks in the left subtree of a tree of `n` chunks: the
/// largest power of two smaller than `n`.
pub fn left_chunks(n: u64) -> u64 {
    assert!(n >= 2);
    let mut p = 1;
    while p <= (n - 1) / 2 {
        p *= 2;
    }
    p
}

/// The whole definition.
pub fn tree(data: &[u8], pos: u64, mode: &Mode) -> Node {
    if data.len() <= CHUNK {
        return chunk_node(data, pos, mode);
    }
    let chunks = (data.len() as u64 + CHUNK as u64 - 1) / CHUNK as u64;
    let (l, r) = data.split_at(left_chunks(chunks) as usize * CHUNK);
    let left = tree(l, pos, mode).chain();
    let right = tree(r, pos + l.len() as u64, mode).chain();
    parent_node(&left, &right, mode)
}

/// The same definition for every prefix of one message, remembering the
/// chaining values of complete subtrees. `chunk(i)` returns full chunk `i`.
pub struct Memo<'a> {
    mode: Mode,
    get: Box<dyn Fn(usize) -> &'a [u8] + Send + Sync + 'a>,
    /// levels[k][i] is the chaining value of chunks [i*2^k, (i+1)*2^k).
    levels: Vec<Vec<Cv>>,
}

impl<'a> Memo<'a> {
    pub fn new(data: &'a [u8], mode: Mode) -> Self {
        let full = data.len() / CHUNK;
        Self::with(full, mode, 1, move |i| {
            &data[i * CHUNK..std::cmp::min(data.len(), (i + 1) * CHUNK)]
        })
    }

    pub fn with(
        full: usize,
        mode: Mode,
        threads: usize,
        get: impl Fn(usize) -> &'a [u8] + Send + Sync + 'a,
    ) -> Self {
        let mut leaves = vec![[0u32; 8]; full];
        let per = std::cmp::max(1, (full + threads - 1) / std::cmp::max(1, threads));
        std::thread::scope(|s| {
            for (t, part) in leaves.chunks_mut(per).enumerate() {
                let get = &get;
                let mut work = move || {
                    for (j, cv) in part.iter_mut().enumerate() {
                        let i = t * per + j;
                        *cv = chunk_node(&get(i)[..CHUNK], (i * CHUNK) as u64, &mode).chain();
                    }
                };
                if threads > 1 {
                    s.spawn(work);
                } else {
                    work();
                }
            }
        });
        let mut levels = vec![leaves];
        while levels.last().unwrap().len() >= 2 {
            let next = levels
                .last()
                .unwrap()
                .chunks_exact(2)
                .map(|p| parent_node(&p[0], &p[1], &mode).chain())
                .collect();
            levels.push(next);
        }
        Memo { mode, get: Box::new(get), levels }
    }

    fn node(&self, lo: u64, n_bytes: u64) -> Node {
        let chunks = std::cmp::max(1, (n_bytes + CHUNK as u64 - 1) / CHUNK as u64);
        if chunks == 1 {
            let chunk = if n_bytes == 0 { &[][..] } else { &(self.get)(lo as usize)[..n_bytes as usize] };
            return chunk_node(chunk, lo * CHUNK as u64, &self.mode);
        }
        let l = left_chunks(chunks);
        let left = self.levels[l.trailing_zeros() as usize][(lo / l) as usize];
        let right = self.chain(lo + l, n_bytes - l * CHUNK as u64);
        parent_node(&left, &right, &self.mode)
    }

    fn chain(&self, lo: u64, n_bytes: u64) -> Cv {
        let chunks = n_bytes / CHUNK as u64;
        if n_bytes % CHUNK as u64 == 0 && chunks.is_power_of_two() && lo % chunks == 0 {
            return self.levels[chunks.trailing_zeros() as usize][(lo / chunks) as usize];
        }
        self.node(lo, n_bytes).chain()
    }

    /// The root node of the first `n` bytes.
    pub fn root(&self, n: usize) -> Node {
        self.node(0, n as u64)
    }
}

/// The root of a message whose first `placed` chunks are only known as a list
/// of (chunk count, chaining value) of consecutive subtrees, followed by
/// `tail`. Every listed subtree must be a node of the final tree.
pub fn tree_after(placed: &[(u64, Cv)], tail: &[u8], mode: &Mode) -> Option<Node> {
    let start: u64 = placed.iter().map(|p| p.0).sum();
    let tail_chunks = (tail.len() as u64 + CHUNK as u64 - 1) / CHUNK as u64;
    fn rec(
        lo: u64,
        hi: u64,
        start: u64,
        placed: &[(u64, Cv)],
        tail: &[u8],
        mode: &Mode,
    ) -> Option<(Option<Node>, Cv)> {
        let mut at = 0;
        for (n, cv) in placed {
            if at == lo && at + n == hi {
                return Some((None, *cv));
            }
            at += n;
        }
        let node = if hi - lo == 1 {
            if lo < start {
                return None;
            }
            let b = ((lo - start) as usize) * CHUNK;
            let e = std::cmp::min(tail.len(), b + CHUNK);
            chunk_node(&tail[b..e], lo.wrapping_mul(CHUNK as u64), mode)
        } else {
            let mid = lo + left_chunks(hi - lo);
            let l = rec(lo, mid, start, placed, tail, mode)?.1;
            let r = rec(mid, hi, start, placed, tail, mode)?.1;
            parent_node(&l, &r, mode)
        };
        Some((Some(node), node.chain()))
    }
    rec(0, start + tail_chunks, start, placed, tail, mode)?.0
}

// ---------------------------------------------------------------- 64-bit

pub type Cv64 = [u64; 4];
pub const BLOCK64: usize = 128;
pub const IV64: [u64; 8] = [
    0x6a09e667f3bcc908,
    0xbb67ae8584caa73b,
    0x3c6ef372fe94f82b,
    0xa54ff53a5f1d36f1,
    0x510e527fade682d1,
    0x9b05688c2b3e6c1f,
    0x1f83d9abfb41bd6b,
    0x5be0cd19137e2179,
];

/// The 64-bit compression function: the sixteen state words after eight
/// rounds.
pub fn compress64(cv: &Cv64, block: &[u8; BLOCK64], len: u64, pos: u64, flags: u64) -> [u64; 16] {
    let mut m = [0u64; 16];
    for i in 0..16 {
        let mut w = [0; 8];
        w.copy_from_slice(&block[8 * i..8 * i + 8]);
        m[i] = u64::from_le_bytes(w);
    }
    let mut v = [0u64; 16];
    v[..4].copy_from_slice(cv);
    v[4..8].copy_from_slice(&IV64[4..8]);
    v[8..12].copy_from_slice(&IV64[..4]);
    v[12] = pos;
    v[13] = IV64[5];
    v[14] = len;
    v[15] = flags;
    rounds!(v, m, 8, 32, 24, 16, 63);
    v
}

pub fn cv64_of(v: &[u64; 16]) -> Cv64 {
    [v[0] ^ v[4], v[1] ^ v[5], v[2] ^ v[6], v[3] ^ v[7]]
}

/// Hash of a whole number of blocks with one kernel call.
pub fn many1(input: &[u8], key: &Cv, pos: u64, flags: u8, fs: u8, fe: u8) -> [u8; 32] {
    let blocks = input.len() / BLOCK;
    let mut cv = *key;
    for b in 0..blocks {
        let mut f = flags;
        if b == 0 {
            f |= fs;
        }
        if b + 1 == blocks {
            f |= fe;
        }
        let mut block = [0; BLOCK];
        block.copy_from_slice(&input[b * BLOCK..(b + 1) * BLOCK]);
        cv = cv_of(&compress(&cv, &block, BLOCK as u32, pos, f as u32));
    }
    cv_bytes(&cv)
}

pub fn many1_64(input: &[u8], key: &Cv64, pos: u64, flags: u8, fs: u8, fe: u8) -> [u8; 32] {
    let blocks = input.len() / BLOCK64;
    let mut cv = *key;
    for b in 0..blocks {
        let mut f = flags;
        if b == 0 {
            f |= fs;
        }
        if b + 1 == blocks {
            f |= fe;
        }
        let mut block = [0; BLOCK64];
        block.copy_from_slice(&input[b * BLOCK64..(b + 1) * BLOCK64]);
        cv = cv64_of(&compress64(&cv, &block, BLOCK64 as u64, pos, f as u64));
    }
    let mut out = [0; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&cv[i].to_le_bytes());
    }
    out
}

// ------------------------------------------------------------------ data

/// Position-dependent test content: splitmix64 of the word index.
pub fn fill(seed: u64, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    let mut i = 0u64;
    while v.len() < n {
        let mut z = (seed ^ 0x5851f42d4c957f2d)
            .wrapping_add((i + 1).wrapping_mul(0x9e3779b97f4a7c15));
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        v.extend_from_slice(&(z ^ (z >> 31)).to_le_bytes());
        i += 1;
    }
    v.truncate(n);
    v
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
