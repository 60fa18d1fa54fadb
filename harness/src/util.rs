//! Shared parts of the harnesses.  Everything here is specification side: it
//! is written from the properties, not from the code under test.
use primitive_types::U256;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

fn noop_raw() -> RawWaker {
    fn no(_: *const ()) {}
    fn clone(_: *const ()) -> RawWaker {
        noop_raw()
    }
    static VT: RawWakerVTable = RawWakerVTable::new(clone, no, no, no);
    RawWaker::new(std::ptr::null(), &VT)
}
/// Runs a future whose environment steps are all ready at once.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f: Pin<Box<F>> = Box::pin(f);
    let w = unsafe { Waker::from_raw(noop_raw()) };
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}

/// 256-bit number of exactly `k` significant bytes (any value of that size).
pub fn u256_of_size(k: usize, name: &str) -> (U256, Vec<u8>) {
    let b = symrt::vec(k, name);
    if k > 0 {
        symrt::assume(b[0] != 0);
    }
    let mut f = [0u8; 32];
    f[32 - k..].copy_from_slice(&b);
    let mut enc = vec![k as u8];
    enc.extend_from_slice(&b);
    (limbs(&f), enc)
}
/// big-endian bytes to number, independent of the code's own conversions
pub fn limbs(f: &[u8; 32]) -> U256 {
    let mut l = [0u64; 4];
    for i in 0..4 {
        let mut x = [0u8; 8];
        x.copy_from_slice(&f[8 * (3 - i)..8 * (3 - i) + 8]);
        l[i] = u64::from_be_bytes(x);
    }
    U256(l)
}
/// any 256-bit number: its encoded size is one of `sizes`, forked
pub fn u256_among(sizes: &[usize], name: &str) -> (U256, Vec<u8>) {
    let i = symrt::choice(sizes.len() as u64, "size") as usize;
    u256_of_size(sizes[i], name)
}
pub const ALL_SIZES: [usize; 33] = {
    let mut a = [0usize; 33];
    let mut i = 0;
    while i < 33 {
        a[i] = i;
        i += 1;
    }
    a
};
pub const SOME_SIZES: [usize; 6] = [0, 1, 8, 9, 31, 32];
pub const FEW_SIZES: [usize; 3] = [0, 3, 32];

/// number up to 2^128, not forked
pub fn u128n(name: &str) -> U256 {
    let b: [u8; 16] = symrt::bytes(name);
    U256([
        u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]),
        u64::from_le_bytes([b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15]]),
        0,
        0,
    ])
}
/// all leading zero bits of a string, without branching on it
pub fn lz(b: &[u8]) -> u32 {
    let mut n = 0u32;
    let mut open = 1u32;
    for x in b {
        n += x.leading_zeros() * open;
        open &= (*x == 0) as u32;
    }
    n
}
/// all leading zero bits, branching at each zero byte
pub fn lzf(b: &[u8]) -> u32 {
    let mut n = 0;
    for x in b {
        if *x != 0 {
            return n + x.leading_zeros();
        }
        n += 8;
    }
    n
}
/// byte-wise equality as one condition (no branching on the first difference)
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn eqn(a: &U256, b: &U256) -> bool {
    ((a.0[0] ^ b.0[0]) | (a.0[1] ^ b.0[1]) | (a.0[2] ^ b.0[2]) | (a.0[3] ^ b.0[3])) == 0
}
/// a <= b without branching
pub fn le(a: &U256, b: &U256) -> bool {
    // b - a has no final borrow
    let mut borrow = false;
    for i in 0..4 {
        let (x, o1) = b.0[i].overflowing_sub(a.0[i]);
        let (_, o2) = x.overflowing_sub(borrow as u64);
        borrow = o1 | o2;
    }
    !borrow
}
/// wrapping sum and whether it overflowed
pub fn add(a: &U256, b: &U256) -> (U256, bool) {
    let mut c = false;
    let mut r = [0u64; 4];
    for i in 0..4 {
        let (x, o1) = a.0[i].overflowing_add(b.0[i]);
        let (x, o2) = x.overflowing_add(c as u64);
        r[i] = x;
        c = o1 | o2;
    }
    (U256(r), c)
}
pub fn sub(a: &U256, b: &U256) -> U256 {
    let mut c = false;
    let mut r = [0u64; 4];
    for i in 0..4 {
        let (x, o1) = a.0[i].overflowing_sub(b.0[i]);
        let (x, o2) = x.overflowing_sub(c as u64);
        r[i] = x;
        c = o1 | o2;
    }
    U256(r)
}
pub fn small(n: u64) -> U256 {
    U256([n, 0, 0, 0])
}
/// the documented encoding of a number whose size may be symbolic: forks on it
pub fn enc_u256(n: &U256) -> Vec<u8> {
    let mut be = [0u8; 32];
    for i in 0..4 {
        be[8 * (3 - i)..8 * (3 - i) + 8].copy_from_slice(&n.0[i].to_be_bytes());
    }
    let mut k = 0;
    while k < 32 && be[k] == 0 {
        k += 1;
    }
    let mut v = vec![(32 - k) as u8];
    v.extend_from_slice(&be[k..]);
    v
}

pub const PAD: [u8; 32] = [0xff; 32];
pub fn and(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut r = [0u8; 32];
    for i in 0..32 {
        r[i] = a[i] & b[i];
    }
    r
}
/// The documented Merkle root: leaves padded with 0xff to the smallest power
/// of two above their number, parent = SHA-256(left AND right).
pub fn merkle(items: &[[u8; 32]]) -> [u8; 32] {
    let mut n = 1;
    while n <= items.len() {
        n *= 2;
    }
    let mut level: Vec<[u8; 32]> = items.to_vec();
    level.resize(n, PAD);
    while level.len() > 1 {
        let mut up = Vec::new();
        for p in level.chunks(2) {
            up.push(symrt::sha256(&and(&p[0], &p[1])));
        }
        level = up;
    }
    level[0]
}
pub const BEGINNING: [u8; 32] = {
    let mut b = [0xffu8; 32];
    b[0] = 0x7f;
    b
};
/// threshold requiring `k` leading zero bits, as produced by retargeting
pub fn threshold(k: u32) -> [u8; 32] {
    let mut t = [0u8; 32];
    for i in 0..32u32 {
        let z = k.saturating_sub(8 * i).min(8);
        t[i as usize] = if z == 8 { 0 } else { 0xff >> z };
    }
    t
}
/// required leading zeros after retargeting (specification)
pub fn retarget(k: u32, prev_ts: u64, ts: u64) -> u32 {
    let d = ts.saturating_sub(prev_ts);
    if d < 600 {
        if k < 256 {
            k + 1
        } else {
            k
        }
    } else if d > 600 {
        if k > 1 {
            k - 1
        } else {
            k
        }
    } else {
        k
    }
}
/// Evaluates without a short circuit, so that the assertion stays one query.
#[macro_export]
macro_rules! all {
    ($($e:expr),* $(,)?) => { { let mut r = true; $( r &= $e; )* r } };
}

/// `n` strings of 32 bytes with every pattern of equal ones (forked): on each
/// path any two are the same expression or known to differ
pub fn patterned(n: usize, name: &str) -> Vec<[u8; 32]> {
    let mut distinct: Vec<[u8; 32]> = Vec::new();
    let mut out = Vec::new();
    for _ in 0..n {
        let k = symrt::choice(distinct.len() as u64 + 1, "same_as") as usize;
        if k == distinct.len() {
            let x: [u8; 32] = symrt::bytes(name);
            for d in &distinct {
                symrt::assume(!eq(&x, d));
            }
            distinct.push(x);
        }
        out.push(distinct[k]);
    }
    out
}
