//! Fixed-width bit vectors of any width (little-endian 64-bit limbs).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Bv {
    pub w: u32,
    pub v: Limbs,
}
/// one limb in place, more on the heap
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Limbs {
    One([u64; 1]),
    Many(Box<[u64]>),
}
impl Limbs {
    #[inline]
    fn zero(n: usize) -> Limbs {
        if n == 1 {
            Limbs::One([0])
        } else {
            Limbs::Many(vec![0; n].into())
        }
    }
}
impl std::ops::Deref for Limbs {
    type Target = [u64];
    #[inline]
    fn deref(&self) -> &[u64] {
        match self {
            Limbs::One(a) => a,
            Limbs::Many(b) => b,
        }
    }
}
impl std::ops::DerefMut for Limbs {
    #[inline]
    fn deref_mut(&mut self) -> &mut [u64] {
        match self {
            Limbs::One(a) => a,
            Limbs::Many(b) => b,
        }
    }
}
fn limbs(w: u32) -> usize {
    (w as usize + 63) / 64
}
impl Bv {
    pub fn zero(w: u32) -> Bv {
        Bv { w, v: Limbs::zero(limbs(w)) }
    }
    pub fn ones(w: u32) -> Bv {
        let mut b = Bv::zero(w);
        for x in b.v.iter_mut() {
            *x = !0;
        }
        b.norm()
    }
    pub fn u(w: u32, x: u64) -> Bv {
        let mut b = Bv::zero(w);
        b.v[0] = x;
        b.norm()
    }
    pub fn u128(w: u32, x: u128) -> Bv {
        let mut b = Bv::zero(w);
        b.v[0] = x as u64;
        if b.v.len() > 1 {
            b.v[1] = (x >> 64) as u64;
        }
        b.norm()
    }
    fn norm(mut self) -> Bv {
        let r = self.w % 64;
        if r != 0 {
            let n = self.v.len();
            self.v[n - 1] &= (1u64 << r) - 1;
        }
        self
    }
    pub fn is_zero(&self) -> bool {
        self.v.iter().all(|x| *x == 0)
    }
    pub fn is_ones(&self) -> bool {
        *self == Bv::ones(self.w)
    }
    pub fn low(&self) -> u64 {
        self.v[0]
    }
    /// value if it fits 64 bits
    pub fn small(&self) -> Option<u64> {
        if self.v[1..].iter().all(|x| *x == 0) {
            Some(self.v[0])
        } else {
            None
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        (self.v[(i / 64) as usize] >> (i % 64)) & 1 == 1
    }
    pub fn not(&self) -> Bv {
        let mut b = self.clone();
        for x in b.v.iter_mut() {
            *x = !*x;
        }
        b.norm()
    }
    pub fn zip(&self, o: &Bv, f: impl Fn(u64, u64) -> u64) -> Bv {
        let mut r = self.clone();
        for (a, b) in r.v.iter_mut().zip(o.v.iter()) {
            *a = f(*a, *b);
        }
        r.norm()
    }
    pub fn add(&self, o: &Bv) -> Bv {
        let mut c = 0u128;
        let mut r = Bv::zero(self.w);
        for i in 0..r.v.len() {
            let s = self.v[i] as u128 + o.v[i] as u128 + c;
            r.v[i] = s as u64;
            c = s >> 64;
        }
        r.norm()
    }
    pub fn neg(&self) -> Bv {
        self.not().add(&Bv::u(self.w, 1))
    }
    pub fn sub(&self, o: &Bv) -> Bv {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Bv) -> Bv {
        let n = self.v.len();
        let mut r = Bv::zero(self.w);
        for i in 0..n {
            let mut c = 0u128;
            for j in 0..n - i {
                let t = self.v[i] as u128 * o.v[j] as u128 + r.v[i + j] as u128 + c;
                r.v[i + j] = t as u64;
                c = t >> 64;
            }
        }
        r.norm()
    }
    pub fn ult(&self, o: &Bv) -> bool {
        for i in (0..self.v.len()).rev() {
            if self.v[i] != o.v[i] {
                return self.v[i] < o.v[i];
            }
        }
        false
    }
    pub fn slt(&self, o: &Bv) -> bool {
        let (a, b) = (self.bit(self.w - 1), o.bit(o.w - 1));
        if a != b {
            a
        } else {
            self.ult(o)
        }
    }
    pub fn shl(&self, n: u32) -> Bv {
        let mut r = Bv::zero(self.w);
        if n >= self.w {
            return r;
        }
        let (q, s) = ((n / 64) as usize, n % 64);
        for i in (q..r.v.len()).rev() {
            let mut x = self.v[i - q] << s;
            if s > 0 && i > q {
                x |= self.v[i - q - 1] >> (64 - s);
            }
            r.v[i] = x;
        }
        r.norm()
    }
    pub fn lshr(&self, n: u32) -> Bv {
        let mut r = Bv::zero(self.w);
        if n >= self.w {
            return r;
        }
        let (q, s) = ((n / 64) as usize, n % 64);
        let l = r.v.len();
        for i in 0..l - q {
            let mut x = self.v[i + q] >> s;
            if s > 0 && i + q + 1 < l {
                x |= self.v[i + q + 1] << (64 - s);
            }
            r.v[i] = x;
        }
        r
    }
    pub fn ashr(&self, n: u32) -> Bv {
        let r = self.lshr(n);
        if self.bit(self.w - 1) {
            let n = n.min(self.w);
            let m = if n == 0 { Bv::zero(self.w) } else { Bv::ones(self.w).shl(self.w - n) };
            r.zip(&m, |a, b| a | b)
        } else {
            r
        }
    }
    pub fn udivrem(&self, o: &Bv) -> (Bv, Bv) {
        if o.is_zero() {
            return (Bv::ones(self.w), self.clone());
        }
        if self.w <= 128 {
            let f = |b: &Bv| b.v[0] as u128 | if b.v.len() > 1 { (b.v[1] as u128) << 64 } else { 0 };
            let (a, b) = (f(self), f(o));
            return (Bv::u128(self.w, a / b), Bv::u128(self.w, a % b));
        }
        let mut q = Bv::zero(self.w);
        let mut r = Bv::zero(self.w);
        for i in (0..self.w).rev() {
            let top = r.bit(self.w - 1);
            r = r.shl(1);
            if self.bit(i) {
                r.v[0] |= 1;
            }
            if top || !r.ult(o) {
                r = r.sub(o);
                q.v[(i / 64) as usize] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
    pub fn extract(&self, hi: u32, lo: u32) -> Bv {
        let w = hi - lo + 1;
        let s = self.lshr(lo);
        let mut r = Bv::zero(w);
        let n = r.v.len();
        r.v.copy_from_slice(&s.v[..n]);
        r.norm()
    }
    /// most significant first
    pub fn join(p: &[&Bv]) -> Bv {
        let w: u32 = p.iter().map(|x| x.w).sum();
        let mut r = Bv { w, v: Limbs::zero((w as usize).div_ceil(64)) };
        let mut at = 0usize;
        for x in p.iter().rev() {
            for (i, l) in x.v.iter().enumerate() {
                let at = at + 64 * i;
                let (k, s) = (at / 64, at % 64);
                if *l == 0 {
                    continue;
                }
                r.v[k] |= l << s;
                if s > 0 && l >> (64 - s) != 0 {
                    r.v[k + 1] |= l >> (64 - s);
                }
            }
            at += x.w as usize;
        }
        r
    }
    pub fn concat(&self, lo: &Bv) -> Bv {
        let w = self.w + lo.w;
        let mut a = Bv::zero(w);
        a.v[..lo.v.len()].copy_from_slice(&lo.v);
        let mut h = Bv::zero(w);
        h.v[..self.v.len()].copy_from_slice(&self.v);
        let h = h.shl(lo.w);
        a.zip(&h, |x, y| x | y)
    }
    pub fn zext(&self, w: u32) -> Bv {
        let mut a = Bv::zero(w);
        a.v[..self.v.len()].copy_from_slice(&self.v);
        a
    }
    pub fn sext(&self, w: u32) -> Bv {
        let a = self.zext(w);
        if self.bit(self.w - 1) && w > self.w {
            let m = Bv::ones(w).shl(self.w);
            a.zip(&m, |x, y| x | y)
        } else {
            a
        }
    }
    /// big-endian bytes; the width must be a multiple of 8
    pub fn to_be(&self) -> Vec<u8> {
        let n = (self.w / 8) as usize;
        (0..n).rev().map(|i| (self.v[i / 8] >> (8 * (i % 8))) as u8).collect()
    }
    pub fn from_be(b: &[u8]) -> Bv {
        let mut r = Bv::zero(b.len() as u32 * 8);
        for (i, x) in b.iter().rev().enumerate() {
            r.v[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        r
    }
    pub fn smt(&self) -> String {
        let mut s = String::with_capacity(self.w as usize / 4 + 4);
        if self.w % 4 == 0 {
            s.push_str("#x");
            for i in (0..self.w / 4).rev() {
                let d = (self.v[(i / 16) as usize] >> (4 * (i % 16))) & 15;
                s.push(std::char::from_digit(d as u32, 16).unwrap());
            }
        } else {
            s.push_str("#b");
            for i in (0..self.w).rev() {
                s.push(if self.bit(i) { '1' } else { '0' });
            }
        }
        s
    }
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
    const K: [u32; 64] = [
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4,
        0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe,
        0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f,
        0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7,
        0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc,
        0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b,
        0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116,
        0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
        0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7,
        0xc67178f2,
    ];
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab,
        0x5be0cd19,
    ];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut a = h;
        for i in 0..64 {
            let s1 = a[4].rotate_right(6) ^ a[4].rotate_right(11) ^ a[4].rotate_right(25);
            let ch = (a[4] & a[5]) ^ (!a[4] & a[6]);
            let t1 = a[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
            let s0 = a[0].rotate_right(2) ^ a[0].rotate_right(13) ^ a[0].rotate_right(22);
            let mj = (a[0] & a[1]) ^ (a[0] & a[2]) ^ (a[1] & a[2]);
            let t2 = s0.wrapping_add(mj);
            a = [t1.wrapping_add(t2), a[0], a[1], a[2], a[3].wrapping_add(t1), a[4], a[5], a[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(a[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
