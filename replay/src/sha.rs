//! SHA-256 (FIPS 180-4)
fn k() -> &'static [u32; 64] {
    static K: std::sync::OnceLock<[u32; 64]> = std::sync::OnceLock::new();
    K.get_or_init(|| {
        // fractional parts of the cube roots of the first 64 primes
        let mut k = [0u32; 64];
        let mut n = 0;
        let mut p = 2u128;
        while n < 64 {
            if (2..p).take_while(|d| d * d <= p).all(|d| p % d != 0) {
                // floor(cbrt(p) * 2^32) by bisection on integers
                let (mut lo, mut hi) = (0u128, 1u128 << 36);
                while lo + 1 < hi {
                    let m = (lo + hi) / 2;
                    // m^3 <= p * 2^96, computed without overflow
                    if le(m, p) {
                        lo = m
                    } else {
                        hi = m
                    }
                }
                k[n] = lo as u32;
                n += 1;
            }
            p += 1;
        }
        k
    })
}
fn le(m: u128, p: u128) -> bool {
    // m < 2^36, so m^3 < 2^108 and p * 2^96 < 2^105
    m * m * m <= p << 96
}
pub fn sha256(m: &[u8]) -> [u8; 32] {
    let k = k();
    let mut h: [u32; 8] = [
        0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
    ];
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    for b in d.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
