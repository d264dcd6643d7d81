//! Reference digests over bit strings.

use sha2::Digest;

/// Bytes from bits, most significant bit first.
pub fn be_bytes(b: &[bool]) -> Vec<u8> {
    b.chunks(8)
        .map(|c| c.iter().fold(0u8, |a, x| a << 1 | *x as u8))
        .collect()
}
pub fn le_bytes(b: &[bool]) -> Vec<u8> {
    b.chunks(8)
        .map(|c| c.iter().rev().fold(0u8, |a, x| a << 1 | *x as u8))
        .collect()
}
pub fn be_bits(b: &[u8]) -> Vec<bool> {
    b.iter()
        .flat_map(|x| (0..8).map(move |i| x >> (7 - i) & 1 == 1))
        .collect()
}
pub fn le_bits(b: &[u8]) -> Vec<bool> {
    b.iter()
        .flat_map(|x| (0..8).map(move |i| x >> i & 1 == 1))
        .collect()
}

pub fn sha256_bits(b: &[bool]) -> Vec<bool> {
    be_bits(&sha2::Sha256::digest(be_bytes(b)))
}

pub fn blake2s_bits(b: &[bool], pers: &[u8; 8]) -> Vec<bool> {
    let h = blake2s_simd::Params::new()
        .hash_length(32)
        .personal(pers)
        .hash(&le_bytes(b));
    le_bits(h.as_bytes())
}

/// Round constants from their definition: the first 32 bits of the
/// fractional parts of the cube (square) roots of the first primes.
fn frac_root(p: u64, cube: bool) -> u32 {
    // floor(p^(1/k) * 2^32) mod 2^32 by bisection over integers
    let (mut lo, mut hi) = (0u128, 1u128 << 40);
    while lo + 1 < hi {
        let m = (lo + hi) / 2;
        let big = if cube {
            // m^3 <= p * 2^96
            let m2 = m * m; // < 2^80
            // compare m2 * m with p << 96 in pieces
            let (a, b) = (m2 >> 48, m2 & ((1 << 48) - 1));
            let x = a * m + ((b * m) >> 48);
            x > (p as u128) << 48 || (x == (p as u128) << 48 && (b * m) & ((1 << 48) - 1) > 0)
        } else {
            m * m > (p as u128) << 64
        };
        if big {
            hi = m
        } else {
            lo = m
        }
    }
    lo as u32
}

fn primes(n: usize) -> Vec<u64> {
    let mut v = vec![];
    let mut k = 2;
    while v.len() < n {
        if (2..k).all(|d| k % d != 0) {
            v.push(k)
        }
        k += 1;
    }
    v
}

pub fn sha256_iv() -> [u32; 8] {
    let mut h = [0; 8];
    for (x, p) in h.iter_mut().zip(primes(8)) {
        *x = frac_root(p, false);
    }
    h
}

/// The compression function, written from FIPS 180-4.
pub fn compress(h: &mut [u32; 8], block: &[u8]) {
    let k: Vec<u32> = primes(64).into_iter().map(|p| frac_root(p, true)).collect();
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    for i in 16..64 {
        let a = w[i - 15];
        let b = w[i - 2];
        let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
        let s1 = b.rotate_right(17) ^ b.rotate_right(19) ^ (b >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let e = v[4];
        let t1 = v[7]
            .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
            .wrapping_add(e & v[5] ^ !e & v[6])
            .wrapping_add(k[i])
            .wrapping_add(w[i]);
        let a = v[0];
        let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22))
            .wrapping_add(a & v[1] ^ a & v[2] ^ v[1] & v[2]);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
    }
}

pub fn sha256_block_bits(b: &[bool]) -> Vec<bool> {
    let mut h = sha256_iv();
    compress(&mut h, &be_bytes(b));
    be_bits(&h.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>())
}

#[cfg(test)]
mod test {
    #[test]
    fn agree() {
        let mut h = super::sha256_iv();
        assert_eq!(h[0], 0x6a09e667);
        let mut b = b"abc".to_vec();
        b.push(0x80);
        b.resize(63, 0);
        b.push(24);
        super::compress(&mut h, &b);
        use sha2::Digest;
        let d = sha2::Sha256::digest(b"abc");
        assert_eq!(h.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>(), d.to_vec());
    }
}
