//! `Fp<P>`: an independent prime field for any prime `P < 2^64`, so that the
//! code under test can be run over tiny fields (exhaustive witness search),
//! over fields of unusual two-adicity, and over 64-bit fields (cheap bulk
//! cases).  Nothing in here is shared with bellman.

use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, FieldBits, PrimeField, PrimeFieldBits};
use rand_core::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub const GOLD: u64 = 18446744069414584321;
pub const P61: u64 = 2305843009213693951;
pub const P31: u64 = 2147483647;
/// 64-bit primes with two-adicity 4, 6 and 9.
pub const PS4: u64 = 15967351470009301393;
pub const PS6: u64 = 16250893502831171521;
pub const PS9: u64 = 13950314019455775233;

#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Fp<const P: u64>(u64);

const fn generator(p: u64) -> u64 {
    match p {
        3 | 5 | 11 | 13 | 19 | 29 | 37 | 61 => 2,
        7 | 17 | 31 | 127 | 257 | 65537 | PS9 => 3,
        23 | 97 | 193 | 64513 | PS4 => 5,
        251 => 6,
        P31 | GOLD => 7,
        P61 => 37,
        PS6 => 17,
        _ => panic!("no generator listed"),
    }
}

const fn modulus_str(p: u64) -> &'static str {
    match p {
        3 => "0x3",
        5 => "0x5",
        7 => "0x7",
        11 => "0xb",
        13 => "0xd",
        17 => "0x11",
        19 => "0x13",
        23 => "0x17",
        29 => "0x1d",
        31 => "0x1f",
        37 => "0x25",
        61 => "0x3d",
        97 => "0x61",
        127 => "0x7f",
        193 => "0xc1",
        251 => "0xfb",
        257 => "0x101",
        64513 => "0xfc01",
        65537 => "0x10001",
        P31 => "0x7fffffff",
        P61 => "0x1fffffffffffffff",
        GOLD => "0xffffffff00000001",
        PS4 => "0xdd976d9035b73991",
        PS6 => "0xe186c58a36f497c1",
        PS9 => "0xc19978b052d03201",
        _ => "?",
    }
}

const fn mulmod(p: u64, a: u64, b: u64) -> u64 {
    if p <= 0xffff_ffff {
        (a * b) % p
    } else {
        ((a as u128 * b as u128) % (p as u128)) as u64
    }
}

const fn powmod(p: u64, mut b: u64, mut e: u64) -> u64 {
    let mut r = 1 % p;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(p, r, b);
        }
        b = mulmod(p, b, b);
        e >>= 1;
    }
    r
}

#[inline(always)]
fn mul_fast(p: u64, a: u64, b: u64) -> u64 {
    if p <= 0xffff_ffff {
        (a * b) % p
    } else if p == GOLD {
        // 2^64 = 2^32 - 1, 2^96 = -1 (mod p)
        let x = a as u128 * b as u128;
        let lo = x as u64;
        let hi = (x >> 64) as u64;
        let hi_hi = hi >> 32;
        let hi_lo = hi & 0xffff_ffff;
        let (mut t, br) = lo.overflowing_sub(hi_hi);
        if br {
            t = t.wrapping_sub(0xffff_ffff);
        }
        let u = hi_lo * 0xffff_ffff;
        let (mut r, c) = t.overflowing_add(u);
        if c {
            r = r.wrapping_add(0xffff_ffff);
        }
        if r >= GOLD {
            r -= GOLD;
        }
        r
    } else if p == P61 {
        let x = a as u128 * b as u128;
        let r = (x as u64 & P61) + (x >> 61) as u64;
        if r >= P61 {
            r - P61
        } else {
            r
        }
    } else {
        ((a as u128 * b as u128) % (p as u128)) as u64
    }
}

impl<const P: u64> Fp<P> {
    pub const fn new(v: u64) -> Self {
        Fp(v % P)
    }
    #[inline(always)]
    pub const fn v(&self) -> u64 {
        self.0
    }
    pub fn powu(self, e: u64) -> Self {
        Fp(powmod(P, self.0, e))
    }
    pub fn inv(self) -> Option<Self> {
        if self.0 == 0 {
            None
        } else {
            Some(self.powu(P - 2))
        }
    }
}

impl<const P: u64> fmt::Debug for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // small negatives are easier to read as such
        if P > 1000 && P - self.0 < 1000 {
            write!(f, "-{}", P - self.0)
        } else {
            write!(f, "{}", self.0)
        }
    }
}

impl<const P: u64> fmt::Display for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

#[inline(always)]
fn add_m(p: u64, a: u64, b: u64) -> u64 {
    let (s, c) = a.overflowing_add(b);
    if c || s >= p {
        s.wrapping_sub(p)
    } else {
        s
    }
}
#[inline(always)]
fn sub_m(p: u64, a: u64, b: u64) -> u64 {
    if a >= b {
        a - b
    } else {
        p - (b - a)
    }
}

macro_rules! binop {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:ident) => {
        impl<const P: u64> $tr for Fp<P> {
            type Output = Self;
            #[inline(always)]
            fn $m(self, o: Self) -> Self {
                Fp($f(P, self.0, o.0))
            }
        }
        impl<'a, const P: u64> $tr<&'a Fp<P>> for Fp<P> {
            type Output = Self;
            #[inline(always)]
            fn $m(self, o: &Self) -> Self {
                Fp($f(P, self.0, o.0))
            }
        }
        impl<const P: u64> $tra for Fp<P> {
            #[inline(always)]
            fn $ma(&mut self, o: Self) {
                self.0 = $f(P, self.0, o.0)
            }
        }
        impl<'a, const P: u64> $tra<&'a Fp<P>> for Fp<P> {
            #[inline(always)]
            fn $ma(&mut self, o: &Self) {
                self.0 = $f(P, self.0, o.0)
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, add_m);
binop!(Sub, sub, SubAssign, sub_assign, sub_m);
binop!(Mul, mul, MulAssign, mul_assign, mul_fast);

impl<const P: u64> Neg for Fp<P> {
    type Output = Self;
    #[inline(always)]
    fn neg(self) -> Self {
        Fp(sub_m(P, 0, self.0))
    }
}
impl<const P: u64> Sum for Fp<P> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Fp(0), |a, b| a + b)
    }
}
impl<'a, const P: u64> Sum<&'a Fp<P>> for Fp<P> {
    fn sum<I: Iterator<Item = &'a Self>>(it: I) -> Self {
        it.fold(Fp(0), |a, b| a + b)
    }
}
impl<const P: u64> Product for Fp<P> {
    fn product<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Fp(1), |a, b| a * b)
    }
}
impl<'a, const P: u64> Product<&'a Fp<P>> for Fp<P> {
    fn product<I: Iterator<Item = &'a Self>>(it: I) -> Self {
        it.fold(Fp(1), |a, b| a * b)
    }
}
impl<const P: u64> From<u64> for Fp<P> {
    fn from(v: u64) -> Self {
        Fp(v % P)
    }
}
impl<const P: u64> ConditionallySelectable for Fp<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Fp(u64::conditional_select(&a.0, &b.0, c))
    }
}
impl<const P: u64> ConstantTimeEq for Fp<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}

impl<const P: u64> Field for Fp<P> {
    const ZERO: Self = Fp(0);
    const ONE: Self = Fp(1);

    fn random(mut rng: impl RngCore) -> Self {
        // rejection sampling: consumes 8 bytes per attempt
        if P.leading_zeros() > 0 {
            let mask = u64::MAX >> P.leading_zeros();
            loop {
                let v = rng.next_u64() & mask;
                if v < P {
                    return Fp(v);
                }
            }
        }
        loop {
            let v = rng.next_u64();
            if v < P {
                return Fp(v);
            }
        }
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(
            Fp(powmod(P, self.0, P - 2)),
            Choice::from((self.0 != 0) as u8),
        )
    }
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
        ff::helpers::sqrt_ratio_generic(num, div)
    }
    fn sqrt(&self) -> CtOption<Self> {
        // (t - 1) / 2 where p - 1 = 2^s t
        let t = (P - 1) >> Self::S;
        ff::helpers::sqrt_tonelli_shanks(self, [(t - 1) / 2])
    }
}

impl<const P: u64> PrimeField for Fp<P> {
    type Repr = [u8; 32];

    fn from_repr(r: [u8; 32]) -> CtOption<Self> {
        let mut b = [0u8; 8];
        b.copy_from_slice(&r[..8]);
        let v = u64::from_le_bytes(b);
        let ok = v < P && r[8..].iter().all(|&x| x == 0);
        CtOption::new(Fp(if ok { v } else { 0 }), Choice::from(ok as u8))
    }
    fn to_repr(&self) -> [u8; 32] {
        let mut r = [0u8; 32];
        r[..8].copy_from_slice(&self.0.to_le_bytes());
        r
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
    const MODULUS: &'static str = modulus_str(P);
    const NUM_BITS: u32 = 64 - P.leading_zeros();
    const CAPACITY: u32 = 63 - P.leading_zeros();
    const TWO_INV: Self = Fp((P - 1) / 2 + 1);
    const MULTIPLICATIVE_GENERATOR: Self = Fp(generator(P));
    const S: u32 = (P - 1).trailing_zeros();
    const ROOT_OF_UNITY: Self = Fp(powmod(P, generator(P), (P - 1) >> (P - 1).trailing_zeros()));
    const ROOT_OF_UNITY_INV: Self = Fp(powmod(
        P,
        powmod(P, generator(P), (P - 1) >> (P - 1).trailing_zeros()),
        P - 2,
    ));
    const DELTA: Self = Fp(powmod(P, generator(P), 1 << (P - 1).trailing_zeros()));
}

impl<const P: u64> PrimeFieldBits for Fp<P> {
    type ReprBits = [u64; 1];
    fn to_le_bits(&self) -> FieldBits<Self::ReprBits> {
        FieldBits::new([self.0])
    }
    fn char_le_bits() -> FieldBits<Self::ReprBits> {
        FieldBits::new([P])
    }
}
