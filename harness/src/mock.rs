//! A transparent pairing engine over `Fp<P>`: group elements are their own
//! discrete logarithms, so every equation of Groth16 can be checked by plain
//! field arithmetic.  G1, G2 and Gt are distinct types, and points carry an
//! encoding with the usual failure modes (non-canonical value, off-curve
//! check word, wrong subgroup, identity flag).

use crate::fp::Fp;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::Field;
use group::cofactor::{CofactorCurve, CofactorCurveAffine, CofactorGroup};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding, UncompressedEncoding, WnafGroup};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use rand_core::RngCore;
use subtle::{Choice, CtOption};

/// `T` = 1, 2, 3 for G1, G2, Gt.
#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, Debug)]
pub struct Pt<const P: u64, const T: u8>(pub Fp<P>);

pub type G1<const P: u64> = Pt<P, 1>;
pub type G2<const P: u64> = Pt<P, 2>;
pub type Gt<const P: u64> = Pt<P, 3>;

macro_rules! pt_addsub {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident) => {
        impl<const P: u64, const T: u8> $tr for Pt<P, T> {
            type Output = Self;
            #[inline(always)]
            fn $m(self, o: Self) -> Self {
                Pt((self.0).$m(o.0))
            }
        }
        impl<'a, const P: u64, const T: u8> $tr<&'a Pt<P, T>> for Pt<P, T> {
            type Output = Self;
            #[inline(always)]
            fn $m(self, o: &Self) -> Self {
                Pt((self.0).$m(o.0))
            }
        }
        impl<const P: u64, const T: u8> $tra for Pt<P, T> {
            #[inline(always)]
            fn $ma(&mut self, o: Self) {
                (self.0).$ma(o.0)
            }
        }
        impl<'a, const P: u64, const T: u8> $tra<&'a Pt<P, T>> for Pt<P, T> {
            #[inline(always)]
            fn $ma(&mut self, o: &Self) {
                (self.0).$ma(o.0)
            }
        }
    };
}
pt_addsub!(Add, add, AddAssign, add_assign);
pt_addsub!(Sub, sub, SubAssign, sub_assign);

impl<const P: u64, const T: u8> Mul<Fp<P>> for Pt<P, T> {
    type Output = Self;
    #[inline(always)]
    fn mul(self, o: Fp<P>) -> Self {
        Pt(self.0 * o)
    }
}
impl<'a, const P: u64, const T: u8> Mul<&'a Fp<P>> for Pt<P, T> {
    type Output = Self;
    #[inline(always)]
    fn mul(self, o: &Fp<P>) -> Self {
        Pt(self.0 * *o)
    }
}
impl<const P: u64, const T: u8> MulAssign<Fp<P>> for Pt<P, T> {
    fn mul_assign(&mut self, o: Fp<P>) {
        self.0 *= o
    }
}
impl<'a, const P: u64, const T: u8> MulAssign<&'a Fp<P>> for Pt<P, T> {
    fn mul_assign(&mut self, o: &Fp<P>) {
        self.0 *= *o
    }
}
impl<const P: u64, const T: u8> Neg for Pt<P, T> {
    type Output = Self;
    fn neg(self) -> Self {
        Pt(-self.0)
    }
}
impl<const P: u64, const T: u8> Sum for Pt<P, T> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Pt(Fp::ZERO), |a, b| a + b)
    }
}
impl<'a, const P: u64, const T: u8> Sum<&'a Pt<P, T>> for Pt<P, T> {
    fn sum<I: Iterator<Item = &'a Self>>(it: I) -> Self {
        it.fold(Pt(Fp::ZERO), |a, b| a + b)
    }
}
impl<const P: u64, const T: u8> Group for Pt<P, T> {
    type Scalar = Fp<P>;
    fn random(mut rng: impl RngCore) -> Self {
        loop {
            let v = Fp::random(&mut rng);
            if v != Fp::ZERO {
                return Pt(v);
            }
        }
    }
    fn identity() -> Self {
        Pt(Fp::ZERO)
    }
    fn generator() -> Self {
        Pt(Fp::ONE)
    }
    fn is_identity(&self) -> Choice {
        self.0.is_zero()
    }
    fn double(&self) -> Self {
        Pt(self.0.double())
    }
}
impl<const P: u64, const T: u8> PrimeGroup for Pt<P, T> {}
impl<const P: u64, const T: u8> Curve for Pt<P, T> {
    type AffineRepr = Self;
    fn to_affine(&self) -> Self {
        *self
    }
}
impl<const P: u64, const T: u8> WnafGroup for Pt<P, T> {
    fn recommended_wnaf_for_num_scalars(n: usize) -> usize {
        // vary the table size so that table construction is exercised
        match n {
            0..=4 => 3,
            5..=40 => 4,
            41..=300 => 5,
            _ => 6,
        }
    }
}
impl<const P: u64, const T: u8> PrimeCurve for Pt<P, T> {
    type Affine = Self;
}
impl<const P: u64, const T: u8> PrimeCurveAffine for Pt<P, T> {
    type Curve = Self;
    type Scalar = Fp<P>;
    fn identity() -> Self {
        Pt(Fp::ZERO)
    }
    fn generator() -> Self {
        Pt(Fp::ONE)
    }
    fn is_identity(&self) -> Choice {
        self.0.is_zero()
    }
    fn to_curve(&self) -> Self {
        *self
    }
}
impl<const P: u64, const T: u8> CofactorGroup for Pt<P, T> {
    type Subgroup = Self;
    fn clear_cofactor(&self) -> Self {
        *self
    }
    fn into_subgroup(self) -> CtOption<Self> {
        CtOption::new(self, Choice::from(1))
    }
    fn is_torsion_free(&self) -> Choice {
        Choice::from(1)
    }
}
impl<const P: u64, const T: u8> CofactorCurve for Pt<P, T> {
    type Affine = Self;
}
impl<const P: u64, const T: u8> CofactorCurveAffine for Pt<P, T> {
    type Curve = Self;
    type Scalar = Fp<P>;
    fn identity() -> Self {
        Pt(Fp::ZERO)
    }
    fn generator() -> Self {
        Pt(Fp::ONE)
    }
    fn is_identity(&self) -> Choice {
        self.0.is_zero()
    }
    fn to_curve(&self) -> Self {
        *self
    }
}

// ---------------------------------------------------------------- encodings

/// A byte array of any length (`Default` is not implemented for arbitrary
/// array lengths).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Bytes<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for Bytes<N> {
    fn default() -> Self {
        Bytes([0; N])
    }
}
impl<const N: usize> AsRef<[u8]> for Bytes<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> AsMut<[u8]> for Bytes<N> {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}

pub const TAG_ID: u8 = 0x40;
pub const TAG_POINT: u8 = 0x04;
/// A point of the curve outside the prime-order subgroup.
pub const TAG_WRONG_SUBGROUP: u8 = 0x05;
pub const COMPRESSED: usize = 10;
pub const UNCOMPRESSED: usize = 17;

/// The "curve equation": the second coordinate every value must carry.
pub fn y_of(v: u64, t: u8) -> u64 {
    v.wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .rotate_left(17 + t as u32)
        ^ 0x5bd1_e995_0000_0001
}
fn cs(v: u64, t: u8) -> u8 {
    let mut x = (y_of(v, t) >> 56) as u8;
    x ^= t;
    x
}

/// Encodes any (tag, value, y) triple; used by the fuzzers to craft points.
pub fn enc_uncompressed(tag: u8, v: u64, y: u64) -> [u8; UNCOMPRESSED] {
    let mut r = [0u8; UNCOMPRESSED];
    r[0] = tag;
    r[1..9].copy_from_slice(&v.to_be_bytes());
    r[9..17].copy_from_slice(&y.to_be_bytes());
    r
}
pub fn enc_compressed(tag: u8, v: u64, c: u8) -> [u8; COMPRESSED] {
    let mut r = [0u8; COMPRESSED];
    r[0] = tag;
    r[1..9].copy_from_slice(&v.to_be_bytes());
    r[9] = c;
    r
}

fn be(b: &[u8]) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(b);
    u64::from_be_bytes(x)
}

impl<const P: u64, const T: u8> GroupEncoding for Pt<P, T> {
    type Repr = Bytes<COMPRESSED>;
    fn from_bytes(b: &Self::Repr) -> CtOption<Self> {
        let v = be(&b.0[1..9]);
        let ok = match b.0[0] {
            TAG_ID => v == 0 && b.0[9] == 0,
            TAG_POINT => v < P && v != 0 && b.0[9] == cs(v, T),
            _ => false,
        };
        CtOption::new(Pt(Fp::new(if ok { v } else { 0 })), Choice::from(ok as u8))
    }
    fn from_bytes_unchecked(b: &Self::Repr) -> CtOption<Self> {
        let v = be(&b.0[1..9]);
        CtOption::new(Pt(Fp::new(v % P)), Choice::from((v < P) as u8))
    }
    fn to_bytes(&self) -> Self::Repr {
        let v = self.0.v();
        if v == 0 {
            Bytes(enc_compressed(TAG_ID, 0, 0))
        } else {
            Bytes(enc_compressed(TAG_POINT, v, cs(v, T)))
        }
    }
}
impl<const P: u64, const T: u8> UncompressedEncoding for Pt<P, T> {
    type Uncompressed = Bytes<UNCOMPRESSED>;
    fn from_uncompressed(b: &Self::Uncompressed) -> CtOption<Self> {
        let v = be(&b.0[1..9]);
        let y = be(&b.0[9..17]);
        let ok = match b.0[0] {
            TAG_ID => v == 0 && y == 0,
            TAG_POINT => v < P && v != 0 && y == y_of(v, T),
            _ => false,
        };
        CtOption::new(Pt(Fp::new(if ok { v } else { 0 })), Choice::from(ok as u8))
    }
    fn from_uncompressed_unchecked(b: &Self::Uncompressed) -> CtOption<Self> {
        let v = be(&b.0[1..9]);
        let ok = match b.0[0] {
            TAG_ID => v == 0,
            TAG_POINT | TAG_WRONG_SUBGROUP => v < P && v != 0,
            _ => false,
        };
        CtOption::new(Pt(Fp::new(if ok { v } else { 0 })), Choice::from(ok as u8))
    }
    fn to_uncompressed(&self) -> Self::Uncompressed {
        let v = self.0.v();
        if v == 0 {
            Bytes(enc_uncompressed(TAG_ID, 0, 0))
        } else {
            Bytes(enc_uncompressed(TAG_POINT, v, y_of(v, T)))
        }
    }
}

// ------------------------------------------------------------------ pairing

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Mock<const P: u64>;

/// The Miller loop value carries a factor that only the final exponentiation
/// removes, and the number of terms, so that skipping the final step or
/// mixing it up is visible.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Ml<const P: u64>(Fp<P>, u64);

impl<const P: u64> Add for Ml<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Ml(self.0 + o.0, self.1 + o.1)
    }
}
impl<'a, const P: u64> Add<&'a Ml<P>> for Ml<P> {
    type Output = Self;
    fn add(self, o: &Self) -> Self {
        Ml(self.0 + o.0, self.1 + o.1)
    }
}
impl<const P: u64> AddAssign for Ml<P> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<'a, const P: u64> AddAssign<&'a Ml<P>> for Ml<P> {
    fn add_assign(&mut self, o: &Self) {
        *self = *self + *o
    }
}
impl<const P: u64> MillerLoopResult for Ml<P> {
    type Gt = Gt<P>;
    fn final_exponentiation(&self) -> Gt<P> {
        Pt(self.0)
    }
}

#[derive(Clone, Debug)]
pub struct Prepared<const P: u64>(G2<P>);
impl<const P: u64> From<G2<P>> for Prepared<P> {
    fn from(g: G2<P>) -> Self {
        Prepared(g)
    }
}

impl<const P: u64> Engine for Mock<P> {
    type Fr = Fp<P>;
    type G1 = G1<P>;
    type G1Affine = G1<P>;
    type G2 = G2<P>;
    type G2Affine = G2<P>;
    type Gt = Gt<P>;
    fn pairing(p: &G1<P>, q: &G2<P>) -> Gt<P> {
        Pt(p.0 * q.0)
    }
}
impl<const P: u64> MultiMillerLoop for Mock<P> {
    type G2Prepared = Prepared<P>;
    type Result = Ml<P>;
    fn multi_miller_loop(terms: &[(&G1<P>, &Prepared<P>)]) -> Ml<P> {
        Ml(
            terms.iter().map(|(a, b)| a.0 * (b.0).0).sum(),
            terms.len() as u64,
        )
    }
}
impl<const P: u64> PairingCurveAffine for G1<P> {
    type Pair = G2<P>;
    type PairingResult = Gt<P>;
    fn pairing_with(&self, o: &G2<P>) -> Gt<P> {
        Pt(self.0 * o.0)
    }
}
impl<const P: u64> PairingCurveAffine for G2<P> {
    type Pair = G1<P>;
    type PairingResult = Gt<P>;
    fn pairing_with(&self, o: &G1<P>) -> Gt<P> {
        Pt(self.0 * o.0)
    }
}
