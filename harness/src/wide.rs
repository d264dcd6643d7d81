//! The transparent engine of `mock.rs` over a 255-bit scalar field (that of
//! BLS12-381): what depends on the width of scalars (windows of multi-
//! exponentiations, truncated exponents or randomness) shows here, at a
//! hundred times the speed of the real curve.

use crate::mock::{y_of, Bytes, TAG_ID, TAG_POINT, TAG_WRONG_SUBGROUP};
use bls12_381::Scalar;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, PrimeField};
use group::cofactor::{CofactorCurve, CofactorCurveAffine, CofactorGroup};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding, UncompressedEncoding, WnafGroup};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use rand_core::RngCore;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use subtle::{Choice, CtOption};

/// `T` = 1, 2, 3 for G1, G2, Gt.
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct Wt<const T: u8>(pub Scalar);

pub type G1 = Wt<1>;
pub type G2 = Wt<2>;
pub type Gt = Wt<3>;

macro_rules! pt_addsub {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident) => {
        impl<const T: u8> $tr for Wt<T> {
            type Output = Self;
            #[inline(always)]
            fn $m(self, o: Self) -> Self {
                Wt((self.0).$m(o.0))
            }
        }
        impl<'a, const T: u8> $tr<&'a Wt<T>> for Wt<T> {
            type Output = Self;
            #[inline(always)]
            fn $m(self, o: &Self) -> Self {
                Wt((self.0).$m(o.0))
            }
        }
        impl<const T: u8> $tra for Wt<T> {
            #[inline(always)]
            fn $ma(&mut self, o: Self) {
                (self.0).$ma(o.0)
            }
        }
        impl<'a, const T: u8> $tra<&'a Wt<T>> for Wt<T> {
            #[inline(always)]
            fn $ma(&mut self, o: &Self) {
                (self.0).$ma(o.0)
            }
        }
    };
}
pt_addsub!(Add, add, AddAssign, add_assign);
pt_addsub!(Sub, sub, SubAssign, sub_assign);

impl<const T: u8> Mul<Scalar> for Wt<T> {
    type Output = Self;
    #[inline(always)]
    fn mul(self, o: Scalar) -> Self {
        Wt(self.0 * o)
    }
}
impl<'a, const T: u8> Mul<&'a Scalar> for Wt<T> {
    type Output = Self;
    #[inline(always)]
    fn mul(self, o: &Scalar) -> Self {
        Wt(self.0 * *o)
    }
}
impl<const T: u8> MulAssign<Scalar> for Wt<T> {
    fn mul_assign(&mut self, o: Scalar) {
        self.0 *= o
    }
}
impl<'a, const T: u8> MulAssign<&'a Scalar> for Wt<T> {
    fn mul_assign(&mut self, o: &Scalar) {
        self.0 *= *o
    }
}
impl<const T: u8> Neg for Wt<T> {
    type Output = Self;
    fn neg(self) -> Self {
        Wt(-self.0)
    }
}
impl<const T: u8> Sum for Wt<T> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Wt(Scalar::ZERO), |a, b| a + b)
    }
}
impl<'a, const T: u8> Sum<&'a Wt<T>> for Wt<T> {
    fn sum<I: Iterator<Item = &'a Self>>(it: I) -> Self {
        it.fold(Wt(Scalar::ZERO), |a, b| a + b)
    }
}
impl<const T: u8> Group for Wt<T> {
    type Scalar = Scalar;
    fn random(mut rng: impl RngCore) -> Self {
        loop {
            let v = Scalar::random(&mut rng);
            if v != Scalar::ZERO {
                return Wt(v);
            }
        }
    }
    fn identity() -> Self {
        Wt(Scalar::ZERO)
    }
    fn generator() -> Self {
        Wt(Scalar::ONE)
    }
    fn is_identity(&self) -> Choice {
        self.0.is_zero()
    }
    fn double(&self) -> Self {
        Wt(self.0.double())
    }
}
impl<const T: u8> PrimeGroup for Wt<T> {}
impl<const T: u8> Curve for Wt<T> {
    type AffineRepr = Self;
    fn to_affine(&self) -> Self {
        *self
    }
}
impl<const T: u8> WnafGroup for Wt<T> {
    fn recommended_wnaf_for_num_scalars(n: usize) -> usize {
        // vary the table size so that table construction is exercised
        match n {
            0..=4 => 3,
            5..=40 => 4,
            41..=300 => 5,
            _ => 6,
        }
    }
}
impl<const T: u8> PrimeCurve for Wt<T> {
    type Affine = Self;
}
impl<const T: u8> PrimeCurveAffine for Wt<T> {
    type Curve = Self;
    type Scalar = Scalar;
    fn identity() -> Self {
        Wt(Scalar::ZERO)
    }
    fn generator() -> Self {
        Wt(Scalar::ONE)
    }
    fn is_identity(&self) -> Choice {
        self.0.is_zero()
    }
    fn to_curve(&self) -> Self {
        *self
    }
}
impl<const T: u8> CofactorGroup for Wt<T> {
    type Subgroup = Self;
    fn clear_cofactor(&self) -> Self {
        *self
    }
    fn into_subgroup(self) -> CtOption<Self> {
        CtOption::new(self, Choice::from(1))
    }
    fn is_torsion_free(&self) -> Choice {
        Choice::from(1)
    }
}
impl<const T: u8> CofactorCurve for Wt<T> {
    type Affine = Self;
}
impl<const T: u8> CofactorCurveAffine for Wt<T> {
    type Curve = Self;
    type Scalar = Scalar;
    fn identity() -> Self {
        Wt(Scalar::ZERO)
    }
    fn generator() -> Self {
        Wt(Scalar::ONE)
    }
    fn is_identity(&self) -> Choice {
        self.0.is_zero()
    }
    fn to_curve(&self) -> Self {
        *self
    }
}

// ---------------------------------------------------------------- encodings

fn fold(v: &[u8], t: u8) -> [u8; 8] {
    let mut x = 0u64;
    for c in v.chunks(8) {
        let mut b = [0; 8];
        b.copy_from_slice(c);
        x = y_of(x ^ u64::from_be_bytes(b), t);
    }
    x.to_be_bytes()
}
fn val(b: &[u8]) -> Option<Scalar> {
    let mut r = [0u8; 32];
    r.copy_from_slice(b);
    Scalar::from_repr(r).into()
}
fn opt<const T: u8>(x: Option<Scalar>) -> CtOption<Wt<T>> {
    CtOption::new(Wt(x.unwrap_or(Scalar::ZERO)), Choice::from(x.is_some() as u8))
}

impl<const T: u8> GroupEncoding for Wt<T> {
    type Repr = Bytes<34>;
    fn from_bytes(b: &Self::Repr) -> CtOption<Self> {
        let v = val(&b.0[1..33]);
        opt(match b.0[0] {
            TAG_ID => v.filter(|x| bool::from(x.is_zero()) && b.0[33] == 0),
            TAG_POINT => v.filter(|x| !bool::from(x.is_zero()) && b.0[33] == fold(&b.0[1..33], T)[0]),
            _ => None,
        })
    }
    fn from_bytes_unchecked(b: &Self::Repr) -> CtOption<Self> {
        opt(val(&b.0[1..33]))
    }
    fn to_bytes(&self) -> Self::Repr {
        let mut r = [0u8; 34];
        r[1..33].copy_from_slice(&self.0.to_repr());
        if bool::from(self.0.is_zero()) {
            r[0] = TAG_ID;
        } else {
            r[0] = TAG_POINT;
            r[33] = fold(&r[1..33], T)[0];
        }
        Bytes(r)
    }
}
impl<const T: u8> UncompressedEncoding for Wt<T> {
    type Uncompressed = Bytes<41>;
    fn from_uncompressed(b: &Self::Uncompressed) -> CtOption<Self> {
        let v = val(&b.0[1..33]);
        opt(match b.0[0] {
            TAG_ID => v.filter(|x| bool::from(x.is_zero()) && b.0[33..41] == [0; 8]),
            TAG_POINT => v.filter(|x| !bool::from(x.is_zero()) && b.0[33..41] == fold(&b.0[1..33], T)),
            _ => None,
        })
    }
    fn from_uncompressed_unchecked(b: &Self::Uncompressed) -> CtOption<Self> {
        let v = val(&b.0[1..33]);
        opt(match b.0[0] {
            TAG_ID => v.filter(|x| bool::from(x.is_zero())),
            TAG_POINT | TAG_WRONG_SUBGROUP => v.filter(|x| !bool::from(x.is_zero())),
            _ => None,
        })
    }
    fn to_uncompressed(&self) -> Self::Uncompressed {
        let mut r = [0u8; 41];
        r[1..33].copy_from_slice(&self.0.to_repr());
        if bool::from(self.0.is_zero()) {
            r[0] = TAG_ID;
        } else {
            r[0] = TAG_POINT;
            let y = fold(&r[1..33], T);
            r[33..].copy_from_slice(&y);
        }
        Bytes(r)
    }
}

// ------------------------------------------------------------------ pairing

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Wide;

/// While set, the terms of all Miller loops are kept in `TERMS`.
static RECORD: AtomicBool = AtomicBool::new(false);
static TERMS: Mutex<Vec<Scalar>> = Mutex::new(vec![]);

/// Runs `f` and gives the (logarithms of the) terms of its Miller loops.
pub fn record<T>(f: impl FnOnce() -> T) -> (T, Vec<Scalar>) {
    TERMS.lock().unwrap().clear();
    RECORD.store(true, Ordering::SeqCst);
    let r = f();
    RECORD.store(false, Ordering::SeqCst);
    let t = std::mem::take(&mut *TERMS.lock().unwrap());
    (r, t)
}

/// The Miller loop value carries a factor that only the final exponentiation
/// removes, and the number of terms, so that skipping the final step or
/// mixing it up is visible.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Ml(Scalar, u64);

impl Add for Ml {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Ml(self.0 + o.0, self.1 + o.1)
    }
}
impl<'a> Add<&'a Ml> for Ml {
    type Output = Self;
    fn add(self, o: &Self) -> Self {
        Ml(self.0 + o.0, self.1 + o.1)
    }
}
impl AddAssign for Ml {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<'a> AddAssign<&'a Ml> for Ml {
    fn add_assign(&mut self, o: &Self) {
        *self = *self + *o
    }
}
impl MillerLoopResult for Ml {
    type Gt = Gt;
    fn final_exponentiation(&self) -> Gt {
        Wt(self.0)
    }
}

#[derive(Clone, Debug)]
pub struct Prepared(G2);
impl From<G2> for Prepared {
    fn from(g: G2) -> Self {
        Prepared(g)
    }
}

impl Engine for Wide {
    type Fr = Scalar;
    type G1 = G1;
    type G1Affine = G1;
    type G2 = G2;
    type G2Affine = G2;
    type Gt = Gt;
    fn pairing(p: &G1, q: &G2) -> Gt {
        Wt(p.0 * q.0)
    }
}
impl MultiMillerLoop for Wide {
    type G2Prepared = Prepared;
    type Result = Ml;
    fn multi_miller_loop(terms: &[(&G1, &Prepared)]) -> Ml {
        if RECORD.load(Ordering::Relaxed) {
            TERMS.lock().unwrap().extend(terms.iter().map(|(a, b)| a.0 * (b.0).0));
        }
        Ml(
            terms.iter().map(|(a, b)| a.0 * (b.0).0).sum(),
            terms.len() as u64,
        )
    }
}
impl PairingCurveAffine for G1 {
    type Pair = G2;
    type PairingResult = Gt;
    fn pairing_with(&self, o: &G2) -> Gt {
        Wt(self.0 * o.0)
    }
}
impl PairingCurveAffine for G2 {
    type Pair = G1;
    type PairingResult = Gt;
    fn pairing_with(&self, o: &G1) -> Gt {
        Wt(self.0 * o.0)
    }
}
