//! Random programs over the gadget library, with a plain model of every value.

use crate::engine::*;
use crate::rec::*;
use bellman::gadgets::boolean::{
    field_into_allocated_bits_le, field_into_boolean_vec_le, u64_into_boolean_vec_le, AllocatedBit,
    Boolean,
};
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::num::{AllocatedNum, Num};
use bellman::gadgets::uint32::UInt32;
use bellman::gadgets::{blake2s, lookup, multipack, sha256};
use bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
use ff::{PrimeField, PrimeFieldBits};

pub type B3 = [usize; 3];

#[derive(Clone, Debug)]
pub enum Op<F> {
    AllocBit,
    /// Allocates under the condition of an earlier bit.
    AllocCond(usize),
    ConstBit(bool),
    NotBit(usize),
    AbXor(usize, usize),
    AbAnd(usize, usize),
    AbAndNot(usize, usize),
    AbNor(usize, usize),
    Xor(usize, usize),
    And(usize, usize),
    Ch(B3),
    Maj(B3),
    /// Equality of two bits; the second is negated when the values differ.
    EqBit(usize, usize),
    U64Bits,
    FieldBits,
    FieldABits,
    /// Bits of a value of another field than that of the constraints.
    Foreign(u8, bool),
    AllocNum,
    Mul(usize, usize),
    Square(usize),
    Nonzero(usize),
    CondRev(usize, usize, usize),
    Inputize(usize),
    ToBits(usize),
    ToBitsStrict(usize),
    NumZero,
    NumOf(usize),
    NumAdd(usize, usize, F),
    /// Allocates a number and ties `coeff * num` to it.
    NumTie(usize, F),
    WConst(u32),
    WAlloc,
    WFromBits(Vec<usize>),
    WFromBitsBe(Vec<usize>),
    WBits(usize),
    WBitsBe(usize),
    Rotr(usize, usize),
    Shr(usize, usize),
    WXor(usize, usize),
    WCh(B3),
    WMaj(B3),
    Add(Vec<usize>),
    Lookup(B3, Vec<(F, F)>),
    LookupNeg(B3, Vec<(F, F)>),
    Pack(Vec<usize>),
    Sha(Vec<usize>),
    ShaBlock(Vec<usize>),
    Blake(Vec<usize>, [u8; 8]),
}

/// A run of operations; `me` runs go through an equality collector.
#[derive(Clone, Debug)]
pub struct Seg<F> {
    pub me: bool,
    pub ops: Vec<Op<F>>,
}

#[derive(Clone, Debug)]
pub struct Prog<F> {
    pub segs: Vec<Seg<F>>,
}

/// One private value per allocating operation, in program order.
#[derive(Clone, Debug)]
pub struct Wit<F> {
    pub w: Vec<(u64, F)>,
}

pub struct State<F: PrimeField> {
    pub bits: Vec<(Boolean, bool)>,
    pub nums: Vec<(AllocatedNum<F>, F)>,
    pub lins: Vec<(Num<F>, F)>,
    pub words: Vec<(UInt32, u32)>,
    /// Variables allocated as private inputs of the program.
    pub ins: Vec<Ix>,
    /// Expected public inputs.
    pub publ: Vec<F>,
    /// Choices that depend on the first witness, kept for later runs.
    pub dec: Vec<bool>,
    pub dec_pos: usize,
    pub replay: bool,
    next: usize,
    pub given: bool,
    pub ops: u64,
}

impl<F: PrimeFieldBits> State<F> {
    pub fn new(given: bool) -> Self {
        State {
            bits: vec![],
            nums: vec![],
            lins: vec![],
            words: vec![],
            ins: vec![],
            publ: vec![],
            dec: vec![],
            dec_pos: 0,
            replay: false,
            next: 0,
            given,
            ops: 0,
        }
    }
    /// A later run that repeats the structural choices of `first`.
    pub fn again(given: bool, dec: &[bool]) -> Self {
        let mut s = Self::new(given);
        s.dec = dec.to_vec();
        s.replay = true;
        s
    }
    fn decide(&mut self, d: bool) -> bool {
        if self.replay {
            let r = self.dec.get(self.dec_pos).copied().unwrap_or(false);
            self.dec_pos += 1;
            r
        } else {
            self.dec.push(d);
            d
        }
    }
    fn wit(&mut self, w: &Wit<F>) -> (u64, F) {
        let v = w.w[self.next];
        self.next += 1;
        v
    }
    fn opt<T>(&self, t: T) -> Option<T> {
        if self.given {
            Some(t)
        } else {
            None
        }
    }
    fn bit_in(&mut self, b: Boolean, v: bool) {
        if let Boolean::Is(a) = &b {
            self.ins.push(ix(a.get_variable()));
        }
        self.bits.push((b, v));
    }
    fn ab(&self, i: usize) -> Option<(AllocatedBit, bool)> {
        let (b, v) = &self.bits[i];
        match b {
            Boolean::Constant(_) => None,
            Boolean::Is(a) => Some((a.clone(), *v)),
            Boolean::Not(a) => Some((a.clone(), !*v)),
        }
    }
}

pub fn le_bits<F: PrimeField>(x: F) -> Vec<bool> {
    let r = x.to_repr();
    let v: Vec<bool> = r
        .as_ref()
        .iter()
        .flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1))
        .collect();
    v[..F::NUM_BITS as usize].to_vec()
}

/// 2^i by repeated addition.
pub fn pow2<F: PrimeField>(n: usize) -> F {
    let mut x = F::ONE;
    for _ in 0..n {
        x = x + x;
    }
    x
}

pub const FOREIGN: [usize; 5] = [3, 31, 61, 64, 255];

/// The bits of some value of the `k`-th foreign field.
fn foreign<S: PrimeField, CS: ConstraintSystem<S>>(
    cs: CS,
    k: u8,
    alloc: bool,
    v: u64,
    given: bool,
) -> Result<Vec<(Boolean, bool)>, SynthesisError> {
    fn go<S: PrimeField, G: PrimeFieldBits, CS: ConstraintSystem<S>>(
        cs: CS,
        alloc: bool,
        v: G,
        given: bool,
    ) -> Result<Vec<(Boolean, bool)>, SynthesisError> {
        let o = if given { Some(v) } else { None };
        let r: Vec<Boolean> = if alloc {
            field_into_allocated_bits_le(cs, o)?.into_iter().map(Boolean::from).collect()
        } else {
            field_into_boolean_vec_le(cs, o)?
        };
        assert_eq!(r.len(), G::NUM_BITS as usize, "bits of a value of another field");
        Ok(r.into_iter().zip(le_bits(v)).collect())
    }
    match k {
        0 => go(cs, alloc, crate::fp::Fp::<5>::from(v), given),
        1 => go(cs, alloc, crate::fp::Fp::<{ crate::fp::P31 }>::from(v), given),
        2 => go(cs, alloc, crate::fp::Fp::<{ crate::fp::P61 }>::from(v), given),
        3 => go(cs, alloc, crate::fp::Fp::<{ crate::fp::GOLD }>::from(v), given),
        _ => {
            let x = bls12_381::Scalar::from(v);
            let x = if v & 1 == 0 { x * x * x * x * x } else { -x };
            go(cs, alloc, x, given)
        }
    }
}

fn ints(bits: &[bool]) -> u32 {
    bits.iter().rev().fold(0, |a, b| a << 1 | *b as u32)
}

fn lookup_model<F: PrimeField>(t: &[(F, F)], i: usize) -> (F, F) {
    t[i]
}

/// Everything except `Add`.
fn basic<F: PrimeFieldBits, CS: ConstraintSystem<F>>(
    mut cs: CS,
    op: &Op<F>,
    w: &Wit<F>,
    st: &mut State<F>,
) -> Result<(), SynthesisError> {
    macro_rules! bv {
        ($i:expr) => {
            st.bits[$i].1
        };
    }
    macro_rules! bb {
        ($i:expr) => {
            st.bits[$i].0.clone()
        };
    }
    match op {
        Op::AllocBit => {
            let (v, _) = st.wit(w);
            let v = v & 1 == 1;
            let b = AllocatedBit::alloc(&mut cs, st.opt(v))?;
            st.bit_in(b.into(), v);
        }
        Op::AllocCond(i) => {
            let (v, _) = st.wit(w);
            match st.ab(*i) {
                None => {
                    let v = v & 1 == 1;
                    let b = AllocatedBit::alloc(&mut cs, st.opt(v))?;
                    st.bit_in(b.into(), v);
                }
                Some((m, mv)) => {
                    let v = v & 1 == 1 && !mv;
                    let b = AllocatedBit::alloc_conditionally(&mut cs, st.opt(v), &m)?;
                    st.bit_in(b.into(), v);
                }
            }
        }
        Op::ConstBit(b) => st.bits.push((Boolean::constant(*b), *b)),
        Op::NotBit(i) => {
            let b = st.bits[*i].0.not();
            let v = !bv!(*i);
            st.bits.push((b, v));
        }
        Op::AbXor(i, j) | Op::AbAnd(i, j) | Op::AbAndNot(i, j) | Op::AbNor(i, j) => {
            match (st.ab(*i), st.ab(*j)) {
                (Some((a, x)), Some((b, y))) => {
                    let (r, v) = match op {
                        Op::AbXor(..) => (AllocatedBit::xor(&mut cs, &a, &b)?, x ^ y),
                        Op::AbAnd(..) => (AllocatedBit::and(&mut cs, &a, &b)?, x & y),
                        Op::AbAndNot(..) => (AllocatedBit::and_not(&mut cs, &a, &b)?, x & !y),
                        _ => (AllocatedBit::nor(&mut cs, &a, &b)?, !x & !y),
                    };
                    st.bits.push((r.into(), v));
                }
                _ => {
                    let x = st.bits[*i].clone();
                    st.bits.push(x)
                }
            }
        }
        Op::Xor(i, j) => {
            let r = Boolean::xor(&mut cs, &bb!(*i), &bb!(*j))?;
            let v = bv!(*i) ^ bv!(*j);
            st.bits.push((r, v));
        }
        Op::And(i, j) => {
            let r = Boolean::and(&mut cs, &bb!(*i), &bb!(*j))?;
            let v = bv!(*i) & bv!(*j);
            st.bits.push((r, v));
        }
        Op::Ch([i, j, k]) => {
            let r = Boolean::sha256_ch(&mut cs, &bb!(*i), &bb!(*j), &bb!(*k))?;
            let v = if bv!(*i) { bv!(*j) } else { bv!(*k) };
            st.bits.push((r, v));
        }
        Op::Maj([i, j, k]) => {
            let r = Boolean::sha256_maj(&mut cs, &bb!(*i), &bb!(*j), &bb!(*k))?;
            let v = (bv!(*i) as u8 + bv!(*j) as u8 + bv!(*k) as u8) >= 2;
            st.bits.push((r, v));
        }
        Op::EqBit(i, j) => {
            let neg = bv!(*i) != bv!(*j);
            let neg = st.decide(neg);
            let b = if neg { bb!(*j).not() } else { bb!(*j) };
            Boolean::enforce_equal(&mut cs, &bb!(*i), &b)?;
        }
        Op::U64Bits => {
            let (v, _) = st.wit(w);
            let r = u64_into_boolean_vec_le(&mut cs, st.opt(v))?;
            assert_eq!(r.len(), 64, "u64_into_boolean_vec_le length");
            for (i, b) in r.into_iter().enumerate() {
                st.bit_in(b, v >> i & 1 == 1);
            }
        }
        Op::FieldBits | Op::FieldABits => {
            let (_, v) = st.wit(w);
            let r: Vec<Boolean> = if matches!(op, Op::FieldBits) {
                field_into_boolean_vec_le(&mut cs, st.opt(v))?
            } else {
                field_into_allocated_bits_le(&mut cs, st.opt(v))?
                    .into_iter()
                    .map(Boolean::from)
                    .collect()
            };
            assert_eq!(r.len(), F::NUM_BITS as usize, "field_into_*_le length");
            for (b, x) in r.into_iter().zip(le_bits(v)) {
                st.bit_in(b, x);
            }
        }
        Op::Foreign(k, alloc) => {
            let (v, _) = st.wit(w);
            for (b, x) in foreign::<F, _>(&mut cs, *k, *alloc, v, st.given)? {
                st.bit_in(b, x);
            }
        }
        Op::AllocNum => {
            let (_, v) = st.wit(w);
            let o = st.opt(v);
            let n = AllocatedNum::alloc(&mut cs, || o.ok_or(SynthesisError::AssignmentMissing))?;
            st.ins.push(ix(n.get_variable()));
            st.nums.push((n, v));
        }
        Op::Mul(i, j) => {
            let r = st.nums[*i].0.mul(&mut cs, &st.nums[*j].0)?;
            let v = st.nums[*i].1 * st.nums[*j].1;
            st.nums.push((r, v));
        }
        Op::Square(i) => {
            let r = st.nums[*i].0.square(&mut cs)?;
            let v = st.nums[*i].1 * st.nums[*i].1;
            st.nums.push((r, v));
        }
        Op::Nonzero(i) => {
            let nz = st.nums[*i].1 != F::ZERO;
            if st.decide(nz) {
                st.nums[*i].0.assert_nonzero(&mut cs)?;
            }
        }
        Op::CondRev(i, j, b) => {
            let (c, d) = AllocatedNum::conditionally_reverse(
                &mut cs,
                &st.nums[*i].0,
                &st.nums[*j].0,
                &st.bits[*b].0,
            )?;
            let (x, y) = (st.nums[*i].1, st.nums[*j].1);
            let (x, y) = if bv!(*b) { (y, x) } else { (x, y) };
            st.nums.push((c, x));
            st.nums.push((d, y));
        }
        Op::Inputize(i) => {
            st.nums[*i].0.inputize(&mut cs)?;
            let v = st.nums[*i].1;
            st.publ.push(v);
        }
        Op::ToBits(i) | Op::ToBitsStrict(i) => {
            let n = &st.nums[*i].0;
            let r = if matches!(op, Op::ToBits(_)) {
                n.to_bits_le(&mut cs)?
            } else {
                n.to_bits_le_strict(&mut cs)?
            };
            assert_eq!(r.len(), F::NUM_BITS as usize, "to_bits_le length");
            for (b, x) in r.into_iter().zip(le_bits(st.nums[*i].1)) {
                st.bits.push((b, x));
            }
        }
        Op::NumZero => st.lins.push((Num::zero(), F::ZERO)),
        Op::NumOf(i) => {
            let (n, v) = st.nums[*i].clone();
            st.lins.push((n.into(), v));
        }
        Op::NumAdd(i, b, c) => {
            let old = std::mem::replace(&mut st.lins[*i], (Num::zero(), F::ZERO));
            let n = old.0.add_bool_with_coeff(CS::one(), &st.bits[*b].0, *c);
            let v = old.1 + if bv!(*b) { *c } else { F::ZERO };
            st.lins[*i] = (n, v);
        }
        Op::NumTie(i, c) => {
            let (l, v) = (&st.lins[*i].0, st.lins[*i].1 * c);
            let o = l.get_value().map(|x| x * c);
            let n = AllocatedNum::alloc(&mut cs, || o.ok_or(SynthesisError::AssignmentMissing))?;
            let e = l.lc(*c);
            cs.enforce(
                || "tie",
                |lc| lc + CS::one(),
                |_| e,
                |lc| lc + n.get_variable(),
            );
            st.nums.push((n, v));
        }
        Op::WConst(v) => st.words.push((UInt32::constant(*v), *v)),
        Op::WAlloc => {
            let (v, _) = st.wit(w);
            let v = v as u32;
            let r = UInt32::alloc(&mut cs, st.opt(v))?;
            for b in r.clone().into_bits() {
                if let Boolean::Is(a) = &b {
                    st.ins.push(ix(a.get_variable()));
                }
            }
            st.words.push((r, v));
        }
        Op::WFromBits(x) | Op::WFromBitsBe(x) => {
            let b: Vec<Boolean> = x.iter().map(|i| bb!(*i)).collect();
            let mut v: Vec<bool> = x.iter().map(|i| bv!(*i)).collect();
            let r = if matches!(op, Op::WFromBits(_)) {
                UInt32::from_bits(&b)
            } else {
                v.reverse();
                UInt32::from_bits_be(&b)
            };
            st.words.push((r, ints(&v)));
        }
        Op::WBits(i) | Op::WBitsBe(i) => {
            let (u, v) = st.words[*i].clone();
            let be = matches!(op, Op::WBitsBe(_));
            let r = if be { u.into_bits_be() } else { u.into_bits() };
            assert_eq!(r.len(), 32, "word bit count");
            for (k, b) in r.into_iter().enumerate() {
                let k = if be { 31 - k } else { k };
                st.bits.push((b, v >> k & 1 == 1));
            }
        }
        Op::Rotr(i, k) => {
            let (u, v) = &st.words[*i];
            let r = (u.rotr(*k), v.rotate_right(*k as u32 % 32));
            st.words.push(r);
        }
        Op::Shr(i, k) => {
            let (u, v) = &st.words[*i];
            let r = (u.shr(*k), v >> *k);
            st.words.push(r);
        }
        Op::WXor(i, j) => {
            let r = st.words[*i].0.xor(&mut cs, &st.words[*j].0)?;
            let v = st.words[*i].1 ^ st.words[*j].1;
            st.words.push((r, v));
        }
        Op::WCh([i, j, k]) | Op::WMaj([i, j, k]) => {
            let (a, b, c) = (&st.words[*i], &st.words[*j], &st.words[*k]);
            let r = if matches!(op, Op::WCh(_)) {
                (
                    UInt32::sha256_ch(&mut cs, &a.0, &b.0, &c.0)?,
                    a.1 & b.1 | !a.1 & c.1,
                )
            } else {
                (
                    UInt32::sha256_maj(&mut cs, &a.0, &b.0, &c.0)?,
                    a.1 & b.1 | a.1 & c.1 | b.1 & c.1,
                )
            };
            st.words.push(r);
        }
        Op::Add(_) => unreachable!("Add outside an equality collector"),
        Op::Lookup(b, t) | Op::LookupNeg(b, t) => {
            let bs: Vec<Boolean> = b.iter().map(|i| bb!(*i)).collect();
            let v: Vec<usize> = b.iter().map(|i| bv!(*i) as usize).collect();
            if matches!(op, Op::Lookup(..)) {
                let (x, y) = lookup::lookup3_xy(&mut cs, &bs, t)?;
                let m = lookup_model(t, v[0] + 2 * v[1] + 4 * v[2]);
                st.nums.push((x, m.0));
                st.nums.push((y, m.1));
            } else {
                let (x, y) = lookup::lookup3_xy_with_conditional_negation(&mut cs, &bs, t)?;
                let m = lookup_model(t, v[0] + 2 * v[1]);
                st.lins.push((x, m.0));
                st.lins.push((y, if v[2] == 1 { F::ZERO - m.1 } else { m.1 }));
            }
        }
        Op::Pack(x) => {
            let bs: Vec<Boolean> = x.iter().map(|i| bb!(*i)).collect();
            multipack::pack_into_inputs(&mut cs, &bs)?;
            let v: Vec<bool> = x.iter().map(|i| bv!(*i)).collect();
            for c in v.chunks(F::CAPACITY as usize) {
                let mut s = F::ZERO;
                for (i, b) in c.iter().enumerate() {
                    if *b {
                        s += pow2::<F>(i);
                    }
                }
                st.publ.push(s);
            }
        }
        Op::Sha(x) | Op::ShaBlock(x) | Op::Blake(x, _) => {
            let bs: Vec<Boolean> = x.iter().map(|i| bb!(*i)).collect();
            let v: Vec<bool> = x.iter().map(|i| bv!(*i)).collect();
            let (r, m) = match op {
                Op::Sha(_) => (
                    sha256::sha256(&mut cs, &bs)?,
                    crate::refhash::sha256_bits(&v),
                ),
                Op::ShaBlock(_) => (
                    sha256::sha256_block_no_padding(&mut cs, &bs)?,
                    crate::refhash::sha256_block_bits(&v),
                ),
                Op::Blake(_, p) => (
                    blake2s::blake2s(&mut cs, &bs, p)?,
                    crate::refhash::blake2s_bits(&v, p),
                ),
                _ => unreachable!(),
            };
            assert_eq!(r.len(), m.len(), "digest length");
            for (b, v) in r.into_iter().zip(m) {
                st.bits.push((b, v));
            }
        }
    }
    Ok(())
}

fn step_me<F, CS, M>(
    mut m: M,
    op: &Op<F>,
    w: &Wit<F>,
    st: &mut State<F>,
) -> Result<(), SynthesisError>
where
    F: PrimeFieldBits,
    CS: ConstraintSystem<F>,
    M: ConstraintSystem<F, Root = MultiEq<F, CS>>,
{
    match op {
        Op::Add(x) => {
            let a: Vec<UInt32> = x.iter().map(|i| st.words[*i].0.clone()).collect();
            let v = x
                .iter()
                .fold(0u32, |s, i| s.wrapping_add(st.words[*i].1));
            let r = UInt32::addmany(&mut m, &a)?;
            st.words.push((r, v));
            Ok(())
        }
        _ => basic(m, op, w, st),
    }
}

pub fn exec<F: PrimeFieldBits, CS: ConstraintSystem<F>>(
    cs: &mut CS,
    p: &Prog<F>,
    w: &Wit<F>,
    st: &mut State<F>,
) -> Result<(), SynthesisError> {
    for (si, s) in p.segs.iter().enumerate() {
        if s.me {
            let mut m = MultiEq::new(cs.namespace(|| format!("seg {}", si)));
            for (i, op) in s.ops.iter().enumerate() {
                step_me(m.namespace(|| format!("op {}", i)), op, w, st)?;
                st.ops += 1;
            }
        } else {
            let mut ns = cs.namespace(|| format!("seg {}", si));
            for (i, op) in s.ops.iter().enumerate() {
                basic(ns.namespace(|| format!("op {}", i)), op, w, st)?;
                st.ops += 1;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- checks

/// Compares every value in the pools with the model: the reported value and
/// the value of the linear combination under the recorded assignment.
pub fn check_values<F: PrimeFieldBits>(r: &Rec<F>, st: &State<F>) -> R {
    let one = Rec::<F>::one();
    let f = |b: bool| if b { F::ONE } else { F::ZERO };
    for (i, (b, v)) in st.bits.iter().enumerate() {
        crate::ensure_eq!(b.get_value(), Some(*v), "value of bit {}", i);
        let l = r.eval_lc(&b.lc(one, F::ONE));
        crate::ensure_eq!(l, Some(f(*v)), "assignment behind bit {}", i);
    }
    for (i, (n, v)) in st.nums.iter().enumerate() {
        crate::ensure_eq!(n.get_value(), Some(*v), "value of number {}", i);
        let l = r.get(ix(n.get_variable()));
        crate::ensure_eq!(l, Some(*v), "assignment behind number {}", i);
    }
    for (i, (n, v)) in st.lins.iter().enumerate() {
        crate::ensure_eq!(n.get_value(), Some(*v), "value of combination {}", i);
        crate::ensure_eq!(r.eval_lc(&n.lc(F::ONE)), Some(*v), "combination {}", i);
        let c = F::from(3);
        crate::ensure_eq!(r.eval_lc(&n.lc(c)), Some(*v * c), "scaled combination {}", i);
    }
    for (i, (u, v)) in st.words.iter().enumerate() {
        let bs = u.clone().into_bits();
        crate::ensure_eq!(bs.len(), 32, "bits of word {}", i);
        for (k, b) in bs.iter().enumerate() {
            let x = v >> k & 1 == 1;
            crate::ensure_eq!(b.get_value(), Some(x), "bit {} of word {}", k, i);
            let l = r.eval_lc(&b.lc(one, F::ONE));
            crate::ensure_eq!(l, Some(f(x)), "assignment behind bit {} of word {}", k, i);
        }
    }
    let publ: Vec<F> = r.inputs.iter().skip(1).map(|x| x.unwrap_or(F::ZERO)).collect();
    crate::ensure_eq!(publ, st.publ, "public inputs");
    if let Some(c) = r.unsatisfied() {
        return Err(format!(
            "honest assignment violates constraint {}",
            r.show_cons(c)
        ));
    }
    Ok(())
}

/// Linear combinations of everything the program computed.
pub fn targets<F: PrimeFieldBits>(r: &Rec<F>, st: &State<F>) -> Vec<Terms<F>> {
    let one: Variable = Rec::<F>::one();
    let mut t: Vec<Terms<F>> = vec![];
    for (b, _) in &st.bits {
        t.push(terms(&b.lc(one, F::ONE)));
    }
    for (n, _) in &st.nums {
        t.push(vec![(ix(n.get_variable()), F::ONE)]);
    }
    for (n, _) in &st.lins {
        t.push(terms(&n.lc(F::ONE)));
    }
    for (u, _) in &st.words {
        for b in u.clone().into_bits() {
            t.push(terms(&b.lc(one, F::ONE)));
        }
    }
    for i in 1..r.inputs.len() {
        t.push(vec![(2 * i, F::ONE)]);
    }
    t
}

pub fn all_vars<F: PrimeField>(r: &Rec<F>) -> Vec<Terms<F>> {
    let mut t: Vec<Terms<F>> = (1..r.inputs.len()).map(|i| vec![(2 * i, F::ONE)]).collect();
    t.extend((0..r.aux.len()).map(|j| vec![(2 * j + 1, F::ONE)]));
    t
}

pub fn lc_zero<F: PrimeField>() -> LinearCombination<F> {
    LinearCombination::zero()
}

// ------------------------------------------------------------- generator

#[derive(Clone, Copy)]
pub struct Theme {
    pub bool_: u32,
    pub num: u32,
    pub lin: u32,
    pub word: u32,
    pub look: u32,
    pub strict: u32,
    pub loose: u32,
    pub publ: u32,
    pub hash: u32,
    pub me: bool,
    pub max_ops: usize,
    pub max_bits: usize,
}

pub const T_BOOL: Theme = Theme {
    bool_: 10,
    num: 0,
    lin: 0,
    word: 0,
    look: 0,
    strict: 0,
    loose: 0,
    publ: 0,
    hash: 0,
    me: false,
    max_ops: 14,
    max_bits: 400,
};

struct Sizes {
    bits: usize,
    nums: usize,
    lins: usize,
    words: usize,
    abits: usize,
}

fn idx(s: &mut Src, n: usize) -> usize {
    // recent items are the simple choice
    n - 1 - s.skewed(0, n - 1)
}

fn draw_scalar<F: PrimeField>(s: &mut Src) -> F {
    crate::circ::scalar::<F>(s)
}

/// `addable`: the field is large enough for word addition.
pub fn gen<F: PrimeFieldBits>(s: &mut Src, th: &Theme) -> (Prog<F>, Wit<F>) {
    let mut z = Sizes {
        bits: 0,
        nums: 0,
        lins: 0,
        words: 0,
        abits: 0,
    };
    let mut wit: Vec<(u64, F)> = vec![];
    let mut segs: Vec<Seg<F>> = vec![];
    let nseg = if th.me { s.size(1, 3) } else { 1 };
    for si in 0..nseg {
        let me = th.me && (si % 2 == 0) != s.bool();
        let mut ops: Vec<Op<F>> = vec![];
        let n = s.skewed(1, th.max_ops);
        while ops.len() < n {
            let k = s.weighted(&[
                th.bool_, th.num, th.lin, th.word, th.look, th.strict, th.loose, th.publ, th.hash,
            ]);
            let op = match k {
                0 => gen_bool(s, &mut z),
                1 => gen_num(s, &mut z, &mut ops),
                2 => {
                    if z.lins == 0 || s.chance(1, 5) {
                        z.lins += 1;
                        if z.nums > 0 && s.bool() {
                            Op::NumOf(idx(s, z.nums))
                        } else {
                            Op::NumZero
                        }
                    } else if z.bits > 0 && s.chance(4, 5) {
                        Op::NumAdd(idx(s, z.lins), idx(s, z.bits), draw_scalar(s))
                    } else {
                        z.nums += 1;
                        Op::NumTie(idx(s, z.lins), draw_scalar(s))
                    }
                }
                3 => gen_word(s, &mut z, me, th.max_bits),
                4 => {
                    if z.bits == 0 {
                        Op::AllocBit
                    } else {
                        let b = [idx(s, z.bits), idx(s, z.bits), idx(s, z.bits)];
                        let neg = s.bool();
                        let n = if neg { 4 } else { 8 };
                        let dup = s.chance(1, 4);
                        let mut t: Vec<(F, F)> = vec![];
                        for i in 0..n {
                            if dup && i > 0 && s.bool() {
                                let e = t[s.below(i)];
                                t.push(e);
                            } else {
                                t.push((draw_scalar(s), draw_scalar(s)));
                            }
                        }
                        if neg {
                            z.lins += 2;
                            Op::LookupNeg(b, t)
                        } else {
                            z.nums += 2;
                            Op::Lookup(b, t)
                        }
                    }
                }
                5 | 6 => {
                    if z.nums == 0 {
                        z.nums += 1;
                        Op::AllocNum
                    } else if z.bits + F::NUM_BITS as usize > th.max_bits {
                        break;
                    } else {
                        z.bits += F::NUM_BITS as usize;
                        let i = idx(s, z.nums);
                        if k == 5 {
                            Op::ToBitsStrict(i)
                        } else {
                            Op::ToBits(i)
                        }
                    }
                }
                7 => {
                    if z.nums > 0 && s.bool() {
                        Op::Inputize(idx(s, z.nums))
                    } else {
                        let n = if z.bits == 0 { 0 } else { s.skewed(0, 80) };
                        Op::Pack((0..n).map(|_| idx(s, z.bits)).collect())
                    }
                }
                _ => {
                    if z.bits == 0 {
                        Op::AllocBit
                    } else {
                        let n = match s.weighted(&[3, 2, 1]) {
                            0 => s.size(0, 4),
                            1 => s.size(5, 64),
                            _ => *s.pick(&[55, 56, 63, 64, 65]),
                        };
                        z.bits += 256;
                        match s.below(3) {
                            0 => Op::Sha((0..8 * n).map(|_| idx(s, z.bits - 256)).collect()),
                            1 => {
                                let mut p = [0; 8];
                                p.copy_from_slice(&s.bytes(8));
                                Op::Blake((0..8 * n).map(|_| idx(s, z.bits - 256)).collect(), p)
                            }
                            _ => Op::ShaBlock((0..512).map(|_| idx(s, z.bits - 256)).collect()),
                        }
                    }
                }
            };
            // operations that were substituted above still have to be counted
            match &op {
                Op::AllocBit if k == 4 || k == 8 => z.bits += 1,
                _ => {}
            }
            match &op {
                Op::AllocBit | Op::AllocCond(_) | Op::U64Bits | Op::WAlloc | Op::Foreign(..) => {
                    let v = match &op {
                        Op::WAlloc => s.u32s() as u64,
                        Op::U64Bits | Op::Foreign(..) => s.special_u64(),
                        _ => s.draw(1),
                    };
                    wit.push((v, F::ZERO))
                }
                Op::AllocNum | Op::FieldBits | Op::FieldABits => wit.push((0, draw_scalar(s))),
                _ => {}
            }
            ops.push(op);
        }
        segs.push(Seg { me, ops });
    }
    let _ = z.abits;
    (Prog { segs }, Wit { w: wit })
}

fn gen_bool<F: PrimeFieldBits>(s: &mut Src, z: &mut Sizes) -> Op<F> {
    if z.bits == 0 {
        z.bits += 1;
        return Op::AllocBit;
    }
    let k = s.weighted(&[6, 4, 3, 3, 2, 2, 2, 2, 4, 4, 4, 4, 2, 1, 1, 1]);
    let n = z.bits;
    let fk = if k == 15 { s.below(5) } else { 0 };
    macro_rules! i {
        () => {
            idx(s, n)
        };
    }
    z.bits += match k {
        12 => 0,
        13 => 64,
        14 => F::NUM_BITS as usize,
        15 => FOREIGN[fk],
        _ => 1,
    };
    match k {
        0 => Op::AllocBit,
        1 => Op::ConstBit(s.bool()),
        2 => Op::NotBit(i!()),
        3 => Op::AllocCond(i!()),
        4 => Op::AbXor(i!(), i!()),
        5 => Op::AbAnd(i!(), i!()),
        6 => Op::AbAndNot(i!(), i!()),
        7 => Op::AbNor(i!(), i!()),
        8 => Op::Xor(i!(), i!()),
        9 => Op::And(i!(), i!()),
        10 => Op::Ch([i!(), i!(), i!()]),
        11 => Op::Maj([i!(), i!(), i!()]),
        12 => Op::EqBit(i!(), i!()),
        13 => Op::U64Bits,
        15 => Op::Foreign(fk as u8, s.bool()),
        _ => {
            if s.bool() {
                Op::FieldBits
            } else {
                Op::FieldABits
            }
        }
    }
}

fn gen_num<F: PrimeFieldBits>(s: &mut Src, z: &mut Sizes, _ops: &mut [Op<F>]) -> Op<F> {
    if z.nums == 0 {
        z.nums += 1;
        return Op::AllocNum;
    }
    let n = z.nums;
    match s.weighted(&[4, 4, 3, 2, 4]) {
        0 => {
            z.nums += 1;
            Op::AllocNum
        }
        1 => {
            z.nums += 1;
            Op::Mul(idx(s, n), idx(s, n))
        }
        2 => {
            z.nums += 1;
            Op::Square(idx(s, n))
        }
        3 => Op::Nonzero(idx(s, n)),
        _ => {
            if z.bits == 0 {
                z.bits += 1;
                Op::AllocBit
            } else if s.chance(1, 5) {
                // the newest bit is the likeliest condition of the next reversal
                z.bits += 1;
                match s.below(3) {
                    0 => Op::AllocBit,
                    1 => Op::ConstBit(s.bool()),
                    _ => Op::NotBit(idx(s, z.bits - 1)),
                }
            } else {
                z.nums += 2;
                Op::CondRev(idx(s, n), idx(s, n), idx(s, z.bits))
            }
        }
    }
}

fn gen_word<F: PrimeFieldBits>(s: &mut Src, z: &mut Sizes, me: bool, max_bits: usize) -> Op<F> {
    let n = z.words;
    if n == 0 {
        z.words += 1;
        return if s.chance(1, 4) {
            Op::WConst(s.u32s())
        } else {
            Op::WAlloc
        };
    }
    let add = if me { 8 } else { 0 };
    let (fb, tb) = (if z.bits > 0 { 3 } else { 0 }, if z.bits < max_bits { 2 } else { 0 });
    let k = s.weighted(&[4, 3, 3, 3, 3, 3, 3, fb, fb, tb, tb, add]);
    if k == 9 || k == 10 {
        z.bits += 32;
    } else {
        z.words += 1;
    }
    let by = |s: &mut Src| *s.pick(&[0usize, 1, 2, 3, 7, 8, 13, 16, 25, 30, 31]);
    match k {
        0 => Op::WAlloc,
        1 => Op::WConst(s.u32s()),
        2 => {
            let b = if s.chance(1, 5) { s.size(32, 100) } else { by(s) };
            Op::Rotr(idx(s, n), b)
        }
        3 => Op::Shr(idx(s, n), by(s)),
        4 => Op::WXor(idx(s, n), idx(s, n)),
        5 => Op::WCh([idx(s, n), idx(s, n), idx(s, n)]),
        6 => Op::WMaj([idx(s, n), idx(s, n), idx(s, n)]),
        7 | 8 => {
            // a window of the bit pool, or scattered bits
            let v: Vec<usize> = if z.bits >= 32 && s.bool() {
                let o = s.below(z.bits - 31);
                (o..o + 32).collect()
            } else {
                (0..32).map(|_| idx(s, z.bits)).collect()
            };
            if k == 7 {
                Op::WFromBits(v)
            } else {
                Op::WFromBitsBe(v)
            }
        }
        9 => Op::WBits(idx(s, n)),
        10 => Op::WBitsBe(idx(s, n)),
        _ => {
            let m = s.size(2, 10);
            Op::Add((0..m).map(|_| idx(s, n)).collect())
        }
    }
}

pub fn describe<F: PrimeFieldBits>(p: &Prog<F>, w: &Wit<F>) -> String {
    let mut o = String::new();
    for s in &p.segs {
        o.push_str(if s.me { "collector: " } else { "plain: " });
        o.push_str(&format!("{:?} ", s.ops));
    }
    o.push_str(&format!(
        "witness: {:?}",
        w.w.iter()
            .map(|(a, b)| if *b == F::ZERO {
                format!("{}", a)
            } else {
                format!("{}/{:?}", a, b)
            })
            .collect::<Vec<_>>()
    ));
    o
}
