//! C15, C16: the hash gadgets.

use bellman::gadgets::blake2s::blake2s;
use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::sha256::{sha256, sha256_block_no_padding};
use bellman::gadgets::test::TestConstraintSystem;
use bellman::{ConstraintSystem, SynthesisError};
use bls12_381::Scalar as Bls;
use ff::PrimeField;
use sha2::{Digest, Sha256};
use vph::engine::*;
use vph::fp::*;
use vph::rec::*;
use vph::refhash::*;
use vph::runner::{sub, Prop, THREADS};
use vph::{ensure, ensure_eq};

macro_rules! fields {
    ($s:expr, $f:ident, $( $w:literal $t:ty = $l:literal ),* $(,)?) => {{
        let ws = [$($w),*];
        let k = $s.weighted(&ws);
        let mut i = 0;
        $(
            if k == i { $s.label($l); return $f::<$t>($s); }
            i += 1;
        )*
        let _ = i;
        unreachable!()
    }};
}

/// How each input bit is presented.
#[derive(Clone, Copy, Debug)]
enum Kind {
    Const,
    Alloc,
    /// The negation of an allocated bit.
    Not,
    /// The bit allocated for an earlier position (negated if needed).
    Alias(usize),
    /// The exclusive or of two allocated bits.
    Xor,
}

fn kinds(s: &mut Src, n: usize) -> Vec<Kind> {
    let style = s.weighted(&[3, 1, 3, 3, 2, 2]);
    s.label(["all allocated", "all constant", "mixed bits", "mixed words", "aliases", "one special"][style]);
    let one = |s: &mut Src, i: usize| match s.below(5) {
        0 => Kind::Const,
        1 => Kind::Alloc,
        2 => Kind::Not,
        3 if i > 0 => Kind::Alias(s.below(i)),
        _ => Kind::Xor,
    };
    match style {
        0 => vec![Kind::Alloc; n],
        1 => vec![Kind::Const; n],
        2 => {
            // a short pattern, repeated
            let m = s.size(1, 40);
            let p: Vec<Kind> = (0..m).map(|i| one(s, i)).collect();
            (0..n)
                .map(|i| match p[i % m] {
                    Kind::Alias(_) if i == 0 => Kind::Alloc,
                    Kind::Alias(k) => Kind::Alias((i / m * m + k).min(i - 1)),
                    k => k,
                })
                .collect()
        }
        3 => {
            // runs of whole words or bytes
            let w = *s.pick(&[8usize, 32, 512]);
            let mut v = vec![];
            while v.len() < n {
                let k = match s.below(3) {
                    0 => Kind::Const,
                    1 => Kind::Alloc,
                    _ => Kind::Not,
                };
                v.extend(vec![k; w]);
            }
            v.truncate(n);
            v
        }
        4 => {
            // few variables for all bits
            let m = s.size(1, 4).min(n.max(1));
            (0..n)
                .map(|i| {
                    if i < m {
                        Kind::Alloc
                    } else {
                        Kind::Alias(i % m)
                    }
                })
                .collect()
        }
        _ => {
            let base = if s.bool() { Kind::Const } else { Kind::Alloc };
            let mut v = vec![base; n];
            if n > 0 {
                let i = s.below(n);
                v[i] = if matches!(base, Kind::Const) {
                    Kind::Alloc
                } else {
                    Kind::Const
                };
            }
            v
        }
    }
}

fn present<F: PrimeField, CS: ConstraintSystem<F>>(
    cs: &mut CS,
    bits: &[bool],
    ks: &[Kind],
) -> Result<Vec<Boolean>, SynthesisError> {
    let mut out: Vec<Boolean> = vec![];
    for (i, (b, k)) in bits.iter().zip(ks).enumerate() {
        let a = |cs: &mut CS, n: &str, v: bool| {
            AllocatedBit::alloc(cs.namespace(|| format!("{} {}", n, i)), Some(v)).map(Boolean::from)
        };
        out.push(match k {
            Kind::Const => Boolean::constant(*b),
            Kind::Alloc => a(cs, "bit", *b)?,
            Kind::Not => a(cs, "bit", !*b)?.not(),
            Kind::Alias(j) => {
                let x = out[*j].clone();
                if bits[*j] == *b {
                    x
                } else {
                    x.not()
                }
            }
            Kind::Xor => {
                let x = a(cs, "left", i % 3 == 0)?;
                let y = a(cs, "right", (i % 3 == 0) ^ *b)?;
                Boolean::xor(cs.namespace(|| format!("xor {}", i)), &x, &y)?
            }
        });
    }
    Ok(out)
}

#[derive(Clone, Copy, PartialEq)]
enum H {
    Sha,
    Block,
    Blake([u8; 8]),
}

fn hash<F: PrimeField, CS: ConstraintSystem<F>>(
    cs: CS,
    h: H,
    x: &[Boolean],
) -> Result<Vec<Boolean>, SynthesisError> {
    match h {
        H::Sha => sha256(cs, x),
        H::Block => sha256_block_no_padding(cs, x),
        H::Blake(p) => blake2s(cs, x, &p),
    }
}

/// Message bytes: random, sparse or extreme (carries everywhere).
fn message(s: &mut Src, n: usize) -> Vec<u8> {
    match s.weighted(&[5, 1, 1, 2]) {
        0 => s.bytes(n),
        1 => vec![0xff; n],
        2 => vec![0; n],
        _ => {
            let mut v = vec![0; n];
            for _ in 0..s.below(4) {
                if n > 0 {
                    let i = s.below(n);
                    v[i] = 1 << s.below(8);
                }
            }
            v
        }
    }
}

fn check<F: PrimeField>(s: &mut Src, h: H, msg: &[u8], ks: &[Kind], test_cs: bool) -> R {
    let (bits, want) = match h {
        H::Sha => {
            let b = be_bits(msg);
            let w = sha256_bits(&b);
            let lib = be_bits(&Sha256::digest(msg));
            assert!(w == lib, "reference hashes disagree");
            (b, w)
        }
        H::Block => {
            let b = be_bits(msg);
            let w = sha256_block_bits(&b);
            (b, w)
        }
        H::Blake(p) => {
            let b = le_bits(msg);
            let w = blake2s_bits(&b, &p);
            (b, w)
        }
    };
    let val = |o: &[Boolean]| -> Vec<Option<bool>> { o.iter().map(|b| b.get_value()).collect() };
    let want_v: Vec<Option<bool>> = want.iter().map(|b| Some(*b)).collect();
    if test_cs {
        s.label("on the test system");
        let mut cs = TestConstraintSystem::<F>::new();
        let x = present(&mut cs, &bits, ks).map_err(|e| format!("{:?}", e))?;
        let o = hash(cs.namespace(|| "hash"), h, &x).map_err(|e| format!("{:?}", e))?;
        ensure!(val(&o) == want_v, "wrong digest (test system)");
        ensure!(
            cs.is_satisfied(),
            "unsatisfied: {:?}",
            cs.which_is_unsatisfied()
        );
        return Ok(());
    }
    let mut cs = Rec::<F>::new(Mode::Eval);
    let x = present(&mut cs, &bits, ks).map_err(|e| format!("{:?}", e))?;
    let before = (cs.cons.len(), cs.aux.len(), cs.inputs.len());
    let o = hash(cs.namespace(|| "hash"), h, &x).map_err(|e| format!("{:?}", e))?;
    ensure!(cs.depth == 0 && !cs.underflow, "unbalanced namespaces");
    ensure_eq!(o.len(), 256, "number of output bits");
    if val(&o) != want_v {
        let k = val(&o).iter().zip(&want_v).position(|(a, b)| a != b).unwrap();
        return Err(format!("wrong digest, first at output bit {}", k));
    }
    if let Some(k) = cs.unsatisfied() {
        return Err(format!("unsatisfied: {}", cs.show_cons(k)));
    }
    // the bits stand for those values in the constraint system
    for (k, (b, w)) in o.iter().zip(&want).enumerate() {
        let lc = b.lc(Rec::<F>::one(), F::ONE);
        ensure_eq!(
            cs.eval_lc(&lc),
            Some(if *w { F::ONE } else { F::ZERO }),
            "combination of output bit {}",
            k
        );
    }
    let after = (cs.cons.len(), cs.aux.len(), cs.inputs.len());
    ensure_eq!(after.2, before.2, "public inputs were added");
    if x.iter().all(|b| matches!(b, Boolean::Constant(_))) {
        s.label("constant input");
        ensure_eq!(after, before, "a constant input needs nothing");
        ensure!(
            o.iter().all(|b| matches!(b, Boolean::Constant(_))),
            "the digest of a constant is a constant"
        );
    } else {
        s.nontrivial();
    }
    Ok(())
}

fn length(s: &mut Src, block: usize, pad: usize) -> usize {
    match s.weighted(&[5, 3, 3, 1]) {
        0 => s.size(0, block),
        1 => {
            // around the padding and block boundaries
            let k = s.size(0, 3);
            let at = if s.bool() { block * (k + 1) } else { block * (k + 1) - pad };
            at + s.below(3) - 1
        }
        2 => s.size(0, 4 * block),
        _ => 0,
    }
}

fn c15<F: PrimeField>(s: &mut Src) -> R {
    let (h, n) = if s.chance(1, 4) {
        s.label("single block");
        (H::Block, 64)
    } else {
        let n = length(s, 64, 8);
        if n <= 55 {
            s.label("one padded block");
        } else if n % 64 >= 56 {
            s.label("padding spills over");
        }
        (H::Sha, n)
    };
    let msg = message(s, n);
    let ks = kinds(s, 8 * n);
    s.note(|| format!("{} bytes {:02x?}, kinds {:?}", n, &msg[..n.min(80)], &ks[..ks.len().min(40)]));
    let t = s.chance(1, 8);
    check::<F>(s, h, &msg, &ks, t)
}
fn c15_mixed(s: &mut Src) -> R {
    fields!(s, c15, 4 Bls = "BLS12-381 scalar", 2 Fp<GOLD> = "Goldilocks", 1 Fp<PS4> = "64-bit",
        1 Fp<PS9> = "64-bit b")
}
/// All lengths in turn, on constant input with one allocated block at most.
fn c15_long(s: &mut Src) -> R {
    let n = match s.weighted(&[400, 40, 30, 2]) {
        0 => s.enumerate(300) as usize,
        1 => s.below(9000),
        2 => 8180 + s.below(30), // the bit length passes 2^16
        _ => 131060 + s.below(30), // 2^20
    };
    let msg = message(s, n);
    s.note(|| format!("{} constant bytes", n));
    s.nontrivial_if(n > 0);
    let mut ks = vec![Kind::Const; 8 * n];
    if n > 0 && n < 1100 && s.chance(1, 4) {
        // the last byte is allocated
        for k in ks[8 * (n - 1)..].iter_mut() {
            *k = Kind::Alloc;
        }
    }
    check::<Fp<GOLD>>(s, H::Sha, &msg, &ks, false)
}

fn pers(s: &mut Src) -> [u8; 8] {
    let mut p = [0u8; 8];
    match s.below(4) {
        0 => {}
        1 => p = *b"Zcash_PH",
        2 => p[s.below(8)] = 1 << s.below(8),
        _ => p.copy_from_slice(&s.bytes(8)),
    }
    p
}

fn c16<F: PrimeField>(s: &mut Src) -> R {
    let n = length(s, 64, 32);
    let p = pers(s);
    if n == 0 {
        s.label("empty");
    } else if n % 64 == 0 {
        s.label("whole blocks");
    }
    let msg = message(s, n);
    let ks = kinds(s, 8 * n);
    s.note(|| {
        format!(
            "{} bytes {:02x?}, personalisation {:?}, kinds {:?}",
            n,
            &msg[..n.min(80)],
            p,
            &ks[..ks.len().min(40)]
        )
    });
    let t = s.chance(1, 8);
    check::<F>(s, H::Blake(p), &msg, &ks, t)
}
fn c16_mixed(s: &mut Src) -> R {
    fields!(s, c16, 4 Bls = "BLS12-381 scalar", 2 Fp<GOLD> = "Goldilocks", 1 Fp<PS4> = "64-bit",
        1 Fp<PS9> = "64-bit b")
}
fn c16_long(s: &mut Src) -> R {
    let n = match s.weighted(&[80, 6, 1]) {
        0 => s.enumerate(300) as usize,
        1 => s.below(9000),
        _ => 65_530 + s.below(80), // the counter passes 2^16
    };
    let p = pers(s);
    let msg = message(s, n);
    s.note(|| format!("{} constant bytes, personalisation {:?}", n, p));
    s.nontrivial_if(n > 0);
    let mut ks = vec![Kind::Const; 8 * n];
    if n > 0 && n < 1100 && s.chance(1, 4) {
        for k in ks[8 * (n - 1)..].iter_mut() {
            *k = Kind::Alloc;
        }
    }
    check::<Fp<GOLD>>(s, H::Blake(p), &msg, &ks, false)
}

fn main() {
    let a: &[&str] = &["the sha2 and blake2s_simd crates and the FIPS 180-4 compression in harness/src/refhash.rs are right (the two SHA-256 references are compared in every case)"];
    vph::runner::main(vec![
        Prop {
            id: "C15",
            rule: "not all input bits are constant (mixed); a non-empty message (long)",
            assumptions: a,
            threads: THREADS,
            subs: vec![
                sub("mixed", 900, 60_000, c15_mixed),
                sub("long", 1_000, 40_000, c15_long),
            ],
        },
        Prop {
            id: "C16",
            rule: "not all input bits are constant (mixed); a non-empty message (long)",
            assumptions: a,
            threads: THREADS,
            subs: vec![
                sub("mixed", 900, 60_000, c16_mixed),
                sub("long", 1_000, 40_000, c16_long),
            ],
        },
    ])
}
