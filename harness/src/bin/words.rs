//! C14, C21: Words, shapes.

use bellman::gadgets::boolean::Boolean;
use bellman::SynthesisError;
use bls12_381::Scalar as Bls;
use ff::PrimeFieldBits;
use vph::circ::scalar;
use vph::engine::*;
use vph::fp::*;
use vph::gad::*;
use vph::gprog::*;
use vph::rec::*;
use vph::runner::{sub, Prop, THREADS};
use vph::{ensure, ensure_eq, fields};


// ================================================================== C14

const T_WORD: Theme = Theme {
    bool_: 1,
    num: 0,
    lin: 0,
    word: 14,
    look: 0,
    strict: 0,
    loose: 0,
    publ: 0,
    hash: 0,
    me: true,
    max_ops: 10,
    max_bits: 200,
};

fn c14_program(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        program::<F>(s, &T_WORD)
    }
    fields!(s, go, 4 Fp<GOLD> = "Goldilocks", 2 Fp<PS4> = "64-bit", 2 Fp<PS9> = "64-bit b",
        3 Bls = "BLS12-381 scalar")
}

/// Word gadgets without addition over any field.
fn c14_bitwise(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let th = Theme { me: false, ..T_WORD };
        program::<F>(s, &th)
    }
    fields!(s, go, 2 Fp<3> = "F_3", 2 Fp<5> = "F_5", 2 Bls = "BLS12-381 scalar")
}

/// Additions: every operand count, mixes of constants and allocated words,
/// values at the carry boundaries, several additions in one collector.
fn c14_add(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let mut ops: Vec<Op<F>> = vec![];
        let mut wit = vec![];
        let n = s.size(2, 10);
        let mut carry = 0u64;
        for _ in 0..n {
            let v = match s.weighted(&[2, 2, 3]) {
                0 => u32::MAX,
                1 => s.u32s(),
                _ => s.draw(u32::MAX as u64) as u32,
            };
            carry += v as u64;
            if s.chance(1, 4) {
                ops.push(Op::WConst(v));
            } else {
                ops.push(Op::WAlloc);
                wit.push((v as u64, F::ZERO));
            }
        }
        if carry >> 32 > 0 {
            s.label("carries out");
        }
        let mut k = n;
        let adds = s.skewed(1, 9);
        for _ in 0..adds {
            let m = s.size(2, 10);
            let x: Vec<usize> = (0..m).map(|_| s.below(k)).collect();
            ops.push(Op::Add(x));
            k += 1;
        }
        let p = Prog {
            segs: vec![Seg { me: true, ops }],
        };
        let w = Wit { w: wit };
        show(s, &p, &w);
        s.nontrivial_if(!w.w.is_empty());
        let (r, st) = run(&p, &w)?;
        if st.words.iter().skip(n).all(|u| u.0.clone().into_bits().iter().all(|b| b.is_constant())) {
            s.label("all constant");
        }
        let tg = targets(&r, &st);
        unique(s, &r, &st, &tg, "sum")
    }
    fields!(s, go, 4 Fp<GOLD> = "Goldilocks", 1 Fp<PS6> = "64-bit", 4 Bls = "BLS12-381 scalar")
}

// ================================================================== C21


fn same_shape<F: PrimeFieldBits>(a: &Rec<F>, b: &Rec<F>, what: &str) -> R {
    ensure_eq!(b.inputs.len(), a.inputs.len(), "{}: public inputs", what);
    ensure_eq!(b.aux.len(), a.aux.len(), "{}: auxiliary variables", what);
    ensure_eq!(b.cons.len(), a.cons.len(), "{}: constraints", what);
    for (i, (x, y)) in a.cons.iter().zip(&b.cons).enumerate() {
        ensure!(
            x == y,
            "{}: constraint differs: {} / {}",
            what,
            a.show_cons(i),
            b.show_cons(i)
        );
    }
    for (i, (x, y)) in a.log.iter().zip(&b.log).enumerate() {
        ensure_eq!(y, x, "{}: step {}", what, i);
    }
    ensure_eq!(b.log.len(), a.log.len(), "{}: steps", what);
    Ok(())
}

fn kinds<F: PrimeFieldBits>(st: &State<F>) -> Vec<(u8, Ix)> {
    let k = |b: &Boolean| match b {
        Boolean::Constant(c) => (*c as u8, 0),
        Boolean::Is(a) => (2, ix(a.get_variable())),
        Boolean::Not(a) => (3, ix(a.get_variable())),
    };
    let mut v: Vec<(u8, Ix)> = st.bits.iter().map(|b| k(&b.0)).collect();
    for (w, _) in &st.words {
        v.extend(w.clone().into_bits().iter().map(k));
    }
    v.extend(st.nums.iter().map(|n| (9, ix(n.0.get_variable()))));
    v
}

fn c21_with<F: PrimeFieldBits>(s: &mut Src, p: &Prog<F>, w: &Wit<F>) -> R {
    let mut a = Rec::<F>::named(Mode::Eval);
    let mut sa = State::new(true);
    exec(&mut a, p, w, &mut sa).map_err(|e| format!("first witness: {:?}", e))?;
    ensure!(a.depth == 0 && !a.underflow, "unbalanced namespaces");
    // other values
    let mut w2 = w.clone();
    let style = s.below(3);
    for x in w2.w.iter_mut() {
        match style {
            0 => {
                x.0 = !x.0;
                x.1 = F::ONE - x.1;
            }
            1 => {
                x.0 = s.special_u64();
                x.1 = scalar(s);
            }
            _ => {
                x.0 = 0;
                x.1 = F::ZERO;
            }
        }
    }
    s.nontrivial_if(a.aux.len() >= 2);
    let ka = kinds(&sa);
    for (mode, given, what) in [
        (Mode::Eval, true, "other witness"),
        (Mode::Setup, true, "setup with other values at hand"),
        (Mode::Setup, false, "setup without values"),
    ] {
        let mut b = Rec::<F>::named(mode);
        let mut sb = State::again(given, &sa.dec);
        match exec(&mut b, p, &w2, &mut sb) {
            Ok(()) => {}
            Err(SynthesisError::DivisionByZero) if mode == Mode::Eval => {
                s.label("other witness divides by zero");
                continue;
            }
            Err(e) => return Err(format!("{}: {:?}", what, e)),
        }
        same_shape(&a, &b, what)?;
        ensure_eq!(kinds(&sb), ka, "{}: output kinds", what);
    }
    // a prover without values reports it
    if !w.w.is_empty() {
        let mut b = Rec::<F>::named(Mode::Eval);
        let mut sb = State::again(false, &sa.dec);
        match exec(&mut b, p, &w2, &mut sb) {
            Err(SynthesisError::AssignmentMissing) => {}
            r => return Err(format!("missing values: {:?}", r)),
        }
        ensure!(b.depth == 0 && !b.underflow, "unbalanced after an error");
    }
    Ok(())
}

fn c21_program(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let (p, w) = gen::<F>(s, &T_SHAPE);
        show(s, &p, &w);
        c21_with(s, &p, &w)
    }
    fields!(s, go, 4 Fp<GOLD> = "Goldilocks", 2 Fp<PS4> = "64-bit", 3 Bls = "BLS12-381 scalar")
}
fn c21_small(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let th = Theme {
            me: false,
            word: 2,
            ..T_SHAPE
        };
        let (p, w) = gen::<F>(s, &th);
        show(s, &p, &w);
        c21_with(s, &p, &w)
    }
    fields!(s, go, 2 Fp<3> = "F_3", 2 Fp<5> = "F_5", 2 Fp<17> = "F_17")
}
fn c21_hash(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let th = Theme {
            hash: 2,
            max_ops: 8,
            ..T_SHAPE
        };
        let (mut p, mut w) = gen::<F>(s, &th);
        let has = p.segs.iter().any(|g| {
            g.ops
                .iter()
                .any(|o| matches!(o, Op::Sha(_) | Op::ShaBlock(_) | Op::Blake(..)))
        });
        if !has {
            let n = s.size(1, 70);
            let mut ops = vec![];
            for i in 0..8 * n {
                if i % 5 == 4 {
                    ops.push(Op::ConstBit(i % 2 == 0));
                } else {
                    ops.push(Op::AllocBit);
                    w.w.push((s.draw(1), F::ZERO));
                }
            }
            let x: Vec<usize> = (0..8 * n).collect();
            ops.push(if s.bool() {
                Op::Sha(x)
            } else {
                Op::Blake(x, *b"vp_shape")
            });
            p = Prog {
                segs: vec![Seg { me: false, ops }],
            };
            w.w = w.w.split_off(w.w.len() - (8 * n - 8 * n / 5));
        }
        s.note(|| format!("hash program, {} ops", p.segs.iter().map(|x| x.ops.len()).sum::<usize>()));
        c21_with(s, &p, &w)
    }
    fields!(s, go, 4 Fp<GOLD> = "Goldilocks", 3 Bls = "BLS12-381 scalar")
}

fn main() {
    let a: &[&str] = &["the reference models in harness/src/gprog.rs, the field arithmetic of the tested fields, and the constraint evaluator are right"];
    vph::runner::main(vec![
        Prop { id: "C14", threads: THREADS, assumptions: a,
            rule: "a program with at least two operations that adds constraints; an addition with at least one allocated word",
            subs: vec![
                sub("program", 40_000, 800_000, c14_program),
                sub("bitwise", 120_000, 2_000_000, c14_bitwise),
                sub("add", 15_000, 400_000, c14_add),
            ] },
        Prop { id: "C21", threads: THREADS, assumptions: a,
            rule: "the circuit has at least two auxiliary variables",
            subs: vec![
                sub("program", 150_000, 3_000_000, c21_program),
                sub("small", 300_000, 6_000_000, c21_small),
                sub("hash", 400, 12_000, c21_hash),
            ] },
    ])
}
