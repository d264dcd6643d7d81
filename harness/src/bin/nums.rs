//! C13, C17: Numbers, whole programs.

use bellman::gadgets::boolean::Boolean;
use bellman::gadgets::num::AllocatedNum;
use bellman::{ConstraintSystem, SynthesisError};
use bls12_381::Scalar as Bls;
use ff::PrimeFieldBits;
use vph::circ::{below_modulus, scalar};
use vph::engine::*;
use vph::fp::*;
use vph::gad::*;
use vph::gprog::*;
use vph::rec::*;
use vph::runner::{sub, Prop, THREADS};
use vph::solve::*;
use vph::{ensure, ensure_eq, fields};


// ================================================================== C13

const T_NUM: Theme = Theme {
    bool_: 3,
    num: 10,
    lin: 5,
    word: 0,
    look: 0,
    strict: 2,
    loose: 0,
    publ: 2,
    hash: 0,
    me: false,
    max_ops: 12,
    max_bits: 700,
};

/// Without decompositions, whose search is what costs.
const T_LIGHT: Theme = Theme {
    bool_: 4,
    strict: 0,
    max_bits: 60,
    ..T_NUM
};

fn c13_light(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        program::<F>(s, &T_LIGHT)
    }
    fields!(s, go, 3 Fp<3> = "F_3", 3 Fp<5> = "F_5", 2 Fp<11> = "F_11",
        2 Fp<17> = "F_17", 3 Fp<GOLD> = "Goldilocks",
        2 Fp<P61> = "F_(2^61-1)", 2 Bls = "BLS12-381 scalar")
}

fn c13_program(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        program::<F>(s, &T_NUM)
    }
    fields!(s, go, 3 Fp<3> = "F_3", 3 Fp<5> = "F_5", 2 Fp<11> = "F_11",
        2 Fp<17> = "F_17", 3 Fp<GOLD> = "Goldilocks",
        2 Fp<P61> = "F_(2^61-1)", 3 Bls = "BLS12-381 scalar")
}

/// Strict decomposition at and around the modulus, every value of tiny
/// fields; the bits of any other representative are refused.
fn strict_bits<F: PrimeFieldBits>(s: &mut Src) -> R {
    let x: F = match s.weighted(&[3, 3, 2, 2, 4]) {
        0 => scalar(s),
        1 => {
            // near the top
            let d: u64 = 1 + s.draw(40);
            F::ZERO - F::from(d)
        }
        2 => {
            // values whose shifted representative fits in the bit length
            F::from(s.special_u64())
        }
        4 => below_modulus(s),
        _ => {
            let b = s.below(F::NUM_BITS as usize);
            let p = pow2::<F>(b);
            if s.bool() {
                p
            } else {
                p - F::ONE
            }
        }
    };
    let mut cs = Rec::<F>::new(Mode::Eval);
    let n = AllocatedNum::alloc(&mut cs, || Ok(x)).unwrap();
    let bits = n
        .to_bits_le_strict(&mut cs)
        .map_err(|e| format!("{:?}", e))?;
    s.note(|| format!("{:?}", x));
    let want = le_bits(x);
    ensure_eq!(
        bits.iter().map(|b| b.get_value()).collect::<Vec<_>>(),
        want.iter().map(|b| Some(*b)).collect::<Vec<_>>(),
        "bits"
    );
    let mut st = State::<F>::new(true);
    st.ins = vec![ix(n.get_variable())];
    for (b, v) in bits.into_iter().zip(want) {
        st.bits.push((b, v));
    }
    check_values(&cs, &st)?;
    s.nontrivial();
    let tg = targets(&cs, &st);
    unique(s, &cs, &st, &tg, "strict bits")?;
    // other representatives: x + p when it fits in the bit length
    let p = Int::modulus::<F>();
    let y = Int::of(x).add(p);
    let lim = Int::small(0).add({
        let mut l = Int::small(1);
        for _ in 0..F::NUM_BITS {
            l = l.add(l);
        }
        l
    });
    if y.lt(lim) {
        s.label("x + p fits");
        let yb: Vec<F> = (0..F::NUM_BITS)
            .map(|i| if y.bit(i) { F::ONE } else { F::ZERO })
            .collect();
        let sys = Sys::new(&cs);
        // force the bits, search for the rest
        let mut fixed = vec![(flat(&cs, st.ins[0]), x)];
        for (b, v) in st.bits.iter().zip(&yb) {
            if let Boolean::Is(a) = &b.0 {
                fixed.push((flat(&cs, ix(a.get_variable())), *v));
            }
        }
        let mut so = Solver::new(&sys, None, NODES);
        match so.search(&fixed, &|_| true) {
            Verdict::Found(_) => {
                return Err(format!("bits of {:?} + p accepted as strict bits", x))
            }
            Verdict::None => s.label("x + p refused"),
            Verdict::Undecided => s.label("x + p undecided"),
        }
    }
    Ok(())
}

fn c13_strict(s: &mut Src) -> R {
    fields!(s, strict_bits, 2 Fp<3> = "F_3", 2 Fp<5> = "F_5", 2 Fp<7> = "F_7", 2 Fp<11> = "F_11",
        2 Fp<13> = "F_13", 2 Fp<17> = "F_17", 2 Fp<19> = "F_19", 2 Fp<23> = "F_23",
        2 Fp<29> = "F_29", 2 Fp<31> = "F_31", 2 Fp<37> = "F_37", 2 Fp<61> = "F_61",
        2 Fp<97> = "F_97", 2 Fp<127> = "F_127", 2 Fp<193> = "F_193", 2 Fp<251> = "F_251",
        2 Fp<257> = "F_257", 2 Fp<64513> = "F_64513", 2 Fp<65537> = "F_65537",
        2 Fp<P31> = "F_(2^31-1)")
}
fn c13_wide(s: &mut Src) -> R {
    fields!(s, strict_bits, 3 Fp<GOLD> = "Goldilocks", 2 Fp<P61> = "F_(2^61-1)",
        2 Fp<PS4> = "64-bit", 3 Fp<PS9> = "64-bit b", 4 Bls = "BLS12-381 scalar")
}

/// Plain decomposition: the bits are bits and recompose to the value.
fn c13_loose(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let x: F = scalar(s);
        let mut cs = Rec::<F>::new(Mode::Eval);
        let n = AllocatedNum::alloc(&mut cs, || Ok(x)).unwrap();
        let bits = n.to_bits_le(&mut cs).map_err(|e| format!("{:?}", e))?;
        s.note(|| format!("{:?}", x));
        let mut st = State::<F>::new(true);
        st.ins = vec![ix(n.get_variable())];
        ensure_eq!(bits.len(), F::NUM_BITS as usize, "length");
        let one = Rec::<F>::one();
        let mut rec: Terms<F> = vec![];
        let mut bt: Vec<Terms<F>> = vec![];
        let mut c = F::ONE;
        for b in &bits {
            bt.push(terms(&b.lc(one, F::ONE)));
            rec.extend(terms(&b.lc(one, c)));
            c = c + c;
        }
        for (b, v) in bits.into_iter().zip(le_bits(x)) {
            st.bits.push((b, v));
        }
        check_values(&cs, &st)?;
        s.nontrivial();
        let ev = |z: &[F], t: &Terms<F>| {
            t.iter()
                .fold(F::ZERO, |a, (v, c)| a + z[flat(&cs, *v)] * c)
        };
        let bad = |z: &[F]| {
            ev(z, &rec) != x
                || bt.iter().any(|t| {
                    let v = ev(z, t);
                    v != F::ZERO && v != F::ONE
                })
        };
        if let Verdict::Found(y) = any_with(&cs, &st.ins, &bad, NODES) {
            return Err(format!("bits that do not recompose accepted: {:?}", y));
        }
        Ok(())
    }
    fields!(s, go, 2 Fp<3> = "F_3", 2 Fp<5> = "F_5", 2 Fp<17> = "F_17", 2 Fp<31> = "F_31",
        1 Fp<251> = "F_251", 2 Fp<GOLD> = "Goldilocks", 2 Fp<P61> = "F_(2^61-1)",
        2 Bls = "BLS12-381 scalar")
}

fn c13_nonzero(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let x: F = if s.bool() { F::ZERO } else { scalar(s) };
        let mut cs = Rec::<F>::new(Mode::Eval);
        let n = AllocatedNum::alloc(&mut cs, || Ok(x)).unwrap();
        s.note(|| format!("{:?}", x));
        s.nontrivial();
        let r = n.assert_nonzero(&mut cs);
        if x == F::ZERO {
            s.label("zero");
            match r {
                Err(SynthesisError::DivisionByZero) => {}
                r => return Err(format!("non-zero check of zero: {:?}", r)),
            }
            // the constraints themselves must refuse zero: take the shape
            // from another value and move the variable to zero
            let mut cs = Rec::<F>::new(Mode::Eval);
            let n = AllocatedNum::alloc(&mut cs, || Ok(F::ONE)).unwrap();
            n.assert_nonzero(&mut cs).map_err(|e| format!("{:?}", e))?;
            let sys = Sys::new(&cs);
            let v = flat(&cs, ix(n.get_variable()));
            let mut so = Solver::new(&sys, None, NODES);
            if let Verdict::Found(y) = so.search(&[(v, F::ZERO)], &|_| true) {
                return Err(format!("zero passes the non-zero check with {:?}", y));
            }
        } else {
            s.label("non-zero");
            r.map_err(|e| format!("non-zero check of {:?}: {:?}", x, e))?;
            ensure!(cs.unsatisfied().is_none(), "{:?} fails the non-zero check", x);
        }
        Ok(())
    }
    fields!(s, go, 2 Fp<3> = "F_3", 2 Fp<5> = "F_5", 2 Fp<17> = "F_17", 2 Fp<GOLD> = "Goldilocks",
        2 Bls = "BLS12-381 scalar")
}

// ================================================================== C17

const T_ALL: Theme = Theme {
    bool_: 6,
    num: 4,
    lin: 4,
    word: 8,
    look: 3,
    strict: 1,
    loose: 0,
    publ: 2,
    hash: 0,
    me: true,
    max_ops: 16,
    max_bits: 500,
};

fn c17_mixed(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let (p, w) = gen::<F>(s, &T_ALL);
        show(s, &p, &w);
        let (r, st) = run(&p, &w)?;
        s.nontrivial_if(r.aux.len() > st.ins.len());
        let tg = all_vars(&r);
        unique(s, &r, &st, &tg, "auxiliary variables")
    }
    fields!(s, go, 4 Fp<GOLD> = "Goldilocks", 3 Bls = "BLS12-381 scalar")
}

/// Complete search over tiny fields (no additions, no hashes).
fn c17_tiny(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let th = Theme {
            me: false,
            word: 0,
            strict: 3,
            max_ops: 14,
            ..T_ALL
        };
        let (p, w) = gen::<F>(s, &th);
        show(s, &p, &w);
        let (r, st) = run(&p, &w)?;
        s.nontrivial_if(r.aux.len() > st.ins.len());
        let tg = all_vars(&r);
        unique(s, &r, &st, &tg, "auxiliary variables")
    }
    fields!(s, go, 2 Fp<3> = "F_3", 2 Fp<5> = "F_5", 2 Fp<11> = "F_11",
        1 Fp<17> = "F_17")
}

/// Whole hash circuits.
fn c17_hash(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let k = s.below(3);
        let n = match s.weighted(&[4, 2, 1]) {
            0 => s.size(0, 64),
            1 => *s.pick(&[55usize, 56, 63, 64]),
            _ => *s.pick(&[65usize, 100, 119, 120, 128]),
        };
        let n = if k == 1 { 64 } else { n };
        let mut ops: Vec<Op<F>> = vec![];
        let mut wit = vec![];
        // mixture of constants and allocated bits
        let consts = s.below(3);
        let data = s.bytes(n);
        let bits = vph::refhash::le_bits(&data);
        for (i, b) in bits.iter().enumerate() {
            let c = match consts {
                0 => false,
                1 => i < bits.len() / 2,
                _ => i % 3 == 0,
            };
            if c {
                ops.push(Op::ConstBit(*b));
            } else {
                ops.push(Op::AllocBit);
                wit.push((*b as u64, F::ZERO));
            }
        }
        let x: Vec<usize> = (0..8 * n).collect();
        ops.push(match k {
            0 => Op::Sha(x),
            1 => Op::ShaBlock(x),
            _ => {
                let mut p = [0; 8];
                p.copy_from_slice(&s.bytes(8));
                Op::Blake(x, p)
            }
        });
        s.label(["sha256", "sha256 block", "blake2s"][k]);
        let p = Prog {
            segs: vec![Seg { me: false, ops }],
        };
        let w = Wit { w: wit };
        s.note(|| format!("hash {} of {} bytes, constants {}", k, n, consts));
        s.nontrivial_if(!w.w.is_empty());
        let (r, st) = run(&p, &w)?;
        let tg = all_vars(&r);
        unique(s, &r, &st, &tg, "auxiliary variables")
    }
    fields!(s, go, 2 Fp<GOLD> = "Goldilocks", 2 Bls = "BLS12-381 scalar")
}

fn main() {
    let a: &[&str] = &["the reference models in harness/src/gprog.rs, the field arithmetic of the tested fields, and the constraint evaluator are right"];
    vph::runner::main(vec![
        Prop { id: "C13", threads: THREADS, assumptions: a,
            rule: "a program with at least two operations that adds constraints beyond its inputs; every decomposition and non-zero case",
            subs: vec![
                sub("program", 5_000, 200_000, c13_program),
                sub("light", 1_500_000, 60_000_000, c13_light),
                sub("strict", 100_000, 3_000_000, c13_strict),
                sub("strict_wide", 240, 12_000, c13_wide),
                sub("loose", 6_000, 200_000, c13_loose),
                sub("nonzero", 40_000, 400_000, c13_nonzero),
            ] },
        Prop { id: "C17", threads: THREADS, assumptions: a,
            rule: "the circuit has auxiliary variables beyond its inputs",
            subs: vec![
                sub("mixed", 2_500, 80_000, c17_mixed),
                sub("tiny", 300_000, 20_000_000, c17_tiny),
                sub("hash", 48, 2_000, c17_hash),
            ] },
    ])
}
