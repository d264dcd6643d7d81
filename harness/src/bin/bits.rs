//! C12, C18, C19, C20: Booleans, look-ups, packing, batched equalities.

use bellman::gadgets::boolean::{AllocatedBit, Boolean};
use bellman::gadgets::lookup;
use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::multipack;
use bellman::{ConstraintSystem, LinearCombination, SynthesisError, Variable};
use bls12_381::Scalar as Bls;
use ff::PrimeFieldBits;
use vph::circ::scalar;
use vph::engine::*;
use vph::fp::*;
use vph::gad::*;
use vph::gprog::*;
use vph::rec::*;
use vph::runner::{sub, Prop, THREADS};
use vph::solve::*;
use vph::{ensure, ensure_eq, fields};


// ================================================================== C12

fn c12_program(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        program::<F>(s, &T_BOOL)
    }
    fields!(s, go, 3 Fp<3> = "F_3", 3 Fp<5> = "F_5", 2 Fp<17> = "F_17",
        3 Fp<GOLD> = "Goldilocks", 3 Bls = "BLS12-381 scalar")
}

/// Operand kinds: constants, allocated and negated bits of either value.
fn operand<F: PrimeFieldBits, CS: ConstraintSystem<F>>(
    cs: &mut CS,
    k: usize,
    name: &str,
) -> (Boolean, bool) {
    match k {
        0 => (Boolean::constant(false), false),
        1 => (Boolean::constant(true), true),
        _ => {
            let v = k % 2 == 1;
            let b = AllocatedBit::alloc(cs.namespace(|| name.to_string()), Some(v)).unwrap();
            if k >= 4 {
                (Boolean::from(b).not(), !v)
            } else {
                (b.into(), v)
            }
        }
    }
}

/// Every gadget on every kind of operands, including aliased ones.
fn c12_table(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let n = s.enumerate(9 * 216 * 5);
        let (g, n) = (n % 9, n / 9);
        let (al, n) = (n % 5, n / 5);
        let ks = [n % 6, n / 6 % 6, n / 36].map(|x| x as usize);
        let mut cs = Rec::<F>::new(Mode::Eval);
        let a = operand(&mut cs, ks[0], "a");
        let neg = |x: &(Boolean, bool)| (x.0.not(), !x.1);
        let b = match al {
            1 => a.clone(),
            2 => neg(&a),
            _ => operand(&mut cs, ks[1], "b"),
        };
        let c = match al {
            3 => a.clone(),
            4 => neg(&b),
            _ => operand(&mut cs, ks[2], "c"),
        };
        let ins: Vec<Ix> = (0..cs.aux.len()).map(|i| 2 * i + 1).collect();
        s.note(|| format!("gadget {} alias {} kinds {:?}", g, al, ks));
        let e = |e: SynthesisError| format!("{:?}", e);
        let ab = |x: &(Boolean, bool)| match &x.0 {
            Boolean::Constant(_) => None,
            Boolean::Is(v) => Some((v.clone(), x.1)),
            Boolean::Not(v) => Some((v.clone(), !x.1)),
        };
        let (o, m): (Boolean, bool) = match g {
            0 => (Boolean::xor(&mut cs, &a.0, &b.0).map_err(e)?, a.1 ^ b.1),
            1 => (Boolean::and(&mut cs, &a.0, &b.0).map_err(e)?, a.1 & b.1),
            2 => (
                Boolean::sha256_ch(&mut cs, &a.0, &b.0, &c.0).map_err(e)?,
                (a.1 & b.1) ^ (!a.1 & c.1),
            ),
            3 => (
                Boolean::sha256_maj(&mut cs, &a.0, &b.0, &c.0).map_err(e)?,
                (a.1 & b.1) ^ (a.1 & c.1) ^ (b.1 & c.1),
            ),
            4 => {
                // enforced equality
                let want = a.1 == b.1;
                let res = Boolean::enforce_equal(&mut cs, &a.0, &b.0);
                if a.0.is_constant() && b.0.is_constant() {
                    s.nontrivial();
                    return match (res, want) {
                        (Ok(()), true) => Ok(()),
                        (Err(SynthesisError::Unsatisfiable), false) => {
                            s.label("contradictory constants refused");
                            Ok(())
                        }
                        (r, _) => Err(format!("constants {} {}: {:?}", a.1, b.1, r)),
                    };
                }
                res.map_err(|e| format!("enforce_equal: {:?}", e))?;
                s.nontrivial();
                ensure_eq!(
                    cs.unsatisfied().is_none(),
                    want,
                    "enforce_equal satisfied on {} {}",
                    a.1,
                    b.1
                );
                if !want {
                    if let Verdict::Found(y) = any_with(&cs, &ins, &|_| true, NODES) {
                        return Err(format!("unequal bits accepted with {:?}", y));
                    }
                }
                return Ok(());
            }
            _ => {
                let (x, y) = match (ab(&a), ab(&b)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Ok(()),
                };
                let (r, m) = match g {
                    5 => (AllocatedBit::xor(&mut cs, &x.0, &y.0).map_err(e)?, x.1 ^ y.1),
                    6 => (AllocatedBit::and(&mut cs, &x.0, &y.0).map_err(e)?, x.1 & y.1),
                    7 => (
                        AllocatedBit::and_not(&mut cs, &x.0, &y.0).map_err(e)?,
                        x.1 & !y.1,
                    ),
                    _ => (
                        AllocatedBit::nor(&mut cs, &x.0, &y.0).map_err(e)?,
                        !x.1 & !y.1,
                    ),
                };
                ensure_eq!(r.get_value(), Some(m), "value of AllocatedBit gadget {}", g);
                (r.into(), m)
            }
        };
        s.nontrivial();
        let mut st = State::<F>::new(true);
        st.ins = ins;
        st.bits.push((o, m));
        check_values(&cs, &st)?;
        let tg = targets(&cs, &st);
        unique(s, &cs, &st, &tg, "output")
    }
    fields!(s, go, 3 Fp<3> = "F_3", 3 Fp<5> = "F_5", 2 Fp<13> = "F_13", 1 Fp<PS4> = "64-bit",
        2 Bls = "BLS12-381 scalar")
}

/// Allocated bits accept 0 and 1 and nothing else.
fn c12_bitness(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let kind = s.below(7);
        let mut cs = Rec::<F>::new(Mode::Eval);
        let mut st = State::<F>::new(true);
        let mut cond = None;
        let ops = match kind {
            0 => vec![Op::AllocBit],
            1 => vec![Op::AllocBit, Op::AllocCond(0)],
            2 => vec![Op::U64Bits],
            3 => vec![Op::FieldBits],
            4 => vec![Op::FieldABits],
            5 => vec![Op::Foreign(s.below(5) as u8, s.bool())],
            _ => vec![Op::WAlloc],
        };
        let mut w = vec![];
        for _ in 0..2 {
            w.push((s.special_u64(), scalar::<F>(s)));
        }
        let p = Prog {
            segs: vec![Seg { me: false, ops }],
        };
        let wit = Wit { w };
        show(s, &p, &wit);
        exec(&mut cs, &p, &wit, &mut st).map_err(|e| format!("{:?}", e))?;
        check_values(&cs, &st)?;
        if kind == 1 {
            cond = Some(cs.aux[0].unwrap() == F::ONE);
        }
        let bits: Vec<Ix> = st.ins.clone();
        let i = if kind == 1 { 1 } else { s.below(bits.len()) };
        let v = flat(&cs, bits[i]);
        let sys = Sys::new(&cs);
        let mut z = honest(&cs);
        let x: F = match s.below(5) {
            0 => F::ZERO,
            1 => F::ONE,
            _ => scalar(s),
        };
        z[v] = x;
        let allowed =
            x == F::ZERO || (x == F::ONE && cond != Some(true));
        s.nontrivial();
        s.label(if allowed { "in range" } else { "out of range" });
        s.note(|| format!("bit {} := {:?}", i, x));
        ensure_eq!(sys.holds(&z), allowed, "bit set to {:?} accepted", x);
        Ok(())
    }
    fields!(s, go, 2 Fp<3> = "F_3", 2 Fp<5> = "F_5", 2 Fp<17> = "F_17", 2 Fp<GOLD> = "Goldilocks",
        2 Bls = "BLS12-381 scalar")
}

// ================================================================== C18

fn c18(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let neg = s.bool();
        let n = if neg { 4 } else { 8 };
        let style = s.below(4);
        let mut t: Vec<(F, F)> = vec![];
        for i in 0..n {
            let e = match style {
                0 => (scalar(s), scalar(s)),
                1 => (F::from(i as u64), F::from(100 + i as u64)),
                2 => {
                    if s.bool() {
                        (F::ZERO, F::ZERO)
                    } else {
                        (F::random(s.rng()), F::random(s.rng()))
                    }
                }
                _ => {
                    if i > 0 && s.bool() {
                        let k = s.below(i);
                        t[k]
                    } else {
                        (F::random(s.rng()), scalar(s))
                    }
                }
            };
            t.push(e);
        }
        let mut cs = Rec::<F>::new(Mode::Eval);
        let mut bits = vec![];
        for i in 0..3 {
            let k = s.below(6);
            // sometimes alias an earlier selector
            if i > 0 && s.chance(1, 8) {
                let j = s.below(i);
                let (b, v): (Boolean, bool) = Clone::clone(&bits[j]);
                let _ = k;
                bits.push(if s.bool() { (b, v) } else { (b.not(), !v) });
                s.label("aliased selectors");
            } else {
                bits.push(operand(&mut cs, k, &format!("b{}", i)));
            }
        }
        let st_ins: Vec<Ix> = (0..cs.aux.len()).map(|i| 2 * i + 1).collect();
        let bs: Vec<Boolean> = bits.iter().map(|b| b.0.clone()).collect();
        let v: Vec<bool> = bits.iter().map(|b| b.1).collect();
        s.note(|| format!("signed {} table {:?} selector {:?}", neg, t, v));
        let mut st = State::<F>::new(true);
        st.ins = st_ins;
        if neg {
            let (x, y) = lookup::lookup3_xy_with_conditional_negation(&mut cs, &bs, &t)
                .map_err(|e| format!("{:?}", e))?;
            let e = t[v[0] as usize + 2 * v[1] as usize];
            st.lins.push((x, e.0));
            st.lins.push((y, if v[2] { F::ZERO - e.1 } else { e.1 }));
            s.label(if v[2] { "negated" } else { "not negated" });
        } else {
            let (x, y) =
                lookup::lookup3_xy(&mut cs, &bs, &t).map_err(|e| format!("{:?}", e))?;
            let e = t[v[0] as usize + 2 * v[1] as usize + 4 * v[2] as usize];
            st.nums.push((x, e.0));
            st.nums.push((y, e.1));
            s.label("plain");
        }
        s.nontrivial_if(t.iter().any(|e| *e != t[0]));
        check_values(&cs, &st)?;
        let tg = targets(&cs, &st);
        unique(s, &cs, &st, &tg, "looked-up coordinates")
    }
    fields!(s, go, 2 Fp<3> = "F_3", 2 Fp<5> = "F_5", 2 Fp<17> = "F_17", 2 Fp<251> = "F_251",
        3 Fp<GOLD> = "Goldilocks", 3 Bls = "BLS12-381 scalar")
}

// ================================================================== C19

fn c19_pack(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let cap = F::CAPACITY as usize;
        let n = match s.weighted(&[150, 150, 100, 1]) {
            0 => s.size(0, 20),
            1 => {
                let k = s.size(1, 3);
                (k * cap + s.below(3)).saturating_sub(1)
            }
            3 => {
                // many elements
                let k = s.below(1 + 6000 / cap.max(8));
                k * cap + s.below(cap)
            }
            _ => s.size(0, 3 * cap.min(200) + 5),
        };
        let mut cs = Rec::<F>::new(Mode::Eval);
        let mut bits = vec![];
        let fill = s.below(3);
        let kinds = s.bool();
        for i in 0..n {
            let k = if kinds { s.below(3) } else { 1 };
            let v = match fill {
                0 => s.bool(),
                1 => true,
                _ => i % 7 == 0,
            };
            bits.push(match k {
                0 => (Boolean::constant(v), v),
                _ => {
                    let nt = k == 2;
                    let b: Boolean =
                        AllocatedBit::alloc(cs.namespace(|| format!("b{}", i)), Some(v ^ nt))
                            .unwrap()
                            .into();
                    (if nt { b.not() } else { b }, v)
                }
            });
        }
        let ins: Vec<Ix> = (0..cs.aux.len()).map(|i| 2 * i + 1).collect();
        let bs: Vec<Boolean> = bits.iter().map(|b| b.0.clone()).collect();
        let v: Vec<bool> = bits.iter().map(|b| b.1).collect();
        s.note(|| format!("{} bits {:?}", n, v));
        multipack::pack_into_inputs(&mut cs, &bs).map_err(|e| format!("{:?}", e))?;
        let off = multipack::compute_multipacking::<F>(&v);
        // independent packing
        let want: Vec<F> = v
            .chunks(cap)
            .map(|c| {
                c.iter()
                    .rev()
                    .fold(F::ZERO, |a, b| a + a + if *b { F::ONE } else { F::ZERO })
            })
            .collect();
        // no wrap-around: the packed integer is below the modulus
        for c in v.chunks(cap) {
            let mut i = Int::small(0);
            for b in c.iter().rev() {
                i = i.add(i).add(Int::small(*b as i64));
            }
            ensure!(i.lt(Int::modulus::<F>()), "capacity wraps around");
        }
        ensure_eq!(off, want, "compute_multipacking");
        s.nontrivial_if(n > 0);
        if n > cap {
            s.label("several elements");
        }
        if n % cap == 0 && n > 0 {
            s.label("exactly full");
        }
        let mut st = State::<F>::new(true);
        st.ins = ins;
        st.publ = want;
        check_values(&cs, &st)?;
        ensure!(cs.aux.len() == st.ins.len() || n > 0, "allocations without bits");
        let tg = targets(&cs, &st);
        unique(s, &cs, &st, &tg, "public inputs")?;
        // injective: flipping a bit changes the packing, and in the right place
        if n > 0 {
            let i = s.below(n);
            let mut v2 = v.clone();
            v2[i] = !v2[i];
            let o2 = multipack::compute_multipacking::<F>(&v2);
            let diff: Vec<usize> = (0..off.len()).filter(|k| off[*k] != o2[*k]).collect();
            ensure_eq!(diff, vec![i / cap], "elements changed by flipping bit {}", i);
        }
        Ok(())
    }
    fields!(s, go, 2 Fp<3> = "F_3", 2 Fp<5> = "F_5", 2 Fp<31> = "F_31", 2 Fp<251> = "F_251",
        2 Fp<65537> = "F_65537", 2 Fp<P61> = "F_(2^61-1)", 2 Fp<GOLD> = "Goldilocks",
        4 Bls = "BLS12-381 scalar")
}

fn c19_bytes(s: &mut Src) -> R {
    let n = s.skewed(0, 200);
    let b = s.bytes(n);
    s.note(|| format!("{:?}", b));
    s.nontrivial_if(n > 0);
    let be = multipack::bytes_to_bits(&b);
    let le = multipack::bytes_to_bits_le(&b);
    let mut wb = vec![];
    let mut wl = vec![];
    for x in &b {
        for i in 0..8u32 {
            wl.push(*x as u32 / 2u32.pow(i) % 2 == 1);
            wb.push(*x as u32 / 2u32.pow(7 - i) % 2 == 1);
        }
    }
    ensure_eq!(be, wb, "bytes_to_bits");
    ensure_eq!(le, wl, "bytes_to_bits_le");
    Ok(())
}

// ================================================================== C20

/// One side of an equality; its value always stays within the declared width.
#[derive(Clone, Debug)]
enum Side {
    Const(Int),
    Plus(usize, Int),
    Minus(Int, usize),
    Bits(Vec<usize>),
}
impl Side {
    fn value(&self, v: &[u64]) -> u64 {
        let small = |x: &Int| -> u64 { (0..40).map(|i| (x.bit(i) as u64) << i).sum() };
        match self {
            Side::Const(k) => small(k),
            Side::Plus(i, k) => v[*i] + small(k),
            Side::Minus(k, i) => small(k) - v[*i],
            Side::Bits(b) => b.iter().enumerate().map(|(i, x)| v[*x] << i).sum(),
        }
    }
}

fn c20<F: PrimeFieldBits>(s: &mut Src, exhaustive: bool) -> R {
    let cap = F::CAPACITY as usize;
    let many = !exhaustive && s.chance(1, 100);
    let neq = if exhaustive {
        s.size(1, 3)
    } else if many {
        s.skewed(12, 400)
    } else {
        s.skewed(1, 12)
    };
    let narrow = many && s.bool();
    let maxw = cap - 1;
    let mut widths = vec![];
    let mut budget = 10usize;
    for _ in 0..neq {
        let w = if exhaustive {
            let w = s.size(1, maxw.min(4).max(1)).min(budget / 2);
            if w == 0 {
                break;
            }
            budget -= 2 * w;
            w
        } else {
            match if narrow { 0 } else { s.weighted(&[3, 2, 2, 2]) } {
                0 => s.size(1, maxw.min(8)),
                1 => s.size(1, maxw),
                2 => maxw,
                _ => s.size(1, maxw.min(40)),
            }
        };
        widths.push(w);
    }
    if widths.is_empty() {
        return Ok(());
    }
    // Each side is one allocated number below 2^w, plus (for variety) a
    // constant split between the sides.
    let val = |s: &mut Src, w: usize| -> Int {
        let mut l = Int::small(1);
        for _ in 0..w {
            l = l.add(l);
        }
        match s.below(5) {
            0 => Int::small(0),
            1 => l.sub(Int::small(1)),
            2 => {
                // a power of two
                let k = s.below(w);
                let mut x = Int::small(1);
                for _ in 0..k {
                    x = x.add(x);
                }
                x
            }
            3 => Int::small(s.below(2) as i64),
            _ => {
                let mut x = Int::small(0);
                for _ in 0..w {
                    x = x.add(x).add(Int::small(s.below(2) as i64));
                }
                x
            }
        }
    };
    let to_f = |x: Int| -> F {
        let mut r = F::ZERO;
        for i in (0..300).rev() {
            r = r + r + if x.bit(i) { F::ONE } else { F::ZERO };
        }
        r
    };
    let style = s.below(5);
    let odd = s.below(widths.len());
    let mut vals: Vec<(Int, Int)> = vec![];
    for (i, w) in widths.iter().enumerate() {
        let a = val(s, *w);
        let b = match style {
            0 => a,                // all equal
            1 => {
                if i == 0 { val(s, *w) } else { a }
            }
            4 => {
                if i == odd { val(s, *w) } else { a }
            }
            2 => val(s, *w),
            _ => {
                // compensate the previous difference
                let d = if i > 0 { vals[i - 1].1.sub(vals[i - 1].0) } else { Int::small(0) };
                let mut half = d;
                let pw = if i > 0 { widths[i - 1] } else { 0 };
                let k = s.below(pw + 1);
                for _ in 0..k {
                    half = half.half();
                }
                let mut lim = Int::small(1);
                for _ in 0..*w {
                    lim = lim.add(lim);
                }
                let c = if s.bool() { a.sub(half) } else { a.add(half) };
                if i == 0 {
                    val(s, *w)
                } else if !c.is_neg() && c.lt(lim) {
                    c
                } else {
                    a
                }
            }
        };
        vals.push((a, b));
    }
    s.note(|| format!("widths {:?} values {:?}", widths, vals));
    let early = s.chance(1, 6);
    let plain = s.chance(1, 3);
    let mut cs = Rec::<F>::new(Mode::Eval);
    // every variable used: its index, value and least excluded value
    let mut vars: Vec<(Variable, Int, Int)> = vec![];
    let mut reuse: Vec<(usize, usize)> = vec![];
    let mut sides: Vec<[Side; 2]> = vec![];
    {
        let mut m = MultiEq::new(&mut cs);
        let one = Rec::<F>::one();
        let zero = Int::small(0);
        for (w, (a, b)) in widths.iter().zip(vals.iter_mut()) {
            let mut top = Int::small(1);
            for _ in 0..*w {
                top = top.add(top);
            }
            let mut eqn = vec![];
            let mut lcs = vec![];
            let same = *a == *b;
            for first in [true, false] {
                let mut v = if first { *a } else { *b };
                let mut z = LinearCombination::zero();
                let mut alloc = |s: &mut Src, vars: &mut Vec<(Variable, Int, Int)>, v: Int, lim: Int| -> Result<usize, String> {
                    let f = to_f(v);
                    let x = if s.chance(1, 5) {
                        m.alloc_input(|| "x", || Ok(f))
                    } else {
                        m.alloc(|| "x", || Ok(f))
                    }
                    .map_err(|e| format!("{:?}", e))?;
                    vars.push((x, v, lim));
                    Ok(vars.len() - 1)
                };
                let old: Vec<usize> = reuse.iter().filter(|r| r.1 <= *w).map(|r| r.0).collect();
                let form = if plain { 0 } else { s.weighted(&[4, 3, 2, 2, 2, 2]) };
                let side = match form {
                    1 => {
                        // no variables at all, or no terms at all
                        if v != zero || s.bool() {
                            z = z + (to_f(v), one);
                        }
                        Side::Const(v)
                    }
                    2 if *w <= 64 => {
                        // bit by bit
                        let mut ids = vec![];
                        let mut c = F::ONE;
                        for i in 0..*w {
                            let id = alloc(s, &mut vars, Int::small(v.bit(i as u32) as i64), Int::small(2))?;
                            z = z + (c, vars[id].0);
                            c = c + c;
                            ids.push(id);
                        }
                        Side::Bits(ids)
                    }
                    3 => {
                        // a variable plus a constant
                        let mut k = v;
                        for _ in 0..s.below(3) {
                            k = k.half();
                        }
                        let id = alloc(s, &mut vars, v.sub(k), top.sub(k))?;
                        let x = vars[id].0;
                        z = if s.bool() { z + x + (to_f(k), one) } else { z + (to_f(k), one) + x };
                        Side::Plus(id, k)
                    }
                    4 => {
                        // all ones minus a variable
                        let t = top.sub(Int::small(1));
                        let id = alloc(s, &mut vars, t.sub(v), top)?;
                        z = z + (to_f(t), one) - vars[id].0;
                        Side::Minus(t, id)
                    }
                    5 if !old.is_empty() && (first || !same) => {
                        // a variable used before, or on the other side
                        let id = *s.pick(&old);
                        z = z + vars[id].0;
                        v = vars[id].1;
                        if first && same {
                            *b = v;
                        }
                        Side::Plus(id, zero)
                    }
                    _ => {
                        let id = alloc(s, &mut vars, v, top)?;
                        reuse.push((id, *w));
                        z = z + vars[id].0;
                        Side::Plus(id, zero)
                    }
                };
                if first {
                    *a = v;
                } else {
                    *b = v;
                }
                // decorations that change nothing
                if s.chance(1, 4) {
                    z = z + one - one;
                }
                if s.chance(1, 6) && !vars.is_empty() {
                    z = z + (F::ZERO, s.pick(&vars).0);
                }
                eqn.push(side);
                lcs.push(z);
            }
            m.enforce_equal(*w, &lcs[0], &lcs[1]);
            sides.push([eqn[0].clone(), eqn[1].clone()]);
            if early && s.chance(1, 4) {
                // ordinary constraints pass straight through
                if let Some(v) = vars.first() {
                    m.enforce(|| "direct", |lc| lc + v.0, |lc| lc, |lc| lc);
                }
            }
        }
    }
    s.note(|| format!("sides {:?}", sides));
    let total: usize = widths.iter().sum();
    if total >= cap {
        s.label("overflows the capacity");
    }
    let eq = vals.iter().all(|(a, b)| a == b);
    s.label(if eq { "all equal" } else { "some differ" });
    s.nontrivial_if(widths.len() >= 2);
    ensure_eq!(
        cs.unsatisfied().is_none(),
        eq,
        "collector satisfied (widths {:?})",
        widths
    );
    if exhaustive {
        // all small values of all sides
        let sys = Sys::new(&cs);
        let mut z = honest(&cs);
        let at: Vec<usize> = vars.iter().map(|v| flat(&cs, ix(v.0))).collect();
        let lim: Vec<u64> = vars.iter().map(|v| (0..20).map(|i| (v.2.bit(i) as u64) << i).sum()).collect();
        let size: u64 = lim.iter().product();
        let mut now = vec![0u64; vars.len()];
        for n in 0..size {
            let mut k = n;
            for (i, l) in lim.iter().enumerate() {
                now[i] = k % l;
                k /= l;
                z[at[i]] = F::from(now[i]);
            }
            let eq = sides.iter().all(|[a, b]| a.value(&now) == b.value(&now));
            ensure_eq!(sys.holds(&z), eq, "collector on values {:?} widths {:?} sides {:?}", z, widths, sides);
        }
        s.label("exhaustive");
    }
    Ok(())
}

fn c20_random(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        c20::<F>(s, false)
    }
    fields!(s, go, 2 Fp<31> = "F_31", 2 Fp<251> = "F_251", 2 Fp<65537> = "F_65537",
        2 Fp<P61> = "F_(2^61-1)", 3 Fp<GOLD> = "Goldilocks", 5 Bls = "BLS12-381 scalar")
}
fn c20_exhaustive(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        c20::<F>(s, true)
    }
    fields!(s, go, 2 Fp<13> = "F_13", 2 Fp<17> = "F_17", 2 Fp<31> = "F_31", 2 Fp<37> = "F_37",
        2 Fp<61> = "F_61", 2 Fp<97> = "F_97", 2 Fp<127> = "F_127", 2 Fp<193> = "F_193",
        2 Fp<251> = "F_251", 2 Fp<257> = "F_257")
}

fn main() {
    let a: &[&str] = &["the reference models in harness/src/gprog.rs, the field arithmetic of the tested fields, and the constraint evaluator are right"];
    vph::runner::main(vec![
        Prop { id: "C12", threads: THREADS, assumptions: a,
            rule: "a program with at least two operations that adds constraints beyond its input bits; a table row with operands of the gadget's kind; every bit-range case",
            subs: vec![
                sub("program", 1_500_000, 20_000_000, c12_program),
                sub("table", 300_000, 3_000_000, c12_table),
                sub("bitness", 100_000, 3_000_000, c12_bitness),
            ] },
        Prop { id: "C18", threads: THREADS, assumptions: a,
            rule: "the table has at least two different entries",
            subs: vec![sub("lookup", 1_500_000, 30_000_000, c18)] },
        Prop { id: "C19", threads: THREADS, assumptions: a,
            rule: "at least one bit or byte",
            subs: vec![
                sub("pack", 300_000, 6_000_000, c19_pack),
                sub("bytes", 200_000, 3_000_000, c19_bytes),
            ] },
        Prop { id: "C20", threads: THREADS, assumptions: a,
            rule: "at least two equalities",
            subs: vec![
                sub("random", 800_000, 20_000_000, c20_random),
                sub("exhaustive", 200_000, 5_000_000, c20_exhaustive),
            ] },
    ])
}
