//! C25: Adaptors.

use bellman::gadgets::multieq::MultiEq;
use bellman::gadgets::test::TestConstraintSystem;
use bellman::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use bls12_381::Scalar as Bls;
use ff::{PrimeField, PrimeFieldBits};
use vph::circ::{ekind, scalar};
use vph::engine::*;
use vph::fp::*;
use vph::gad::*;
use vph::gprog::*;
use vph::rec::*;
use vph::runner::{sub, Prop, THREADS};
use vph::{ensure, ensure_eq, fields};


// ================================================================== C25

const T_ADAPT: Theme = Theme {
    max_ops: 14,
    ..T_SHAPE
};

fn show_r(r: &Result<(), SynthesisError>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => ekind(e).into(),
    }
}

/// Wraps a constraint system in `k` and runs the program inside.
fn wrapped<F: PrimeFieldBits>(
    k: usize,
    cs: &mut Rec<F>,
    p: &Prog<F>,
    w: &Wit<F>,
    st: &mut State<F>,
) -> (Result<(), SynthesisError>, usize) {
    match k {
        0 => {
            let mut r = cs;
            (exec(&mut r, p, w, st), 0)
        }
        1 => {
            let mut n = cs.namespace(|| "wrap");
            (exec(&mut n, p, w, st), 1)
        }
        2 => {
            let mut m = MultiEq::new(cs);
            (exec(&mut m, p, w, st), 0)
        }
        3 => {
            let mut n = cs.namespace(|| "wrap");
            let mut n2 = n.namespace(|| "wrap2");
            let mut r = &mut n2;
            (exec(&mut r, p, w, st), 2)
        }
        4 => {
            let mut m = MultiEq::new(cs.namespace(|| "wrap"));
            let mut n = m.namespace(|| "wrap2");
            (exec(&mut n, p, w, st), 2)
        }
        _ => {
            let mut n = cs.namespace(|| "wrap");
            let mut m = MultiEq::new(&mut n);
            let mut m2 = MultiEq::new(&mut m);
            (exec(&mut m2, p, w, st), 1)
        }
    }
}

fn c25_gadgets(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let th = if F::NUM_BITS < 64 {
            Theme { me: false, ..T_ADAPT }
        } else {
            T_ADAPT
        };
        let (p, w) = gen::<F>(s, &th);
        show(s, &p, &w);
        let mut a = Rec::<F>::named(Mode::Eval);
        let mut sa = State::new(true);
        exec(&mut a, &p, &w, &mut sa).map_err(|e| format!("{:?}", e))?;
        // inject a failure at some allocation in half of the cases
        let n = a.aux.len() + a.inputs.len() - 1;
        let fail = if n > 0 && s.bool() {
            Some((s.below(n), s.below(7) as u8))
        } else {
            None
        };
        let mut a = Rec::<F>::named(Mode::Eval);
        a.fail_at = fail;
        let mut sa2 = State::again(true, &sa.dec);
        let ra = exec(&mut a, &p, &w, &mut sa2);
        ensure!(a.depth == 0 && !a.underflow, "unbalanced directly");
        if let Some((_, e)) = fail {
            s.label("injected failure");
            ensure_eq!(show_r(&ra), ekind(&vph::circ::synth_error(e)), "injected error");
        }
        s.nontrivial_if(a.log.len() >= 8);
        for k in 0..6 {
            let mut b = Rec::<F>::named(Mode::Eval);
            b.fail_at = fail;
            let mut sb = State::again(true, &sa.dec);
            let (rb, extra) = wrapped(k, &mut b, &p, &w, &mut sb);
            ensure_eq!(show_r(&rb), show_r(&ra), "adaptor {}: result", k);
            ensure!(
                b.depth == 0 && !b.underflow,
                "adaptor {}: namespaces unbalanced (depth {})",
                k,
                b.depth
            );
            ensure_eq!(b.inputs, a.inputs, "adaptor {}: inputs", k);
            ensure_eq!(b.aux, a.aux, "adaptor {}: auxiliary values", k);
            ensure!(b.cons == a.cons, "adaptor {}: constraints differ", k);
            let l = b.log.len();
            ensure_eq!(l, a.log.len() + 2 * extra, "adaptor {}: number of steps", k);
            ensure!(
                b.log[..extra].iter().all(|e| matches!(e, Ev::Push(_)))
                    && b.log[l - extra..].iter().all(|e| *e == Ev::Pop),
                "adaptor {}: outer namespaces",
                k
            );
            for (i, (x, y)) in a.log.iter().zip(&b.log[extra..]).enumerate() {
                ensure_eq!(y, x, "adaptor {}: step {}", k, i);
            }
        }
        Ok(())
    }
    fields!(s, go, 4 Fp<5> = "F_5", 4 Fp<GOLD> = "Goldilocks",
        3 Bls = "BLS12-381 scalar")
}

/// Raw constraint-system calls.
#[derive(Clone, Debug)]
enum Raw<F> {
    Aux(F, bool),
    Input(F, bool),
    Enforce([Vec<(usize, F)>; 3]),
    Ns(Vec<Raw<F>>),
    /// The rest runs on the root.
    Root(Vec<Raw<F>>),
}

fn gen_raw<F: PrimeField>(s: &mut Src, depth: usize, fails: bool) -> Vec<Raw<F>> {
    let n = s.skewed(0, 8);
    (0..n)
        .map(|_| {
            let k = if depth > 3 { s.weighted(&[4, 3, 3]) } else { s.weighted(&[4, 3, 3, 3, 1]) };
            match k {
                0 => Raw::Aux(scalar(s), fails && s.chance(1, 10)),
                1 => Raw::Input(scalar(s), fails && s.chance(1, 10)),
                2 => {
                    let mut g = || {
                        let n = s.below(4);
                        (0..n).map(|_| (s.below(12), scalar(s))).collect::<Vec<_>>()
                    };
                    Raw::Enforce([g(), g(), g()])
                }
                3 => Raw::Ns(gen_raw(s, depth + 1, fails)),
                _ => Raw::Root(gen_raw(s, depth + 1, fails)),
            }
        })
        .collect()
}

fn run_raw<F: PrimeField, CS: ConstraintSystem<F>>(
    cs: &mut CS,
    ops: &[Raw<F>],
    vars: &mut Vec<Variable>,
    id: &mut usize,
    calls: &std::cell::Cell<usize>,
) -> Result<(), SynthesisError> {
    match CS::one().get_unchecked() {
        Index::Input(0) => {}
        o => panic!("the constant one is {:?}", o),
    }
    for op in ops {
        *id += 1;
        let n = *id;
        match op {
            Raw::Aux(v, f) | Raw::Input(v, f) => {
                let c = || {
                    calls.set(calls.get() + 1);
                    if *f {
                        Err(SynthesisError::Unsatisfiable)
                    } else {
                        Ok(*v)
                    }
                };
                let r = if matches!(op, Raw::Aux(..)) {
                    cs.alloc(|| format!("a{}", n), c)?
                } else {
                    cs.alloc_input(|| format!("i{}", n), c)?
                };
                vars.push(r);
            }
            Raw::Enforce(t) => {
                let lc = |x: &Vec<(usize, F)>| {
                    x.iter().fold(LinearCombination::zero(), |l, (i, c)| {
                        l + (*c, vars[i % vars.len()])
                    })
                };
                let (a, b, c) = (lc(&t[0]), lc(&t[1]), lc(&t[2]));
                cs.enforce(
                    || format!("c{}", n),
                    |l| l + &a,
                    |l| l - &b,
                    |l| l + CS::one() + &c,
                );
            }
            Raw::Ns(o) => {
                let mut ns = cs.namespace(|| format!("n{}", n));
                // one dynamic level; static nesting would not terminate
                run_raw_dyn(ns.get_root(), o, vars, id, calls)?;
            }
            Raw::Root(o) => run_raw_dyn(cs.get_root(), o, vars, id, calls)?,
        }
    }
    Ok(())
}

fn run_raw_dyn<F: PrimeField, CS: ConstraintSystem<F>>(
    cs: &mut CS,
    ops: &[Raw<F>],
    vars: &mut Vec<Variable>,
    id: &mut usize,
    calls: &std::cell::Cell<usize>,
) -> Result<(), SynthesisError> {
    for op in ops {
        match op {
            Raw::Ns(o) => {
                *id += 1;
                let n = *id;
                let ns = cs.namespace(|| format!("n{}", n));
                step_ns(ns, o, vars, id, calls)?;
            }
            Raw::Root(o) => {
                *id += 1;
                leaf(cs, o, vars, id, calls)?;
            }
            _ => leaf(cs, std::slice::from_ref(op), vars, id, calls)?,
        }
    }
    Ok(())
}

fn step_ns<F: PrimeField, CS: ConstraintSystem<F>>(
    mut cs: CS,
    ops: &[Raw<F>],
    vars: &mut Vec<Variable>,
    id: &mut usize,
    calls: &std::cell::Cell<usize>,
) -> Result<(), SynthesisError> {
    leaf(&mut cs, ops, vars, id, calls)
}

/// Leaf calls; namespaces below this level are entered and left empty.
fn leaf<F: PrimeField, CS: ConstraintSystem<F>>(
    cs: &mut CS,
    ops: &[Raw<F>],
    vars: &mut Vec<Variable>,
    id: &mut usize,
    calls: &std::cell::Cell<usize>,
) -> Result<(), SynthesisError> {
    for op in ops {
        *id += 1;
        let n = *id;
        match op {
            Raw::Ns(o) => {
                let mut ns = cs.namespace(|| format!("n{}", n));
                for p in o {
                    if let Raw::Aux(v, _) = p {
                        *id += 1;
                        let n = *id;
                        vars.push(ns.alloc(|| format!("a{}", n), || Ok(*v))?);
                    }
                }
            }
            Raw::Root(_) => {
                let _ = cs.get_root();
            }
            Raw::Aux(v, f) | Raw::Input(v, f) => {
                let c = || {
                    calls.set(calls.get() + 1);
                    if *f {
                        Err(SynthesisError::DivisionByZero)
                    } else {
                        Ok(*v)
                    }
                };
                let r = if matches!(op, Raw::Aux(..)) {
                    cs.alloc(|| format!("a{}", n), c)?
                } else {
                    cs.alloc_input(|| format!("i{}", n), c)?
                };
                vars.push(r);
            }
            Raw::Enforce(t) => {
                let lc = |x: &Vec<(usize, F)>| {
                    x.iter().fold(LinearCombination::zero(), |l, (i, c)| {
                        l + (*c, vars[i % vars.len()])
                    })
                };
                let (a, b, c) = (lc(&t[0]), lc(&t[1]), lc(&t[2]));
                cs.enforce(|| format!("c{}", n), |l| l + &a, |_| b, |l| l - &c);
            }
        }
    }
    Ok(())
}

/// A constraint system with a constant one of its own.
struct Odd<F: PrimeField>(Rec<F>);
impl<F: PrimeField> ConstraintSystem<F> for Odd<F> {
    type Root = Self;
    fn one() -> Variable {
        Variable::new_unchecked(Index::Aux(1 << 40))
    }
    fn alloc<A, N, NR>(&mut self, n: N, f: A) -> Result<Variable, SynthesisError>
    where
        A: FnOnce() -> Result<F, SynthesisError>,
        N: FnOnce() -> NR,
        NR: Into<String>,
    {
        self.0.alloc(n, f)
    }
    fn alloc_input<A, N, NR>(&mut self, n: N, f: A) -> Result<Variable, SynthesisError>
    where
        A: FnOnce() -> Result<F, SynthesisError>,
        N: FnOnce() -> NR,
        NR: Into<String>,
    {
        self.0.alloc_input(n, f)
    }
    fn enforce<N, NR, LA, LB, LC>(&mut self, n: N, a: LA, b: LB, c: LC)
    where
        N: FnOnce() -> NR,
        NR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        self.0.enforce(n, a, b, c)
    }
    fn push_namespace<NR: Into<String>, N: FnOnce() -> NR>(&mut self, n: N) {
        self.0.push_namespace(n)
    }
    fn pop_namespace(&mut self) {
        self.0.pop_namespace()
    }
    fn get_root(&mut self) -> &mut Self {
        self
    }
}
fn one_of<F: PrimeField, CS: ConstraintSystem<F>>(_: &mut CS) -> Index {
    CS::one().get_unchecked()
}

/// Every nesting of adaptors has the constant one of what it wraps.
fn c25_one(s: &mut Src) -> R {
    type F = Fp<GOLD>;
    fn here<CS: ConstraintSystem<F>>(mut cs: CS) -> R {
        let o = one_of(&mut cs);
        ensure!(o == Index::Aux(1 << 40), "the constant one is {:?}", o);
        Ok(())
    }
    fn two<CS: ConstraintSystem<F>>(cs: &mut CS, ks: &[usize]) -> R {
        match (ks[0], ks[1]) {
            (0, 0) => here(&mut &mut *cs),
            (0, 1) => here(cs.namespace(|| "a")),
            (0, _) => here(MultiEq::new(&mut *cs)),
            (1, 0) => here(&mut cs.namespace(|| "a")),
            (1, 1) => here(cs.namespace(|| "a").namespace(|| "b")),
            (1, _) => here(MultiEq::new(cs.namespace(|| "a"))),
            (_, 0) => here(&mut MultiEq::new(&mut *cs)),
            (_, 1) => here(MultiEq::new(&mut *cs).namespace(|| "b")),
            _ => here(MultiEq::new(MultiEq::new(&mut *cs))),
        }
    }
    let ks: Vec<usize> = (0..3).map(|_| s.below(3)).collect();
    s.note(|| format!("adaptors {:?}", ks));
    s.nontrivial();
    let mut cs = Odd::<F>(Rec::named(Mode::Eval));
    match ks[2] {
        0 => two(&mut cs, &ks)?,
        1 => two(&mut cs.namespace(|| "n"), &ks)?,
        _ => two(&mut MultiEq::new(&mut cs), &ks)?,
    }
    // the collector's own equations use it as well
    let mut cs = Odd::<F>(Rec::named(Mode::Eval));
    let v = cs.alloc(|| "v", || Ok(Fp::new(5))).map_err(|e| e.to_string())?;
    {
        let mut m = MultiEq::new(&mut cs);
        let l = LinearCombination::<F>::zero() + v;
        m.enforce_equal(3, &l, &l);
    }
    let b = cs.0.cons.last().ok_or("no constraint")?;
    ensure!(b.iter().flatten().all(|t| t.0 != 0), "the collector uses another constant one: {:?}", b);
    Ok(())
}

fn c25_raw(s: &mut Src) -> R {
    type F = Fp<GOLD>;
    let fails = s.bool();
    let ops = gen_raw::<F>(s, 0, fails);
    s.note(|| format!("{:?}", ops));
    let go = |k: usize, mode: Mode| {
        let mut cs = Rec::<F>::named(mode);
        let mut vars = vec![Rec::<F>::one()];
        let mut id = 0;
        let calls = std::cell::Cell::new(0);
        let r = match k {
            0 => run_raw(&mut cs, &ops, &mut vars, &mut id, &calls),
            1 => {
                let mut r = &mut cs;
                run_raw(&mut r, &ops, &mut vars, &mut id, &calls)
            }
            2 => {
                let mut n = cs.namespace(|| "wrap");
                run_raw(&mut n, &ops, &mut vars, &mut id, &calls)
            }
            3 => {
                let mut m = MultiEq::new(&mut cs);
                run_raw(&mut m, &ops, &mut vars, &mut id, &calls)
            }
            _ => {
                let mut n = cs.namespace(|| "wrap");
                let mut r = &mut n;
                let mut m = MultiEq::new(&mut r);
                let mut n = m.namespace(|| "wrap2");
                run_raw(&mut n, &ops, &mut vars, &mut id, &calls)
            }
        };
        (cs, r, vars, calls.get())
    };
    for mode in [Mode::Eval, Mode::Setup] {
        let (a, ra, va, ca) = go(0, mode);
        s.nontrivial_if(a.log.len() >= 4);
        if ra.is_err() {
            s.label("synthesis fails inside");
        }
        ensure!(a.depth == 0 && !a.underflow, "unbalanced directly");
        for k in 1..5 {
            let (b, rb, vb, cb) = go(k, mode);
            let extra = [0, 0, 1, 0, 2][k];
            ensure_eq!(show_r(&rb), show_r(&ra), "adaptor {}: result", k);
            ensure!(b.depth == 0 && !b.underflow, "adaptor {}: unbalanced", k);
            ensure_eq!(cb, ca, "adaptor {}: value closures called", k);
            ensure_eq!(
                vb.iter().map(|v| ix(*v)).collect::<Vec<_>>(),
                va.iter().map(|v| ix(*v)).collect::<Vec<_>>(),
                "adaptor {}: variables",
                k
            );
            ensure_eq!(b.inputs, a.inputs, "adaptor {}: inputs", k);
            ensure_eq!(b.aux, a.aux, "adaptor {}: auxiliary values", k);
            ensure_eq!(b.cons, a.cons, "adaptor {}: constraints", k);
            ensure_eq!(
                b.log[extra..b.log.len() - extra].to_vec(),
                a.log,
                "adaptor {}: steps",
                k
            );
        }
    }
    Ok(())
}

/// Gadget programs on the library's own test constraint system.
fn c25_testcs(s: &mut Src) -> R {
    fn go<F: PrimeFieldBits>(s: &mut Src) -> R {
        let th = if F::NUM_BITS < 64 {
            Theme { me: false, max_ops: 8, ..T_ADAPT }
        } else {
            Theme { max_ops: 8, ..T_ADAPT }
        };
        let (p, w) = gen::<F>(s, &th);
        show(s, &p, &w);
        let (a, sa) = run(&p, &w)?;
        s.nontrivial_if(a.cons.len() >= 3);
        let mut t = TestConstraintSystem::<F>::new();
        let mut st = State::again(true, &sa.dec);
        exec(&mut t, &p, &w, &mut st).map_err(|e| format!("{:?}", e))?;
        ensure!(t.is_satisfied(), "{:?} unsatisfied", t.which_is_unsatisfied());
        ensure_eq!(t.num_constraints(), a.cons.len(), "constraints");
        ensure_eq!(t.num_inputs(), a.inputs.len(), "inputs");
        ensure!(t.verify(&sa.publ), "public inputs refused");
        // namespaces are back at the top level
        let v: F = scalar(s);
        t.alloc(|| "probe", || Ok(v)).map_err(|e| format!("{:?}", e))?;
        ensure_eq!(t.get("probe"), v, "value at top level");
        Ok(())
    }
    fields!(s, go, 2 Fp<5> = "F_5", 4 Fp<GOLD> = "Goldilocks", 3 Bls = "BLS12-381 scalar")
}

fn main() {
    let a: &[&str] = &["the reference models in harness/src/gprog.rs, the field arithmetic of the tested fields, and the constraint evaluator are right"];
    vph::runner::main(vec![
        Prop { id: "C25", threads: THREADS, assumptions: a,
            rule: "at least four (raw) or eight (gadgets) steps, at least three constraints on the test system",
            subs: vec![
                sub("gadgets", 200_000, 3_000_000, c25_gadgets),
                sub("raw", 1_200_000, 12_000_000, c25_raw),
                sub("one", 2_000, 20_000, c25_one),
                sub("testcs", 200_000, 2_000_000, c25_testcs),
            ] },
    ])
}
