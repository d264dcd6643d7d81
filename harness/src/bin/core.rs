//! C22, C23: linear combinations and the test constraint system.

use bellman::gadgets::test::TestConstraintSystem;
use bellman::{ConstraintSystem, Index, LinearCombination, Variable};
use bls12_381::Scalar as Bls;
use ff::{Field, PrimeField};
use rand_core::RngCore;
use std::collections::BTreeMap;
use vph::circ::{nonzero, scalar, synth_error, wide};
use vph::engine::*;
use vph::fp::*;
use vph::rec::{ix, show_ix, Ix};
use vph::runner::{sub, Prop, THREADS};
use vph::{ensure, ensure_eq};

macro_rules! fields {
    ($s:expr, $f:ident, $( $w:literal $t:ty = $l:literal ),* $(,)?) => {{
        let ws = [$($w),*];
        let k = $s.weighted(&ws);
        let mut i = 0;
        $(
            if k == i { $s.label($l); return $f::<$t>($s); }
            i += 1;
        )*
        let _ = i;
        unreachable!()
    }};
}

fn var(i: Ix) -> Variable {
    Variable::new_unchecked(if i % 2 == 0 {
        Index::Input(i / 2)
    } else {
        Index::Aux(i / 2)
    })
}

// ================================================================== C22

type Map<F> = BTreeMap<Ix, F>;

fn madd<F: PrimeField>(m: &mut Map<F>, i: Ix, c: F) {
    *m.entry(i).or_insert(F::ZERO) += c;
}
fn norm<F: PrimeField>(m: &Map<F>) -> Map<F> {
    m.iter()
        .filter(|x| !x.1.is_zero_vartime())
        .map(|(i, c)| (*i, *c))
        .collect()
}
fn map_of<F: PrimeField>(l: &LinearCombination<F>) -> Map<F> {
    let mut m = Map::new();
    for (v, c) in l.as_ref() {
        madd(&mut m, ix(*v), *c);
    }
    m
}

/// A pool of combinations grown by random operators, against coefficient maps.
fn c22<F: PrimeField>(s: &mut Src) -> R {
    let nv = s.size(1, 6);
    let mut pool: Vec<(LinearCombination<F>, Map<F>)> =
        vec![(LinearCombination::zero(), Map::new())];
    let steps = s.size(1, 24);
    let mut big = 0;
    for _ in 0..steps {
        let i = s.below(pool.len());
        let j = s.below(pool.len());
        let (l, mut m) = pool[i].clone();
        let v = {
            let k = s.below(nv);
            let t = s.draw(1) as usize;
            2 * k + t
        };
        let op = s.below(8);
        let c: F = if op >= 4 || op < 2 { scalar(s) } else { F::ONE };
        let (other, om) = pool[j].clone();
        s.note(|| {
            let t = match op {
                0 => format!("#{} + ({:?}, {})", i, c, show_ix(v)),
                1 => format!("#{} - ({:?}, {})", i, c, show_ix(v)),
                2 => format!("#{} + {}", i, show_ix(v)),
                3 => format!("#{} - {}", i, show_ix(v)),
                4 => format!("#{} + #{}", i, j),
                5 => format!("#{} - #{}", i, j),
                6 => format!("#{} + ({:?}, #{})", i, c, j),
                _ => format!("#{} - ({:?}, #{})", i, c, j),
            };
            format!("#{} = {};", pool.len(), t)
        });
        let r = match op {
            0 => {
                madd(&mut m, v, c);
                l + (c, var(v))
            }
            1 => {
                madd(&mut m, v, -c);
                l - (c, var(v))
            }
            2 => {
                madd(&mut m, v, F::ONE);
                l + var(v)
            }
            3 => {
                madd(&mut m, v, -F::ONE);
                l - var(v)
            }
            4 => {
                for (w, k) in &om {
                    madd(&mut m, *w, *k);
                }
                l + &other
            }
            5 => {
                for (w, k) in &om {
                    madd(&mut m, *w, -*k);
                }
                l - &other
            }
            6 => {
                for (w, k) in &om {
                    madd(&mut m, *w, *k * c);
                }
                l + (c, &other)
            }
            _ => {
                for (w, k) in &om {
                    madd(&mut m, *w, -(*k * c));
                }
                l - (c, &other)
            }
        };
        ensure_eq!(norm(&map_of(&r)), norm(&m), "coefficients after operator {}", op);
        // operands are unchanged
        ensure_eq!(norm(&map_of(&other)), norm(&om), "operand");
        if r.as_ref().len() > 600 {
            break;
        }
        if m.len() > 1 {
            big += 1;
        }
        pool.push((r, m));
    }
    s.nontrivial_if(big >= 2);
    // evaluation under a random assignment, as the test system sees it
    let mut cs = TestConstraintSystem::<F>::new();
    let mut vals: BTreeMap<Ix, F> = BTreeMap::new();
    vals.insert(0, F::ONE);
    for k in 0..nv {
        let x: F = scalar(s);
        let v = cs.alloc(|| format!("a{}", k), || Ok(x)).unwrap();
        vals.insert(ix(v), x);
        if k + 1 < nv {
            let x: F = scalar(s);
            let v = cs.alloc_input(|| format!("i{}", k), || Ok(x)).unwrap();
            vals.insert(ix(v), x);
        }
    }
    for (n, (l, m)) in pool.iter().enumerate() {
        let want = m.iter().fold(F::ZERO, |a, (i, c)| a + vals[i] * c);
        cs.enforce(
            || format!("c{}", n),
            |z| z + l,
            |z| z + TestConstraintSystem::<F>::one(),
            |z| z + (want, TestConstraintSystem::<F>::one()),
        );
    }
    ensure!(
        cs.is_satisfied(),
        "{:?} does not evaluate to the expected value",
        cs.which_is_unsatisfied()
    );
    Ok(())
}
fn c22_expr(s: &mut Src) -> R {
    fields!(s, c22, 2 Fp<3> = "F_3", 3 Fp<5> = "F_5", 2 Fp<251> = "F_251",
        2 Fp<GOLD> = "Goldilocks", 3 Bls = "BLS12-381 scalar")
}

/// Long combinations: built term by term, then used as operands.
fn c22_long(s: &mut Src) -> R {
    fn go<F: PrimeField>(s: &mut Src) -> R {
        let most = if s.chance(1, 8) { 6000 } else { 700 };
        let nv = 1 + if s.chance(1, 20) { s.below(100_000) } else { s.skewed(0, 400) };
        let seed = s.draw(u64::MAX);
        let mut g = Rng::new(seed);
        let ones = s.bool();
        let mut pool: Vec<(LinearCombination<F>, Map<F>)> = vec![];
        for _ in 0..2 {
            let n = s.skewed(0, most);
            let mut l = LinearCombination::zero();
            let mut m = Map::new();
            let runs = s.bool();
            let mut v = 0;
            for _ in 0..n {
                let r = g.next_u64();
                v = if runs {
                    // neighbours of the previous variable, of either kind
                    (v as i64 + (r % 5) as i64 - 2).rem_euclid(2 * nv as i64) as usize
                } else {
                    (r % (2 * nv as u64)) as usize
                };
                let c = if ones || r >> 32 & 1 == 0 {
                    F::ONE
                } else if r >> 33 & 1 == 0 {
                    -F::ONE
                } else {
                    F::random(&mut g)
                };
                l = if r >> 40 & 1 == 0 {
                    madd(&mut m, v, c);
                    if c == F::ONE {
                        l + var(v)
                    } else {
                        l + (c, var(v))
                    }
                } else {
                    madd(&mut m, v, -c);
                    if c == F::ONE {
                        l - var(v)
                    } else {
                        l - (c, var(v))
                    }
                };
            }
            s.note(|| format!("{} terms over {} variables, seed {};", n, nv, seed));
            ensure_eq!(norm(&map_of(&l)), norm(&m), "coefficients of {} terms", n);
            pool.push((l, m));
        }
        s.nontrivial_if(pool.iter().all(|p| p.0.as_ref().len() > 1));
        if pool.iter().any(|p| p.0.as_ref().len() > 256) {
            s.label("over 256 terms");
        }
        let op = s.below(4);
        let c: F = scalar(s);
        s.note(|| format!("operator {} with {:?}", op, c));
        let (l, mut m) = pool[0].clone();
        let (o, om) = pool[1].clone();
        let k = match op {
            0 => F::ONE,
            1 => -F::ONE,
            2 => c,
            _ => -c,
        };
        for (v, x) in &om {
            madd(&mut m, *v, *x * k);
        }
        let r = match op {
            0 => l + &o,
            1 => l - &o,
            2 => l + (c, &o),
            _ => l - (c, &o),
        };
        ensure_eq!(norm(&map_of(&r)), norm(&m), "coefficients after operator {}", op);
        pool.push((r, m));
        let mut cs = TestConstraintSystem::<F>::new();
        let mut vals: BTreeMap<Ix, F> = BTreeMap::new();
        vals.insert(0, F::ONE);
        for k in 0..nv {
            let x = F::random(&mut g);
            let v = cs.alloc(|| format!("a{}", k), || Ok(x)).unwrap();
            vals.insert(ix(v), x);
            if k + 1 < nv {
                let x = F::random(&mut g);
                let v = cs.alloc_input(|| format!("i{}", k), || Ok(x)).unwrap();
                vals.insert(ix(v), x);
            }
        }
        for (n, (l, m)) in pool.iter().enumerate() {
            let want = m.iter().fold(F::ZERO, |a, (i, c)| a + vals[i] * c);
            cs.enforce(
                || format!("c{}", n),
                |z| z + l,
                |z| z + TestConstraintSystem::<F>::one(),
                |z| z + (want, TestConstraintSystem::<F>::one()),
            );
        }
        ensure!(
            cs.is_satisfied(),
            "{:?} does not evaluate to the expected value",
            cs.which_is_unsatisfied()
        );
        Ok(())
    }
    fields!(s, go, 2 Fp<5> = "F_5", 2 Fp<GOLD> = "Goldilocks", 3 Bls = "BLS12-381 scalar")
}

// ================================================================== C23

type T<F> = Vec<(Ix, F)>;

struct Model<F> {
    ns: Vec<String>,
    /// path -> variable
    vars: BTreeMap<String, Ix>,
    used: Vec<String>,
    /// paths of failed allocations
    ghosts: Vec<String>,
    inputs: Vec<(F, String)>,
    aux: Vec<(F, String)>,
    cons: Vec<(T<F>, T<F>, T<F>, String)>,
}

impl<F: PrimeField> Model<F> {
    fn new() -> Self {
        let mut vars = BTreeMap::new();
        vars.insert("ONE".to_string(), 0);
        Model {
            ns: vec![],
            vars,
            used: vec!["ONE".into()],
            ghosts: vec![],
            inputs: vec![(F::ONE, "ONE".into())],
            aux: vec![],
            cons: vec![],
        }
    }
    fn path(&self, n: &str) -> String {
        let mut p = self.ns.clone();
        p.push(n.into());
        p.join("/")
    }
    fn get(&self, i: Ix) -> F {
        if i % 2 == 0 {
            self.inputs[i / 2].0
        } else {
            self.aux[i / 2].0
        }
    }
    fn put(&mut self, i: Ix, v: F) {
        if i % 2 == 0 {
            self.inputs[i / 2].0 = v
        } else {
            self.aux[i / 2].0 = v
        }
    }
    fn eval(&self, t: &T<F>) -> F {
        t.iter().fold(F::ZERO, |a, (i, c)| a + self.get(*i) * c)
    }
    fn bad(&self) -> Option<String> {
        self.cons
            .iter()
            .find(|(a, b, c, _)| self.eval(a) * self.eval(b) != self.eval(c))
            .map(|x| x.3.clone())
    }
    fn all(&self) -> Vec<Ix> {
        (0..self.inputs.len())
            .map(|i| 2 * i)
            .chain((0..self.aux.len()).map(|i| 2 * i + 1))
            .collect()
    }
}

fn lc<F: PrimeField>(t: &T<F>) -> LinearCombination<F> {
    t.iter()
        .fold(LinearCombination::zero(), |l, (i, c)| l + (*c, var(*i)))
}

fn terms<F: PrimeField>(s: &mut Src, vs: &[Ix]) -> T<F> {
    let n = s.weighted(&[1, 5, 4, 2, 1]);
    (0..n).map(|_| (*s.pick(vs), scalar(s))).collect()
}

/// A name from a small alphabet, so that the same name turns up in several
/// namespaces and as part of longer names.
fn name(s: &mut Src, m: &[String], path: &dyn Fn(&str) -> String) -> Option<String> {
    const N: &[&str] = &[
        "a", "b", "x", "ab", "bit 0", "bit 10", "bit 1", "", "é", "one", "ONE", "a b", "out",
    ];
    let mut n = s.pick(N).to_string();
    for k in 0..8 {
        if !m.contains(&path(&n)) {
            return Some(n);
        }
        n = format!("{}{}", n, k);
    }
    None
}

struct Hist<F: PrimeField> {
    cs: TestConstraintSystem<F>,
    m: Model<F>,
}

impl<F: PrimeField> Hist<F> {
    fn step(&mut self, s: &mut Src) -> R {
        let Hist { cs, m } = self;
        let fresh = |s: &mut Src, m: &Model<F>| name(s, &m.used, &|n| m.path(n));
        match s.weighted(&[5, 4, 6, 3, 3, 4, 1, 1]) {
            k @ (0 | 1) => {
                let n = match fresh(s, m) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let v: F = scalar(s);
                let p = m.path(&n);
                s.note(|| format!("{} {} = {:?};", ["alloc", "alloc_input"][k], p, v));
                let got = if k == 0 {
                    cs.alloc(|| n, || Ok(v))
                } else {
                    cs.alloc_input(|| n, || Ok(v))
                }
                .map_err(|e| format!("alloc: {:?}", e))?;
                let i = if k == 0 {
                    m.aux.push((v, p.clone()));
                    2 * (m.aux.len() - 1) + 1
                } else {
                    m.inputs.push((v, p.clone()));
                    2 * (m.inputs.len() - 1)
                };
                ensure_eq!(ix(got), i, "variable");
                m.vars.insert(p.clone(), i);
                m.used.push(p);
            }
            2 => {
                let n = match fresh(s, m) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let vs = m.all();
                let (a, b): (T<F>, T<F>) = (terms(s, &vs), terms(s, &vs));
                let mut c: T<F> = terms(s, &vs);
                if s.chance(5, 6) {
                    // make it hold
                    let d = m.eval(&a) * m.eval(&b) - m.eval(&c);
                    let i = *s.pick(&vs);
                    let x = m.get(i);
                    if x.is_zero_vartime() {
                        c.push((0, d));
                    } else {
                        c.push((i, d * x.invert().unwrap()));
                    }
                }
                let p = m.path(&n);
                s.note(|| {
                    let f = |t: &T<F>| {
                        t.iter()
                            .map(|(i, c)| format!("{:?}*{}", c, show_ix(*i)))
                            .collect::<Vec<_>>()
                            .join(" + ")
                    };
                    format!("enforce {}: ({}) * ({}) = ({});", p, f(&a), f(&b), f(&c))
                });
                cs.enforce(|| n, |l| l + &lc(&a), |l| l + &lc(&b), |l| l + &lc(&c));
                m.cons.push((a, b, c, p.clone()));
                m.used.push(p);
            }
            3 => {
                let n = match fresh(s, m) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                if m.ns.len() >= 4 {
                    return Ok(());
                }
                let p = m.path(&n);
                s.note(|| format!("push {};", p));
                cs.push_namespace(|| n.clone());
                m.used.push(p);
                m.ns.push(n);
            }
            4 => {
                if m.ns.pop().is_some() {
                    s.note(|| "pop;".into());
                    cs.pop_namespace();
                }
            }
            5 => {
                let k = s.below(m.vars.len());
                let (p, i) = m.vars.iter().nth(k).map(|x| (x.0.clone(), *x.1)).unwrap();
                if i == 0 {
                    return Ok(());
                }
                // sometimes the value that repairs a violated constraint
                let mut v: F = scalar(s);
                if s.bool() {
                    if let Some((a, b, c, _)) = m
                        .cons
                        .iter()
                        .find(|(a, b, c, _)| m.eval(a) * m.eval(b) != m.eval(c))
                    {
                        let k = c.iter().filter(|x| x.0 == i).fold(F::ZERO, |a, x| a + x.1);
                        if !k.is_zero_vartime() && !a.iter().chain(b).any(|x| x.0 == i) {
                            let d = m.eval(a) * m.eval(b) - m.eval(c);
                            v = m.get(i) + d * k.invert().unwrap();
                            s.label("repair");
                        }
                    }
                }
                s.note(|| format!("set {} = {:?};", p, v));
                cs.set(&p, v);
                m.put(i, v);
            }
            6 => {
                // a failing allocation adds nothing
                let n = match fresh(s, m) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let e = s.below(6) as u8;
                let k = s.bool();
                s.note(|| format!("failing alloc {};", m.path(&n)));
                let p = m.path(&n);
                let r = if k {
                    cs.alloc(|| n, || Err(synth_error(e)))
                } else {
                    cs.alloc_input(|| n, || Err(synth_error(e)))
                };
                ensure!(r.is_err(), "a failing assignment was accepted");
                m.used.push(p.clone());
                m.ghosts.push(p);
            }
            _ => {
                // a scoped namespace with something in it
                let n = match fresh(s, m) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let v: F = scalar(s);
                let p = m.path(&n);
                s.note(|| format!("namespace {} {{ alloc v = {:?} }};", p, v));
                {
                    let mut inner = cs.namespace(|| n.clone());
                    inner
                        .alloc(|| "v", || Ok(v))
                        .map_err(|e| format!("alloc: {:?}", e))?;
                }
                let q = format!("{}/v", p);
                m.aux.push((v, q.clone()));
                m.vars.insert(q.clone(), 2 * (m.aux.len() - 1) + 1);
                m.used.push(p);
                m.used.push(q);
            }
        }
        Ok(())
    }

    fn check(&mut self, s: &mut Src) -> R {
        let Hist { cs, m } = self;
        let bad = m.bad();
        ensure_eq!(
            cs.which_is_unsatisfied().map(|x| x.to_string()),
            bad,
            "first violated constraint"
        );
        ensure_eq!(cs.is_satisfied(), bad.is_none(), "is_satisfied");
        ensure_eq!(cs.num_constraints(), m.cons.len(), "num_constraints");
        ensure_eq!(cs.num_inputs(), m.inputs.len(), "num_inputs");
        for (p, i) in &m.vars {
            ensure_eq!(cs.get(p), m.get(*i), "value at {:?}", p);
        }
        for (k, (v, p)) in m.inputs.iter().enumerate() {
            ensure_eq!(cs.get_input(k, p), *v, "input {}", k);
        }
        let mut e: Vec<F> = m.inputs[1..].iter().map(|x| x.0).collect();
        ensure!(cs.verify(&e), "the allocated inputs are refused");
        if !e.is_empty() {
            let k = s.below(e.len());
            let d: F = nonzero(s);
            e[k] += d;
            ensure!(!cs.verify(&e), "other inputs are accepted");
            if e.len() >= 2 {
                e[k] -= d;
                let j = s.below(e.len());
                if e[j] != e[k] {
                    e.swap(j, k);
                    ensure!(!cs.verify(&e), "inputs in another order are accepted");
                }
            }
        }
        Ok(())
    }
}

fn c23_run<F: PrimeField>(s: &mut Src) -> R {
    let mut h = Hist::<F> {
        cs: TestConstraintSystem::new(),
        m: Model::new(),
    };
    let n = s.size(1, 30);
    for _ in 0..n {
        h.step(s)?;
        h.check(s)?;
    }
    if h.m.bad().is_some() {
        s.label("unsatisfied at the end");
    } else {
        s.label("satisfied at the end");
    }
    s.nontrivial_if(h.m.cons.len() >= 2 && h.m.vars.len() >= 3);
    let t = h.cs.pretty_print();
    for c in &h.m.cons {
        ensure!(t.contains(&c.3), "pretty_print leaves out {:?}", c.3);
    }
    Ok(())
}
fn c23_model(s: &mut Src) -> R {
    fields!(s, c23_run, 2 Fp<3> = "F_3", 2 Fp<5> = "F_5", 2 Fp<251> = "F_251",
        2 Fp<GOLD> = "Goldilocks", 3 Bls = "BLS12-381 scalar")
}

/// Paths that name no variable, and names that are taken, are refused.
fn c23_refuse(s: &mut Src) -> R {
    let mut h = Hist::<Bls> {
        cs: TestConstraintSystem::new(),
        m: Model::new(),
    };
    let n = s.size(1, 20);
    for _ in 0..n {
        h.step(s)?;
    }
    let vars: Vec<String> = h.m.vars.keys().cloned().collect();
    let other: Vec<String> = h.m.used.iter().filter(|p| !vars.contains(p)).cloned().collect();
    let mut bad = vec!["no such".to_string(), "a/no such".into(), "/".into()];
    for v in &vars {
        for q in [format!("{}/", v), format!("/{}", v), format!("{} ", v)] {
            if !h.m.used.contains(&q) {
                bad.push(q);
            }
        }
    }
    bad.extend(other);
    bad.retain(|p| !vars.contains(p));
    s.nontrivial_if(h.m.used.len() >= 4);
    let p = s.pick(&bad).clone();
    s.note(|| format!("path {:?};", p));
    let cs = &mut h.cs;
    ensure!(no_panic(|| cs.get(&p)).is_err(), "get({:?}) returned a value", p);
    ensure!(no_panic(|| cs.set(&p, Bls::ONE)).is_err(), "set({:?}) went through", p);
    // a list of another length is never the allocated one
    let n = cs.num_inputs();
    for m in [0, n / 2, n.saturating_sub(2), n, n + 1] {
        if m + 1 == n {
            continue;
        }
        let l: Vec<Bls> = (1..m + 1).map(|i| if i < n { h.m.inputs[i].0 } else { Bls::ZERO }).collect();
        ensure!(no_panic(|| cs.verify(&l)) != Ok(true), "verify accepts {} values for {} inputs", m, n - 1);
    }
    let taken = s.pick(&h.m.used).clone();
    // back to the top
    while h.m.ns.pop().is_some() {
        cs.pop_namespace();
    }
    // reach the namespace of the taken path again is not possible (it is
    // taken too), so only paths at the top level can be tried
    if !taken.contains('/') && !h.m.ghosts.contains(&taken) {
        s.label("taken name");
        let k = s.below(4);
        let r = no_panic(|| match k {
            0 => cs.alloc(|| taken.clone(), || Ok(Bls::ONE)).is_ok(),
            1 => cs.alloc_input(|| taken.clone(), || Ok(Bls::ONE)).is_ok(),
            2 => {
                cs.push_namespace(|| taken.clone());
                true
            }
            _ => {
                cs.enforce(|| taken.clone(), |l| l, |l| l, |l| l);
                true
            }
        });
        ensure!(r != Ok(true), "name {:?} was given out twice (operation {})", taken, k);
    }
    Ok(())
}

#[derive(Clone, PartialEq)]
struct Circ {
    inputs: usize,
    aux: usize,
    cons: Vec<[Map<Bls>; 3]>,
}

/// Builds the circuit; the order, splitting and padding of terms, names,
/// namespaces and values are left to the choices.
fn build(s: &mut Src, c: &Circ, plain: bool) -> TestConstraintSystem<Bls> {
    let mut cs = TestConstraintSystem::new();
    let (mut i, mut a, mut k) = (1, 0, 0);
    let mut n = 0;
    let tag = s.pick(&["v", "w", "name"]).to_string();
    let mut deep = 0;
    while i < c.inputs || a < c.aux || k < c.cons.len() {
        n += 1;
        if !plain && s.chance(1, 6) {
            if deep > 0 && s.bool() {
                cs.pop_namespace();
                deep -= 1;
            } else {
                cs.push_namespace(|| format!("ns{}", n));
                deep += 1;
            }
        }
        // constraints may come before the variables they mention are allocated
        let late = i >= c.inputs && a >= c.aux;
        let mut o = if plain { 3 } else { s.below(3) };
        // an action that is over gives its turn to the next one
        if o == 0 && i >= c.inputs {
            o = 1;
        }
        if o == 1 && a >= c.aux {
            o = if k < c.cons.len() { 2 } else { 0 };
        }
        if o == 2 && k >= c.cons.len() {
            o = if i < c.inputs { 0 } else { 1 };
        }
        if i < c.inputs && (o == 0 || plain) {
            let x: Bls = scalar(s);
            cs.alloc_input(|| format!("{}{}", tag, n), || Ok(x)).unwrap();
            i += 1;
        } else if a < c.aux && (o == 1 || plain) {
            let x: Bls = scalar(s);
            cs.alloc(|| format!("{}{}", tag, n), || Ok(x)).unwrap();
            a += 1;
        } else if k < c.cons.len() && (o == 2 || late) {
            let mut t: Vec<T<Bls>> = vec![];
            for m in &c.cons[k] {
                let mut ts: T<Bls> = m.iter().map(|(i, c)| (*i, *c)).collect();
                if !plain {
                    match s.below(5) {
                        0 => ts.reverse(),
                        1 => {
                            if let Some(x) = ts.pop() {
                                // split a coefficient
                                let d: Bls = wide(s);
                                ts.insert(0, (x.0, d));
                                ts.push((x.0, x.1 - d));
                            }
                        }
                        2 => {
                            // cancelling terms
                            let d: Bls = nonzero(s);
                            let v = s.below(3);
                            ts.insert(0, (v, d));
                            ts.push((v, -d));
                        }
                        3 => {
                            let v = s.below(3);
                            ts.push((v, Bls::ZERO));
                        }
                        _ => {
                            if ts.len() >= 2 {
                                let j = s.below(ts.len());
                                ts.rotate_left(j);
                            }
                        }
                    }
                }
                t.push(ts);
            }
            cs.enforce(
                || format!("c{}{}", tag, n),
                |l| l + &lc(&t[0]),
                |l| l + &lc(&t[1]),
                |l| l + &lc(&t[2]),
            );
            k += 1;
        }
    }
    cs
}

fn gen_circ(s: &mut Src) -> Circ {
    let inputs = s.size(1, 4);
    let aux = s.size(0, 4);
    let n = s.size(0, 5);
    let mut vs: Vec<Ix> = (0..inputs).map(|i| 2 * i).collect();
    vs.extend((0..aux).map(|i| 2 * i + 1));
    let cons = (0..n)
        .map(|_| {
            let mut g = || {
                let t: T<Bls> = terms(s, &vs);
                let mut m = Map::new();
                for (i, c) in t {
                    madd(&mut m, i, c);
                }
                norm(&m)
            };
            [g(), g(), g()]
        })
        .collect();
    Circ { inputs, aux, cons }
}

/// A minimally different circuit.
fn alter(s: &mut Src, c: &Circ) -> Option<(Circ, &'static str)> {
    let mut d = c.clone();
    let mut vs: Vec<Ix> = (0..c.inputs).map(|i| 2 * i).collect();
    vs.extend((0..c.aux).map(|i| 2 * i + 1));
    let n = c.cons.len();
    let k = if n > 0 { s.below(n) } else { 0 };
    let side = s.below(3);
    let what = match s.below(12) {
        0 => {
            d.inputs += 1;
            "one more input"
        }
        1 => {
            d.aux += 1;
            "one more auxiliary variable"
        }
        2 => {
            d.cons.push(Default::default());
            "an empty constraint at the end"
        }
        3 if n > 0 => {
            d.cons.remove(k);
            "a constraint less"
        }
        4 if n > 0 => {
            let x = d.cons[k].clone();
            d.cons.insert(k, x);
            "a constraint repeated"
        }
        5 if n > 1 => {
            d.cons.swap(k, (k + 1) % n);
            "two constraints exchanged"
        }
        6 if n > 0 => {
            let (a, b) = (side, (side + 1) % 3);
            d.cons[k].swap(a, b);
            "two sides exchanged"
        }
        7 if n > 0 => {
            // one coefficient
            let m = &mut d.cons[k][side];
            if m.is_empty() {
                m.insert(*s.pick(&vs), nonzero(s));
            } else {
                let j = s.below(m.len());
                let v = *m.keys().nth(j).unwrap();
                let delta: Bls = match s.below(4) {
                    0 => Bls::ONE,
                    1 => m[&v], // doubled
                    2 => -m[&v] - m[&v], // negated
                    _ => {
                        // one byte of the representation
                        Bls::from(256).pow_vartime(&[s.below(31) as u64, 0, 0, 0])
                    }
                };
                madd(m, v, delta);
            }
            "a coefficient"
        }
        8 if n > 0 => {
            // same coefficient on another variable
            let m = &mut d.cons[k][side];
            if let Some(v) = m.keys().next().cloned() {
                let x = m.remove(&v).unwrap();
                let w = *s.pick(&vs);
                madd(m, w, x);
            }
            "another variable"
        }
        9 if n > 0 => {
            // a term moves to the next combination
            let m = &mut d.cons[k][side];
            if let Some(v) = m.keys().last().cloned() {
                let x = m.remove(&v).unwrap();
                let (k2, s2) = if side == 2 { ((k + 1) % n, 0) } else { (k, side + 1) };
                madd(&mut d.cons[k2][s2], v, x);
            }
            "a term moved to the next combination"
        }
        10 if d.inputs > 1 => {
            d.inputs -= 1;
            d.aux += 1;
            // an input becomes an auxiliary variable without being renamed
            for c in &mut d.cons {
                for m in c.iter_mut() {
                    if let Some(x) = m.remove(&(2 * d.inputs)) {
                        m.insert(2 * (d.aux - 1) + 1, x);
                    }
                }
            }
            "an input turned into an auxiliary variable"
        }
        _ => {
            // everything a constant
            if n == 0 {
                return None;
            }
            let m = &mut d.cons[k][side];
            madd(m, 0, Bls::ONE);
            "the constant term"
        }
    };
    for c in &mut d.cons {
        for m in c.iter_mut() {
            *m = norm(m);
        }
    }
    if d == *c {
        None
    } else {
        Some((d, what))
    }
}

fn c23_hash(s: &mut Src) -> R {
    let c = gen_circ(s);
    s.nontrivial_if(!c.cons.is_empty());
    s.note(|| format!("{} inputs, {} aux, {:?}", c.inputs, c.aux, c.cons));
    let a = build(s, &c, true);
    let b = build(s, &c, false);
    ensure_eq!(a.hash(), b.hash(), "hash of the same circuit");
    if let Some((d, what)) = alter(s, &c) {
        s.label(what);
        s.note(|| format!("altered ({}): {} inputs, {} aux, {:?}", what, d.inputs, d.aux, d.cons));
        let e = build(s, &d, false);
        ensure!(e.hash() != a.hash(), "same hash although the circuits differ in {}", what);
    }
    Ok(())
}

/// Systems of hundreds to tens of thousands of variables and constraints:
/// counts, indices and positions that no small system has.
fn c23_big(s: &mut Src) -> R {
    type F = Bls;
    let big = s.chance(1, 12);
    let step = if big { 65_536 } else { 256 };
    let count = |s: &mut Src| match s.below(3) {
        0 => s.below(5),
        1 => step + s.below(5 + step / 16),
        _ => s.below(2 * step),
    };
    let inputs = 2 + count(s);
    let aux = 1 + count(s);
    let cons = 1 + count(s);
    s.label(if big { "tens of thousands" } else { "hundreds" });
    let seed = s.draw(u64::MAX);
    s.note(|| format!("{} inputs, {} aux, {} constraints, seed {}", inputs, aux, cons, seed));
    let at = s.below(cons);
    let cat = format!("c{}", at);
    let what = s.below(7);
    // two variables of the same kind, far apart
    let mut kinds = vec![];
    if inputs > step + 1 {
        kinds.push(2 * (1 + s.below(inputs - step - 1)));
    }
    if aux > step {
        kinds.push(2 * s.below(aux - step) + 1);
    }
    let near = if kinds.is_empty() { 0 } else { *s.pick(&kinds) };
    let (near, far) = if s.bool() { (near, near + 2 * step) } else { (near + 2 * step, near) };
    // x_i * 1 = x_j + x_k + (the constant that makes it true)
    let far_apart = what < 2 && !kinds.is_empty();
    let make = |di: bool, dc: usize, dinp: i64, daux: i64, dcons: i64| {
        let mut cs = TestConstraintSystem::<F>::new();
        let mut g = Rng::new(seed);
        let val = |k: usize| F::from(3 + 7 * k as u64);
        for k in 1..(inputs as i64 + dinp) as usize {
            cs.alloc_input(|| format!("i{}", k), || Ok(val(2 * k))).unwrap();
        }
        for k in 0..(aux as i64 + daux) as usize {
            cs.alloc(|| format!("a{}", k), || Ok(val(2 * k + 1))).unwrap();
        }
        let n = (cons as i64 + dcons) as usize;
        for k in 0..n {
            let mut pick = || {
                let r = g.next_u64();
                if r & 1 == 0 {
                    2 * (1 + (r >> 1) as usize % (inputs - 1))
                } else {
                    2 * ((r >> 1) as usize % aux) + 1
                }
            };
            let (x, mut y, z) = (pick(), pick(), pick());
            if k == at && far_apart {
                y = near;
            }
            let one = if k == at && dc > 0 { F::from(dc as u64) } else { F::ONE };
            let c = val(x) - val(y) - val(z);
            if k == at && di {
                y = far;
            }
            cs.enforce(
                || format!("c{}", k),
                |l| l + var(x),
                |l| l + TestConstraintSystem::<F>::one(),
                |l| l + (one, var(y)) + var(z) + (c, TestConstraintSystem::<F>::one()),
            );
        }
        cs
    };
    let mut a = make(false, 0, 0, 0, 0);
    ensure_eq!(a.num_constraints(), cons, "number of constraints");
    ensure_eq!(a.num_inputs(), inputs, "number of inputs");
    ensure!(a.which_is_unsatisfied().is_none(), "unsatisfied: {:?}", a.which_is_unsatisfied());
    let h = a.hash();
    s.nontrivial_if(cons > 256 || inputs > 256 || aux > 256);
    match what {
        0 | 1 => {
            if !far_apart {
                // the same system once more
                ensure_eq!(make(false, 0, 0, 0, 0).hash(), h, "hash of the same system");
            } else {
                s.label("a variable exchanged for a distant one");
                let b = make(true, 0, 0, 0, 0);
                ensure_eq!(b.which_is_unsatisfied(), Some(cat.as_str()), "the violated constraint");
                ensure!(b.hash() != h, "same hash with variables {} apart exchanged in c{}", step, at);
            }
        }
        2 => {
            let b = make(false, 2 + s.below(5), 0, 0, 0);
            s.label("a coefficient changed");
            ensure_eq!(b.which_is_unsatisfied(), Some(cat.as_str()), "the violated constraint");
            ensure!(b.hash() != h, "same hash with another coefficient in c{}", at);
        }
        3..=5 => {
            let mut d = [0i64; 3];
            d[what - 3] = step as i64;
            // only those that change nothing else
            s.label(["more inputs", "more auxiliary variables", "more constraints"][what - 3]);
            let b = make(false, 0, d[0], d[1], d[2]);
            ensure!(b.is_satisfied(), "unsatisfied: {:?}", b.which_is_unsatisfied());
            ensure_eq!(b.num_inputs(), inputs + d[0] as usize, "number of inputs");
            ensure_eq!(b.num_constraints(), cons + d[2] as usize, "number of constraints");
            ensure!(b.hash() != h, "same hash with {:?} more inputs, variables, constraints", d);
        }
        _ => {
            // one value changed: the first violated constraint, and the value comes back
            s.label("one value changed");
            let (n, k) = if s.bool() { ("i", 1 + s.below(inputs - 1)) } else { ("a", s.below(aux)) };
            let ix = if n == "i" { 2 * k } else { 2 * k + 1 };
            let path = format!("{}{}", n, k);
            let old = F::from(3 + 7 * ix as u64);
            ensure_eq!(a.get(&path), old, "value of {}", path);
            a.set(&path, old + F::ONE);
            ensure_eq!(a.get(&path), old + F::ONE, "value of {} after set", path);
            // x = y + z + c: the first constraint where the occurrences do not cancel
            let mut g = Rng::new(seed);
            let mut first = None;
            for c in 0..cons {
                let mut pick = || {
                    let r = g.next_u64();
                    if r & 1 == 0 {
                        2 * (1 + (r >> 1) as usize % (inputs - 1))
                    } else {
                        2 * ((r >> 1) as usize % aux) + 1
                    }
                };
                let (x, y, z) = (pick(), pick(), pick());
                let d = (x == ix) as i32 - (y == ix) as i32 - (z == ix) as i32;
                if d != 0 && first.is_none() {
                    first = Some(format!("c{}", c));
                }
            }
            ensure_eq!(a.which_is_unsatisfied(), first.as_deref(), "the violated constraint after changing {}", path);
            ensure_eq!(a.hash(), h, "hash after changing a value");
            if n == "i" {
                ensure_eq!(a.get_input(k, &path), old + F::ONE, "input {} by index", k);
            }
            let mut exp: Vec<F> = (1..inputs).map(|k| F::from(3 + 14 * k as u64)).collect();
            if n == "i" {
                ensure!(!a.verify(&exp), "verify ignores input {}", k);
                exp[k - 1] += F::ONE;
            }
            ensure!(a.verify(&exp), "verify refuses the allocated inputs");
        }
    }
    Ok(())
}

fn main() {
    let a: &[&str] = &["the reference models in harness/src/bin/core.rs and the field arithmetic are right"];
    vph::runner::main(vec![
        Prop {
            id: "C22",
            rule: "at least two results with several variables (expressions), two combinations of several terms (long)",
            assumptions: a,
            threads: THREADS,
            subs: vec![sub("expressions", 1_000_000, 12_000_000, c22_expr),
                sub("long", 20_000, 150_000, c22_long)],
        },
        Prop {
            id: "C23",
            rule: "at least two constraints and three variables (model), four names (refusals), one constraint (hash)",
            assumptions: a,
            threads: THREADS,
            subs: vec![
                sub("model", 400_000, 6_000_000, c23_model),
                sub("refusals", 150_000, 1_000_000, c23_refuse),
                sub("hash", 800_000, 12_000_000, c23_hash),
                sub("big", 2_500, 60_000, c23_big),
            ],
        },
    ])
}
