//! Random R1CS circuits with satisfying witnesses, and an independent
//! reference for the Groth16 setup, prover and verifier over them.

use crate::engine::Src;
use bellman::{Circuit, ConstraintSystem, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    /// `In(0)` is the constant one.
    In(usize),
    Aux(usize),
}

pub type Lc<F> = Vec<(V, F)>;

#[derive(Clone, Debug)]
pub struct Cons<F> {
    pub a: Lc<F>,
    pub b: Lc<F>,
    pub c: Lc<F>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Input,
    Aux,
    Enforce(usize),
    Push,
    Pop,
}

#[derive(Clone, Debug)]
pub struct Circ<F> {
    pub steps: Vec<Step>,
    pub cons: Vec<Cons<F>>,
    /// Public inputs without the leading one.
    pub inputs: Vec<F>,
    pub aux: Vec<F>,
    /// How linear combinations are spelled through the API.
    pub style: u64,
    /// Allocation number (inputs and aux counted together) whose assignment
    /// is missing, if any.
    /// `usize::MAX`: all of them.
    pub missing: Option<usize>,
    /// The error its closure gives.
    pub missing_kind: u8,
    /// Step before which synthesis itself fails, if any.
    pub fail_at: Option<(usize, u8)>,
    /// The variable each constraint defines, if it defines one.
    pub outs: Vec<Option<V>>,
}

pub fn synth_error(k: u8) -> SynthesisError {
    match k {
        0 => SynthesisError::AssignmentMissing,
        1 => SynthesisError::DivisionByZero,
        2 => SynthesisError::Unsatisfiable,
        3 => SynthesisError::PolynomialDegreeTooLarge,
        4 => SynthesisError::UnexpectedIdentity,
        5 => SynthesisError::UnconstrainedVariable,
        _ => SynthesisError::IoError(std::io::Error::new(
            std::io::ErrorKind::Other,
            "injected",
        )),
    }
}

pub fn ekind(e: &SynthesisError) -> &'static str {
    match e {
        SynthesisError::AssignmentMissing => "AssignmentMissing",
        SynthesisError::DivisionByZero => "DivisionByZero",
        SynthesisError::Unsatisfiable => "Unsatisfiable",
        SynthesisError::PolynomialDegreeTooLarge => "PolynomialDegreeTooLarge",
        SynthesisError::UnexpectedIdentity => "UnexpectedIdentity",
        SynthesisError::UnconstrainedVariable => "UnconstrainedVariable",
        SynthesisError::IoError(_) => "IoError",
    }
}

impl<'a, F: PrimeField> Circuit<F> for &'a Circ<F> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut ins: Vec<Variable> = vec![CS::one()];
        let mut auxs: Vec<Variable> = vec![];
        let mut n = 0;
        for (k, st) in self.steps.iter().enumerate() {
            if let Some((at, e)) = self.fail_at {
                if at == k {
                    return Err(synth_error(e));
                }
            }
            match st {
                Step::Input => {
                    let v = self.inputs.get(ins.len() - 1).copied();
                    let miss = self.missing == Some(n) || self.missing == Some(usize::MAX);
                    ins.push(cs.alloc_input(
                        || format!("in{}", n),
                        || {
                            if miss {
                                Err(synth_error(self.missing_kind))
                            } else {
                                v.ok_or(SynthesisError::AssignmentMissing)
                            }
                        },
                    )?);
                    n += 1;
                }
                Step::Aux => {
                    let v = self.aux.get(auxs.len()).copied();
                    let miss = self.missing == Some(n) || self.missing == Some(usize::MAX);
                    auxs.push(cs.alloc(
                        || format!("aux{}", n),
                        || {
                            if miss {
                                Err(synth_error(self.missing_kind))
                            } else {
                                v.ok_or(SynthesisError::AssignmentMissing)
                            }
                        },
                    )?);
                    n += 1;
                }
                Step::Enforce(i) => {
                    let c = &self.cons[*i];
                    let st = self.style.rotate_left(*i as u32);
                    cs.enforce(
                        || format!("c{}", k),
                        |lc| build(lc, &c.a, &ins, &auxs, st),
                        |lc| build(lc, &c.b, &ins, &auxs, st >> 3),
                        |lc| build(lc, &c.c, &ins, &auxs, st >> 5),
                    );
                }
                Step::Push => cs.get_root().push_namespace(|| format!("ns{}", k)),
                Step::Pop => cs.get_root().pop_namespace(),
            }
        }
        if let Some((at, e)) = self.fail_at {
            if at >= self.steps.len() {
                return Err(synth_error(e));
            }
        }
        Ok(())
    }
}

/// Spells an ordered list of terms through one of the operator forms.
pub fn build<F: PrimeField>(
    mut lc: LinearCombination<F>,
    terms: &[(V, F)],
    ins: &[Variable],
    auxs: &[Variable],
    style: u64,
) -> LinearCombination<F> {
    let mut sub = LinearCombination::<F>::zero();
    for (k, (v, c)) in terms.iter().enumerate() {
        let var = match v {
            V::In(i) => ins[*i],
            V::Aux(i) => auxs[*i],
        };
        match (style >> (k % 13)) & 7 {
            0 | 1 if *c == F::ONE => lc = lc + var,
            0 | 1 if *c == -F::ONE => lc = lc - var,
            2 => lc = lc - (-*c, var),
            3 => {
                let one = LinearCombination::<F>::zero() + (*c, var);
                lc = lc + &one;
            }
            4 => {
                let one = LinearCombination::<F>::zero() + var;
                lc = lc + (*c, &one);
            }
            5 => {
                let one = LinearCombination::<F>::zero() + (-*c, var);
                lc = lc - &one;
            }
            6 => {
                let one = LinearCombination::<F>::zero() - var;
                lc = lc - (*c, &one);
            }
            7 => {
                sub = sub + (*c, var);
            }
            _ => lc = lc + (*c, var),
        }
    }
    if !sub.as_ref().is_empty() {
        lc = lc + &sub;
    }
    lc
}

impl<F: PrimeField> Circ<F> {
    pub fn value(&self, v: V) -> F {
        match v {
            V::In(0) => F::ONE,
            V::In(i) => self.inputs[i - 1],
            V::Aux(i) => self.aux[i],
        }
    }
    pub fn eval(&self, l: &Lc<F>) -> F {
        l.iter().fold(F::ZERO, |s, (v, c)| s + self.value(*v) * c)
    }
    pub fn satisfied(&self) -> bool {
        self.cons
            .iter()
            .all(|c| self.eval(&c.a) * self.eval(&c.b) == self.eval(&c.c))
    }
    pub fn merged(l: &Lc<F>) -> Vec<(V, F)> {
        let mut m: std::collections::BTreeMap<V, F> = Default::default();
        for (v, c) in l {
            *m.entry(*v).or_insert(F::ZERO) += *c;
        }
        m.into_iter().filter(|(_, c)| !c.is_zero_vartime()).collect()
    }
    /// All constraints in QAP order, including the ones that make the public
    /// inputs independent.
    pub fn rows(&self) -> Vec<Cons<F>> {
        let mut r = self.cons_in_order();
        for i in 0..=self.inputs.len() {
            r.push(Cons {
                a: vec![(V::In(i), F::ONE)],
                b: vec![],
                c: vec![],
            });
        }
        r
    }
    fn cons_in_order(&self) -> Vec<Cons<F>> {
        self.steps
            .iter()
            .filter_map(|s| match s {
                Step::Enforce(i) => Some(self.cons[*i].clone()),
                _ => None,
            })
            .collect()
    }
    /// Auxiliary variables with no surviving term anywhere.
    pub fn unconstrained(&self) -> Vec<usize> {
        let mut seen = vec![false; self.aux.len()];
        for c in self.cons_in_order() {
            for l in [&c.a, &c.b, &c.c] {
                for (v, _) in Self::merged(l) {
                    if let V::Aux(i) = v {
                        seen[i] = true;
                    }
                }
            }
        }
        (0..seen.len()).filter(|i| !seen[*i]).collect()
    }
    pub fn cancelling(&self) -> bool {
        self.cons.iter().any(|c| {
            [&c.a, &c.b].iter().any(|l| {
                let m = Self::merged(l);
                l.iter()
                    .any(|(v, k)| !k.is_zero_vartime() && !m.iter().any(|x| x.0 == *v))
            })
        })
    }
    pub fn describe(&self) -> String {
        let fmt = |l: &Lc<F>| {
            if l.is_empty() {
                return "0".to_string();
            }
            l.iter()
                .map(|(v, c)| {
                    let n = match v {
                        V::In(0) => "1".into(),
                        V::In(i) => format!("p{}", i),
                        V::Aux(i) => format!("w{}", i),
                    };
                    format!("{:?}*{}", c, n)
                })
                .collect::<Vec<_>>()
                .join("+")
        };
        if self.steps.len() > 200 {
            return format!(
                "{} public inputs, {} private variables, {} constraints, first {:?}",
                self.inputs.len(),
                self.aux.len(),
                self.cons.len(),
                self.cons.first()
            );
        }
        let mut s = format!("inputs={:?} aux={:?}; ", self.inputs, self.aux);
        for st in &self.steps {
            match st {
                Step::Input => s.push_str("input; "),
                Step::Aux => s.push_str("aux; "),
                Step::Push => s.push_str("push; "),
                Step::Pop => s.push_str("pop; "),
                Step::Enforce(i) => {
                    let c = &self.cons[*i];
                    s.push_str(&format!("({})*({})=({}); ", fmt(&c.a), fmt(&c.b), fmt(&c.c)))
                }
            }
        }
        s
    }
}

pub fn scalar<F: PrimeField>(s: &mut Src) -> F {
    match s.weighted(&[6, 8, 6, 4, 4, 4, 2, 12, 1]) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::ONE,
        3 => F::from(s.draw(20)),
        4 => -F::from(s.draw(20)),
        5 => {
            // around the powers of two
            let k = s.below(F::NUM_BITS as usize);
            let d = s.draw(2);
            let mut x = F::ONE;
            for _ in 0..k {
                x = x + x;
            }
            match d {
                0 => x,
                1 => x - F::ONE,
                _ => -x,
            }
        }
        6 => below_modulus(s),
        7 => wide(s),
        _ => limbs(s),
    }
}
/// Words that are zero, one, full, or anything.
pub fn limbs<F: PrimeField>(s: &mut Src) -> F {
    let n = F::NUM_BITS as usize - 1;
    let w = *s.pick(&[64usize, 128, 32, 16, 8]);
    let kinds: Vec<(usize, u64)> = (0..n / w + 1).map(|_| (s.below(4), s.draw(u64::MAX))).collect();
    let mut x = F::ZERO;
    for i in (0..n).rev() {
        let (k, v) = kinds[i / w];
        let b = match k {
            0 => false,
            1 => i % w == 0,
            2 => true,
            _ => v.rotate_right((i % w) as u32) & 1 == 1,
        };
        x = x + x;
        if b {
            x += F::ONE;
        }
    }
    x
}
/// A value that shares its leading bits with the greatest one, `-1`, and then
/// drops below it: the rest are ones, zeros, random or the same bits again.
pub fn below_modulus<F: PrimeField>(s: &mut Src) -> F {
    let top = (-F::ONE).to_repr();
    let n = F::NUM_BITS as usize;
    let bit = |i: usize| top.as_ref()[i / 8] >> (i % 8) & 1 == 1;
    let k = s.below(n);
    let how = s.below(4);
    let mut x = F::ZERO;
    let mut w = 0;
    for i in (0..n).rev() {
        let b = if i > k {
            bit(i)
        } else if i == k {
            false
        } else if !bit(k) {
            // nothing dropped yet, so the rest has to be the same
            bit(i)
        } else {
            match how {
                0 => true,
                1 => false,
                2 => bit(i),
                _ => {
                    if (k - 1 - i) % 32 == 0 {
                        w = s.draw(u32::MAX as u64);
                    }
                    w >>= 1;
                    w & 1 == 1
                }
            }
        };
        x = x + x;
        if b {
            x += F::ONE;
        }
    }
    x
}
/// Uniform enough scalar of full width.
pub fn wide<F: PrimeField>(s: &mut Src) -> F {
    let r = s.rng();
    F::random(r)
}
pub fn nonzero<F: PrimeField>(s: &mut Src) -> F {
    let v = scalar::<F>(s);
    if v.is_zero_vartime() {
        F::ONE
    } else {
        v
    }
}

pub struct Shape {
    pub max_cons: usize,
    pub max_inputs: usize,
    /// Public inputs may be computed from private values.
    pub derived_inputs: bool,
    /// Coefficients may depend on the witness (single-witness circuits).
    pub adjusted: bool,
    /// Large circuits, with 2^lo to 2^hi constraints.
    pub bulk: Option<(u64, u64)>,
}

/// A large circuit of simple structure, mostly determined by one seed.
pub fn gen_bulk<F: PrimeField>(s: &mut Src, sh: &Shape, lo: u64, hi: u64) -> Circ<F> {
    let e = s.range(lo, hi);
    let ncons = (1usize << e) + s.below(1 << e);
    let max_in = if s.chance(1, 4) { ncons / 4 } else { 70 };
    let nin = s.skewed(0, max_in);
    let nfree = match s.below(4) {
        0 => 1,
        1 => 1 + s.skewed(0, 60),
        2 => 1 + s.below(ncons / 8 + 1),
        _ => 1 + s.below(ncons + 1),
    };
    // how often values and coefficients are 0 and 1
    let (pz, po) = (s.draw(5), s.draw(5));
    // terms per linear combination, locality, fresh outputs out of 8
    let (terms, near, fresh) = (1 + s.draw(3), s.draw(2), s.range(1, 8));
    let derived = sh.derived_inputs && s.bool();
    let mut c = Circ {
        steps: vec![],
        cons: vec![],
        inputs: vec![],
        aux: vec![],
        style: s.draw(u64::MAX),
        missing: None,
        missing_kind: 0,
        fail_at: None,
        outs: vec![],
    };
    let mut rng = s.rng();
    let val = |rng: &mut crate::engine::Rng| -> F {
        let k = rng.next() % 16;
        if k < pz {
            F::ZERO
        } else if k < pz + po {
            F::ONE
        } else if k % 2 == 0 {
            F::from(rng.next() % 1000) - F::from(5)
        } else {
            F::random(rng)
        }
    };
    let mut vars = vec![V::In(0)];
    for k in 0..nin + nfree {
        // the two kinds of allocations interleave
        let left = nin - c.inputs.len();
        if (rng.next() % (nin + nfree - k) as u64) < left as u64 {
            c.inputs.push(val(&mut rng));
            c.steps.push(Step::Input);
            vars.push(V::In(c.inputs.len()));
        } else {
            c.aux.push(val(&mut rng));
            c.steps.push(Step::Aux);
            vars.push(V::Aux(c.aux.len() - 1));
        }
    }
    let lc = |rng: &mut crate::engine::Rng, vars: &[V], c: &Circ<F>| -> Lc<F> {
        let n = rng.next() % (terms + 1);
        let mut l: Lc<F> = vec![];
        for _ in 0..n {
            let at = if near == 0 || rng.next() % 4 == 0 {
                rng.next() as usize % vars.len()
            } else {
                vars.len() - 1 - rng.next() as usize % vars.len().min(6)
            };
            let k = match rng.next() % 8 {
                0 => F::ZERO,
                1 | 2 | 3 => F::ONE,
                4 => -F::ONE,
                5 => F::from(rng.next() % 64),
                _ => F::random(&mut *rng),
            };
            l.push((vars[at], k));
        }
        // keep some linear combinations at values 0 and 1
        if sh.adjusted && rng.next() % 8 == 0 {
            let v = c.eval(&l);
            l.push((V::In(0), F::from(rng.next() % 2) - v));
        }
        l
    };
    for i in 0..ncons {
        let a = lc(&mut rng, &vars, &c);
        let b = lc(&mut rng, &vars, &c);
        let kind = rng.next() % 8;
        let (con, out) = if kind < fresh {
            let mut rest = lc(&mut rng, &vars, &c);
            let v = c.eval(&a) * c.eval(&b) - c.eval(&rest);
            let v = if derived && rng.next() % 16 == 0 {
                c.inputs.push(v);
                c.steps.push(Step::Input);
                V::In(c.inputs.len())
            } else {
                c.aux.push(v);
                c.steps.push(Step::Aux);
                V::Aux(c.aux.len() - 1)
            };
            vars.push(v);
            rest.push((v, F::ONE));
            (Cons { a, b, c: rest }, Some(v))
        } else if kind % 2 == 0 {
            (Cons { a: vec![], b, c: vec![] }, None)
        } else {
            let k = F::from(1 + rng.next() % 3);
            let mut cc = a.clone();
            for t in cc.iter_mut() {
                t.1 *= k;
            }
            (Cons { a, b: vec![(V::In(0), k)], c: cc }, None)
        };
        c.cons.push(con);
        c.outs.push(out);
        c.steps.push(Step::Enforce(i));
    }
    c
}

fn gen_lc<F: PrimeField>(s: &mut Src, vars: &[V], maxlen: usize) -> Lc<F> {
    let n = s.weighted(&[2, 6, 5, 3, 2, 1]).min(maxlen);
    let mut l: Lc<F> = vec![];
    for _ in 0..n {
        if !l.is_empty() && s.chance(1, 6) {
            // repeat, or cancel, an earlier term
            let (v, c) = l[s.below(l.len())];
            if s.bool() {
                l.push((v, -c));
            } else {
                l.push((v, scalar(s)));
            }
        } else {
            let v = vars[s.below(vars.len())];
            l.push((v, scalar(s)));
        }
    }
    l
}

pub fn gen_circ<F: PrimeField>(s: &mut Src, sh: &Shape) -> Circ<F> {
    let mut c = Circ {
        steps: vec![],
        cons: vec![],
        inputs: vec![],
        aux: vec![],
        style: s.draw(u64::MAX),
        missing: None,
        missing_kind: 0,
        fail_at: None,
        outs: vec![],
    };
    let mut vars = vec![V::In(0)];
    let nfree_in = s.skewed(0, sh.max_inputs);
    let nfree_aux = s.weighted(&[1, 3, 3, 2, 1]);
    let ncons = s.skewed(0, sh.max_cons);
    let mut depth = 0;
    // vars that depend on no private value may feed public outputs
    let (mut li, mut la) = (nfree_in, nfree_aux);
    while li + la > 0 {
        if la == 0 || (li > 0 && s.bool()) {
            li -= 1;
            c.inputs.push(scalar(s));
            c.steps.push(Step::Input);
            vars.push(V::In(c.inputs.len()));
        } else {
            la -= 1;
            c.aux.push(scalar(s));
            c.steps.push(Step::Aux);
            vars.push(V::Aux(c.aux.len() - 1));
        }
    }
    for _ in 0..ncons {
        if s.chance(1, 10) {
            if depth > 0 && s.bool() {
                c.steps.push(Step::Pop);
                depth -= 1;
            } else {
                c.steps.push(Step::Push);
                depth += 1;
            }
        }
        let a = gen_lc::<F>(s, &vars, 5);
        let b = gen_lc::<F>(s, &vars, 5);
        let kind = s.weighted(&[8, 2, 2, 2, if sh.adjusted { 3 } else { 0 }]);
        let mut out = None;
        let con = match kind {
            // a fresh variable takes the product
            0 => {
                let mut rest = gen_lc::<F>(s, &vars, 2);
                let k = nonzero::<F>(s);
                let val = (c.eval(&a) * c.eval(&b) - c.eval(&rest)) * k.invert().unwrap();
                let v = if sh.derived_inputs && s.chance(1, 4) {
                    c.inputs.push(val);
                    c.steps.push(Step::Input);
                    V::In(c.inputs.len())
                } else {
                    c.aux.push(val);
                    c.steps.push(Step::Aux);
                    V::Aux(c.aux.len() - 1)
                };
                vars.push(v);
                out = Some(v);
                let at = s.below(rest.len() + 1);
                rest.insert(at, (v, k));
                Cons { a, b, c: rest }
            }
            // a * 0 = 0 and 0 * b = 0, with zero spelled in several ways
            1 | 2 => {
                let z = zero_lc(s, &vars);
                let z2 = zero_lc(s, &vars);
                if kind == 1 {
                    Cons { a, b: z, c: z2 }
                } else {
                    Cons { a: z, b, c: z2 }
                }
            }
            // a * 1 = a (scaled both ways)
            3 => {
                let k = nonzero::<F>(s);
                let mut cc = a.clone();
                for t in cc.iter_mut() {
                    t.1 *= k;
                }
                if s.bool() {
                    Cons {
                        a,
                        b: vec![(V::In(0), k)],
                        c: cc,
                    }
                } else {
                    Cons {
                        a: vec![(V::In(0), k)],
                        b: a,
                        c: cc,
                    }
                }
            }
            // constant adjusted to the witness
            _ => {
                let mut cc = gen_lc::<F>(s, &vars, 4);
                let d = c.eval(&a) * c.eval(&b) - c.eval(&cc);
                cc.push((V::In(0), d));
                Cons { a, b, c: cc }
            }
        };
        c.cons.push(con);
        c.outs.push(out);
        c.steps.push(Step::Enforce(c.cons.len() - 1));
    }
    while depth > 0 {
        c.steps.push(Step::Pop);
        depth -= 1;
    }
    c
}

fn zero_lc<F: PrimeField>(s: &mut Src, vars: &[V]) -> Lc<F> {
    match s.weighted(&[4, 1, 2]) {
        0 => vec![],
        1 => vec![(vars[s.below(vars.len())], F::ZERO)],
        _ => {
            let v = vars[s.below(vars.len())];
            let k = nonzero::<F>(s);
            vec![(v, k), (v, -k)]
        }
    }
}

/// Gives every unconstrained private variable a constraint, and optionally
/// pads to an exact number of QAP rows.
pub fn close<F: PrimeField>(s: &mut Src, c: &mut Circ<F>) {
    for i in c.unconstrained() {
        let x: Lc<F> = vec![(V::Aux(i), nonzero(s))];
        let con = match s.draw(2) {
            0 => Cons {
                a: x,
                b: vec![],
                c: vec![],
            },
            1 => Cons {
                a: vec![],
                b: x,
                c: vec![],
            },
            _ => Cons {
                a: x.clone(),
                b: vec![(V::In(0), F::ONE)],
                c: x,
            },
        };
        c.cons.push(con);
        c.outs.push(None);
        c.steps.push(Step::Enforce(c.cons.len() - 1));
    }
}

/// Pads with trivial constraints until the number of QAP rows is `rows`.
pub fn pad<F: PrimeField>(s: &mut Src, c: &mut Circ<F>, rows: usize) {
    let many = rows > 1000;
    let mut rng = if many { s.rng() } else { crate::engine::Rng::new(0) };
    while c.cons.len() + c.inputs.len() + 1 < rows {
        let mut below = |n: usize| if many { rng.next() as usize % n } else { s.below(n) };
        let v = if c.aux.is_empty() {
            V::In(below(c.inputs.len() + 1))
        } else {
            V::Aux(below(c.aux.len()))
        };
        let con = if below(2) == 1 {
            Cons {
                a: vec![(v, F::ONE)],
                b: vec![],
                c: vec![],
            }
        } else {
            Cons {
                a: vec![],
                b: vec![(v, F::ONE)],
                c: vec![],
            }
        };
        c.cons.push(con);
        c.outs.push(None);
        c.steps.push(Step::Enforce(c.cons.len() - 1));
    }
}

/// Trapdoor.
#[derive(Clone, Debug)]
pub struct Toxic<F> {
    pub alpha: F,
    pub beta: F,
    pub gamma: F,
    pub delta: F,
    pub tau: F,
}

pub fn gen_toxic<F: PrimeField>(s: &mut Src) -> Toxic<F> {
    let mut r = s.rng();
    let mut nz = || loop {
        let v = F::random(&mut r);
        if !v.is_zero_vartime() {
            return v;
        }
    };
    Toxic {
        alpha: nz(),
        beta: nz(),
        gamma: nz(),
        delta: nz(),
        tau: nz(),
    }
}

/// The QAP of a circuit evaluated at tau, computed directly from the
/// Lagrange formula.
pub struct Qap<F> {
    pub m: usize,
    pub t: F,
    /// per variable: inputs (with one) then aux
    pub a: Vec<F>,
    pub b: Vec<F>,
    pub c: Vec<F>,
    pub ni: usize,
}

pub fn domain_size(rows: usize) -> usize {
    let mut m = 1;
    while m < rows {
        m *= 2;
    }
    m
}

/// `None` if tau is a domain point (no reference needed there).
pub fn qap<F: PrimeField>(c: &Circ<F>, tau: F) -> Option<Qap<F>> {
    let rows = c.rows();
    let m = domain_size(rows.len());
    let lg = m.trailing_zeros();
    if lg > F::S {
        return None;
    }
    let mut omega = F::ROOT_OF_UNITY;
    for _ in lg..F::S {
        omega = omega * omega;
    }
    let t = tau.pow_vartime([m as u64]) - F::ONE;
    if t.is_zero_vartime() {
        return None;
    }
    let minv = F::from(m as u64).invert().unwrap();
    let ni = c.inputs.len() + 1;
    let nv = ni + c.aux.len();
    let mut q = Qap {
        m,
        t,
        a: vec![F::ZERO; nv],
        b: vec![F::ZERO; nv],
        c: vec![F::ZERO; nv],
        ni,
    };
    let ix = |v: &V| match v {
        V::In(i) => *i,
        V::Aux(i) => ni + *i,
    };
    let mut w = F::ONE;
    for r in &rows {
        let lag = w * minv * t * (tau - w).invert().unwrap();
        for (v, k) in &r.a {
            q.a[ix(v)] += lag * k;
        }
        for (v, k) in &r.b {
            q.b[ix(v)] += lag * k;
        }
        for (v, k) in &r.c {
            q.c[ix(v)] += lag * k;
        }
        w *= omega;
    }
    Some(q)
}

impl<F: PrimeField> Qap<F> {
    /// (beta A + alpha B + C) per variable.
    pub fn ext(&self, tx: &Toxic<F>) -> Vec<F> {
        (0..self.a.len())
            .map(|i| self.a[i] * tx.beta + self.b[i] * tx.alpha + self.c[i])
            .collect()
    }
    /// No polynomial vanishes at tau by accident: a query entry is omitted
    /// exactly for the polynomials that are identically zero.
    pub fn accidental_zero(&self, c: &Circ<F>, tx: &Toxic<F>) -> bool {
        let rows = c.rows();
        let nv = self.a.len();
        let (mut pa, mut pb, mut pe) = (vec![false; nv], vec![false; nv], vec![false; nv]);
        let ix = |v: &V| match v {
            V::In(i) => *i,
            V::Aux(i) => self.ni + *i,
        };
        for r in &rows {
            for (v, _) in Circ::merged(&r.a) {
                pa[ix(&v)] = true;
                pe[ix(&v)] = true;
            }
            for (v, _) in Circ::merged(&r.b) {
                pb[ix(&v)] = true;
                pe[ix(&v)] = true;
            }
            for (v, _) in Circ::merged(&r.c) {
                pe[ix(&v)] = true;
            }
        }
        let ext = self.ext(tx);
        (0..nv).any(|i| {
            pa[i] == self.a[i].is_zero_vartime()
                || pb[i] == self.b[i].is_zero_vartime()
                || pe[i] == ext[i].is_zero_vartime()
        })
    }
    /// Exponents of a proof, for a satisfying assignment.
    pub fn proof(&self, z: &[F], tx: &Toxic<F>, r: F, s: F) -> (F, F, F) {
        let dot = |p: &[F]| p.iter().zip(z).fold(F::ZERO, |acc, (a, b)| acc + *a * b);
        let (az, bz, cz) = (dot(&self.a), dot(&self.b), dot(&self.c));
        let a = tx.alpha + az + r * tx.delta;
        let b = tx.beta + bz + s * tx.delta;
        let ext = self.ext(tx);
        let priv_ = ext[self.ni..]
            .iter()
            .zip(&z[self.ni..])
            .fold(F::ZERO, |acc, (a, b)| acc + *a * b);
        let c = (priv_ + az * bz - cz) * tx.delta.invert().unwrap() + a * s + b * r
            - r * s * tx.delta;
        (a, b, c)
    }
}

impl<F: PrimeField> Circ<F> {
    /// The private variables that no constraint defines.
    pub fn free_aux(&self) -> Vec<usize> {
        let mut free = vec![true; self.aux.len()];
        for o in &self.outs {
            if let Some(V::Aux(i)) = o {
                free[*i] = false;
            }
        }
        (0..free.len()).filter(|i| free[*i]).collect()
    }
    /// Recomputes every defined variable from the free ones.
    pub fn recompute(&mut self) {
        for i in 0..self.cons.len() {
            if let Some(v) = self.outs[i] {
                let c = &self.cons[i];
                let k = c.c.iter().find(|t| t.0 == v).unwrap().1;
                let rest: Lc<F> = c.c.iter().filter(|t| t.0 != v).cloned().collect();
                let val = (self.eval(&c.a) * self.eval(&c.b) - self.eval(&rest)) * k.invert().unwrap();
                match v {
                    V::In(i) => self.inputs[i - 1] = val,
                    V::Aux(i) => self.aux[i] = val,
                }
            }
        }
    }
    pub fn assignment(&self) -> Vec<F> {
        let mut z = vec![F::ONE];
        z.extend_from_slice(&self.inputs);
        z.extend_from_slice(&self.aux);
        z
    }
}
