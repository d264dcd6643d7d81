//! A recording constraint system and an independent evaluator.

use bellman::{ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
use ff::PrimeField;

/// Flat name of a variable: inputs are even, auxiliary variables are odd.
pub type Ix = usize;
pub fn ix(v: Variable) -> Ix {
    match v.get_unchecked() {
        Index::Input(i) => 2 * i,
        Index::Aux(i) => 2 * i + 1,
    }
}
pub fn show_ix(i: Ix) -> String {
    if i == 0 {
        "ONE".into()
    } else if i % 2 == 0 {
        format!("in{}", i / 2)
    } else {
        format!("aux{}", i / 2)
    }
}

pub type Terms<F> = Vec<(Ix, F)>;

pub fn terms<F: PrimeField>(l: &LinearCombination<F>) -> Terms<F> {
    l.as_ref().iter().map(|(v, c)| (ix(*v), *c)).collect()
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Aux(String),
    Input(String),
    Cons(String),
    Push(String),
    Pop,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// Calls the assignment closures, like a prover.
    Eval,
    /// Never calls them, like a parameter generator.
    Setup,
}

pub struct Rec<F: PrimeField> {
    pub mode: Mode,
    pub names: bool,
    pub inputs: Vec<Option<F>>,
    pub aux: Vec<Option<F>>,
    pub cons: Vec<[Terms<F>; 3]>,
    pub log: Vec<Ev>,
    pub depth: usize,
    pub underflow: bool,
    /// Allocation number at which the closure result is replaced by an error.
    pub fail_at: Option<(usize, u8)>,
    allocs: usize,
}

impl<F: PrimeField> Rec<F> {
    pub fn new(mode: Mode) -> Self {
        Rec {
            mode,
            names: false,
            inputs: vec![Some(F::ONE)],
            aux: vec![],
            cons: vec![],
            log: vec![],
            depth: 0,
            underflow: false,
            fail_at: None,
            allocs: 0,
        }
    }
    pub fn named(mode: Mode) -> Self {
        let mut r = Self::new(mode);
        r.names = true;
        r
    }
    fn name<A: FnOnce() -> AR, AR: Into<String>>(&self, a: A) -> String {
        if self.names {
            a().into()
        } else {
            String::new()
        }
    }
    fn value<G: FnOnce() -> Result<F, SynthesisError>>(
        &mut self,
        f: G,
    ) -> Result<Option<F>, SynthesisError> {
        let n = self.allocs;
        self.allocs += 1;
        match self.mode {
            Mode::Setup => Ok(None),
            Mode::Eval => {
                let v = f()?;
                if let Some((k, e)) = self.fail_at {
                    if k == n {
                        return Err(crate::circ::synth_error(e));
                    }
                }
                Ok(Some(v))
            }
        }
    }
    pub fn get(&self, i: Ix) -> Option<F> {
        if i % 2 == 0 {
            self.inputs[i / 2]
        } else {
            self.aux[i / 2]
        }
    }
    pub fn eval(&self, t: &[(Ix, F)]) -> Option<F> {
        let mut s = F::ZERO;
        for (i, c) in t {
            s += self.get(*i)? * c;
        }
        Some(s)
    }
    pub fn eval_lc(&self, l: &LinearCombination<F>) -> Option<F> {
        self.eval(&terms(l))
    }
    pub fn unsatisfied(&self) -> Option<usize> {
        self.cons.iter().position(|[a, b, c]| {
            match (self.eval(a), self.eval(b), self.eval(c)) {
                (Some(a), Some(b), Some(c)) => a * b != c,
                _ => true,
            }
        })
    }
    pub fn show_cons(&self, i: usize) -> String {
        let f = |t: &Terms<F>| {
            t.iter()
                .take(12)
                .map(|(v, c)| format!("{:?}*{}", c, show_ix(*v)))
                .collect::<Vec<_>>()
                .join(" + ")
        };
        let [a, b, c] = &self.cons[i];
        format!("#{}: ({}) * ({}) = ({})", i, f(a), f(b), f(c))
    }
}

impl<F: PrimeField> ConstraintSystem<F> for Rec<F> {
    type Root = Self;

    fn alloc<G, A, AR>(&mut self, annotation: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let n = self.name(annotation);
        let v = self.value(f)?;
        self.log.push(Ev::Aux(n));
        self.aux.push(v);
        Ok(Variable::new_unchecked(Index::Aux(self.aux.len() - 1)))
    }
    fn alloc_input<G, A, AR>(&mut self, annotation: A, f: G) -> Result<Variable, SynthesisError>
    where
        G: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let n = self.name(annotation);
        let v = self.value(f)?;
        self.log.push(Ev::Input(n));
        self.inputs.push(v);
        Ok(Variable::new_unchecked(Index::Input(self.inputs.len() - 1)))
    }
    fn enforce<A, AR, LA, LB, LC>(&mut self, annotation: A, a: LA, b: LB, c: LC)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
        LA: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LB: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
        LC: FnOnce(LinearCombination<F>) -> LinearCombination<F>,
    {
        let n = self.name(annotation);
        self.log.push(Ev::Cons(n));
        self.cons.push([
            terms(&a(LinearCombination::zero())),
            terms(&b(LinearCombination::zero())),
            terms(&c(LinearCombination::zero())),
        ]);
    }
    fn push_namespace<NR, N>(&mut self, name_fn: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        let n = self.name(name_fn);
        self.log.push(Ev::Push(n));
        self.depth += 1;
    }
    fn pop_namespace(&mut self) {
        self.log.push(Ev::Pop);
        if self.depth == 0 {
            self.underflow = true;
        } else {
            self.depth -= 1;
        }
    }
    fn get_root(&mut self) -> &mut Self::Root {
        self
    }
}
