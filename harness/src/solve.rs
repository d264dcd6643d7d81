//! Search for further satisfying assignments of a rank-1 constraint system.
//!
//! Some variables are fixed; the rest are derived by propagation (constraints
//! with one unknown, linear constraints over bits read as integer equations)
//! and, where that stops, by branching.  A reported assignment is a genuine
//! one: the caller re-evaluates every constraint.  "None" is reported only
//! when the search was complete.

use crate::rec::*;
use ff::PrimeField;
use std::cmp::Ordering;
use std::collections::VecDeque;

// ---------------------------------------------------- 320-bit integers

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Int([u64; 5]);

impl Int {
    pub const ZERO: Int = Int([0; 5]);
    pub fn small(v: i64) -> Int {
        let f = if v < 0 { u64::MAX } else { 0 };
        Int([v as u64, f, f, f, f])
    }
    pub fn add(self, o: Int) -> Int {
        let mut r = [0; 5];
        let mut c = 0u128;
        for i in 0..5 {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        Int(r)
    }
    pub fn neg(self) -> Int {
        let mut r = self.0;
        for x in r.iter_mut() {
            *x = !*x;
        }
        Int(r).add(Int::small(1))
    }
    pub fn sub(self, o: Int) -> Int {
        self.add(o.neg())
    }
    pub fn is_neg(self) -> bool {
        self.0[4] >> 63 == 1
    }
    pub fn is_zero(self) -> bool {
        self.0 == [0; 5]
    }
    pub fn cmp(self, o: Int) -> Ordering {
        let d = self.sub(o);
        if d.is_zero() {
            Ordering::Equal
        } else if d.is_neg() {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
    pub fn lt(self, o: Int) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn val2(self) -> u32 {
        for (i, w) in self.0.iter().enumerate() {
            if *w != 0 {
                return i as u32 * 64 + w.trailing_zeros();
            }
        }
        320
    }
    pub fn bit(self, i: u32) -> bool {
        self.0[i as usize / 64] >> (i % 64) & 1 == 1
    }
    /// Arithmetic shift right by one.
    pub fn half(self) -> Int {
        let mut r = self.0;
        for i in 0..5 {
            let up = if i < 4 {
                self.0[i + 1] << 63
            } else {
                self.0[4] & (1 << 63)
            };
            r[i] = self.0[i] >> 1 | up;
        }
        Int(r)
    }
    pub fn abs(self) -> Int {
        if self.is_neg() {
            self.neg()
        } else {
            self
        }
    }
    pub fn of<F: PrimeField>(x: F) -> Int {
        let r = x.to_repr();
        let b = r.as_ref();
        let mut w = [0u64; 5];
        for (i, c) in b.iter().enumerate() {
            w[i / 8] |= (*c as u64) << (8 * (i % 8));
        }
        Int(w)
    }
    pub fn modulus<F: PrimeField>() -> Int {
        Int::of(-F::ONE).add(Int::small(1))
    }
    /// Signed representative.
    pub fn signed<F: PrimeField>(x: F, p: Int) -> Int {
        let v = Int::of(x);
        let w = p.sub(v);
        if w.lt(v) {
            w.neg()
        } else {
            v
        }
    }
}

// ------------------------------------------------------------- system

pub struct Sys<F> {
    pub n: usize,
    pub cons: Vec<[Terms<F>; 3]>,
    pub occ: Vec<Vec<usize>>,
}

/// Solver variables: input i is i, auxiliary j is (number of inputs) + j.
pub fn flat<F: PrimeField>(r: &Rec<F>, i: Ix) -> usize {
    if i % 2 == 0 {
        i / 2
    } else {
        r.inputs.len() + i / 2
    }
}

fn merge<F: PrimeField>(mut t: Terms<F>) -> Terms<F> {
    t.sort_by_key(|x| x.0);
    let mut o: Terms<F> = vec![];
    for (v, c) in t {
        match o.last_mut() {
            Some(l) if l.0 == v => l.1 += c,
            _ => o.push((v, c)),
        }
    }
    o.retain(|x| !x.1.is_zero_vartime());
    o
}

impl<F: PrimeField> Sys<F> {
    pub fn new(r: &Rec<F>) -> Sys<F> {
        let n = r.inputs.len() + r.aux.len();
        let mut occ = vec![vec![]; n];
        let mut cons = vec![];
        for (k, c) in r.cons.iter().enumerate() {
            let m: Vec<Terms<F>> = c
                .iter()
                .map(|t| merge(t.iter().map(|(i, c)| (flat(r, *i), *c)).collect()))
                .collect();
            let mut vs: Vec<usize> = m.iter().flatten().map(|x| x.0).collect();
            vs.sort_unstable();
            vs.dedup();
            for v in vs {
                occ[v].push(k);
            }
            let mut it = m.into_iter();
            cons.push([it.next().unwrap(), it.next().unwrap(), it.next().unwrap()]);
        }
        Sys { n, cons, occ }
    }
    pub fn holds(&self, z: &[F]) -> bool {
        let e = |t: &Terms<F>| t.iter().fold(F::ZERO, |a, (v, c)| a + z[*v] * c);
        self.cons.iter().all(|[a, b, c]| e(a) * e(b) == e(c))
    }
}

#[derive(Clone)]
struct Lin<F> {
    k: F,
    t: Terms<F>,
}
#[derive(Clone)]
enum C<F> {
    Quad([Lin<F>; 3]),
    /// k + t = 0
    Lin(Lin<F>),
    Done,
}

struct St<F> {
    val: Vec<Option<F>>,
    dom: Vec<Option<[F; 2]>>,
    cons: Vec<C<F>>,
    unknown: usize,
    /// Undo log, kept below the first decision.
    trail: Vec<Tr<F>>,
    log: bool,
    /// Terms visited since the first decision.
    work: u64,
}

enum Tr<F> {
    Val(usize),
    Dom(usize, Option<[F; 2]>),
    Con(usize, C<F>),
}

impl<F: PrimeField> St<F> {
    fn undo(&mut self, mark: usize) {
        while self.trail.len() > mark {
            match self.trail.pop().unwrap() {
                Tr::Val(v) => {
                    self.val[v] = None;
                    self.unknown += 1;
                }
                Tr::Dom(v, d) => self.dom[v] = d,
                Tr::Con(i, c) => self.cons[i] = c,
            }
        }
    }
}

pub enum Verdict<F> {
    /// No other assignment (complete search).
    None,
    /// A satisfying assignment accepted by the target.
    Found(Vec<F>),
    Undecided,
}

/// Term visits after which a search is given up.
const WORK: u64 = 30_000_000;

struct Conflict;
type P<T> = Result<T, Conflict>;

pub struct Solver<'a, F: PrimeField> {
    sys: &'a Sys<F>,
    p: Int,
    tiny: Option<u64>,
    pub nodes: u64,
    pub budget: u64,
    honest: Option<&'a [F]>,
    /// Linear forms and their recorded values; assignments that agree on all
    /// of them are of no interest.
    pub goal: Vec<(Terms<F>, F)>,
}

impl<'a, F: PrimeField> Solver<'a, F> {
    pub fn new(sys: &'a Sys<F>, honest: Option<&'a [F]>, budget: u64) -> Self {
        let p = Int::modulus::<F>();
        let tiny = if p.lt(Int::small(66)) { Some(p.0[0]) } else { None };
        Solver {
            sys,
            p,
            tiny,
            nodes: 0,
            budget,
            honest,
            goal: vec![],
        }
    }

    fn reduce(l: &mut Lin<F>, val: &[Option<F>]) {
        let mut k = l.k;
        l.t.retain(|(v, c)| match val[*v] {
            Some(x) => {
                k += x * c;
                false
            }
            None => true,
        });
        l.k = k;
    }

    fn assign(&self, s: &mut St<F>, v: usize, x: F, q: &mut Queue) -> P<()> {
        match s.val[v] {
            Some(y) => {
                if x == y {
                    Ok(())
                } else {
                    Err(Conflict)
                }
            }
            None => {
                if let Some(d) = s.dom[v] {
                    if d[0] != x && d[1] != x {
                        return Err(Conflict);
                    }
                }
                s.val[v] = Some(x);
                s.unknown -= 1;
                if s.log {
                    s.trail.push(Tr::Val(v));
                }
                for c in &self.sys.occ[v] {
                    q.push(*c);
                }
                Ok(())
            }
        }
    }

    fn restrict(&self, s: &mut St<F>, v: usize, roots: &[F], q: &mut Queue) -> P<()> {
        match roots.len() {
            0 => Err(Conflict),
            1 => self.assign(s, v, roots[0], q),
            _ => match s.dom[v] {
                None => {
                    if s.log {
                        s.trail.push(Tr::Dom(v, None));
                    }
                    s.dom[v] = Some([roots[0], roots[1]]);
                    for c in &self.sys.occ[v] {
                        q.push(*c);
                    }
                    Ok(())
                }
                Some(d) => {
                    let m: Vec<F> = d.iter().filter(|x| roots.contains(x)).cloned().collect();
                    match m.len() {
                        0 => Err(Conflict),
                        1 => self.assign(s, v, m[0], q),
                        _ => Ok(()),
                    }
                }
            },
        }
    }

    fn propagate(&self, s: &mut St<F>, q: &mut Queue) -> P<()> {
        while let Some(ci) = q.pop() {
            let mut c = std::mem::replace(&mut s.cons[ci], C::Done);
            if s.log {
                s.work += 1 + match &c {
                    C::Done => 0,
                    C::Lin(l) => 4 * l.t.len() as u64,
                    C::Quad(l) => l.iter().map(|x| x.t.len() as u64).sum(),
                };
                s.trail.push(Tr::Con(ci, c.clone()));
                if s.work > WORK {
                    // the caller gives up
                    s.cons[ci] = c;
                    return Ok(());
                }
            }
            if let C::Quad(l) = &mut c {
                for x in l.iter_mut() {
                    Self::reduce(x, &s.val);
                }
                let (ka, kb) = (l[0].t.is_empty(), l[1].t.is_empty());
                if ka || kb {
                    let (k, o) = if ka {
                        (l[0].k, l[1].clone())
                    } else {
                        (l[1].k, l[0].clone())
                    };
                    let mut t = l[2].t.iter().map(|(v, c)| (*v, -*c)).collect::<Vec<_>>();
                    if !k.is_zero_vartime() {
                        t.extend(o.t.iter().map(|(v, c)| (*v, *c * k)));
                    }
                    c = C::Lin(Lin {
                        k: k * o.k - l[2].k,
                        t: merge(t),
                    });
                }
            }
            match &mut c {
                C::Done => {}
                C::Quad(l) => {
                    let mut vs: Vec<usize> =
                        l.iter().flat_map(|x| x.t.iter().map(|y| y.0)).collect();
                    vs.sort_unstable();
                    vs.dedup();
                    if vs.len() == 1 {
                        let v = vs[0];
                        let g = |x: &Lin<F>| {
                            (x.k, x.t.iter().fold(F::ZERO, |a, y| a + y.1))
                        };
                        let ((a0, a1), (b0, b1), (c0, c1)) = (g(&l[0]), g(&l[1]), g(&l[2]));
                        match roots(a1 * b1, a0 * b1 + a1 * b0 - c1, a0 * b0 - c0) {
                            None => {}
                            Some(r) => self.restrict(s, v, &r, q)?,
                        }
                        // fully expressed by the domain now
                        continue;
                    }
                    if vs.len() <= 3 && vs.iter().all(|v| s.dom[*v].is_some()) {
                        let mut seen: Vec<[bool; 2]> = vec![[false; 2]; vs.len()];
                        for m in 0..1usize << vs.len() {
                            let at = |x: &Lin<F>| {
                                x.t.iter().fold(x.k, |a, (v, c)| {
                                    let i = vs.iter().position(|w| w == v).unwrap();
                                    a + s.dom[*v].unwrap()[m >> i & 1] * c
                                })
                            };
                            if at(&l[0]) * at(&l[1]) == at(&l[2]) {
                                for (i, x) in seen.iter_mut().enumerate() {
                                    x[m >> i & 1] = true;
                                }
                            }
                        }
                        s.cons[ci] = c;
                        for (i, v) in vs.iter().enumerate() {
                            match seen[i] {
                                [false, false] => return Err(Conflict),
                                [true, false] => {
                                    let x = s.dom[*v].unwrap()[0];
                                    self.assign(s, *v, x, q)?
                                }
                                [false, true] => {
                                    let x = s.dom[*v].unwrap()[1];
                                    self.assign(s, *v, x, q)?
                                }
                                _ => {}
                            }
                        }
                        continue;
                    }
                    // one variable without a domain, on the right only
                    let open: Vec<usize> =
                        vs.iter().cloned().filter(|v| s.dom[*v].is_none()).collect();
                    if open.len() == 1
                        && vs.len() <= 5
                        && !l[0].t.iter().chain(&l[1].t).any(|x| x.0 == open[0])
                    {
                        let co = l[2].t.iter().find(|x| x.0 == open[0]).unwrap().1;
                        let i = co.invert().unwrap();
                        vs.retain(|v| *v != open[0]);
                        // relations among the other variables alone
                        let mut rel: Vec<usize> = vec![];
                        if vs.len() >= 2 {
                            for v in &vs {
                                for k in &self.sys.occ[*v] {
                                    let o = &self.sys.cons[*k];
                                    if *k != ci
                                        && !rel.contains(k)
                                        && o.iter().map(|x| x.len()).sum::<usize>() <= 8
                                        && o.iter().flatten().all(|(w, _)| {
                                            s.val[*w].is_some() || vs.contains(w)
                                        })
                                        && o.iter()
                                            .flatten()
                                            .any(|(w, _)| w != v && vs.contains(w))
                                    {
                                        rel.push(*k);
                                    }
                                }
                            }
                        }
                        let mut vals: Vec<F> = vec![];
                        for m in 0..1usize << vs.len() {
                            let at = |x: &Lin<F>| {
                                x.t.iter().fold(x.k, |a, (v, c)| {
                                    match vs.iter().position(|w| w == v) {
                                        Some(i) => a + s.dom[*v].unwrap()[m >> i & 1] * c,
                                        None => a,
                                    }
                                })
                            };
                            let full = |t: &Terms<F>| {
                                t.iter().fold(F::ZERO, |a, (w, c)| {
                                    a + *c * match s.val[*w] {
                                        Some(x) => x,
                                        None => {
                                            let i = vs.iter().position(|y| y == w).unwrap();
                                            s.dom[*w].unwrap()[m >> i & 1]
                                        }
                                    }
                                })
                            };
                            if rel.iter().any(|k| {
                                let [a, b, c] = &self.sys.cons[*k];
                                full(a) * full(b) != full(c)
                            }) {
                                continue;
                            }
                            let x = (at(&l[0]) * at(&l[1]) - at(&l[2])) * i;
                            if !vals.contains(&x) {
                                vals.push(x);
                            }
                        }
                        s.cons[ci] = c;
                        if vals.len() <= 2 {
                            self.restrict(s, open[0], &vals, q)?;
                        }
                        continue;
                    }
                    s.cons[ci] = c;
                }
                C::Lin(l) => {
                    Self::reduce(l, &s.val);
                    match l.t.len() {
                        0 => {
                            if !l.k.is_zero_vartime() {
                                return Err(Conflict);
                            }
                        }
                        1 => {
                            let (v, co) = l.t[0];
                            let x = -l.k * co.invert().unwrap();
                            self.assign(s, v, x, q)?;
                        }
                        n => {
                            let open: Vec<usize> = l
                                .t
                                .iter()
                                .map(|x| x.0)
                                .filter(|v| s.dom[*v].is_none())
                                .collect();
                            if n <= 4 && open.len() == 1 {
                                let v = open[0];
                                let (mut vals, mut co): (Vec<F>, F) = (vec![], F::ONE);
                                let rest: Vec<(usize, F)> = l
                                    .t
                                    .iter()
                                    .filter(|x| {
                                        if x.0 == v {
                                            co = x.1;
                                        }
                                        x.0 != v
                                    })
                                    .cloned()
                                    .collect();
                                let i = -co.invert().unwrap();
                                for m in 0..1usize << rest.len() {
                                    let x = rest.iter().enumerate().fold(l.k, |a, (j, (v, c))| {
                                        a + s.dom[*v].unwrap()[m >> j & 1] * c
                                    }) * i;
                                    if !vals.contains(&x) {
                                        vals.push(x);
                                    }
                                }
                                s.cons[ci] = c;
                                if vals.len() <= 2 {
                                    self.restrict(s, v, &vals, q)?;
                                }
                                continue;
                            }
                            let bits = l.t.iter().all(|(v, _)| {
                                matches!(s.dom[*v], Some(d)
                                    if (d[0].is_zero_vartime() && d[1] == F::ONE)
                                    || (d[1].is_zero_vartime() && d[0] == F::ONE))
                            });
                            let forced = if bits { self.subset(l)? } else { vec![] };
                            s.cons[ci] = c;
                            for (v, b) in forced {
                                self.assign(s, v, if b { F::ONE } else { F::ZERO }, q)?;
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// `k + sum c_i x_i = 0` over bits: what every solution agrees on (found
    /// by bounds and by parity, for each possible multiple of p).
    fn subset(&self, l: &Lin<F>) -> P<Vec<(usize, bool)>> {
        let cs: Vec<(usize, Int)> = l
            .t
            .iter()
            .map(|(v, c)| (*v, Int::signed(*c, self.p)))
            .collect();
        let (mut lo, mut hi) = (Int::ZERO, Int::ZERO);
        for (_, c) in &cs {
            if c.is_neg() {
                lo = lo.add(*c);
            } else {
                hi = hi.add(*c);
            }
        }
        let base = Int::signed(-l.k, self.p);
        let mut cands = vec![];
        let mut r = base;
        // smallest candidate >= lo
        let mut steps = 0;
        while !r.lt(lo) && steps < 40 {
            r = r.sub(self.p);
            steps += 1;
        }
        while r.lt(lo) && steps < 80 {
            r = r.add(self.p);
            steps += 1;
        }
        while !hi.lt(r) && cands.len() < 20 {
            cands.push(r);
            r = r.add(self.p);
        }
        if steps >= 40 || cands.len() >= 20 {
            return Ok(vec![]);
        }
        let mut common: Option<Vec<(usize, bool)>> = None;
        for r in cands {
            if let Ok(f) = subset_one(&cs, r, lo, hi) {
                common = Some(match common {
                    None => f,
                    Some(g) => g.into_iter().filter(|x| f.contains(x)).collect(),
                });
            }
        }
        common.ok_or(Conflict)
    }

    /// Searches for an assignment extending `fixed` for which `want` holds.
    pub fn search(&mut self, fixed: &[(usize, F)], want: &dyn Fn(&[F]) -> bool) -> Verdict<F> {
        let mut s = St {
            val: vec![None; self.sys.n],
            dom: vec![None; self.sys.n],
            cons: self
                .sys
                .cons
                .iter()
                .map(|[a, b, c]| {
                    let f = |t: &Terms<F>| Lin {
                        k: F::ZERO,
                        t: t.clone(),
                    };
                    C::Quad([f(a), f(b), f(c)])
                })
                .collect(),
            unknown: self.sys.n,
            trail: vec![],
            log: false,
            work: 0,
        };
        let mut q = Queue::new(self.sys.cons.len());
        for i in 0..self.sys.cons.len() {
            q.push(i);
        }
        if self.assign(&mut s, 0, F::ONE, &mut q).is_err() {
            return Verdict::None;
        }
        for (v, x) in fixed {
            if self.assign(&mut s, *v, *x, &mut q).is_err() {
                return Verdict::None;
            }
        }
        self.dfs(&mut s, q, want, 0)
    }

    fn dfs(
        &mut self,
        s: &mut St<F>,
        mut q: Queue,
        want: &dyn Fn(&[F]) -> bool,
        depth: usize,
    ) -> Verdict<F> {
        self.nodes += 1;
        if self.nodes > self.budget || depth > 4000 {
            return Verdict::Undecided;
        }
        if self.propagate(s, &mut q).is_err() {
            return Verdict::None;
        }
        if s.work > WORK {
            return Verdict::Undecided;
        }
        if !self.goal.is_empty()
            && self.goal.iter().all(|(t, v)| {
                t.iter().all(|(i, _)| s.val[*i].is_some())
                    && t.iter().fold(F::ZERO, |a, (i, c)| a + s.val[*i].unwrap() * c) == *v
            })
        {
            // every target has its recorded value
            return Verdict::None;
        }
        if s.unknown == 0 {
            let z: Vec<F> = s.val.iter().map(|x| x.unwrap()).collect();
            return if want(&z) {
                Verdict::Found(z)
            } else {
                Verdict::None
            };
        }
        // a two-valued variable, else one in the shortest open constraint
        let pick = (0..self.sys.n).find(|v| s.val[*v].is_none() && s.dom[*v].is_some());
        let v = match pick {
            Some(v) => v,
            None => {
                let mut best: Option<(usize, usize)> = None;
                for c in &s.cons {
                    let vs: Vec<usize> = match c {
                        C::Quad(l) => l.iter().flat_map(|x| x.t.iter().map(|y| y.0)).collect(),
                        C::Lin(l) => l.t.iter().map(|y| y.0).collect(),
                        C::Done => vec![],
                    };
                    if let Some(v) = vs.iter().find(|v| s.val[**v].is_none()) {
                        if best.map(|b| vs.len() < b.0).unwrap_or(true) {
                            best = Some((vs.len(), *v));
                        }
                    }
                }
                match best {
                    Some((_, v)) => v,
                    None => (0..self.sys.n).find(|v| s.val[*v].is_none()).unwrap(),
                }
            }
        };
        let h = self.honest.map(|h| h[v]);
        let (mut cands, complete) = if let Some(d) = s.dom[v] {
            (d.to_vec(), true)
        } else if let Some(p) = self.tiny {
            ((0..p).map(F::from).collect(), true)
        } else {
            let mut c = vec![F::ZERO, F::ONE, -F::ONE, F::from(2)];
            if let Some(h) = h {
                c.push(h + F::ONE);
                c.push(-h);
                c.push(h);
            }
            (c, false)
        };
        if let Some(h) = h {
            cands.sort_by_key(|x| *x == h);
        }
        cands.dedup();
        let mut all = complete;
        let was = s.log;
        s.log = true;
        for x in cands {
            let mark = s.trail.len();
            let mut q = Queue::new(self.sys.cons.len());
            if self.assign(s, v, x, &mut q).is_err() {
                s.undo(mark);
                continue;
            }
            let r = self.dfs(s, q, want, depth + 1);
            s.undo(mark);
            match r {
                Verdict::Found(z) => return Verdict::Found(z),
                Verdict::None => {}
                Verdict::Undecided => {
                    all = false;
                    if self.nodes > self.budget || s.work > WORK {
                        break;
                    }
                }
            }
        }
        s.log = was;
        if all {
            Verdict::None
        } else {
            Verdict::Undecided
        }
    }
}

fn subset_one(cs: &[(usize, Int)], r: Int, lo: Int, hi: Int) -> P<Vec<(usize, bool)>> {
    let mut left: Vec<(usize, Int)> = cs.to_vec();
    let (mut r, mut lo, mut hi) = (r, lo, hi);
    let mut out = vec![];
    let take = |out: &mut Vec<(usize, bool)>, r: &mut Int, lo: &mut Int, hi: &mut Int, v, c: Int, b: bool| {
        if c.is_neg() {
            *lo = lo.sub(c);
        } else {
            *hi = hi.sub(c);
        }
        if b {
            *r = r.sub(c);
        }
        out.push((v, b));
    };
    loop {
        let before = left.len();
        if r.lt(lo) || hi.lt(r) {
            return Err(Conflict);
        }
        // bounds, largest first
        left.sort_by(|a, b| b.1.abs().cmp(a.1.abs()));
        let mut i = 0;
        while i < left.len() {
            let (v, c) = left[i];
            // values reachable with x = 0 and x = 1
            let (l0, h0) = if c.is_neg() {
                (lo.sub(c), hi)
            } else {
                (lo, hi.sub(c))
            };
            let ok0 = !r.lt(l0) && !h0.lt(r);
            let r1 = r.sub(c);
            let ok1 = !r1.lt(l0) && !h0.lt(r1);
            match (ok0, ok1) {
                (false, false) => return Err(Conflict),
                (true, true) => i += 1,
                (a, _) => {
                    take(&mut out, &mut r, &mut lo, &mut hi, v, c, !a);
                    left.remove(i);
                }
            }
        }
        // parity, lowest first
        left.sort_by_key(|x| x.1.val2());
        let mut n = 0;
        while n < left.len() {
            let g = left[n].1.val2();
            if r.val2() < g {
                return Err(Conflict);
            }
            if n + 1 < left.len() && left[n + 1].1.val2() == g {
                break;
            }
            let b = r.val2() == g;
            let (v, c) = left[n];
            take(&mut out, &mut r, &mut lo, &mut hi, v, c, b);
            n += 1;
        }
        left.drain(..n);
        if left.is_empty() {
            return if r.is_zero() { Ok(out) } else { Err(Conflict) };
        }
        if left.len() == before {
            return Ok(out);
        }
    }
}

/// Roots of `a x^2 + b x + c`; `None` when everything is a root.
pub fn roots<F: PrimeField>(a: F, b: F, c: F) -> Option<Vec<F>> {
    if a.is_zero_vartime() {
        if b.is_zero_vartime() {
            return if c.is_zero_vartime() {
                None
            } else {
                Some(vec![])
            };
        }
        return Some(vec![-c * b.invert().unwrap()]);
    }
    let d = b.square() - F::from(4) * a * c;
    let i = (a.double()).invert().unwrap();
    if d.is_zero_vartime() {
        return Some(vec![-b * i]);
    }
    let q: Option<F> = d.sqrt().into();
    Some(match q {
        None => vec![],
        Some(q) => vec![(-b + q) * i, (-b - q) * i],
    })
}

#[derive(Clone)]
struct Queue {
    q: VecDeque<usize>,
    inq: Vec<bool>,
}
impl Queue {
    fn new(n: usize) -> Queue {
        Queue {
            q: VecDeque::new(),
            inq: vec![false; n],
        }
    }
    fn push(&mut self, i: usize) {
        if !self.inq[i] {
            self.inq[i] = true;
            self.q.push_back(i);
        }
    }
    fn pop(&mut self) -> Option<usize> {
        let i = self.q.pop_front()?;
        self.inq[i] = false;
        Some(i)
    }
}

/// The recorded assignment as a flat vector.
pub fn honest<F: PrimeField>(r: &Rec<F>) -> Vec<F> {
    r.inputs
        .iter()
        .chain(r.aux.iter())
        .map(|x| x.unwrap_or(F::ZERO))
        .collect()
}

/// Looks for a satisfying assignment that agrees with the recorded one on
/// `fixed` and for which `want` holds.
pub fn any_with<F: PrimeField>(
    r: &Rec<F>,
    fixed: &[Ix],
    want: &dyn Fn(&[F]) -> bool,
    budget: u64,
) -> Verdict<F> {
    let sys = Sys::new(r);
    let z = honest(r);
    let fx: Vec<(usize, F)> = fixed
        .iter()
        .map(|i| {
            let v = flat(r, *i);
            (v, z[v])
        })
        .collect();
    let mut s = Solver::new(&sys, Some(&z), budget);
    let v = s.search(&fx, want);
    if let Verdict::Found(y) = &v {
        assert!(sys.holds(y), "solver produced a non-solution");
    }
    v
}

/// Looks for another satisfying assignment that agrees with the recorded one
/// on `fixed` and differs from it in one of the `targets`.
pub fn second<F: PrimeField>(
    r: &Rec<F>,
    fixed: &[Ix],
    targets: &[Terms<F>],
    budget: u64,
) -> (Verdict<F>, u64) {
    let sys = Sys::new(r);
    let z: Vec<F> = r
        .inputs
        .iter()
        .chain(r.aux.iter())
        .map(|x| x.unwrap_or(F::ZERO))
        .collect();
    let fx: Vec<(usize, F)> = fixed
        .iter()
        .map(|i| {
            let v = flat(r, *i);
            (v, z[v])
        })
        .collect();
    let tg: Vec<(Terms<F>, F)> = targets
        .iter()
        .map(|t| {
            let t: Terms<F> = t.iter().map(|(i, c)| (flat(r, *i), *c)).collect();
            let v = t.iter().fold(F::ZERO, |a, (v, c)| a + z[*v] * c);
            (t, v)
        })
        .collect();
    let want = |y: &[F]| {
        tg.iter()
            .any(|(t, v)| t.iter().fold(F::ZERO, |a, (i, c)| a + y[*i] * c) != *v)
    };
    let mut s = Solver::new(&sys, Some(&z), budget);
    s.goal = tg.clone();
    let v = s.search(&fx, &want);
    let n = s.nodes;
    if let Verdict::Found(y) = &v {
        assert!(sys.holds(y), "solver produced a non-solution");
    }
    (v, n)
}
