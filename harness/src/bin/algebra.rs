//! C10 multi-exponentiation, C11 evaluation domains.

use bellman::domain::{EvaluationDomain, Group as DGroup, Point, Scalar};
use bellman::multicore::Worker;
use bellman::multiexp::*;
use bellman::SynthesisError;
use bls12_381::{Bls12, G1Affine, G1Projective, G2Affine, G2Projective, Scalar as BlsFr};
use ff::{Field, PrimeField, PrimeFieldBits};
use group::prime::{PrimeCurve, PrimeCurveAffine};
use pairing::Engine;
use std::sync::Arc;
use vph::circ::{limbs, scalar, wide};
use vph::engine::*;
use vph::fp::*;
use vph::mock::Pt;
use vph::wide::Wt;
use vph::runner::*;
use vph::{ensure, ensure_eq};

// ------------------------------------------------------------------- C10

/// Lengths on both sides of every window-size threshold (32, e^4, e^5, ...).
fn length(s: &mut Src, max: usize) -> usize {
    const EDGES: &[usize] = &[0, 1, 2, 31, 32, 33, 54, 55, 148, 149, 403, 404, 1096, 1097, 2980, 2981, 8103, 8104];
    let n = if s.chance(2, 5) {
        *s.pick(EDGES)
    } else {
        s.skewed(0, max)
    };
    n.min(max)
}

/// Exponents that stress the trivial cases and the window arithmetic.
fn exponent<F: PrimeField>(s: &mut Src) -> F {
    match s.weighted(&[3, 3, 2, 2, 2, 1, 4]) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::from(s.range(1, 3)),
        3 => F::from(2u64).pow_vartime([s.draw(F::NUM_BITS as u64 - 1)]) - F::from(s.draw(1)),
        4 => F::from(s.draw(9)),
        5 => limbs(s),
        _ => wide::<F>(s),
    }
}

struct Case<F> {
    exps: Vec<F>,
    /// `None`: full density.
    density: Option<Vec<bool>>,
    offset: usize,
    /// Discrete logarithms of all bases in the list.
    bases: Vec<F>,
}

impl<F: PrimeField> Case<F> {
    fn dense(&self, i: usize) -> bool {
        self.density.as_ref().map(|d| d[i]).unwrap_or(true)
    }
    fn wanted(&self) -> usize {
        (0..self.exps.len()).filter(|i| self.dense(*i)).count()
    }
}

enum Expect<F> {
    Sum(F),
    Error,
    /// Bases are missing but only exponents of zero refer to them.
    Either(F),
}

fn expect<F: PrimeField>(c: &Case<F>) -> Expect<F> {
    let mut at = c.offset;
    let mut sum = F::ZERO;
    let mut missing = false;
    let mut bad = false;
    for i in 0..c.exps.len() {
        if c.dense(i) {
            match c.bases.get(at) {
                None => {
                    missing = true;
                    if !c.exps[i].is_zero_vartime() {
                        bad = true;
                    }
                }
                Some(b) => {
                    if b.is_zero_vartime() && !c.exps[i].is_zero_vartime() {
                        bad = true;
                    }
                    sum += *b * c.exps[i];
                }
            }
            at += 1;
        }
    }
    if bad {
        Expect::Error
    } else if missing {
        Expect::Either(sum)
    } else {
        Expect::Sum(sum)
    }
}

fn gen<F: PrimeField>(s: &mut Src, max: usize, bulk: bool) -> Case<F> {
    let n = length(s, max);
    let mut rng = s.rng();
    let (pz, po) = (s.draw(4), s.draw(4));
    let odd: Vec<F> = (0..if s.bool() { 3 } else { 0 }).map(|_| limbs(s)).collect();
    let exps: Vec<F> = (0..n)
        .map(|_| {
            if bulk {
                let k = rng.next() % 16;
                if k < pz {
                    F::ZERO
                } else if k < pz + po {
                    F::ONE
                } else if k < pz + po + 2 {
                    -F::from(1 + rng.next() % 3)
                } else if k == 15 && !odd.is_empty() {
                    odd[(rng.next() % 3) as usize]
                } else {
                    F::random(&mut rng)
                }
            } else {
                exponent(s)
            }
        })
        .collect();
    let density = if s.bool() {
        let mode = s.draw(4);
        Some(
            (0..n)
                .map(|_| match mode {
                    0 => false,
                    1 => rng.next() % 8 == 0,
                    2 => rng.next() % 2 == 0,
                    3 => rng.next() % 8 != 0,
                    _ => true,
                })
                .collect::<Vec<_>>(),
        )
    } else {
        None
    };
    let offset = if s.bool() { s.skewed(0, 40) } else { 0 };
    let mut c = Case {
        exps,
        density,
        offset,
        bases: vec![],
    };
    let mut len = offset + c.wanted();
    match s.weighted(&[6, 3, 2]) {
        0 => {}
        1 => len += s.size(1, 9),
        _ => len = len.saturating_sub(s.skewed(1, 12)),
    }
    let mut acc = F::random(&mut rng);
    let step = F::random(&mut rng);
    c.bases = (0..len)
        .map(|_| {
            acc += step;
            if acc.is_zero_vartime() {
                acc += F::ONE;
            }
            acc
        })
        .collect();
    if s.chance(1, 3) && len > 0 {
        for _ in 0..s.size(1, 3) {
            let i = s.below(len);
            // half of the identity bases are put under a zero exponent
            c.bases[i] = F::ZERO;
            if s.bool() {
                let mut at = c.offset;
                for k in 0..c.exps.len() {
                    if c.dense(k) {
                        if at == i {
                            c.exps[k] = F::ZERO;
                        }
                        at += 1;
                    }
                }
            }
        }
    }
    c
}

fn tracker(d: &[bool], s: &mut Src) -> DensityTracker {
    let mut t = if s.bool() { DensityTracker::new() } else { DensityTracker::default() };
    // marks may come in any order and repeatedly
    let interleave = s.bool();
    for (i, b) in d.iter().enumerate() {
        t.add_element();
        if interleave && *b {
            t.inc(i);
        }
    }
    if !interleave {
        for (i, b) in d.iter().enumerate().rev() {
            if *b {
                t.inc(i);
                if i % 3 == 0 {
                    t.inc(i);
                }
            }
        }
    }
    t
}

fn verdict<G: PrimeCurve>(
    s: &mut Src,
    c: &Case<G::Scalar>,
    r: Result<G, SynthesisError>,
) -> R
where
    G::Scalar: PrimeField,
{
    let n = c.exps.len();
    s.label(if n < 32 {
        "fewer than 32 exponents"
    } else {
        "32 or more exponents"
    });
    if c.offset > 0 {
        s.label("source starts at an offset");
    }
    match expect(c) {
        Expect::Sum(x) => {
            s.label("sum expected");
            match r {
                Ok(g) => ensure!(g == G::generator() * x, "wrong sum for {} exponents, {} dense", n, c.wanted()),
                Err(e) => return Err(format!("error {:?} although every needed base is there", e)),
            }
        }
        Expect::Error => {
            s.label("error expected");
            ensure!(r.is_err(), "no error although a needed base is missing or the identity");
        }
        Expect::Either(x) => {
            s.label("missing bases have zero exponents");
            if let Ok(g) = r {
                ensure!(g == G::generator() * x, "wrong sum");
            }
        }
    }
    s.nontrivial_if(c.wanted() > 0);
    Ok(())
}

fn note<F: PrimeField>(s: &mut Src, c: &Case<F>) {
    s.note(|| {
        format!(
            "{} exponents {:?}, density {:?}, offset {}, {} bases",
            c.exps.len(),
            c.exps.iter().take(6).collect::<Vec<_>>(),
            c.density.as_ref().map(|d| d.iter().filter(|x| **x).count()),
            c.offset,
            c.bases.len()
        )
    });
}

fn run<G, B>(s: &mut Src, c: &Case<G::Scalar>, bases: B) -> Result<Result<G, SynthesisError>, String>
where
    G: PrimeCurve,
    G::Scalar: PrimeFieldBits,
    B: SourceBuilder<G::Affine>,
{
    let w = Worker::new();
    let by_ref = s.bool();
    let exps: Arc<Vec<Exponent<G::Scalar>>> = Arc::new(if by_ref {
        c.exps.iter().map(|e| e.into()).collect()
    } else {
        c.exps.iter().map(|e| (*e).into()).collect()
    });
    match &c.density {
        Some(d) => {
            let t = tracker(d, s);
            ensure_eq!(t.get_total_density(), c.wanted(), "total density");
            ensure_eq!((&t).get_query_size(), Some(d.len()), "query size");
            ensure!((&t).iter().take(d.len() + 1).collect::<Vec<_>>() == *d, "density iterator");
            no_panic(|| multiexp(&w, bases, Arc::new(t), exps).wait())
        }
        None => no_panic(|| multiexp(&w, bases, FullDensity, exps).wait()),
    }
}

fn me<const P: u64>(s: &mut Src, max: usize, bulk: bool) -> R {
    let c = gen::<Fp<P>>(s, max, bulk);
    note(s, &c);
    if s.chance(1, 3) {
        custom::<P>(s, &c)
    } else {
        let b: Vec<Pt<P, 1>> = c.bases.iter().map(|x| Pt(*x)).collect();
        let off = c.offset;
        let r = run::<Pt<P, 1>, _>(s, &c, (Arc::new(b), off))?;
        verdict::<Pt<P, 1>>(s, &c, r)
    }
}

/// A source that hands out elements one at a time and fails on its own terms.
#[derive(Clone)]
struct Stream<const P: u64> {
    all: Arc<Vec<Pt<P, 2>>>,
    at: usize,
    end: usize,
    fail_at: usize,
    over: Arc<std::sync::atomic::AtomicUsize>,
}
impl<const P: u64> Stream<P> {
    fn step(&mut self, n: usize) -> Result<usize, SynthesisError> {
        let i = self.at;
        self.at += n;
        if self.at > self.end {
            self.over.fetch_max(self.at - self.end, std::sync::atomic::Ordering::SeqCst);
        }
        if i <= self.fail_at && self.fail_at < self.at {
            return Err(SynthesisError::IoError(std::io::Error::new(std::io::ErrorKind::Other, "source failed")));
        }
        if self.at > self.all.len() {
            return Err(SynthesisError::IoError(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "end")));
        }
        Ok(i)
    }
}
impl<const P: u64> SourceBuilder<Pt<P, 2>> for Stream<P> {
    type Source = Stream<P>;
    fn build(self) -> Stream<P> {
        self
    }
}
impl<const P: u64> Source<Pt<P, 2>> for Stream<P> {
    fn next(&mut self) -> Result<&Pt<P, 2>, SynthesisError> {
        let i = self.step(1)?;
        if self.all[i].0 == Fp::ZERO {
            return Err(SynthesisError::UnexpectedIdentity);
        }
        Ok(&self.all[i])
    }
    fn skip(&mut self, n: usize) -> Result<(), SynthesisError> {
        self.step(n).map(|_| ())
    }
}

fn custom<const P: u64>(s: &mut Src, c: &Case<Fp<P>>) -> R {
    let all: Vec<Pt<P, 2>> = c.bases.iter().map(|x| Pt(*x)).collect();
    let end = c.offset + c.wanted();
    let fail = s.chance(1, 4) && c.wanted() > 0;
    let fail_at = if fail { c.offset + s.below(c.wanted()) } else { usize::MAX };
    let over = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let st = Stream {
        all: Arc::new(all),
        at: c.offset,
        end,
        fail_at,
        over: over.clone(),
    };
    let r = run::<Pt<P, 2>, _>(s, c, st)?;
    s.label("streaming source");
    let o = over.load(std::sync::atomic::Ordering::SeqCst);
    ensure!(o == 0, "the source was asked for {} elements more than there are dense positions", o);
    if fail {
        s.label("source fails");
        // does a nonzero exponent need the failing element?
        let mut at = c.offset;
        let mut needed = false;
        for i in 0..c.exps.len() {
            if c.dense(i) {
                if at == fail_at && !c.exps[i].is_zero_vartime() {
                    needed = true;
                }
                at += 1;
            }
        }
        if needed {
            ensure!(r.is_err(), "the error of the source was swallowed");
            s.nontrivial();
            return Ok(());
        }
        if r.is_err() {
            return Ok(());
        }
    }
    verdict::<Pt<P, 2>>(s, c, r)
}

fn c10_mock(s: &mut Src) -> R {
    me::<GOLD>(s, 420, false)
}
fn c10_fields(s: &mut Src) -> R {
    match s.below(8) {
        0 => me::<3>(s, 60, false),
        1 => me::<5>(s, 60, false),
        2 => me::<7>(s, 160, false),
        3 => me::<17>(s, 160, false),
        4 => me::<257>(s, 160, false),
        5 => me::<65537>(s, 160, false),
        6 => me::<P31>(s, 160, false),
        _ => me::<P61>(s, 420, false),
    }
}
fn c10_large(s: &mut Src) -> R {
    me::<GOLD>(s, 9000, true)
}

fn c10_huge(s: &mut Src) -> R {
    me::<GOLD>(s, 200000, true)
}

/// Exponents of 255 bits.
fn me_wide(s: &mut Src, max: usize, bulk: bool) -> R {
    let c = gen::<BlsFr>(s, max, bulk);
    note(s, &c);
    let off = c.offset;
    let b = Arc::new(c.bases.iter().map(|x| Wt::<2>(*x)).collect::<Vec<_>>());
    let r = run::<Wt<2>, _>(s, &c, (b, off))?;
    verdict::<Wt<2>>(s, &c, r)
}
fn c10_wide(s: &mut Src) -> R {
    me_wide(s, 420, false)
}
fn c10_wide_large(s: &mut Src) -> R {
    me_wide(s, 12000, true)
}

fn pool_g1() -> &'static Vec<G1Affine> {
    static P: std::sync::Mutex<Option<&'static Vec<G1Affine>>> = std::sync::Mutex::new(None);
    let mut g = P.lock().unwrap();
    g.get_or_insert_with(|| {
        let mut v = vec![];
        let mut acc = G1Projective::generator();
        for _ in 0..700 {
            v.push(acc);
            acc += G1Projective::generator();
        }
        let mut o = vec![G1Affine::identity(); v.len()];
        <G1Projective as group::Curve>::batch_normalize(&v, &mut o);
        Box::leak(Box::new(o))
    })
}
fn pool_g2() -> &'static Vec<G2Affine> {
    static P: std::sync::Mutex<Option<&'static Vec<G2Affine>>> = std::sync::Mutex::new(None);
    let mut g = P.lock().unwrap();
    g.get_or_insert_with(|| {
        let mut v = vec![];
        let mut acc = G2Projective::generator();
        for _ in 0..700 {
            v.push(acc);
            acc += G2Projective::generator();
        }
        let mut o = vec![G2Affine::identity(); v.len()];
        <G2Projective as group::Curve>::batch_normalize(&v, &mut o);
        Box::leak(Box::new(o))
    })
}

fn c10_bls(s: &mut Src) -> R {
    let mut c = gen::<BlsFr>(s, 420, true);
    let mut logs = vec![];
    for b in c.bases.iter_mut() {
        if bool::from(b.is_zero()) {
            logs.push(0);
        } else {
            let k = 1 + (b.to_repr()[0] as usize + b.to_repr()[1] as usize) % 700;
            logs.push(k);
            *b = BlsFr::from(k as u64);
        }
    }
    note(s, &c);
    if s.bool() {
        let p = pool_g1();
        let b: Vec<G1Affine> = logs.iter().map(|k| if *k == 0 { <G1Affine as PrimeCurveAffine>::identity() } else { p[*k - 1] }).collect();
        let off = c.offset;
        let r = run::<<Bls12 as Engine>::G1, _>(s, &c, (Arc::new(b), off))?;
        verdict::<G1Projective>(s, &c, r)
    } else {
        let p = pool_g2();
        let b: Vec<G2Affine> = logs.iter().map(|k| if *k == 0 { <G2Affine as PrimeCurveAffine>::identity() } else { p[*k - 1] }).collect();
        let off = c.offset;
        let r = run::<<Bls12 as Engine>::G2, _>(s, &c, (Arc::new(b), off))?;
        verdict::<G2Projective>(s, &c, r)
    }
}

/// The in-memory base source against a cursor over a list.
fn c10_source(s: &mut Src) -> R {
    type G = Pt<GOLD, 1>;
    let n = s.skewed(0, 30);
    let v: Vec<G> = (0..n)
        .map(|_| if s.chance(1, 6) { Pt(Fp::ZERO) } else { Pt(Fp::new(s.range(1, 1000))) })
        .collect();
    let mut at = if s.bool() { s.size(0, n + 2) } else { 0 };
    let b = (Arc::new(v.clone()), at);
    let copies = s.bool();
    let mut src = if copies { b.clone().build() } else { b.build() };
    let ops = s.size(1, 20);
    for _ in 0..ops {
        if s.bool() {
            match src.next() {
                Ok(g) => {
                    ensure!(at < n, "an element past the end");
                    ensure!(v[at].0 != Fp::ZERO, "the identity was handed out");
                    ensure_eq!(*g, v[at], "element {}", at);
                    at += 1;
                }
                Err(SynthesisError::UnexpectedIdentity) => {
                    ensure!(at < n && v[at].0 == Fp::ZERO, "identity reported at {}", at);
                    break;
                }
                Err(e) => {
                    ensure!(at >= n, "element {} is there but: {:?}", at, e);
                    match e {
                        SynthesisError::IoError(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => {}
                        e => return Err(format!("end of the source reported as {:?}", e)),
                    }
                    break;
                }
            }
        } else {
            let k = s.skewed(0, 8);
            match src.skip(k) {
                Ok(()) => {
                    ensure!(at < n || k == 0, "skipped {} elements at the end", k);
                    at += k;
                }
                Err(e) => {
                    ensure!(at + k > n || at >= n, "{} elements can be skipped at {} of {} but: {:?}", k, at, n, e);
                    break;
                }
            }
        }
    }
    s.nontrivial_if(n > 1);
    Ok(())
}

// ------------------------------------------------------------------- C11

/// Direct transform: `out[k] = sum a[i] w^(ik)`.
fn dft<F: PrimeField>(a: &[F], w: F) -> Vec<F> {
    let n = a.len();
    let mut pw = Vec::with_capacity(n);
    let mut x = F::ONE;
    for _ in 0..n {
        pw.push(x);
        x *= w;
    }
    (0..n)
        .map(|k| {
            let mut t = F::ZERO;
            for i in 0..n {
                t += a[i] * pw[(i * k) % n];
            }
            t
        })
        .collect()
}

struct Ref<F> {
    m: usize,
    w: F,
    g: F,
}
impl<F: PrimeField> Ref<F> {
    fn new(len: usize) -> Self {
        let m = len.next_power_of_two();
        let e = m.trailing_zeros();
        let mut w = F::ROOT_OF_UNITY;
        for _ in e..F::S {
            w = w.square();
        }
        Ref {
            m,
            w,
            g: F::MULTIPLICATIVE_GENERATOR,
        }
    }
    fn powers(&self, a: &mut [F], g: F) {
        let mut x = F::ONE;
        for v in a.iter_mut() {
            *v *= x;
            x *= g;
        }
    }
    fn fft(&self, a: &mut Vec<F>) {
        *a = dft(a, self.w);
    }
    fn ifft(&self, a: &mut Vec<F>) {
        *a = dft(a, self.w.invert().unwrap());
        let mi = F::from(self.m as u64).invert().unwrap();
        for v in a.iter_mut() {
            *v *= mi;
        }
    }
    fn z(&self, t: F) -> F {
        let mut x = F::ONE;
        for _ in 0..self.m {
            x *= t;
        }
        x - F::ONE
    }
}

trait Elem<F: PrimeField>: DGroup<F> + PartialEq {
    fn of(f: F) -> Self;
}
impl<F: PrimeField> Elem<F> for Scalar<F> {
    fn of(f: F) -> Self {
        Scalar(f)
    }
}
impl<const P: u64> Elem<Fp<P>> for Point<Pt<P, 1>> {
    fn of(f: Fp<P>) -> Self {
        Point(Pt(f))
    }
}

fn val<F: PrimeField>(s: &mut Src) -> F {
    if s.bool() {
        scalar::<F>(s)
    } else {
        wide::<F>(s)
    }
}

/// A history of operations on one domain against direct polynomial arithmetic.
fn history<F: PrimeField, T: Elem<F>>(s: &mut Src, max: usize, ops: usize) -> R {
    let w = Worker::new();
    let len = if s.chance(1, 3) {
        // powers of two and their neighbours
        ((1usize << s.draw(usize::BITS as u64 - 1 - max.leading_zeros() as u64)) + s.below(3)).saturating_sub(1)
    } else {
        s.skewed(0, max)
    }
    .min(max);
    let mut rng = s.rng();
    let style = s.draw(3);
    let mut a: Vec<F> = (0..len)
        .map(|i| match style {
            0 => val(s),
            1 => F::random(&mut rng),
            2 => F::from((i == len / 2) as u64),
            _ => F::from((rng.next() % 3) as u64),
        })
        .collect();
    let m = len.max(1).next_power_of_two();
    let lim = if F::S >= 63 { usize::MAX } else { 1usize << F::S };
    let r = no_panic(|| EvaluationDomain::<F, T>::from_coeffs(a.iter().map(|x| T::of(*x)).collect()))
        .map_err(|e| format!("from_coeffs panicked: {}", e))?;
    let mut d = match r {
        Ok(d) => {
            ensure!(m <= lim, "{} coefficients accepted by a field with only {} roots of unity", len, lim);
            d
        }
        Err(e) => {
            ensure!(matches!(e, SynthesisError::PolynomialDegreeTooLarge), "refused with {:?}", e);
            ensure!(m * 2 > lim, "{} coefficients refused by a field with {} roots of unity", len, lim);
            s.label("refused: no large enough domain");
            s.nontrivial();
            return Ok(());
        }
    };
    let rf = Ref::<F>::new(len.max(1));
    a.resize(m, F::ZERO);
    if m != len {
        s.label("padded to a power of two");
    }
    s.label(match m {
        1 => "domain of size 1",
        2..=4 => "domain of size 2 or 4",
        5..=32 => "domain of size 8 to 32",
        _ => "larger domain",
    });
    let same = |d: &EvaluationDomain<F, T>, a: &[F], what: &str| -> R {
        ensure!(d.as_ref().len() == a.len(), "{}: {} coefficients", what, d.as_ref().len());
        for (i, (x, y)) in d.as_ref().iter().zip(a).enumerate() {
            ensure!(*x == T::of(*y), "{}: coefficient {} of {} is wrong", what, i, a.len());
        }
        Ok(())
    };
    same(&d, &a, "from_coeffs")?;
    let mut trace: Vec<&'static str> = vec![];
    for _ in 0..ops {
        let k = s.below(11);
        let what = match k {
            0 => {
                d.fft(&w);
                rf.fft(&mut a);
                "fft"
            }
            1 => {
                d.ifft(&w);
                rf.ifft(&mut a);
                "ifft"
            }
            2 => {
                d.coset_fft(&w);
                rf.powers(&mut a, rf.g);
                rf.fft(&mut a);
                "coset_fft"
            }
            3 => {
                d.icoset_fft(&w);
                rf.ifft(&mut a);
                let gi = rf.g.invert().unwrap();
                rf.powers(&mut a, gi);
                "icoset_fft"
            }
            4 => {
                let g = val::<F>(s);
                d.distribute_powers(&w, g);
                rf.powers(&mut a, g);
                "distribute_powers"
            }
            5 => {
                let b: Vec<F> = (0..m).map(|_| F::random(&mut rng)).collect();
                let o = EvaluationDomain::<F, Scalar<F>>::from_coeffs(b.iter().map(|x| Scalar(*x)).collect()).map_err(|e| e.to_string())?;
                d.mul_assign(&w, &o);
                for (x, y) in a.iter_mut().zip(&b) {
                    *x *= *y;
                }
                "mul_assign"
            }
            6 => {
                let b: Vec<F> = (0..m).map(|_| F::from(rng.next() % 1000)).collect();
                let o = EvaluationDomain::<F, T>::from_coeffs(b.iter().map(|x| T::of(*x)).collect()).map_err(|e| e.to_string())?;
                d.sub_assign(&w, &o);
                for (x, y) in a.iter_mut().zip(&b) {
                    *x -= *y;
                }
                "sub_assign"
            }
            7 => {
                let z = rf.z(rf.g);
                if bool::from(z.is_zero()) {
                    // the generator of the multiplicative group lies in the
                    // domain only if the domain is the whole group
                    continue;
                }
                d.divide_by_z_on_coset(&w);
                let zi = z.invert().unwrap();
                for x in a.iter_mut() {
                    *x *= zi;
                }
                "divide_by_z_on_coset"
            }
            8 => {
                let t = val::<F>(s);
                ensure_eq!(d.z(&t), rf.z(t), "z");
                "z"
            }
            9 => {
                // change a coefficient in place
                let i = s.below(m);
                let v = val::<F>(s);
                d.as_mut()[i] = T::of(v);
                a[i] = v;
                "as_mut"
            }
            _ => {
                let (inv, first) = (s.bool(), d.as_ref().to_vec());
                match s.below(2) {
                    0 if inv => {
                        d.ifft(&w);
                        d.fft(&w);
                    }
                    0 => {
                        d.fft(&w);
                        d.ifft(&w);
                    }
                    _ if inv => {
                        d.icoset_fft(&w);
                        d.coset_fft(&w);
                    }
                    _ => {
                        d.coset_fft(&w);
                        d.icoset_fft(&w);
                    }
                }
                ensure!(d.as_ref().iter().zip(&first).all(|(x, y)| x == y), "inverse does not undo the transform");
                "there and back"
            }
        };
        trace.push(what);
        same(&d, &a, what)?;
    }
    let out = d.into_coeffs();
    ensure!(out.len() == m && out.iter().zip(&a).all(|(x, y)| *x == T::of(*y)), "into_coeffs");
    s.note(|| format!("{} coefficients, domain {}, operations {:?}", len, m, trace));
    s.nontrivial_if(m > 1);
    Ok(())
}

fn c11_fields(s: &mut Src) -> R {
    match s.below(8) {
        0 => history::<Fp<PS4>, Scalar<Fp<PS4>>>(s, 20, 4),
        1 => history::<Fp<PS6>, Scalar<Fp<PS6>>>(s, 70, 4),
        2 => history::<Fp<PS9>, Scalar<Fp<PS9>>>(s, 300, 3),
        3 => history::<Fp<17>, Scalar<Fp<17>>>(s, 20, 6),
        4 => history::<Fp<97>, Scalar<Fp<97>>>(s, 40, 4),
        5 => history::<Fp<7>, Scalar<Fp<7>>>(s, 6, 6),
        6 => history::<Fp<257>, Scalar<Fp<257>>>(s, 200, 3),
        _ => history::<Fp<P31>, Scalar<Fp<P31>>>(s, 6, 4),
    }
}
fn c11_scalar(s: &mut Src) -> R {
    history::<Fp<GOLD>, Scalar<Fp<GOLD>>>(s, 130, 4)
}
fn c11_point(s: &mut Src) -> R {
    match s.below(3) {
        0 => history::<Fp<GOLD>, Point<Pt<GOLD, 1>>>(s, 130, 4),
        1 => history::<Fp<PS4>, Point<Pt<PS4, 1>>>(s, 20, 5),
        _ => history::<Fp<PS6>, Point<Pt<PS6, 1>>>(s, 70, 4),
    }
}
fn c11_bls(s: &mut Src) -> R {
    history::<BlsFr, Scalar<BlsFr>>(s, 70, 4)
}

/// Larger domains: selected outputs evaluated directly, and multiplication of
/// polynomials compared at random points.
fn sized<F: PrimeField>(s: &mut Src, lo: u64, hi: u64) -> R {
    let w = Worker::new();
    let log = s.range(lo, hi);
    let m = 1usize << log;
    let len = if s.bool() { m } else { s.size(m / 2 + 1, m) };
    let mut rng = s.rng();
    let mut a: Vec<F> = (0..len).map(|_| F::random(&mut rng)).collect();
    a.resize(m, F::ZERO);
    let rf = Ref::<F>::new(m);
    let dom = |v: &[F]| EvaluationDomain::<F, Scalar<F>>::from_coeffs(v.iter().map(|x| Scalar(*x)).collect()).map_err(|e| e.to_string());
    let horner = |c: &[F], x: F| c.iter().rev().fold(F::ZERO, |t, c| t * x + *c);
    let coset = s.bool();
    let mut d = dom(&a[..len])?;
    if coset {
        d.coset_fft(&w);
    } else {
        d.fft(&w);
    }
    let g = if coset { rf.g } else { F::ONE };
    for _ in 0..6 {
        let k = match s.below(4) {
            0 => 0,
            1 => m - 1,
            _ => s.below(m),
        };
        let x = g * rf.w.pow_vartime([k as u64]);
        ensure_eq!(d.as_ref()[k].0, horner(&a, x), "value {} of the transform of {} coefficients, coset {}", k, m, coset);
    }
    if coset {
        d.icoset_fft(&w);
    } else {
        d.ifft(&w);
    }
    ensure!(d.as_ref().iter().zip(&a).all(|(x, y)| x.0 == *y), "the inverse transform does not undo the transform");
    // product of two polynomials of degree < m/2, and exact division by z
    let mut p = a.clone();
    let mut q: Vec<F> = (0..m).map(|_| F::random(&mut rng)).collect();
    for i in m / 2..m {
        p[i] = F::ZERO;
        q[i] = F::ZERO;
    }
    let (mut dp, mut dq) = (dom(&p)?, dom(&q)?);
    dp.fft(&w);
    dq.fft(&w);
    dp.mul_assign(&w, &dq);
    dp.ifft(&w);
    let prod: Vec<F> = dp.into_coeffs().into_iter().map(|x| x.0).collect();
    let x = F::random(&mut rng);
    ensure_eq!(horner(&prod, x), horner(&p, x) * horner(&q, x), "product");
    // (p q) on the coset, divided by z, is the evaluation of pq/z
    let mut dd = dom(&prod)?;
    dd.coset_fft(&w);
    dd.divide_by_z_on_coset(&w);
    let k = s.below(m);
    let pt = rf.g * rf.w.pow_vartime([k as u64]);
    ensure_eq!(dd.as_ref()[k].0 * rf.z(pt), horner(&prod, pt), "quotient on the coset");
    s.nontrivial();
    // the other operations, at selected places
    let t = F::random(&mut rng);
    let mut zt = t;
    for _ in 0..log {
        zt = zt.square();
    }
    let mut d = dom(&a)?;
    ensure_eq!(d.z(&t), zt - F::ONE, "z");
    d.distribute_powers(&w, t);
    let dq = dom(&q)?;
    d.sub_assign(&w, &dq);
    d.mul_assign(&w, &dom(&p)?);
    let out = d.into_coeffs();
    for _ in 0..32 {
        let i = match s.below(4) {
            0 => m / 2 - 1 - s.below(m / 2),
            1 => s.below(m / 2),
            _ => s.skewed(0, m / 2 - 1),
        };
        ensure_eq!(out[i].0, (a[i] * t.pow_vartime([i as u64]) - q[i]) * p[i], "distribute_powers, sub_assign, mul_assign at {}", i);
    }
    let tp = {
        // all places at once: the powers are those of t exactly
        let mut x = F::ONE;
        let mut ok = true;
        for i in 0..m {
            ok &= out[i].0 == (a[i] * x - q[i]) * p[i];
            x *= t;
        }
        ok
    };
    ensure!(tp, "distribute_powers, sub_assign or mul_assign is wrong somewhere");
    s.note(|| format!("{} coefficients in a domain of {}, coset {}", len, m, coset));
    Ok(())
}
fn c11_large(s: &mut Src) -> R {
    sized::<Fp<GOLD>>(s, 5, 12)
}
fn c11_huge(s: &mut Src) -> R {
    sized::<Fp<GOLD>>(s, 13, 20)
}
fn c11_bls_large(s: &mut Src) -> R {
    sized::<BlsFr>(s, 7, 16)
}

fn main() {
    vph::runner::main(vec![
        Prop {
            id: "C10",
            rule: "at least one dense exponent (for the source model: at least two elements)",
            assumptions: &["the exponent group of the mock engine and the group law of bls12_381 are right", "callers pass a density map of the same length as the exponents (documented precondition)"],
            threads: THREADS,
            subs: vec![
                sub("mock", 60000, 1500000, c10_mock),
                sub("fields", 80000, 1500000, c10_fields),
                sub("large", 12000, 300000, c10_large),
                sub("huge", 480, 8000, c10_huge),
                sub("wide", 16000, 400000, c10_wide),
                sub("wide-large", 2400, 40000, c10_wide_large),
                sub("bls", 1500, 40000, c10_bls),
                sub("source", 200000, 3000000, c10_source),
            ],
        },
        Prop {
            id: "C11",
            rule: "the domain has more than one element, or the vector is refused",
            assumptions: &["the evaluation domain of size 2^k is generated by the 2^(S-k)-th power of the field's root of unity"],
            threads: THREADS_MT,
            subs: vec![
                sub("scalar", 60000, 1500000, c11_scalar),
                sub("fields", 120000, 2000000, c11_fields),
                sub("point", 40000, 800000, c11_point),
                sub("bls", 3000, 60000, c11_bls),
                sub("large", 6000, 120000, c11_large),
                sub("huge", 64, 2000, c11_huge),
                sub("bls-large", 64, 1200, c11_bls_large),
            ],
        },
    ])
}

