//! C06 batch verification.

use bellman::VerificationError;
use bls12_381::Bls12;
use ff::{Field, PrimeField};
use group::Curve;
use group::Group;
use groth16::batch::{Item, Verifier};
use groth16::*;
use pairing::{Engine, MultiMillerLoop};
use rand_core::{CryptoRng, RngCore};
use std::ops::AddAssign;
use vph::circ::{nonzero, scalar};
use vph::engine::*;
use vph::fp::*;
use vph::mock::Mock;
use vph::wide::{record, Wide};
use vph::runner::*;
use vph::{ensure, ensure_eq};

fn g1<E: Engine>(e: E::Fr) -> E::G1Affine {
    (E::G1::generator() * e).to_affine()
}
fn g2<E: Engine>(e: E::Fr) -> E::G2Affine {
    (E::G2::generator() * e).to_affine()
}

/// Random bytes, optionally preceded by some zero bytes (a weight drawn from
/// zero bytes would be zero).
struct Scripted {
    zeros: usize,
    rng: Rng,
    drawn: usize,
}
impl RngCore for Scripted {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            self.drawn += 1;
            *x = if self.zeros > 0 {
                self.zeros -= 1;
                0
            } else {
                self.rng.next() as u8
            };
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Scripted {}

/// A key with known logarithms: alpha, beta, gamma, delta, ic.
struct Key<F> {
    al: F,
    be: F,
    ga: F,
    de: F,
    ic: Vec<F>,
}
/// A proof with known logarithms.  `err` is by how much the pairing equation
/// is off.
#[derive(Clone, Debug)]
struct Pf<F> {
    a: F,
    b: F,
    c: F,
    x: Vec<F>,
}

impl<F: PrimeField> Key<F> {
    fn gen(s: &mut Src) -> Self {
        let n = if s.chance(1, 60) { s.skewed(6, 300) } else { s.skewed(0, 5) };
        // any key: also degenerate ones, as long as there are valid proofs
        let odd = s.chance(1, 8);
        let el = |s: &mut Src| if odd { scalar(s) } else { nonzero(s) };
        Key {
            al: el(s),
            be: el(s),
            ga: el(s),
            de: nonzero(s),
            ic: (0..n + 1).map(|_| el(s)).collect(),
        }
    }
    fn vk<E: Engine<Fr = F>>(&self) -> VerifyingKey<E> {
        VerifyingKey {
            alpha_g1: g1::<E>(self.al),
            beta_g1: g1::<E>(self.be),
            beta_g2: g2::<E>(self.be),
            gamma_g2: g2::<E>(self.ga),
            delta_g1: g1::<E>(self.de),
            delta_g2: g2::<E>(self.de),
            ic: self.ic.iter().map(|x| g1::<E>(*x)).collect(),
        }
    }
    fn err(&self, p: &Pf<F>) -> F {
        let mut acc = self.ic[0];
        for (x, i) in p.x.iter().zip(&self.ic[1..]) {
            acc += *x * i;
        }
        p.a * p.b - self.al * self.be - acc * self.ga - p.c * self.de
    }
    /// A proof whose equation is off by `e`.
    fn proof(&self, s: &mut Src, x: Vec<F>, e: F) -> Pf<F> {
        let (a, b) = (scalar::<F>(s), scalar::<F>(s));
        let mut p = Pf { a, b, c: F::ZERO, x };
        let r = self.err(&p) - e;
        p.c = r * self.de.invert().unwrap();
        p
    }
}

fn proof<E: Engine>(p: &Pf<E::Fr>) -> Proof<E> {
    Proof {
        a: g1::<E>(p.a),
        b: g2::<E>(p.b),
        c: g1::<E>(p.c),
    }
}

fn batch<E>(s: &mut Src, max: usize) -> R
where
    E: MultiMillerLoop,
    E::G1: AddAssign<E::G1>,
{
    let key = Key::<E::Fr>::gen(s);
    let vk = key.vk::<E>();
    let nin = key.ic.len() - 1;
    let n = match s.weighted(&[160, 80, 40, 1]) {
        3 => s.skewed(0, max * 12),
        0 => s.skewed(0, max),
        // around the chunk size of the multi-threaded variant
        1 => (*s.pick(&[7usize, 8, 9, 15, 16, 17, 23, 24, 25])).min(max),
        _ => s.skewed(0, 3),
    };
    let inputs = |s: &mut Src| -> Vec<E::Fr> { (0..nin).map(|_| scalar(s)).collect() };
    let mut items: Vec<Pf<E::Fr>> = vec![];
    for _ in 0..n {
        let x = inputs(s);
        let p = if !items.is_empty() && s.chance(1, 8) {
            s.pick(&items).clone()
        } else {
            key.proof(s, x, E::Fr::ZERO)
        };
        items.push(p);
    }
    // what is wrong with the batch
    let kind = if n == 0 { 0 } else { s.weighted(&[5, 3, 4, 2, 2, 2]) };
    let mut arity = false;
    match kind {
        0 => {}
        1 => {
            let i = s.below(n);
            let (x, e) = (inputs(s), nonzero(s));
            items[i] = key.proof(s, x, e);
            s.label("one invalid proof");
        }
        2 if n > 1 => {
            // errors that cancel under guessable weights
            let i = s.below(n);
            let mut j = s.below(n - 1);
            if j >= i {
                j += 1;
            }
            let e = nonzero::<E::Fr>(s);
            let (wi, wj) = match s.below(7) {
                6 => {
                    // any two weights of few bits
                    let b = s.range(1, 12);
                    (E::Fr::from(s.range(1, 1 << b)), E::Fr::from(s.range(1, 1 << b)))
                }
                0 => (E::Fr::ONE, E::Fr::ONE),
                1 => (E::Fr::from(i as u64 + 1), E::Fr::from(j as u64 + 1)),
                2 => (E::Fr::from(i as u64 % 8 + 1), E::Fr::from(j as u64 % 8 + 1)),
                3 => (E::Fr::from(2).pow_vartime([i as u64]), E::Fr::from(2).pow_vartime([j as u64])),
                4 => (E::Fr::from(n as u64 - i as u64), E::Fr::from(n as u64 - j as u64)),
                _ => (E::Fr::ONE, -E::Fr::ONE),
            };
            let (xi, xj) = (inputs(s), inputs(s));
            items[i] = key.proof(s, xi, e * wj);
            items[j] = key.proof(s, xj, -e * wi);
            s.label("cancelling pair of invalid proofs");
            s.label(if i / 8 == j / 8 { "pair in one chunk" } else { "pair across chunks" });
        }
        3 => {
            for p in items.iter_mut() {
                let (x, e) = (inputs(s), nonzero(s));
                *p = key.proof(s, x, e);
            }
            s.label("all proofs invalid");
        }
        5 if n > 1 => {
            // an item that has something in common with another, not everything
            let i = s.below(n);
            let mut j = s.below(n - 1);
            if j >= i {
                j += 1;
            }
            let mut p = items[i].clone();
            match s.below(5) {
                0 | 1 if nin > 0 => {
                    let k = s.below(nin);
                    p.x[k] += nonzero::<E::Fr>(s);
                    if s.chance(1, 4) {
                        let k = s.below(nin);
                        p.x[k] -= nonzero::<E::Fr>(s);
                    }
                }
                2 => p.a += nonzero::<E::Fr>(s),
                3 => p.b += nonzero::<E::Fr>(s),
                _ => p.c += nonzero::<E::Fr>(s),
            }
            items[j] = p;
            s.label("an item like another");
        }
        _ => {
            // several items, also such that the total is right
            let bad = if s.bool() { 1 } else { s.size(1, n.min(4)) };
            let mut at: Vec<usize> = (0..bad).map(|_| s.below(n)).collect();
            at.sort_unstable();
            at.dedup();
            let k = s.size(1, 2);
            let up = s.bool();
            for (j, i) in at.iter().enumerate() {
                let p = &mut items[*i];
                if (j % 2 == 0) == up || p.x.is_empty() {
                    for _ in 0..k {
                        let v = if s.bool() { E::Fr::ZERO } else { scalar(s) };
                        p.x.push(v);
                    }
                } else {
                    let k = k.min(p.x.len());
                    p.x.truncate(p.x.len() - k);
                }
            }
            if at.len() > 1 {
                s.label("several wrong numbers of inputs");
            }
            arity = true;
            s.label("wrong number of inputs");
        }
    }
    let good = items.iter().all(|p| p.x.len() == nin && bool::from(key.err(p).is_zero()));
    s.label(match n {
        0 => "empty batch",
        1 => "one item",
        2..=8 => "2 to 8 items",
        9..=100 => "9 to 100 items",
        _ => "more than 100 items",
    });
    s.label(if good { "valid batch" } else { "invalid batch" });
    s.note(|| format!("{} items, {} inputs each, {} invalid", n, nin, items.iter().filter(|p| p.x.len() != nin || !bool::from(key.err(p).is_zero())).count()));

    // single verification of every item
    let pvk = prepare_verifying_key(&vk);
    let all: Vec<Item<E>> = items
        .iter()
        .map(|p| {
            let pf = proof::<E>(p);
            if s.bool() {
                (pf, p.x.clone()).into()
            } else {
                (&pf, &p.x[..]).into()
            }
        })
        .collect();
    let few = n <= 4 || E::Fr::NUM_BITS <= 64;
    if few {
        for (i, (it, p)) in all.iter().zip(&items).enumerate() {
            let r = it.clone().verify_single(&pvk);
            if p.x.len() != nin {
                ensure!(matches!(r, Err(VerificationError::InvalidVerifyingKey)), "item {}: {:?} for a wrong number of inputs", i, r);
            } else if bool::from(key.err(p).is_zero()) {
                ensure!(r.is_ok(), "item {} is valid but verify_single says {:?}", i, r);
            } else {
                ensure!(matches!(r, Err(VerificationError::InvalidProof)), "item {} is invalid but verify_single says {:?}", i, r);
            }
        }
    }
    let judge = |what: &str, r: Result<(), VerificationError>| -> R {
        if arity {
            ensure!(matches!(r, Err(VerificationError::InvalidVerifyingKey)), "{}: {:?} although an item has a wrong number of inputs", what, r);
        } else if good {
            ensure!(r.is_ok(), "{}: {:?} for {} valid proofs", what, r, n);
        } else {
            ensure!(matches!(r, Err(VerificationError::InvalidProof)), "{}: {:?} although a proof is invalid", what, r);
        }
        Ok(())
    };
    let mk = |s: &mut Src| -> Verifier<E> {
        let mut v = if s.bool() { Verifier::new() } else { Verifier::default() };
        for it in &all {
            v.queue(it.clone());
        }
        v
    };
    let zeros = if s.chance(1, 3) { s.size(1, 200) } else { 0 };
    if zeros > 0 {
        s.label("random stream starts with zeros");
    }
    let mut rng = Scripted {
        zeros,
        rng: s.rng(),
        drawn: 0,
    };
    let v = mk(s);
    let r = no_panic(|| v.verify(&mut rng, &vk)).map_err(|e| format!("verify panicked: {}", e))?;
    judge("verify", r)?;
    let mut distinct: Vec<_> = items.iter().map(|p| format!("{:?}", p)).collect();
    distinct.sort_unstable();
    distinct.dedup();
    if distinct.len() >= 2 && !arity && E::Fr::NUM_BITS >= 128 {
        // Fewer random bits than this and a batch of invalid proofs gets
        // through with a probability that is not negligible.
        ensure!(rng.drawn >= 15 + zeros, "weights for {} proofs were drawn from {} random bytes only", n, rng.drawn - zeros.min(rng.drawn));
        s.label("entropy of the weights");
    }
    #[cfg(feature = "mm")]
    {
        let v = mk(s);
        let r = no_panic(|| v.verify_multicore(&vk)).map_err(|e| format!("verify_multicore panicked: {}", e))?;
        judge("verify_multicore", r)?;
        s.label("verify_multicore");
    }
    if s.chance(1, 50) {
        // a key without any element for inputs fits no item, and every empty batch
        let k = VerifyingKey::<E> { ic: vec![], ..vk };
        for (n, v) in [(n, mk(s)), (0, Verifier::new())] {
            let r = no_panic(|| v.verify(s.rng(), &k)).map_err(|e| format!("verify panicked: {}", e))?;
            match r {
                Ok(()) if n == 0 => {}
                Err(VerificationError::InvalidVerifyingKey) if n > 0 => {}
                r => return Err(format!("{:?} for {} items and a key with an empty list", r, n)),
            }
        }
        #[cfg(feature = "mm")]
        for (n, v) in [(n, mk(s)), (0, Verifier::new())] {
            let r = no_panic(|| v.verify_multicore(&k)).map_err(|e| format!("verify_multicore panicked: {}", e))?;
            match r {
                Ok(()) if n == 0 => {}
                Err(VerificationError::InvalidVerifyingKey) if n > 0 => {}
                r => return Err(format!("multicore: {:?} for {} items and a key with an empty list", r, n)),
            }
        }
        s.label("key without input elements");
    }
    s.nontrivial_if(n > 0);
    Ok(())
}
/// Keys for hundreds to 65536 and more public inputs; numbers of inputs that
/// are wrong by a power of two; changes far apart.
fn c06_many(s: &mut Src) -> R {
    type E = Mock<GOLD>;
    type X = Fp<GOLD>;
    let nin = match s.weighted(&[6, 3, 2]) {
        0 => *s.pick(&[255usize, 256, 257, 511, 512, 513]),
        1 => 256 * s.size(1, 40) + s.below(3) - 1,
        _ => 65536 + s.below(600) - 300,
    };
    let n = s.size(1, if nin > 1000 { 3 } else { 12 });
    let mut rng = s.rng();
    let mut el = || X::random(&mut rng);
    let key = Key::<X> { al: el(), be: el(), ga: el(), de: el(), ic: (0..=nin).map(|_| el()).collect() };
    if key.de.is_zero_vartime() || key.ga.is_zero_vartime() {
        return Ok(());
    }
    let inv = key.de.invert().unwrap();
    let mut items: Vec<Pf<X>> = (0..n)
        .map(|_| {
            let mut p = Pf { a: el(), b: el(), c: X::ZERO, x: (0..nin).map(|_| el()).collect() };
            p.c = key.err(&p) * inv;
            p
        })
        .collect();
    let kind = s.below(4);
    let at = s.below(n);
    let i = s.below(nin);
    let d = *s.pick(&[1usize, 255, 256, 65535, 65536]);
    let e = el();
    match kind {
        0 => {}
        1 => items[at].x[i] += e,
        2 => {
            items[at].x[i] += e;
            items[at].x[(i + d) % nin] -= e;
        }
        _ => {
            let d = *s.pick(&[256usize, 512, 4096, 65536]);
            let k = if s.bool() && d <= nin { nin - d } else { nin + d };
            items[at].x.resize(k, X::ZERO);
        }
    }
    let arity = items.iter().any(|p| p.x.len() != nin);
    let good = items.iter().all(|p| p.x.len() == nin && bool::from(key.err(p).is_zero()));
    s.note(|| format!("{} items with {} inputs, change {} in item {} at {}, {}", n, nin, kind, at, i, d));
    s.label(if arity { "wrong number of inputs" } else if good { "valid batch" } else { "invalid batch" });
    s.nontrivial();
    let vk = key.vk::<E>();
    let mut v = Verifier::<E>::new();
    #[cfg(feature = "mm")]
    let mut v2 = Verifier::<E>::new();
    for p in &items {
        #[cfg(feature = "mm")]
        v2.queue((proof::<E>(p), p.x.clone()));
        v.queue((proof::<E>(p), p.x.clone()));
    }
    let judge = |what: &str, r: Result<(), VerificationError>| match r {
        Ok(()) if good => Ok(()),
        Err(VerificationError::InvalidVerifyingKey) if arity => Ok(()),
        Err(VerificationError::InvalidProof) if !arity && !good => Ok(()),
        r => Err(format!("{}: {:?}; valid: {}, wrong number of inputs: {}", what, r, good, arity)),
    };
    let mut rng = Scripted { zeros: 0, rng: s.rng(), drawn: 0 };
    judge("verify", no_panic(|| v.verify(&mut rng, &vk))?)?;
    #[cfg(feature = "mm")]
    judge("verify_multicore", no_panic(|| v2.verify_multicore(&vk))?)?;
    Ok(())
}
fn c06_mock(s: &mut Src) -> R {
    batch::<Mock<GOLD>>(s, 60)
}
fn c06_wide(s: &mut Src) -> R {
    batch::<Wide>(s, 40)
}

/// Weights of few bits let a batch of invalid proofs through with noticeable
/// probability.  On the transparent engine the weights can be read off the
/// terms of the Miller loop; they should have at least about 128 bits (the
/// limit here leaves a margin of 2^-32).  One proof may go unweighted.
fn c06_width(s: &mut Src) -> R {
    type F = bls12_381::Scalar;
    let w = |s: &mut Src| F::random(s.rng());
    let n = s.size(2, 24);
    let nin = s.skewed(0, 3);
    let key = Key::<F> {
        al: w(s),
        be: w(s),
        ga: w(s),
        de: w(s),
        ic: (0..nin + 1).map(|_| w(s)).collect(),
    };
    let vk = key.vk::<Wide>();
    let q = w(s);
    let qi = q.invert().unwrap();
    let mut v = Verifier::<Wide>::new();
    #[cfg(feature = "mm")]
    let mut v2 = Verifier::<Wide>::new();
    for _ in 0..n {
        // the same A * B in all
        let a = w(s);
        let mut p = Pf { a, b: q * a.invert().unwrap(), c: F::ZERO, x: (0..nin).map(|_| w(s)).collect() };
        p.c = key.err(&p) * key.de.invert().unwrap();
        #[cfg(feature = "mm")]
        v2.queue((proof::<Wide>(&p), p.x.clone()));
        v.queue((proof::<Wide>(&p), p.x.clone()));
    }
    s.note(|| format!("{} proofs with {} inputs", n, nin));
    let judge = |what: &str, terms: &[F]| -> R {
        let mut one = 0;
        let mut seen = vec![];
        // a term with the identity weighs nothing: not a proof's term
        for t in terms.iter().filter(|t| !t.is_zero_vartime()) {
            let z = *t * qi;
            let (x, y) = (z.to_repr(), (-z).to_repr());
            let small = |r: &[u8; 32]| r[12..].iter().all(|b| *b == 0);
            if z == F::ONE || z == -F::ONE {
                one += 1;
            } else {
                ensure!(!small(&x) && !small(&y), "{}: a proof has the weight {:?}", what, z);
                seen.push(x.min(y));
            }
        }
        ensure!(one <= 1, "{}: {} proofs without a weight of their own", what, one);
        let k = seen.len();
        seen.sort_unstable();
        seen.dedup();
        ensure!(seen.len() == k, "{}: two proofs share a weight", what);
        Ok(())
    };
    let mut rng = Scripted { zeros: 0, rng: s.rng(), drawn: 0 };
    let (r, t) = record(|| v.verify(&mut rng, &vk));
    ensure!(r.is_ok(), "{} valid proofs rejected", n);
    judge("verify", &t)?;
    #[cfg(feature = "mm")]
    {
        let (r, t) = record(|| v2.verify_multicore(&vk));
        ensure!(r.is_ok(), "verify_multicore: {} valid proofs rejected", n);
        judge("verify_multicore", &t)?;
    }
    s.nontrivial();
    Ok(())
}
fn c06_bls(s: &mut Src) -> R {
    batch::<Bls12>(s, 12)
}

/// In a tiny field a wrong batch gets through with probability about 1/p;
/// valid batches must always pass, single invalid proofs never (a nonzero
/// weight cannot hide one error), whatever the random stream is.
fn tiny<const P: u64>(s: &mut Src) -> R {
    type E<const P: u64> = Mock<P>;
    let key = Key::<Fp<P>>::gen(s);
    let vk = key.vk::<E<P>>();
    let nin = key.ic.len() - 1;
    let n = s.size(1, 20);
    let bad = if s.bool() { Some(s.below(n)) } else { None };
    let mut v = Verifier::<E<P>>::new();
    #[cfg(feature = "mm")]
    let mut v2 = Verifier::<E<P>>::new();
    for i in 0..n {
        let x: Vec<Fp<P>> = (0..nin).map(|_| Fp::new(s.draw(P - 1))).collect();
        let e = if bad == Some(i) { Fp::new(s.range(1, P - 1)) } else { Fp::ZERO };
        let p = key.proof(s, x, e);
        ensure_eq!(key.err(&p), e, "harness");
        #[cfg(feature = "mm")]
        v2.queue((proof::<E<P>>(&p), p.x.clone()));
        v.queue((proof::<E<P>>(&p), p.x.clone()));
    }
    let mut rng = Scripted {
        zeros: if s.bool() { s.size(0, 300) } else { 0 },
        rng: s.rng(),
        drawn: 0,
    };
    let want = bad.is_none();
    let r = no_panic(|| v.verify(&mut rng, &vk))?;
    ensure_eq!(r.is_ok(), want, "verify of {} proofs, invalid one at {:?}, field of {} elements", n, bad, P);
    #[cfg(feature = "mm")]
    {
        let r = no_panic(|| v2.verify_multicore(&vk))?;
        ensure_eq!(r.is_ok(), want, "verify_multicore of {} proofs, invalid one at {:?}, field of {} elements", n, bad, P);
    }
    s.nontrivial();
    Ok(())
}
fn c06_tiny(s: &mut Src) -> R {
    match s.below(4) {
        0 => tiny::<3>(s),
        1 => tiny::<5>(s),
        2 => tiny::<7>(s),
        _ => tiny::<13>(s),
    }
}

/// Every proof gets its own weight: two runs over one batch of two invalid
/// proofs reject for all but a few weights, and a cancelling pair for the
/// weights of one run does not cancel for a different random stream.
fn c06_weights(s: &mut Src) -> R {
    type F = Fp<97>;
    type E = Mock<97>;
    let key = Key::<F>::gen(s);
    let vk = key.vk::<E>();
    let nin = key.ic.len() - 1;
    let n = s.size(2, 12);
    let i = s.below(n);
    let mut j = s.below(n - 1);
    if j >= i {
        j += 1;
    }
    let mut items = vec![];
    for k in 0..n {
        let x: Vec<F> = (0..nin).map(|_| Fp::new(s.draw(96))).collect();
        let e = if k == i || k == j { Fp::new(s.range(1, 96)) } else { Fp::ZERO };
        items.push(key.proof(s, x, e));
    }
    let seed = s.rng();
    let mut seed = seed;
    // 300 independent runs: each accepts with probability about 1/96
    let mut accepted = 0;
    #[cfg(feature = "mm")]
    let mut accepted_m = 0;
    for _ in 0..300 {
        let mut v = Verifier::<E>::new();
        #[cfg(feature = "mm")]
        let mut v2 = Verifier::<E>::new();
        for p in &items {
            #[cfg(feature = "mm")]
            v2.queue((proof::<E>(p), p.x.clone()));
            v.queue((proof::<E>(p), p.x.clone()));
        }
        let mut rng = Scripted {
            zeros: 0,
            rng: Rng::new(seed.next()),
            drawn: 0,
        };
        accepted += v.verify(&mut rng, &vk).is_ok() as u32;
        #[cfg(feature = "mm")]
        {
            accepted_m += v2.verify_multicore(&vk).is_ok() as u32;
        }
    }
    s.note(|| format!("{} items, invalid {} and {}, accepted {} of 300", n, i, j, accepted));
    // mean 3; 40 or more has probability below 10^-28
    ensure!(accepted < 40, "two invalid proofs accepted in {} of 300 runs", accepted);
    #[cfg(feature = "mm")]
    ensure!(accepted_m < 60, "verify_multicore accepts two invalid proofs in {} of 300 runs", accepted_m);
    s.nontrivial();
    Ok(())
}

fn main() {
    vph::runner::main(vec![Prop {
        id: "C06",
        rule: "the batch is not empty",
        assumptions: &[
            "wrong acceptance has probability at most 8/2^64 per case over the 64-bit mock field and is ignored",
            "verify_multicore draws from the operating system; only its verdict is judged",
        ],
        threads: THREADS,
        subs: vec![
            sub("mock", 120000, 2500000, c06_mock),
            sub("wide", 20000, 400000, c06_wide),
            sub("many", 800, 20000, c06_many),
            sub("width", 6000, 100000, c06_width),
            sub("bls", 600, 15000, c06_bls),
            sub("tiny", 200000, 3000000, c06_tiny),
            sub("weights", 1500, 30000, c06_weights),
        ],
    }])
}
