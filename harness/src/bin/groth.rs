//! C01 completeness, C02 verifier equation, C03 parameter generation,
//! C04 proof formula, C05 prover failures, C26 witness indistinguishability.

use bellman::multiexp::{Source, SourceBuilder};
use bellman::{ConstraintSystem, SynthesisError, VerificationError};
use bls12_381::Bls12;
use ff::{Field, PrimeField, PrimeFieldBits};
use group::prime::PrimeCurveAffine;
use group::{Curve, WnafGroup};
use groth16::*;
use pairing::{Engine, MultiMillerLoop};
use std::sync::{Arc, Mutex};
use vph::circ::*;
use vph::engine::*;
use vph::fp::*;
use vph::gprog::*;
use vph::gro::*;
use vph::rec::{Mode, Rec};
use vph::mock::Mock;
use vph::wide::Wide;
use vph::runner::*;
use vph::{ensure, ensure_eq};

type MG = Mock<GOLD>;
type M9 = Mock<PS9>;

// --------------------------------------------------------------------- C01

fn completeness<E>(s: &mut Src, sh: &Shape, maxrows: usize) -> R
where
    E: MultiMillerLoop,
    E::Fr: PrimeFieldBits,
    E::G1: WnafGroup,
    E::G2: WnafGroup,
{
    let c = circuit::<E::Fr>(s, sh, maxrows);
    label_circ(s, &c);
    s.note(|| c.describe());
    let rng = &mut s.rng();
    let mut params = match generate_random_parameters::<E, _, _>(&c, rng) {
        Ok(p) => p,
        Err(e) => return Err(format!("parameter generation failed: {}", e)),
    };
    if s.chance(1, 4) {
        s.label("parameters re-read");
        let mut v = vec![];
        params.write(&mut v).map_err(|e| e.to_string())?;
        params = Parameters::read(&v[..], s.bool()).map_err(|e| format!("re-reading parameters: {}", e))?;
    }
    let pvk = prepare_verifying_key(&params.vk);
    let n = 1 + s.below(2);
    for _ in 0..n {
        let proof = match s.below(3) {
            0 => create_random_proof::<E, _, _, _>(&c, &params, rng),
            1 => create_proof::<E, _, _>(&c, &params, scalar(s), scalar(s)),
            _ => {
                s.label("zero randomisers");
                create_proof::<E, _, _>(&c, &params, E::Fr::ZERO, E::Fr::ZERO)
            }
        };
        let mut proof = proof.map_err(|e| format!("proving a satisfied circuit failed: {}", e))?;
        let id = bool::from(proof.a.is_identity() | proof.b.is_identity() | proof.c.is_identity());
        if !id && s.chance(1, 3) {
            let mut v = vec![];
            proof.write(&mut v).map_err(|e| e.to_string())?;
            proof = Proof::read(&v[..]).map_err(|e| format!("re-reading the proof: {}", e))?;
        }
        verify_proof(&pvk, &proof, &c.inputs).map_err(|e| format!("honest proof rejected: {}", e))?;
        if !c.inputs.is_empty() {
            // ... and for exactly those inputs
            let mut other = c.inputs.clone();
            let k = s.below(other.len());
            other[k] += nonzero::<E::Fr>(s);
            ensure!(
                verify_proof(&pvk, &proof, &other).is_err(),
                "proof accepted for different public inputs"
            );
        }
    }
    nt(s, &c);
    Ok(())
}
fn c01_mock(s: &mut Src) -> R {
    completeness::<MG>(s, &SHAPE, 200)
}
fn c01_mock9(s: &mut Src) -> R {
    // a field whose largest domain has 2^8 rows here
    completeness::<M9>(s, &SHAPE, 256)
}
fn c01_bls(s: &mut Src) -> R {
    completeness::<Bls12>(s, &SMALL, 20)
}

/// A program over the gadget library as a circuit.
struct Prg<'a, F> {
    p: &'a Prog<F>,
    w: &'a Wit<F>,
    /// Structural choices that depended on the first witness.
    dec: Option<&'a [bool]>,
    given: bool,
}
impl<'a, F: PrimeFieldBits> Prg<'a, F> {
    fn go<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<State<F>, SynthesisError> {
        let mut st = match self.dec {
            None => State::new(self.given),
            Some(d) => State::again(self.given, d),
        };
        exec(cs, self.p, self.w, &mut st)?;
        // numbers that nothing constrains are refused by the generator
        for (n, _) in &st.nums {
            let v = n.get_variable();
            cs.enforce(|| "tie", |lc| lc + v, |lc| lc + CS::one(), |lc| lc + v);
        }
        Ok(st)
    }
}
impl<'a, F: PrimeFieldBits> bellman::Circuit<F> for &'_ Prg<'a, F> {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        self.go(cs).map(|_| ())
    }
}
const T_CIRCUIT: Theme = Theme {
    bool_: 6,
    num: 4,
    lin: 4,
    word: 8,
    look: 3,
    strict: 1,
    loose: 1,
    publ: 4,
    hash: 0,
    me: true,
    max_ops: 14,
    max_bits: 400,
};
const T_HASHING: Theme = Theme { hash: 2, max_ops: 6, ..T_CIRCUIT };

fn gadget_circuit<E>(s: &mut Src, th: &Theme) -> R
where
    E: MultiMillerLoop,
    E::Fr: PrimeFieldBits,
    E::G1: WnafGroup,
    E::G2: WnafGroup,
{
    let (p, w) = gen::<E::Fr>(s, th);
    s.note(|| describe(&p, &w));
    // what the circuit says, by the recorder
    let see = |w: &Wit<E::Fr>, dec: Option<&[bool]>| -> Result<(Rec<E::Fr>, State<E::Fr>), SynthesisError> {
        let mut r = Rec::new(Mode::Eval);
        let st = Prg { p: &p, w, dec, given: true }.go(&mut r)?;
        Ok((r, st))
    };
    let (r, st) = see(&w, None).map_err(|e| format!("synthesis: {}", e))?;
    check_values(&r, &st)?;
    let dec = st.dec;
    let mut used = vec![false; r.aux.len()];
    for c in &r.cons {
        for (i, k) in c.iter().flatten() {
            if i % 2 == 1 && *k != E::Fr::ZERO {
                used[i / 2] = true;
            }
        }
    }
    let rng = &mut s.rng();
    // keys are generated without any value at hand, or with the wrong ones
    let other = {
        let mut o = w.clone();
        for x in o.w.iter_mut() {
            x.0 = s.special_u64();
            x.1 = scalar(s);
        }
        o
    };
    let given = s.bool();
    let k = Prg { p: &p, w: &other, dec: Some(&dec[..]), given };
    let params = match generate_random_parameters::<E, _, _>(&k, rng) {
        Ok(p) => p,
        Err(SynthesisError::UnconstrainedVariable) if used.contains(&false) => {
            s.label("a variable is in no constraint");
            return Ok(());
        }
        Err(e) => return Err(format!("parameter generation failed: {}", e)),
    };
    let pvk = prepare_verifying_key(&params.vk);
    let mut ws = vec![(w.clone(), st.publ)];
    if let Ok((r2, st2)) = see(&other, Some(&dec[..])) {
        if r2.unsatisfied().is_none() {
            s.label("two witnesses");
            ws.push((other, st2.publ));
        }
    }
    for (w, publ) in &ws {
        let c = Prg { p: &p, w, dec: Some(&dec[..]), given: true };
        let proof = create_random_proof::<E, _, _, _>(&c, &params, &mut *rng)
            .map_err(|e| format!("proving failed: {}", e))?;
        verify_proof(&pvk, &proof, publ).map_err(|e| format!("honest proof rejected: {}", e))?;
        if !publ.is_empty() {
            let mut x = publ.clone();
            let k = s.below(x.len());
            x[k] += nonzero::<E::Fr>(s);
            ensure!(verify_proof(&pvk, &proof, &x).is_err(), "accepted for different public inputs");
            s.label("has public inputs");
        }
    }
    s.nontrivial_if(r.cons.len() >= 4 && r.aux.len() >= 2);
    if r.cons.len() > 1000 {
        s.label("more than 1000 constraints");
    }
    Ok(())
}
fn c01_gadgets(s: &mut Src) -> R {
    gadget_circuit::<MG>(s, &T_CIRCUIT)
}
fn c01_gadgets_wide(s: &mut Src) -> R {
    gadget_circuit::<Wide>(s, &T_CIRCUIT)
}
fn c01_hashing(s: &mut Src) -> R {
    gadget_circuit::<Wide>(s, &T_HASHING)
}
fn c01_gadgets_bls(s: &mut Src) -> R {
    gadget_circuit::<Bls12>(s, &Theme { max_ops: 5, max_bits: 64, ..T_CIRCUIT })
}

// --------------------------------------------------------------------- C02

fn verifier_eq<E>(s: &mut Src) -> R
where
    E: MultiMillerLoop,
    E::Fr: PrimeFieldBits,
{
    type F<E> = <E as Engine>::Fr;
    let n = if s.chance(1, 100) {
        s.label("many inputs");
        s.skewed(7, 400)
    } else {
        s.skewed(0, 6)
    };
    let (al, be, ga, de) = (
        scalar::<F<E>>(s),
        scalar::<F<E>>(s),
        scalar::<F<E>>(s),
        scalar::<F<E>>(s),
    );
    let ic: Vec<F<E>> = (0..=n).map(|_| scalar(s)).collect();
    let vk = VerifyingKey::<E> {
        alpha_g1: g1::<E>(al),
        beta_g1: g1::<E>(be),
        beta_g2: g2::<E>(be),
        gamma_g2: g2::<E>(ga),
        delta_g1: g1::<E>(de),
        delta_g2: g2::<E>(de),
        ic: ic.iter().map(|e| g1::<E>(*e)).collect(),
    };
    let pvk = prepare_verifying_key(&vk);
    let mut x: Vec<F<E>> = (0..n).map(|_| scalar(s)).collect();
    let acc = |x: &[F<E>]| {
        ic[0] + ic[1..]
            .iter()
            .zip(x)
            .fold(F::<E>::ZERO, |t, (a, b)| t + *a * b)
    };
    let (mut a, mut b, mut c) = (scalar::<F<E>>(s), scalar::<F<E>>(s), scalar::<F<E>>(s));
    // aim for a proof that satisfies the equation
    let solved = s.weighted(&[3, 3, 1]);
    match solved {
        0 if !de.is_zero_vartime() => {
            c = (a * b - al * be - acc(&x) * ga) * de.invert().unwrap();
        }
        1 if !b.is_zero_vartime() => {
            a = (al * be + acc(&x) * ga + c * de) * b.invert().unwrap();
        }
        _ => {}
    }
    // then disturb it, sometimes in ways that cancel
    for _ in 0..s.weighted(&[4, 5, 2, 1]) {
        match s.below(9) {
            0 => a += nonzero::<F<E>>(s),
            1 => b += nonzero::<F<E>>(s),
            2 => c += nonzero::<F<E>>(s),
            3 => {
                let k = nonzero::<F<E>>(s);
                a *= k;
                b *= k.invert().unwrap();
                s.label("A*k, B/k");
            }
            4 => {
                let k = scalar::<F<E>>(s);
                b += de * k;
                c += a * k;
                s.label("B + k delta, C + k A");
            }
            5 if n > 0 => {
                let k = s.below(n);
                x[k] += nonzero::<F<E>>(s);
            }
            6 => {
                a = -a;
                b = -b;
            }
            7 if n > 0 && !de.is_zero_vartime() => {
                // move public input into C
                let k = s.below(n);
                let d = nonzero::<F<E>>(s);
                x[k] += d;
                c -= d * ic[k + 1] * ga * de.invert().unwrap();
                s.label("input shifted into C");
            }
            _ => std::mem::swap(&mut a, &mut b),
        }
    }
    let proof = Proof::<E> {
        a: g1::<E>(a),
        b: g2::<E>(b),
        c: g1::<E>(c),
    };
    let expect = a * b == al * be + acc(&x) * ga + c * de;
    s.note(|| {
        format!(
            "alpha={:?} beta={:?} gamma={:?} delta={:?} ic={:?} A={:?} B={:?} C={:?} inputs={:?} equation={}",
            al, be, ga, de, ic, a, b, c, x, expect
        )
    });
    let got = verify_proof(&pvk, &proof, &x);
    match (&got, expect) {
        (Ok(()), true) => s.label("equation holds"),
        (Err(VerificationError::InvalidProof), false) => s.label("equation fails"),
        (Ok(()), false) => return Err("accepted although the pairing equation fails".into()),
        (Err(e), true) => return Err(format!("rejected ({:?}) although the pairing equation holds", e)),
        (Err(e), false) => return Err(format!("wrong error {:?} for a proof that fails the equation", e)),
    }
    s.nontrivial_if(n >= 1);
    if s.chance(1, 50) {
        // a key without any element for inputs fits no list at all
        let k = prepare_verifying_key(&VerifyingKey::<E> { ic: vec![], ..vk });
        let m = s.below(n + 1);
        match no_panic(|| verify_proof(&k, &proof, &x[..m])) {
            Ok(Err(VerificationError::InvalidVerifyingKey)) => s.label("key without input elements"),
            Ok(o) => return Err(format!("{} inputs for a key with an empty list: {:?}", m, o)),
            Err(p) => return Err(format!("verifier panicked: {}", p)),
        }
    }
    // wrong number of inputs
    let mut y = x.clone();
    match s.below(4) {
        0 => y.push(F::<E>::ZERO),
        1 => {
            y.pop();
        }
        2 => {
            let more = s.size(1, 9);
            for _ in 0..more {
                y.push(scalar(s));
            }
        }
        _ => y.clear(),
    }
    if y.len() != n {
        match no_panic(|| verify_proof(&pvk, &proof, &y)) {
            Ok(Err(VerificationError::InvalidVerifyingKey)) => {}
            Ok(o) => return Err(format!("{} inputs for a key with {}: {:?}", y.len(), n, o)),
            Err(p) => return Err(format!("verifier panicked: {}", p)),
        }
    }
    Ok(())
}
/// Keys for hundreds to 65536 and more public inputs, and lists that are too
/// long or too short by such numbers.
fn c02_many(s: &mut Src) -> R {
    type E = MG;
    type X = <MG as Engine>::Fr;
    let n = match s.weighted(&[6, 3, 2]) {
        0 => *s.pick(&[255usize, 256, 257, 511, 512, 513]),
        1 => 256 * s.size(1, 40) + s.below(3) - 1,
        _ => 65536 + s.below(600) - 300,
    };
    let mut rng = s.rng();
    let mut el = || X::random(&mut rng);
    let (al, be, ga, de) = (el(), el(), el(), el());
    let ic: Vec<X> = (0..=n).map(|_| el()).collect();
    let mut x: Vec<X> = (0..n).map(|_| el()).collect();
    let (a, b) = (el(), el());
    let shift = el();
    if [ga, de, shift].iter().any(|v| v.is_zero_vartime()) {
        return Ok(());
    }
    let vk = VerifyingKey::<E> {
        alpha_g1: g1::<E>(al),
        beta_g1: g1::<E>(be),
        beta_g2: g2::<E>(be),
        gamma_g2: g2::<E>(ga),
        delta_g1: g1::<E>(de),
        delta_g2: g2::<E>(de),
        ic: ic.iter().map(|e| g1::<E>(*e)).collect(),
    };
    let pvk = prepare_verifying_key(&vk);
    let acc = |x: &[X]| ic[1..].iter().zip(x).fold(ic[0], |t, (a, b)| t + *a * b);
    let c = (a * b - al * be - acc(&x) * ga) * de.invert().unwrap();
    let proof = Proof::<E> {
        a: g1::<E>(a),
        b: g2::<E>(b),
        c: g1::<E>(c),
    };
    let kind = s.below(4);
    let i = s.below(n);
    match kind {
        0 => {}
        1 => x[i] += shift,
        2 => {
            // two inputs far apart change places
            let d = *s.pick(&[1usize, 255, 256, 65535, 65536]);
            x.swap(i, (i + d) % n);
        }
        _ => {
            // an input is changed and the change undone in another place
            let d = *s.pick(&[1usize, 255, 256, 65535, 65536]);
            x[i] += shift;
            let j = (i + d) % n;
            x[j] -= shift;
        }
    }
    let expect = a * b == al * be + acc(&x) * ga + c * de;
    s.note(|| format!("{} inputs, change {} at {}, equation {}", n, kind, i, expect));
    s.nontrivial();
    match (verify_proof(&pvk, &proof, &x), expect) {
        (Ok(()), true) => s.label("equation holds"),
        (Err(VerificationError::InvalidProof), false) => s.label("equation fails"),
        (r, _) => return Err(format!("{:?}, the equation {}", r, if expect { "holds" } else { "fails" })),
    }
    // lists whose length differs by a power of two
    let d = *s.pick(&[256usize, 512, 4096, 65536]);
    let mut y = x.clone();
    if s.bool() && d <= n {
        y.truncate(n - d);
    } else {
        y.resize(n + d, X::ZERO);
    }
    match no_panic(|| verify_proof(&pvk, &proof, &y)) {
        Ok(Err(VerificationError::InvalidVerifyingKey)) => Ok(()),
        Ok(o) => Err(format!("{} inputs for a key with {}: {:?}", y.len(), n, o)),
        Err(p) => Err(format!("verifier panicked: {}", p)),
    }
}
fn c02_mock(s: &mut Src) -> R {
    verifier_eq::<MG>(s)
}
fn c02_small(s: &mut Src) -> R {
    // over a small group everything, also coincidences, is hit often
    verifier_eq::<Mock<13>>(s)
}
fn c02_bls(s: &mut Src) -> R {
    verifier_eq::<Bls12>(s)
}

/// Proofs from the real prover, altered; the equation is evaluated with the
/// pairing itself (never with the prepared key).
fn c02_altered(s: &mut Src) -> R {
    type E = Bls12;
    let (c, tx, _, e1, e2) = match setup::<E>(s, &SMALL, 16) {
        Some(x) => x,
        None => return Ok(()),
    };
    let p = generate::<E>(&c, &tx, e1, e2).map_err(|e| e.to_string())?;
    let mut proof = create_proof::<E, _, _>(&c, &p, wide(s), wide(s)).map_err(|e| e.to_string())?;
    let mut x = c.inputs.clone();
    let neg = s.below(8);
    match neg {
        0 => {}
        1 => proof.a = -proof.a,
        2 => {
            proof.a = -proof.a;
            proof.b = -proof.b;
        }
        3 => proof.c = p.vk.alpha_g1,
        4 => proof.a = <E as Engine>::G1Affine::identity(),
        5 => proof.b = p.vk.beta_g2,
        6 => {
            let k = wide::<<E as Engine>::Fr>(s);
            proof.b = (proof.b.to_curve() + p.vk.delta_g2 * k).to_affine();
            proof.c = (proof.c.to_curve() + proof.a * k).to_affine();
        }
        _ => {
            if !x.is_empty() {
                let k = s.below(x.len());
                x[k] += nonzero::<<E as Engine>::Fr>(s);
            }
        }
    }
    let vk = &p.vk;
    let mut acc = vk.ic[0].to_curve();
    for (v, b) in x.iter().zip(&vk.ic[1..]) {
        acc += *b * v;
    }
    let lhs = E::pairing(&proof.a, &proof.b);
    let rhs = E::pairing(&vk.alpha_g1, &vk.beta_g2)
        + E::pairing(&acc.to_affine(), &vk.gamma_g2)
        + E::pairing(&proof.c, &vk.delta_g2);
    let expect = lhs == rhs;
    s.note(|| format!("{} alteration {} -> equation {}", c.describe(), neg, expect));
    let got = verify_proof(&prepare_verifying_key(vk), &proof, &x).is_ok();
    ensure_eq!(got, expect, "verify_proof against the pairing equation (alteration {})", neg);
    s.nontrivial();
    s.label(if expect { "equation holds" } else { "equation fails" });
    Ok(())
}

// --------------------------------------------------------------------- C03

fn compare_params<E: Engine>(
    p: &Parameters<E>,
    c: &Circ<E::Fr>,
    tx: &Toxic<E::Fr>,
    q: &Qap<E::Fr>,
    e1: E::Fr,
    e2: E::Fr,
) -> R {
    let a1 = |x: E::Fr| g1::<E>(x * e1);
    let a2 = |x: E::Fr| g2::<E>(x * e2);
    let vk = &p.vk;
    ensure_eq!(vk.alpha_g1, a1(tx.alpha), "alpha_g1");
    ensure_eq!(vk.beta_g1, a1(tx.beta), "beta_g1");
    ensure_eq!(vk.beta_g2, a2(tx.beta), "beta_g2");
    ensure_eq!(vk.gamma_g2, a2(tx.gamma), "gamma_g2");
    ensure_eq!(vk.delta_g1, a1(tx.delta), "delta_g1");
    ensure_eq!(vk.delta_g2, a2(tx.delta), "delta_g2");
    let gi = tx.gamma.invert().unwrap();
    let di = tx.delta.invert().unwrap();
    let ext = q.ext(tx);
    let ic: Vec<_> = ext[..q.ni].iter().map(|e| a1(*e * gi)).collect();
    ensure_eq!(vk.ic, ic, "ic");
    let l: Vec<_> = ext[q.ni..].iter().map(|e| a1(*e * di)).collect();
    ensure_eq!(*p.l, l, "l");
    let mut h = vec![];
    let mut pw = q.t * di;
    for _ in 0..q.m - 1 {
        h.push(a1(pw));
        pw *= tx.tau;
    }
    ensure_eq!(*p.h, h, "h ({} rows)", c.rows().len());
    let nz = |v: &[E::Fr]| -> Vec<E::Fr> { v.iter().filter(|x| !x.is_zero_vartime()).cloned().collect() };
    let a: Vec<_> = nz(&q.a).into_iter().map(a1).collect();
    ensure_eq!(*p.a, a, "a");
    let b: Vec<_> = nz(&q.b).into_iter().map(a1).collect();
    ensure_eq!(*p.b_g1, b, "b_g1");
    let b: Vec<_> = nz(&q.b).into_iter().map(a2).collect();
    ensure_eq!(*p.b_g2, b, "b_g2");
    Ok(())
}

fn crs<E>(s: &mut Src, sh: &Shape, maxrows: usize) -> R
where
    E: Engine,
    E::Fr: PrimeFieldBits,
    E::G1: WnafGroup,
    E::G2: WnafGroup,
{
    let (mut c, tx, q, e1, e2) = match setup::<E>(s, sh, maxrows) {
        Some(x) => x,
        None => return Ok(()),
    };
    s.note(|| format!("{} tau={:?}", c.describe(), tx));
    // setup must not look at assignments
    if s.bool() {
        s.label("no assignment available");
        c.missing = Some(usize::MAX);
        c.inputs.iter_mut().for_each(|x| *x = E::Fr::ZERO);
    }
    let p = generate::<E>(&c, &tx, e1, e2).map_err(|e| format!("generation failed: {}", e))?;
    compare_params::<E>(&p, &c, &tx, &q, e1, e2)?;
    nt(s, &c);
    Ok(())
}
fn c03_mock(s: &mut Src) -> R {
    crs::<MG>(s, &SHAPE, 300)
}
fn c03_mock9(s: &mut Src) -> R {
    crs::<M9>(s, &SHAPE, 256)
}
fn c03_bls(s: &mut Src) -> R {
    crs::<Bls12>(s, &SMALL, 20)
}

fn c03_errors(s: &mut Src) -> R {
    type E = MG;
    type F = Fp<GOLD>;
    let mut c = gen_circ::<F>(s, &SHAPE);
    close(s, &mut c);
    let mut tx = gen_toxic::<F>(s);
    let kind = s.below(6);
    let want = match kind {
        0 => {
            tx.gamma = F::ZERO;
            "UnexpectedIdentity"
        }
        1 => {
            tx.delta = F::ZERO;
            "UnexpectedIdentity"
        }
        2 | 3 => {
            // a private variable with no surviving term, anywhere in order
            let v = V::Aux(c.aux.len());
            c.aux.push(scalar(s));
            let pos = c
                .steps
                .iter()
                .rposition(|x| *x == Step::Aux)
                .map(|p| p + 1)
                .unwrap_or(0);
            c.steps.insert(pos, Step::Aux);
            if kind == 3 {
                // mentioned, but with cancelling or zero coefficients
                let k = nonzero::<F>(s);
                let z: Lc<F> = if s.bool() {
                    vec![(v, k), (v, -k)]
                } else {
                    vec![(v, F::ZERO)]
                };
                let mut con = Cons {
                    a: vec![],
                    b: vec![],
                    c: vec![],
                };
                match s.below(3) {
                    0 => con.a = z,
                    1 => con.b = z,
                    _ => con.c = z,
                }
                c.cons.push(con);
                c.outs.push(None);
                c.steps.push(Step::Enforce(c.cons.len() - 1));
            }
            "UnconstrainedVariable"
        }
        4 => {
            let k = s.draw(6) as u8;
            c.fail_at = Some((s.below(c.steps.len() + 1), k));
            ekind(&synth_error(k))
        }
        _ => "",
    };
    s.note(|| format!("{} want {:?}", c.describe(), want));
    let r = match no_panic(|| generate::<E>(&c, &tx, F::ONE, F::ONE)) {
        Ok(r) => r,
        Err(p) => return Err(format!("parameter generation panicked: {}", p)),
    };
    match (&r, want) {
        (Ok(_), "") => {}
        (Err(e), w) if ekind(e) == w => {
            s.label(ekind(e));
        }
        (Ok(_), w) => return Err(format!("generation succeeded, expected {}", w)),
        (Err(e), w) => return Err(format!("generation gave {}, expected {:?}", e, w)),
    }
    nt(s, &c);
    Ok(())
}

/// Circuits around the largest domain of the field.
fn degree<const P: u64>(s: &mut Src) -> R {
    type F<const P: u64> = Fp<P>;
    let max = 1usize << F::<P>::S; // no larger domain exists
    let mut c = gen_circ::<F<P>>(s, &SMALL);
    close(s, &mut c);
    let rows = match s.below(4) {
        0 => max / 2 - s.below(3).min(max / 2 - 1),
        1 => max + 1 + s.below(3),
        2 => max + 1 + s.skewed(0, 4 * max),
        _ => s.size(1, max / 2),
    };
    pad(s, &mut c, rows);
    let rows = c.rows().len();
    let tx = gen_toxic::<F<P>>(s);
    s.note(|| format!("{} rows, 2-adicity {}", rows, F::<P>::S));
    let r = match no_panic(|| generate::<Mock<P>>(&c, &tx, F::ONE, F::ONE)) {
        Ok(r) => r,
        Err(p) => return Err(format!("parameter generation panicked at {} rows: {}", rows, p)),
    };
    match r {
        Ok(p) => {
            ensure!(rows <= max, "{} rows accepted, the field has no domain larger than {}", rows, max);
            let q = match qap(&c, tx.tau) {
                Some(q) => q,
                None => return Ok(()),
            };
            if !q.accidental_zero(&c, &tx) {
                compare_params::<Mock<P>>(&p, &c, &tx, &q, F::ONE, F::ONE)?;
                let proof =
                    create_proof::<Mock<P>, _, _>(&c, &p, F::ONE, F::ONE).map_err(|e| format!("proving: {}", e))?;
                verify_proof(&prepare_verifying_key(&p.vk), &proof, &c.inputs)
                    .map_err(|e| format!("proof at {} rows rejected: {}", rows, e))?;
            }
            s.label("fits");
        }
        Err(SynthesisError::PolynomialDegreeTooLarge) => {
            ensure!(rows > max / 2, "{} rows refused, domain of {} is available", rows, max / 2);
            s.label("refused");
        }
        Err(e) => return Err(format!("{} rows: {}", rows, e)),
    }
    s.nontrivial_if(rows * 4 > max);
    Ok(())
}
fn c03_degree(s: &mut Src) -> R {
    match s.below(3) {
        0 => degree::<PS4>(s),
        1 => degree::<PS6>(s),
        _ => degree::<PS9>(s),
    }
}

/// Random setup: solve for the trapdoor from the CRS and compare with the
/// reference; different random streams give unrelated trapdoors.
fn c03_random(s: &mut Src) -> R {
    type E = MG;
    type F = Fp<GOLD>;
    let mut c = circuit::<F>(s, &SHAPE, 40);
    if c.rows().len() < 3 {
        pad(s, &mut c, 3);
    }
    let seed = s.draw(u64::MAX);
    s.note(|| format!("{} rng seed {}", c.describe(), seed));
    let mut prev: Vec<Vec<F>> = vec![];
    for k in 0..2 {
        let p = generate_random_parameters::<E, _, _>(&c, &mut Rng::new(seed.wrapping_add(k)))
            .map_err(|e| format!("random generation failed: {}", e))?;
        ensure!(p.h.len() >= 3, "h has {} elements for {} rows", p.h.len(), c.rows().len());
        let inv = |x: F| x.inv().ok_or("zero element in CRS".to_string());
        let tau = p.h[1].0 * inv(p.h[0].0)?;
        let m = domain_size(c.rows().len());
        let t = tau.powu(m as u64) - F::ONE;
        // h0 = e1 t / delta, delta_g1 = e1 delta  =>  e1^2 = h0 delta_g1 / t
        let e1sq = p.h[0].0 * p.vk.delta_g1.0 * inv(t)?;
        let e1 = Option::<F>::from(e1sq.sqrt()).ok_or("inconsistent h and delta".to_string())?;
        let mut ok = Err("no consistent trapdoor".to_string());
        for e1 in [e1, -e1] {
            let i1 = inv(e1)?;
            let (alpha, beta, delta) = (p.vk.alpha_g1.0 * i1, p.vk.beta_g1.0 * i1, p.vk.delta_g1.0 * i1);
            let e2 = p.vk.beta_g2.0 * inv(beta)?;
            let gamma = p.vk.gamma_g2.0 * inv(e2)?;
            let tx = Toxic {
                alpha,
                beta,
                gamma,
                delta,
                tau,
            };
            if let Some(q) = qap(&c, tau) {
                let r = compare_params::<E>(&p, &c, &tx, &q, e1, e2);
                if r.is_ok() {
                    prev.push(vec![alpha, beta, gamma, delta, tau, e1, e2]);
                    ok = Ok(());
                    break;
                }
                ok = r;
            }
        }
        ok?;
    }
    let mut all: Vec<F> = prev.concat();
    all.sort();
    let n = all.len();
    all.dedup();
    ensure!(all.len() == n, "trapdoor values repeat: {:?}", prev);
    // reproducible from the same stream
    let again = generate_random_parameters::<E, _, _>(&c, &mut Rng::new(seed)).map_err(|e| e.to_string())?;
    let once = generate_random_parameters::<E, _, _>(&c, &mut Rng::new(seed)).map_err(|e| e.to_string())?;
    ensure!(again == once, "not a function of the random stream");
    nt(s, &c);
    Ok(())
}

// --------------------------------------------------------------------- C04

/// A parameter source that hands out exactly the requested slices and
/// complains about every other use.
struct Strict<E: Engine> {
    p: Parameters<E>,
    want_ic: usize,
    want_h: usize,
    want_l: usize,
    want_a: (usize, usize),
    want_b: (usize, usize),
    log: Arc<Mutex<Vec<String>>>,
    /// (which request, position) that fails
    fault: Option<(usize, usize)>,
}

#[derive(Clone)]
struct Slice<G> {
    v: Arc<Vec<G>>,
    at: usize,
    end: usize,
    /// absolute index that cannot be read
    bad: Option<usize>,
    log: Arc<Mutex<Vec<String>>>,
}

impl<G: PrimeCurveAffine> SourceBuilder<G> for Slice<G> {
    type Source = Self;
    fn build(self) -> Self {
        self
    }
}
fn io_err() -> SynthesisError {
    std::io::Error::new(std::io::ErrorKind::Other, "injected source fault").into()
}
impl<G: PrimeCurveAffine> Source<G> for Slice<G> {
    fn next(&mut self) -> Result<&G, SynthesisError> {
        if self.bad == Some(self.at) {
            return Err(io_err());
        }
        if self.at >= self.end {
            self.log.lock().unwrap().push(format!("read past the {} requested elements", self.end));
            return Err(io_err());
        }
        self.at += 1;
        Ok(&self.v[self.at - 1])
    }
    fn skip(&mut self, amt: usize) -> Result<(), SynthesisError> {
        if let Some(b) = self.bad {
            if self.at <= b && b < self.at + amt {
                return Err(io_err());
            }
        }
        if self.at + amt > self.end {
            self.log.lock().unwrap().push(format!("skipped past the {} requested elements", self.end));
            return Err(io_err());
        }
        self.at += amt;
        Ok(())
    }
}

impl<E: Engine> Strict<E> {
    fn new(p: &Parameters<E>, c: &Circ<E::Fr>, q: &Qap<E::Fr>) -> Self {
        let nz = |v: &[E::Fr]| v.iter().filter(|x| !x.is_zero_vartime()).count();
        Strict {
            p: p.clone(),
            want_ic: q.ni,
            want_h: q.m - 1,
            want_l: c.aux.len(),
            want_a: (q.ni, nz(&q.a[q.ni..])),
            want_b: (nz(&q.b[..q.ni]), nz(&q.b[q.ni..])),
            log: Default::default(),
            fault: None,
        }
    }
    fn slice<G: Clone>(&self, v: &Arc<Vec<G>>, from: usize, n: usize, req: usize) -> Slice<G> {
        let bad = match self.fault {
            Some((r, k)) if r == req => Some(from + k),
            _ => None,
        };
        Slice {
            v: v.clone(),
            at: from,
            end: (from + n).min(v.len()),
            bad,
            log: self.log.clone(),
        }
    }
    fn expect<T: PartialEq + std::fmt::Debug>(&self, what: &str, got: T, want: T) {
        if got != want {
            self.log.lock().unwrap().push(format!("{} asked for {:?}, the circuit has {:?}", what, got, want));
        }
    }
    fn fails(&self, req: usize) -> Result<(), SynthesisError> {
        match self.fault {
            Some((r, usize::MAX)) if r == req => Err(io_err()),
            _ => Ok(()),
        }
    }
}
impl<E: Engine> ParameterSource<E> for &mut Strict<E> {
    type G1Builder = Slice<E::G1Affine>;
    type G2Builder = Slice<E::G2Affine>;
    fn get_vk(&mut self, n: usize) -> Result<VerifyingKey<E>, SynthesisError> {
        self.expect("get_vk", n, self.want_ic);
        self.fails(0)?;
        Ok(self.p.vk.clone())
    }
    fn get_h(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> {
        self.expect("get_h", n, self.want_h);
        self.fails(1)?;
        Ok(self.slice(&self.p.h, 0, n, 1))
    }
    fn get_l(&mut self, n: usize) -> Result<Self::G1Builder, SynthesisError> {
        self.expect("get_l", n, self.want_l);
        self.fails(2)?;
        Ok(self.slice(&self.p.l, 0, n, 2))
    }
    fn get_a(&mut self, i: usize, n: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
        self.expect("get_a", (i, n), self.want_a);
        self.fails(3)?;
        Ok((self.slice(&self.p.a, 0, i, 3), self.slice(&self.p.a, i, n, 4)))
    }
    fn get_b_g1(&mut self, i: usize, n: usize) -> Result<(Self::G1Builder, Self::G1Builder), SynthesisError> {
        self.expect("get_b_g1", (i, n), self.want_b);
        self.fails(5)?;
        Ok((self.slice(&self.p.b_g1, 0, i, 5), self.slice(&self.p.b_g1, i, n, 6)))
    }
    fn get_b_g2(&mut self, i: usize, n: usize) -> Result<(Self::G2Builder, Self::G2Builder), SynthesisError> {
        self.expect("get_b_g2", (i, n), self.want_b);
        self.fails(7)?;
        Ok((self.slice(&self.p.b_g2, 0, i, 7), self.slice(&self.p.b_g2, i, n, 8)))
    }
}

fn formula<E>(s: &mut Src, sh: &Shape, maxrows: usize) -> R
where
    E: Engine,
    E::Fr: PrimeFieldBits,
    E::G1: WnafGroup,
    E::G2: WnafGroup,
{
    let (c, tx, q, e1, e2) = match setup::<E>(s, sh, maxrows) {
        Some(x) => x,
        None => return Ok(()),
    };
    let p = generate::<E>(&c, &tx, e1, e2).map_err(|e| e.to_string())?;
    let (r, t) = (scalar::<E::Fr>(s), scalar::<E::Fr>(s));
    s.note(|| format!("{} r={:?} s={:?}", c.describe(), r, t));
    let (a, b, cc) = q.proof(&c.assignment(), &tx, r, t);
    let want = Proof::<E> {
        a: g1::<E>(a * e1),
        b: g2::<E>(b * e2),
        c: g1::<E>(cc * e1),
    };
    let strict = s.bool();
    let got = if strict {
        s.label("strict parameter source");
        let mut st = Strict::new(&p, &c, &q);
        let r = create_proof::<E, _, _>(&c, &mut st, r, t);
        let log = st.log.lock().unwrap();
        ensure!(log.is_empty(), "parameter source: {}", log.join("; "));
        r
    } else {
        create_proof::<E, _, _>(&c, &p, r, t)
    }
    .map_err(|e| format!("proving failed: {}", e))?;
    ensure_eq!(got.a, want.a, "A");
    ensure_eq!(got.b, want.b, "B");
    ensure_eq!(got.c, want.c, "C");
    nt(s, &c);
    Ok(())
}
fn c04_mock(s: &mut Src) -> R {
    formula::<MG>(s, &SHAPE, 200)
}
fn c04_mock9(s: &mut Src) -> R {
    formula::<M9>(s, &SHAPE, 256)
}
fn c04_bls(s: &mut Src) -> R {
    formula::<Bls12>(s, &SMALL, 20)
}

fn c04_random(s: &mut Src) -> R {
    type E = MG;
    type F = Fp<GOLD>;
    let (c, tx, q, e1, e2) = match setup::<E>(s, &SHAPE, 64) {
        Some(x) => x,
        None => return Ok(()),
    };
    let p = generate::<E>(&c, &tx, e1, e2).map_err(|e| e.to_string())?;
    s.note(|| c.describe());
    let seed = s.draw(u64::MAX);
    let z = c.assignment();
    let (a0, b0, _) = q.proof(&z, &tx, F::ZERO, F::ZERO);
    let di = tx.delta.inv().unwrap();
    let (i1, i2) = (e1.inv().unwrap(), e2.inv().unwrap());
    let mut rng = Rng::new(seed);
    let mut seen: Vec<F> = vec![];
    let mut firsts = vec![];
    for _ in 0..4 {
        let pr = create_random_proof::<E, _, _, _>(&c, &p, &mut rng).map_err(|e| e.to_string())?;
        let r = (pr.a.0 * i1 - a0) * di;
        let t = (pr.b.0 * i2 - b0) * di;
        let (_, _, cc) = q.proof(&z, &tx, r, t);
        ensure_eq!(pr.c.0, cc * e1, "C for the recovered randomisers r={:?} s={:?}", r, t);
        ensure!(r.v() > 1 << 20 && t.v() > 1 << 20, "randomisers not uniform: r={:?} s={:?}", r, t);
        seen.push(r);
        seen.push(t);
        firsts.push(pr);
    }
    let n = seen.len();
    seen.sort();
    seen.dedup();
    ensure!(seen.len() == n, "randomisers repeat: {:?}", seen);
    let pr = create_random_proof::<E, _, _, _>(&c, &p, &mut Rng::new(seed)).map_err(|e| e.to_string())?;
    ensure!(pr == firsts[0], "not a function of the random stream");
    nt(s, &c);
    Ok(())
}

/// Chi-square distance of counts from uniform, in standard deviations.
fn chi(counts: &[u32]) -> f64 {
    let n: f64 = counts.iter().map(|c| f64::from(*c)).sum();
    let e = n / counts.len() as f64;
    let x: f64 = counts.iter().map(|c| (f64::from(*c) - e).powi(2) / e).sum();
    let df = counts.len() as f64 - 1.0;
    (x - df) / (2.0 * df).sqrt()
}

/// Over a tiny scalar field the joint distribution of (r, s) is visible: it
/// must be uniform on pairs, and independent from one proof to the next.
fn distribution(s: &mut Src) -> R {
    const Q: u64 = 17;
    type E = Mock<Q>;
    type F = Fp<Q>;
    let mut found = None;
    for _ in 0..40 {
        if let Some((c, tx, q, e1, e2)) = setup::<E>(s, &PAIRS, 7) {
            if bool::from(tx.delta.is_zero() | tx.gamma.is_zero()) || c.rows().len() > 8 {
                continue;
            }
            if let Ok(p) = generate::<E>(&c, &tx, e1, e2) {
                found = Some((c, tx, q, e1, e2, p));
                break;
            }
        }
    }
    let (c, tx, q, e1, e2, p) = match found {
        Some(x) => x,
        None => return Ok(()),
    };
    let seed = s.draw(u64::MAX);
    s.note(|| format!("{} rng seed {}", c.describe(), seed));
    let (a0, b0, _) = q.proof(&c.assignment(), &tx, F::ZERO, F::ZERO);
    let di = tx.delta.inv().unwrap();
    let (i1, i2) = (e1.inv().unwrap(), e2.inv().unwrap());
    let mut rng = Rng::new(seed);
    let k = Q as usize;
    let names = ["(r, s)", "(r, next r)", "(s, next r)", "(s, next s)", "(r, next s)"];
    let mut tables = vec![vec![0u32; k * k]; names.len()];
    let mut last: Option<(usize, usize)> = None;
    for _ in 0..k * k * 16 {
        let pr = create_random_proof::<E, _, _, _>(&c, &p, &mut rng).map_err(|e| e.to_string())?;
        let r = ((pr.a.0 * i1 - a0) * di).v() as usize;
        let t = ((pr.b.0 * i2 - b0) * di).v() as usize;
        tables[0][r * k + t] += 1;
        if let Some((lr, lt)) = last {
            tables[1][lr * k + r] += 1;
            tables[2][lt * k + r] += 1;
            tables[3][lt * k + t] += 1;
            tables[4][lr * k + t] += 1;
        }
        last = Some((r, t));
    }
    for (n, t) in names.iter().zip(&tables) {
        let d = chi(t);
        // Wilson-Hilferty puts 12 standard deviations at about 1e-20
        ensure!(d < 12.0, "{} is not uniform on pairs: {:.1} standard deviations", n, d);
    }
    s.nontrivial();
    Ok(())
}

/// One constraint each for a private variable and a public input, which are
/// both forced to be one.
struct Unit;
impl<F: PrimeField> bellman::Circuit<F> for Unit {
    fn synthesize<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let z = cs.alloc(|| "z", || Ok(F::ONE))?;
        cs.enforce(|| "z", |l| l + CS::one(), |l| l + CS::one(), |l| l + z);
        let p = cs.alloc_input(|| "p", || Ok(F::ONE))?;
        cs.enforce(|| "p", |l| l + CS::one(), |l| l + CS::one(), |l| l + p);
        Ok(())
    }
}

/// Over a tiny scalar field the joint distribution of everything that
/// `generate_random_parameters` draws is visible: all seven values must be
/// independent, and each uniform on the usual values.
fn crs_distribution(s: &mut Src) -> R {
    const Q: u64 = 17;
    type E = Mock<Q>;
    type F = Fp<Q>;
    let seed = s.draw(u64::MAX);
    s.note(|| format!("rng seed {}", seed));
    let mut rng = Rng::new(seed);
    let names = ["alpha", "beta", "gamma", "delta", "tau", "g1", "g2"];
    let omega = {
        let mut w = F::ROOT_OF_UNITY;
        for _ in 2..F::S {
            w = w.square();
        }
        w
    };
    let mut taus: Vec<F> = (1..Q).map(Fp::new).filter(|t| t.powu(4) != F::ONE).collect();
    taus.sort();
    let row = |i: u64, tau: F| {
        let w = omega.powu(i);
        (tau.powu(4) - F::ONE) * w * (Fp::new(4) * (tau - w)).inv().unwrap()
    };
    let mut got: Vec<[u8; 7]> = vec![];
    let mut tries = 0;
    while got.len() < 40000 {
        tries += 1;
        ensure!(tries < 200000, "only {} of {} attempts succeed", got.len(), tries);
        let p = match no_panic(|| generate_random_parameters::<E, _, _>(Unit, &mut rng)) {
            Ok(Ok(p)) => p,
            // trapdoors without inverse
            _ => continue,
        };
        ensure!(p.h.len() == 3 && p.vk.ic.len() == 2, "sizes");
        // only tau outside of the domain, and nothing zero
        let vals = [p.h[0].0, p.h[1].0, p.vk.alpha_g1.0, p.vk.beta_g1.0, p.vk.gamma_g2.0, p.vk.delta_g1.0];
        if vals.iter().any(|v| v.is_zero_vartime()) {
            continue;
        }
        let tau = p.h[1].0 * p.h[0].0.inv().unwrap();
        let ti = match taus.iter().position(|t| *t == tau) {
            Some(i) => i,
            None => return Err(format!("tau = {:?} although the vanishing polynomial is not zero", tau)),
        };
        let t = tau.powu(4) - F::ONE;
        let sq = p.h[0].0 * p.vk.delta_g1.0 * t.inv().unwrap();
        let e1 = Option::<F>::from(sq.sqrt()).ok_or("inconsistent h and delta".to_string())?;
        let mut sol = None;
        for e1 in [e1, -e1] {
            let i1 = e1.inv().unwrap();
            let (al, be, de) = (p.vk.alpha_g1.0 * i1, p.vk.beta_g1.0 * i1, p.vk.delta_g1.0 * i1);
            let e2 = p.vk.beta_g2.0 * be.inv().unwrap();
            let ga = p.vk.gamma_g2.0 * e2.inv().unwrap();
            // p: C in row 1, A in the row of its own (row 3)
            if p.vk.ic[1].0 * ga * i1 == be * row(3, tau) + row(1, tau) {
                sol = Some([al, be, ga, de, e1, e2].map(|v| v.v() as u8 - 1));
            }
        }
        let v = sol.ok_or("no trapdoor fits the parameters")?;
        got.push([v[0], v[1], v[2], v[3], ti as u8, v[4], v[5]]);
    }
    let size = |i: usize| if i == 4 { taus.len() } else { 16 };
    // every triple, also of one set of parameters with the next
    let mut wide: Vec<Vec<u8>> = vec![];
    for (i, g) in got.iter().enumerate() {
        let mut w = g.to_vec();
        w.extend_from_slice(&got[(i + 1) % got.len()]);
        wide.push(w);
    }
    let name = |i: usize| if i < 7 { names[i].to_string() } else { format!("next {}", names[i - 7]) };
    for a in 0..7 {
        for b in a + 1..14 {
            for c in b + 1..14 {
                if c > 7 && c != 7 + a && b != 7 + a && c != 13 {
                    continue;
                }
                let (nb, nc) = (size(b % 7), size(c % 7));
                let mut t = vec![0u32; size(a) * nb * nc];
                for w in &wide {
                    t[(w[a] as usize * nb + w[b] as usize) * nc + w[c] as usize] += 1;
                }
                let d = chi(&t);
                ensure!(
                    d < 14.0,
                    "({}, {}, {}) is not uniform: {:.1} standard deviations",
                    name(a),
                    name(b),
                    name(c),
                    d
                );
            }
        }
    }
    // collisions of everything: a relation between any of the values makes them
    // 12 or 16 times as frequent
    let cells: f64 = (0..7).map(|i| size(i) as f64).product();
    let mean = (got.len() as f64).powi(2) / 2.0 / cells;
    let mut all = got.clone();
    all.sort_unstable();
    let hits = all.windows(2).filter(|w| w[0] == w[1]).count();
    ensure!(
        hits < 30,
        "{} of {} parameters have all trapdoors in common with others ({:.1} expected): the trapdoors are not independent",
        hits,
        got.len(),
        mean
    );
    s.nontrivial();
    Ok(())
}

/// Counts the random bytes handed out.
struct Meter(Rng, usize);
impl rand_core::RngCore for Meter {
    fn next_u32(&mut self) -> u32 {
        self.1 += 4;
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 8;
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.1 += d.len();
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Elements that are (nearly) uniform in a 255-bit field cannot be made from
/// fewer than about 255 random bits each.
fn entropy(s: &mut Src) -> R {
    let c = circuit::<bls12_381::Scalar>(s, &SMALL, 8);
    s.note(|| c.describe());
    let mut rng = Meter(Rng::new(s.draw(u64::MAX)), 0);
    let p = generate_random_parameters::<Bls12, _, _>(&c, &mut rng).map_err(|e| e.to_string())?;
    ensure!(
        rng.1 >= 7 * 31,
        "seven random elements were made from {} random bytes",
        rng.1
    );
    for _ in 0..2 {
        let mut rng = Meter(Rng::new(s.draw(u64::MAX)), 0);
        create_random_proof::<Bls12, _, _, _>(&c, &p, &mut rng).map_err(|e| e.to_string())?;
        ensure!(
            rng.1 >= 2 * 31,
            "two random field elements were made from {} random bytes",
            rng.1
        );
    }
    nt(s, &c);
    Ok(())
}

// --------------------------------------------------------------------- C05

/// Faults while proving: an error must come back, nothing else.
fn c05_faults(s: &mut Src) -> R {
    type E = MG;
    type F = Fp<GOLD>;
    let (mut c, tx, q, e1, e2) = match setup::<E>(s, &SHAPE, 100) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut p = generate::<E>(&c, &tx, e1, e2).map_err(|e| e.to_string())?;
    let kind = s.below(7);
    let (r, t) = (scalar::<F>(s), scalar::<F>(s));
    let mut want: Option<&'static str> = None;
    let mut via_strict = None;
    match kind {
        0 => {
            let n = c.inputs.len() + c.aux.len();
            if n == 0 {
                return Ok(());
            }
            c.missing = Some(if s.chance(1, 8) { usize::MAX } else { s.below(n) });
            if s.bool() {
                c.missing_kind = s.draw(6) as u8;
            }
            want = Some(ekind(&synth_error(c.missing_kind)));
            s.label("missing assignment");
        }
        1 => {
            let k = s.draw(6) as u8;
            c.fail_at = Some((s.below(c.steps.len() + 1), k));
            want = Some(ekind(&synth_error(k)));
            s.label("synthesis error");
        }
        2 => {
            // parameters too short: one of the vectors misses its tail
            let which = s.below(5);
            let n = [p.h.len(), p.l.len(), p.a.len(), p.b_g1.len(), p.b_g2.len()][which];
            if n == 0 {
                return Ok(());
            }
            let keep = s.below(n);
            match which {
                0 => Arc::make_mut(&mut p.h).truncate(keep),
                1 => Arc::make_mut(&mut p.l).truncate(keep),
                2 => Arc::make_mut(&mut p.a).truncate(keep),
                3 => Arc::make_mut(&mut p.b_g1).truncate(keep),
                _ => Arc::make_mut(&mut p.b_g2).truncate(keep),
            }
            want = Some("IoError");
            s.label("truncated parameters");
        }
        3 => {
            let k = s.below(3);
            if k != 1 {
                p.vk.delta_g1 = g1::<E>(F::ZERO);
            }
            if k != 0 {
                p.vk.delta_g2 = g2::<E>(<E as Engine>::Fr::ZERO);
            }
            want = Some("UnexpectedIdentity");
            s.label("identity delta");
        }
        4 => {
            // an identity among the bases: either an error, or that base was
            // not needed and the proof is unaffected
            let which = s.below(5);
            let n = [p.h.len(), p.l.len(), p.a.len(), p.b_g1.len(), p.b_g2.len()][which];
            if n == 0 {
                return Ok(());
            }
            let k = s.below(n);
            let id1 = g1::<E>(F::ZERO);
            match which {
                0 => Arc::make_mut(&mut p.h)[k] = id1,
                1 => Arc::make_mut(&mut p.l)[k] = id1,
                2 => Arc::make_mut(&mut p.a)[k] = id1,
                3 => Arc::make_mut(&mut p.b_g1)[k] = id1,
                _ => Arc::make_mut(&mut p.b_g2)[k] = g2::<E>(F::ZERO),
            }
            s.label("identity base");
        }
        _ => {
            // a parameter source that fails: at a request, or at an element
            let mut st = Strict::new(&p, &c, &q);
            let sizes = [
                0,
                st.want_h,
                st.want_l,
                st.want_a.0,
                st.want_a.1,
                st.want_b.0,
                st.want_b.1,
                st.want_b.0,
                st.want_b.1,
            ];
            let req = s.below(9);
            if sizes[req] == 0 || s.chance(1, 3) {
                if req == 4 || req == 6 || req == 8 {
                    return Ok(());
                }
                st.fault = Some((req, usize::MAX));
            } else {
                st.fault = Some((req, s.below(sizes[req])));
            }
            via_strict = Some(st);
            want = Some("IoError");
            s.label("failing parameter source");
        }
    }
    s.note(|| format!("{} fault kind {} want {:?}", c.describe(), kind, want));
    let res = match &mut via_strict {
        Some(st) => no_panic(|| create_proof::<E, _, _>(&c, st, r, t)),
        None => no_panic(|| create_proof::<E, _, _>(&c, &p, r, t)),
    }
    .map_err(|e| format!("create_proof panicked: {}", e))?;
    match (&res, want) {
        (Err(e), Some(w)) => {
            ensure!(ekind(e) == w, "create_proof gave {} ({}), expected {}", ekind(e), e, w);
        }
        (Ok(_), Some(w)) => return Err(format!("create_proof succeeded, expected {}", w)),
        (Err(e), None) => {
            ensure!(ekind(e) == "UnexpectedIdentity", "create_proof gave {}", e);
        }
        (Ok(proof), None) => {
            let (a, b, cc) = q.proof(&c.assignment(), &tx, r, t);
            ensure!(
                proof.a.0 == a * e1 && proof.b.0 == b * e2 && proof.c.0 == cc * e1,
                "an identity base silently changed the proof"
            );
            s.label("identity base not needed");
        }
    }
    nt(s, &c);
    Ok(())
}

/// The same on the real curve (drops of running tasks differ there).
fn c05_faults_bls(s: &mut Src) -> R {
    type E = Bls12;
    let (mut c, tx, _, e1, e2) = match setup::<E>(s, &SMALL, 40) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut p = generate::<E>(&c, &tx, e1, e2).map_err(|e| e.to_string())?;
    let kind = s.below(3);
    match kind {
        0 => p.vk.delta_g2 = <E as Engine>::G2Affine::identity(),
        1 => {
            if p.b_g2.is_empty() {
                return Ok(());
            }
            let n = s.below(p.b_g2.len());
            Arc::make_mut(&mut p.b_g2).truncate(n);
        }
        _ => {
            let n = c.inputs.len() + c.aux.len();
            if n == 0 {
                return Ok(());
            }
            c.missing = Some(s.below(n));
        }
    }
    s.note(|| format!("{} fault kind {}", c.describe(), kind));
    let r = no_panic(|| create_proof::<E, _, _>(&c, &p, wide(s), wide(s)))
        .map_err(|e| format!("create_proof panicked: {}", e))?;
    ensure!(r.is_err(), "create_proof succeeded");
    nt(s, &c);
    Ok(())
}

/// Parameters of one circuit used for another.
fn c05_mismatch(s: &mut Src) -> R {
    type E = MG;
    type F = Fp<GOLD>;
    let (c1, tx, _, e1, e2) = match setup::<E>(s, &SHAPE, 60) {
        Some(x) => x,
        None => return Ok(()),
    };
    let p = generate::<E>(&c1, &tx, e1, e2).map_err(|e| e.to_string())?;
    let c2 = circuit::<F>(s, &SHAPE, 60);
    s.note(|| format!("params of {} used for {}", c1.describe(), c2.describe()));
    let (r, t) = (wide::<F>(s), wide::<F>(s));
    let res = no_panic(|| create_proof::<E, _, _>(&c2, &p, r, t)).map_err(|e| format!("create_proof panicked: {}", e))?;
    if let Ok(proof) = res {
        // An accepted proof is one of a true statement of c1: its witness is
        // what the prover used with the (full) L query.
        let v = no_panic(|| verify_proof(&prepare_verifying_key(&p.vk), &proof, &c2.inputs))
            .map_err(|e| format!("verifier panicked: {}", e))?;
        s.label("proof produced");
        if v.is_ok() {
            let mut probe = c1.clone();
            s.label("proof accepted");
            ensure!(c1.inputs.len() == c2.inputs.len(), "accepted with another number of inputs");
            probe.inputs = c2.inputs.clone();
            probe.aux = c2.aux.clone();
            probe.aux.resize(c1.aux.len(), F::ZERO);
            ensure!(probe.satisfied(), "accepted a proof of a false statement");
        }
    } else {
        s.label("error");
    }
    nt(s, &c2);
    Ok(())
}

/// A witness violating at least one constraint is never accepted.
fn unsatisfied<E>(s: &mut Src, sh: &Shape, maxrows: usize) -> R
where
    E: MultiMillerLoop,
    E::Fr: PrimeFieldBits,
    E::G1: WnafGroup,
    E::G2: WnafGroup,
{
    let (mut c, tx, _, e1, e2) = match setup::<E>(s, sh, maxrows) {
        Some(x) => x,
        None => return Ok(()),
    };
    let p = generate::<E>(&c, &tx, e1, e2).map_err(|e| e.to_string())?;
    let n = c.inputs.len() + c.aux.len();
    if n == 0 {
        return Ok(());
    }
    for _ in 0..1 + s.below(2) {
        let k = s.below(n);
        let d = nonzero::<E::Fr>(s);
        if k < c.inputs.len() {
            c.inputs[k] += d;
        } else {
            let i = k - c.inputs.len();
            c.aux[i] += d;
        }
    }
    let sat = c.satisfied();
    s.note(|| format!("{} satisfied={}", c.describe(), sat));
    let proof = no_panic(|| create_proof::<E, _, _>(&c, &p, wide(s), wide(s)))
        .map_err(|e| format!("create_proof panicked: {}", e))?;
    if let Ok(proof) = proof {
        let ok = verify_proof(&prepare_verifying_key(&p.vk), &proof, &c.inputs).is_ok();
        ensure!(ok == sat, "witness satisfies the circuit: {}, proof accepted: {}", sat, ok);
    } else {
        ensure!(!sat, "proving failed for a satisfying witness");
    }
    s.label(if sat { "still satisfied" } else { "violated" });
    s.nontrivial_if(!sat);
    Ok(())
}
fn c05_unsat(s: &mut Src) -> R {
    unsatisfied::<MG>(s, &SHAPE, 80)
}
fn c05_unsat_bls(s: &mut Src) -> R {
    unsatisfied::<Bls12>(s, &SMALL, 16)
}

// --------------------------------------------------------------------- C26

fn pairs<E>(s: &mut Src, sh: &Shape, maxrows: usize) -> R
where
    E: MultiMillerLoop,
    E::Fr: PrimeFieldBits,
    E::G1: WnafGroup,
    E::G2: WnafGroup,
{
    let (c1, tx, q, e1, e2) = match setup::<E>(s, sh, maxrows) {
        Some(x) => x,
        None => return Ok(()),
    };
    let p = generate::<E>(&c1, &tx, e1, e2).map_err(|e| e.to_string())?;
    let mut c2 = c1.clone();
    for i in c2.free_aux() {
        if s.chance(2, 3) {
            c2.aux[i] = scalar(s);
        }
    }
    c2.recompute();
    debug_assert!(c2.satisfied());
    s.note(|| format!("{} / other witness {:?}", c1.describe(), c2.aux));
    let (z1, z2) = (c1.assignment(), c2.assignment());
    let dot = |p: &[E::Fr], z: &[E::Fr]| p.iter().zip(z).fold(E::Fr::ZERO, |t, (a, b)| t + *a * b);
    let di = tx.delta.invert().unwrap();
    let (r1, s1) = (scalar::<E::Fr>(s), scalar::<E::Fr>(s));
    let r2 = r1 + (dot(&q.a, &z1) - dot(&q.a, &z2)) * di;
    let s2 = s1 + (dot(&q.b, &z1) - dot(&q.b, &z2)) * di;
    let p1 = create_proof::<E, _, _>(&c1, &p, r1, s1).map_err(|e| e.to_string())?;
    let p2 = create_proof::<E, _, _>(&c2, &p, r2, s2).map_err(|e| e.to_string())?;
    ensure!(
        p1 == p2,
        "the proof of one witness cannot be reproduced from the other: {:?} / {:?}",
        p1,
        p2
    );
    // A and B run through the whole group as r and s do
    let (t1, t2) = (wide::<E::Fr>(s), wide::<E::Fr>(s));
    let r3 = (t1 - tx.alpha - dot(&q.a, &z2)) * di;
    let s3 = (t2 - tx.beta - dot(&q.b, &z2)) * di;
    let p3 = create_proof::<E, _, _>(&c2, &p, r3, s3).map_err(|e| e.to_string())?;
    ensure_eq!(p3.a, g1::<E>(t1 * e1), "A does not hit a chosen target");
    ensure_eq!(p3.b, g2::<E>(t2 * e2), "B does not hit a chosen target");
    if c1.aux != c2.aux {
        s.label("witnesses differ");
        s.nontrivial();
    }
    if r1 != r2 && s1 != s2 {
        s.label("A and B parts of the witnesses differ");
    }
    Ok(())
}
fn c26_mock(s: &mut Src) -> R {
    pairs::<MG>(s, &PAIRS, 100)
}
fn c26_bls(s: &mut Src) -> R {
    pairs::<Bls12>(s, &PAIRS, 16)
}

const RULE: &str = "random R1CS circuits (operation by operation: allocations interleaved with constraints, repeated/zero/cancelling terms, every spelling of linear combinations, padding to domain-size boundaries) with satisfying witness; non-trivial: at least one constraint and two variables";

/// Randomisers use the whole width of the scalar field, and so do the
/// trapdoors: every bit takes both values.
fn bits(s: &mut Src) -> R {
    type E = Wide;
    type F = <Wide as Engine>::Fr;
    let (c, tx, q, e1, e2) = match setup::<E>(s, &SMALL, 8) {
        Some(x) => x,
        None => return Ok(()),
    };
    if bool::from(tx.delta.is_zero() | tx.gamma.is_zero()) {
        return Ok(());
    }
    let p = generate::<E>(&c, &tx, e1, e2).map_err(|e| e.to_string())?;
    let seed = s.draw(u64::MAX);
    s.note(|| format!("{} rng seed {}", c.describe(), seed));
    let (a0, b0, _) = q.proof(&c.assignment(), &tx, F::ZERO, F::ZERO);
    let di = tx.delta.invert().unwrap();
    let (i1, i2) = (e1.invert().unwrap(), e2.invert().unwrap());
    let mut rng = Rng::new(seed);
    const N: usize = 128;
    let mut v: [Vec<F>; 3] = Default::default();
    for _ in 0..N {
        let pr = create_random_proof::<E, _, _, _>(&c, &p, &mut rng).map_err(|e| e.to_string())?;
        let r = (pr.a.0 * i1 - a0) * di;
        let t = (pr.b.0 * i2 - b0) * di;
        v[0].push(r);
        v[1].push(t);
        v[2].push(r - t);
    }
    every_bit("r", &v[0])?;
    every_bit("s", &v[1])?;
    every_bit("r - s", &v[2])?;
    nt(s, &c);
    Ok(())
}
/// Among many uniform elements no two are equal and every bit is often set
/// and often clear (the modulus is 0.9 * 2^255).
fn every_bit(what: &str, v: &[<Wide as Engine>::Fr]) -> R {
    let mut n = [0usize; 255];
    for x in v {
        let r = x.to_repr();
        for (i, k) in n.iter_mut().enumerate() {
            *k += usize::from(r[i / 8] >> (i % 8) & 1);
        }
    }
    for (i, k) in n.iter().enumerate() {
        // for 128 fair coins: fewer than 20 heads or tails has probability 1e-16
        ensure!(
            *k >= v.len() / 6 && *k <= v.len() - v.len() / 6,
            "bit {} of {} is set in {} of {} cases",
            i,
            what,
            k,
            v.len()
        );
    }
    let mut u: Vec<_> = v.iter().map(|x| x.to_repr()).collect();
    u.sort_unstable();
    u.dedup();
    ensure!(u.len() == v.len(), "{} repeats", what);
    Ok(())
}
/// The same for the trapdoors and generators of `generate_random_parameters`,
/// as far as they can be read off the key.
fn bits_crs(s: &mut Src) -> R {
    type E = Wide;
    type F = <Wide as Engine>::Fr;
    let c = circuit::<F>(s, &SMALL, 8);
    let seed = s.draw(u64::MAX);
    s.note(|| format!("{} rng seed {}", c.describe(), seed));
    let mut rng = Rng::new(seed);
    let names = ["alpha g1", "beta g1", "delta g1", "beta g2", "gamma g2", "delta g2", "alpha / beta", "gamma / delta"];
    let mut v: Vec<Vec<F>> = vec![vec![]; 8];
    for _ in 0..128 {
        let p = generate_random_parameters::<E, _, _>(&c, &mut rng).map_err(|e| e.to_string())?;
        let k = &p.vk;
        let l = [k.alpha_g1.0, k.beta_g1.0, k.delta_g1.0, k.beta_g2.0, k.gamma_g2.0, k.delta_g2.0];
        for (v, x) in v.iter_mut().zip(l) {
            v.push(x);
        }
        // ratios do not depend on the generators
        v[6].push(k.alpha_g1.0 * k.beta_g1.0.invert().unwrap());
        v[7].push(k.gamma_g2.0 * k.delta_g2.0.invert().unwrap());
    }
    for (n, v) in names.iter().zip(&v) {
        every_bit(n, v)?;
    }
    nt(s, &c);
    Ok(())
}

fn c01_wide(s: &mut Src) -> R {
    completeness::<Wide>(s, &SHAPE, 100)
}
fn c02_wide(s: &mut Src) -> R {
    verifier_eq::<Wide>(s)
}
fn c03_wide(s: &mut Src) -> R {
    crs::<Wide>(s, &SHAPE, 100)
}
fn c04_wide(s: &mut Src) -> R {
    formula::<Wide>(s, &SHAPE, 100)
}
fn c05_unsat_wide(s: &mut Src) -> R {
    unsatisfied::<Wide>(s, &SHAPE, 60)
}
fn c26_wide(s: &mut Src) -> R {
    pairs::<Wide>(s, &PAIRS, 60)
}

const LARGE: usize = 1 << 20;
fn c01_large(s: &mut Src) -> R {
    completeness::<MG>(s, &bulk(5, 11, false), LARGE)
}
fn c01_huge(s: &mut Src) -> R {
    completeness::<MG>(s, &bulk(12, 17, false), LARGE)
}
fn c03_large(s: &mut Src) -> R {
    crs::<MG>(s, &bulk(5, 11, false), LARGE)
}
fn c03_huge(s: &mut Src) -> R {
    crs::<MG>(s, &bulk(12, 17, false), LARGE)
}
fn c04_large(s: &mut Src) -> R {
    formula::<MG>(s, &bulk(5, 11, false), LARGE)
}
fn c04_huge(s: &mut Src) -> R {
    formula::<MG>(s, &bulk(12, 17, false), LARGE)
}
fn c05_large(s: &mut Src) -> R {
    unsatisfied::<MG>(s, &bulk(5, 11, false), LARGE)
}
fn c26_large(s: &mut Src) -> R {
    pairs::<MG>(s, &bulk(5, 11, true), LARGE)
}
fn bls_mid(s: &mut Src) -> R {
    formula::<Bls12>(s, &bulk(4, 8, false), LARGE)
}

fn main() {
    let th = THREADS_ST;
    vph::runner::main(vec![
        Prop {
            id: "C01",
            rule: RULE,
            assumptions: &["trapdoors drawn at random: a QAP polynomial vanishing at tau by accident is excluded"],
            threads: th,
            subs: vec![
                sub("mock", 24000, 400000, c01_mock),
                sub("mock9", 8000, 100000, c01_mock9),
                sub("large", 600, 12000, c01_large),
                sub("huge", 16, 400, c01_huge),
                sub("wide", 4000, 100000, c01_wide),
                sub("gadgets", 8000, 150000, c01_gadgets),
                sub("gadgets_wide", 2000, 40000, c01_gadgets_wide),
                sub("hashing", 64, 1500, c01_hashing),
                sub("gadgets_bls", 96, 3000, c01_gadgets_bls),
                sub("bls", 240, 5000, c01_bls),
            ],
        },
        Prop {
            id: "C02",
            rule: "keys, proofs and inputs with known exponents, solved to satisfy the equation and then disturbed (also by transformations that preserve it); honest proofs altered on Bls12-381; non-trivial: at least one public input",
            assumptions: &["the pairing libraries"],
            threads: THREADS,
            subs: vec![
                sub("mock", 400000, 8000000, c02_mock),
                sub("small", 400000, 8000000, c02_small),
                sub("wide", 100000, 2000000, c02_wide),
                sub("many", 2000, 60000, c02_many),
                sub("bls", 1500, 30000, c02_bls),
                sub("altered", 400, 8000, c02_altered),
            ],
        },
        Prop {
            id: "C03",
            rule: RULE,
            assumptions: &["a QAP polynomial vanishing at tau by accident is excluded"],
            threads: th,
            subs: vec![
                sub("mock", 24000, 400000, c03_mock),
                sub("mock9", 8000, 100000, c03_mock9),
                sub("large", 600, 12000, c03_large),
                sub("huge", 16, 400, c03_huge),
                sub("wide", 4000, 100000, c03_wide),
                sub("bls", 240, 5000, c03_bls),
                sub("errors", 30000, 300000, c03_errors),
                sub("degree", 3000, 40000, c03_degree),
                sub("random", 8000, 100000, c03_random),
                sub("bits", 64, 3000, bits_crs),
                sub("distribution", 8, 400, crs_distribution),
                sub("entropy", 64, 2000, entropy),
            ],
        },
        Prop {
            id: "C04",
            rule: RULE,
            assumptions: &["a QAP polynomial vanishing at tau by accident is excluded"],
            threads: th,
            subs: vec![
                sub("mock", 24000, 400000, c04_mock),
                sub("mock9", 8000, 100000, c04_mock9),
                sub("large", 600, 12000, c04_large),
                sub("huge", 16, 400, c04_huge),
                sub("wide", 4000, 100000, c04_wide),
                sub("bls", 240, 5000, c04_bls),
                sub("bls-large", 16, 600, bls_mid),
                sub("random", 6000, 80000, c04_random),
                sub("bits", 64, 3000, bits),
                sub("distribution", 32, 1500, distribution),
                sub("entropy", 64, 2000, entropy),
            ],
        },
        Prop {
            id: "C05",
            rule: "random circuits with one injected fault (missing assignment, synthesis error, truncated or foreign parameters, identity elements, failing parameter source) or a disturbed witness; non-trivial: as for circuits, or a violated constraint",
            assumptions: &["a false statement is accepted with probability about 2^-50 by accident"],
            threads: th,
            subs: vec![
                sub("faults", 24000, 400000, c05_faults),
                sub("faults_bls", 160, 4000, c05_faults_bls),
                sub("mismatch", 16000, 200000, c05_mismatch),
                sub("unsat", 16000, 300000, c05_unsat),
                sub("unsat-large", 400, 10000, c05_large),
                sub("unsat_wide", 4000, 80000, c05_unsat_wide),
                sub("unsat_bls", 160, 3000, c05_unsat_bls),
            ],
        },
        Prop {
            id: "C26",
            rule: "random circuits and two satisfying witnesses with equal public inputs; non-trivial: the witnesses differ",
            assumptions: &[],
            threads: th,
            subs: vec![
                sub("mock", 20000, 300000, c26_mock),
                sub("large", 400, 10000, c26_large),
                sub("wide", 4000, 80000, c26_wide),
                sub("bls", 160, 4000, c26_bls),
                sub("bits", 64, 3000, bits),
                sub("distribution", 32, 1500, distribution),
                sub("entropy", 64, 2000, entropy),
            ],
        },
    ])
}
