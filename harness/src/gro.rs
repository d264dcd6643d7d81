//! Shared pieces of the Groth16 checks.

use crate::circ::*;
use crate::engine::*;
use bellman::SynthesisError;
use ff::{Field, PrimeField, PrimeFieldBits};
use group::{Curve, Group, WnafGroup};
use groth16::*;
use pairing::Engine;

pub fn g1<E: Engine>(e: E::Fr) -> E::G1Affine {
    (E::G1::generator() * e).to_affine()
}
pub fn g2<E: Engine>(e: E::Fr) -> E::G2Affine {
    (E::G2::generator() * e).to_affine()
}

pub const SHAPE: Shape = Shape {
    max_cons: 24,
    max_inputs: 6,
    derived_inputs: true,
    adjusted: true,
    bulk: None,
};
pub const SMALL: Shape = Shape {
    max_cons: 8,
    max_inputs: 3,
    derived_inputs: true,
    adjusted: true,
    bulk: None,
};
pub const PAIRS: Shape = Shape {
    max_cons: 16,
    max_inputs: 4,
    derived_inputs: false,
    adjusted: false,
    bulk: None,
};
/// Larger circuits.
pub const fn bulk(lo: u64, hi: u64, pairs: bool) -> Shape {
    Shape {
        max_cons: 0,
        max_inputs: 0,
        derived_inputs: !pairs,
        adjusted: !pairs,
        bulk: Some((lo, hi)),
    }
}

/// A circuit that parameter generation must accept.
pub fn circuit<F: PrimeField>(s: &mut Src, sh: &Shape, maxrows: usize) -> Circ<F> {
    let mut c = match sh.bulk {
        None => gen_circ::<F>(s, sh),
        Some((lo, hi)) => gen_bulk::<F>(s, sh, lo, hi),
    };
    close(s, &mut c);
    // land on and around domain-size boundaries, and on long circuits
    match s.weighted(&[6, 3, 1]) {
        0 => {}
        1 => {
            let rows = c.cons.len() + c.inputs.len() + 1;
            let m = domain_size(rows);
            let d = s.below(3);
            let target = if m > 1 { m - 1 + d } else { m + d };
            if target <= maxrows {
                pad(s, &mut c, target);
            }
        }
        _ => {
            let t = s.size(1, maxrows.min(130));
            pad(s, &mut c, t);
        }
    }
    debug_assert!(c.satisfied());
    c
}

pub fn label_circ<F: PrimeField>(s: &mut Src, c: &Circ<F>) {
    let rows = c.rows().len();
    if rows.is_power_of_two() {
        s.label("rows = power of two");
    }
    if c.aux.is_empty() {
        s.label("no private variables");
    }
    if c.inputs.is_empty() {
        s.label("no public inputs");
    }
    if c.cons.is_empty() {
        s.label("no constraints");
    }
    if rows > 64 {
        s.label("more than 64 rows");
    }
    if c.cancelling() {
        s.label("cancelling terms in A or B");
    }
}

pub fn nt<F: PrimeField>(s: &mut Src, c: &Circ<F>) {
    s.nontrivial_if(!c.cons.is_empty() && c.inputs.len() + c.aux.len() >= 2);
}

/// A well-conditioned circuit, trapdoor and QAP: no polynomial vanishes at
/// tau by accident (probability about 2^-50 otherwise).
#[allow(clippy::type_complexity)]
pub fn setup<E>(
    s: &mut Src,
    sh: &Shape,
    maxrows: usize,
) -> Option<(Circ<E::Fr>, Toxic<E::Fr>, Qap<E::Fr>, E::Fr, E::Fr)>
where
    E: Engine,
    E::Fr: PrimeFieldBits,
{
    let c = circuit::<E::Fr>(s, sh, maxrows);
    let tx = gen_toxic::<E::Fr>(s);
    let (e1, e2) = if s.bool() {
        (wide::<E::Fr>(s), wide::<E::Fr>(s))
    } else {
        (E::Fr::ONE, E::Fr::ONE)
    };
    if e1.is_zero_vartime() || e2.is_zero_vartime() {
        return None;
    }
    label_circ(s, &c);
    let q = qap(&c, tx.tau)?;
    if q.accidental_zero(&c, &tx) {
        return None;
    }
    Some((c, tx, q, e1, e2))
}

pub fn generate<E>(c: &Circ<E::Fr>, tx: &Toxic<E::Fr>, e1: E::Fr, e2: E::Fr) -> Result<Parameters<E>, SynthesisError>
where
    E: Engine,
    E::G1: WnafGroup,
    E::G2: WnafGroup,
{
    generate_parameters::<E, _>(
        c,
        E::G1::generator() * e1,
        E::G2::generator() * e2,
        tx.alpha,
        tx.beta,
        tx.gamma,
        tx.delta,
        tx.tau,
    )
}

