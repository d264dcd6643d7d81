//! What the checks of the gadget library share.

use crate::engine::*;
use crate::gprog::*;
use crate::rec::*;
use crate::solve::*;
use ff::PrimeFieldBits;

/// Calls a generic case function with one of several fields.
#[macro_export]
macro_rules! fields {
    ($s:expr, $f:ident, $( $w:literal $t:ty = $l:literal ),* $(,)?) => {{
        let ws = [$($w),*];
        let k = $s.weighted(&ws);
        let mut i = 0;
        $(
            if k == i { $s.label($l); return $f::<$t>($s); }
            i += 1;
        )*
        let _ = i;
        unreachable!()
    }};
}

pub const NODES: u64 = 3000;

pub fn show<F: PrimeFieldBits>(s: &mut Src, p: &Prog<F>, w: &Wit<F>) {
    s.note(|| describe(p, w));
}

/// Runs a program under its witness, checks all values, and returns the
/// recorded system.
pub fn run<F: PrimeFieldBits>(p: &Prog<F>, w: &Wit<F>) -> Result<(Rec<F>, State<F>), String> {
    let mut r = Rec::new(Mode::Eval);
    let mut st = State::new(true);
    exec(&mut r, p, w, &mut st).map_err(|e| format!("synthesis failed: {:?}", e))?;
    check_values(&r, &st)?;
    Ok((r, st))
}

pub fn unique<F: PrimeFieldBits>(
    s: &mut Src,
    r: &Rec<F>,
    st: &State<F>,
    tg: &[Terms<F>],
    what: &str,
) -> R {
    match second(r, &st.ins, tg, NODES) {
        (Verdict::None, _) => {
            s.label("unique: complete search");
            Ok(())
        }
        (Verdict::Undecided, _) => {
            s.label("unique: undecided");
            Ok(())
        }
        (Verdict::Found(y), _) => {
            let z = honest(r);
            let d: Vec<String> = (0..z.len())
                .filter(|i| z[*i] != y[*i])
                .take(8)
                .map(|i| {
                    let n = r.inputs.len();
                    let ix = if i < n { 2 * i } else { 2 * (i - n) + 1 };
                    format!("{}: {:?} -> {:?}", show_ix(ix), z[i], y[i])
                })
                .collect();
            Err(format!("{}: a second assignment is accepted: {:?}", what, d))
        }
    }
}

pub fn program<F: PrimeFieldBits>(s: &mut Src, th: &Theme) -> R {
    let (p, w) = gen::<F>(s, th);
    show(s, &p, &w);
    let (r, st) = run(&p, &w)?;
    let computed = r.cons.len() > st.ins.len();
    s.nontrivial_if(st.ops >= 2 && computed);
    if computed {
        s.label("has computed constraints");
    }
    let tg = targets(&r, &st);
    unique(s, &r, &st, &tg, "output")
}


pub const T_SHAPE: Theme = Theme {
    bool_: 8,
    num: 5,
    lin: 4,
    word: 8,
    look: 3,
    strict: 1,
    loose: 1,
    publ: 3,
    hash: 0,
    me: true,
    max_ops: 20,
    max_bits: 900,
};
