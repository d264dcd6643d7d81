//! C07 encodings round-trip, C08 decoders reject malformed data.

use bls12_381::Bls12;
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use groth16::*;
use pairing::Engine;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{self, Read, Write};
use std::sync::Arc;
use vph::engine::*;
use vph::fp::*;
use vph::mock::*;
use vph::runner::*;
use vph::{ensure, ensure_eq};

// ------------------------------------------------------- counting allocator

struct Counting;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
/// No honest case of these checks needs a single block of this size.
const REFUSE: usize = 1 << 30;

fn add(n: isize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            CUR.with(|c| {
                let v = c.get() + n;
                c.set(v);
                PEAK.with(|p| {
                    if v > p.get() {
                        p.set(v)
                    }
                })
            })
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return core::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return core::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE {
            return core::ptr::null_mut();
        }
        // old and new block may exist side by side
        add(n as isize);
        let r = System.realloc(p, l, n);
        add(-(l.size() as isize));
        r
    }
}
#[global_allocator]
static A: Counting = Counting;

fn measured<T>(f: impl FnOnce() -> T) -> (T, usize) {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    ON.with(|c| c.set(true));
    let r = f();
    ON.with(|c| c.set(false));
    (r, PEAK.with(|c| c.get()).max(0) as usize)
}

// ------------------------------------------------------------ odd transports

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Kind(io::ErrorKind),
    /// `write` accepts nothing more / `read` ends early.
    Zero,
}
const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidData,
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
];

/// Hands out data in pieces, with interruptions, and may fail at an offset.
struct Pieces<'a> {
    data: &'a [u8],
    pos: usize,
    rng: Rng,
    max: u64,
    at: usize,
    fault: Fault,
    hit: bool,
}
impl<'a> Pieces<'a> {
    fn new(data: &'a [u8], s: &mut Src) -> Self {
        Pieces {
            data,
            pos: 0,
            rng: s.rng(),
            max: *s.pick(&[1, 2, 3, 7, 50, 100_000]),
            at: usize::MAX,
            fault: Fault::None,
            hit: false,
        }
    }
}
impl Read for Pieces<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.max < 1000 && self.rng.next() % 8 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = (1 + self.rng.next() % self.max) as usize;
        n = n.min(b.len()).min(self.data.len() - self.pos);
        if self.fault != Fault::None {
            if self.pos >= self.at {
                self.hit = true;
                match self.fault {
                    Fault::Kind(k) => return Err(k.into()),
                    _ => return Ok(0),
                }
            }
            n = n.min(self.at - self.pos);
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

struct Sink {
    out: Vec<u8>,
    rng: Rng,
    max: u64,
    at: usize,
    fault: Fault,
    hit: bool,
}
impl Sink {
    fn new(s: &mut Src) -> Self {
        Sink {
            out: vec![],
            rng: s.rng(),
            max: *s.pick(&[1, 2, 5, 31, 100_000]),
            at: usize::MAX,
            fault: Fault::None,
            hit: false,
        }
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.max < 1000 && self.rng.next() % 8 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = ((1 + self.rng.next() % self.max) as usize).min(b.len());
        if self.fault != Fault::None {
            if self.out.len() >= self.at {
                self.hit = true;
                match self.fault {
                    Fault::Kind(k) => return Err(k.into()),
                    _ => return Ok(0),
                }
            }
            n = n.min(self.at - self.out.len());
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------------- objects

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Proof,
    Key,
    Params,
}

/// The parts of an encoding, in order.
#[derive(Clone, Copy, Debug)]
enum Part<E: Engine> {
    /// Compressed points, uncompressed points, vector length.
    C1(E::G1Affine),
    C2(E::G2Affine),
    U1(E::G1Affine),
    U2(E::G2Affine),
    Len(u32),
}

impl<E: Engine> PartialEq for Part<E> {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Part::C1(a), Part::C1(b)) | (Part::U1(a), Part::U1(b)) => a == b,
            (Part::C2(a), Part::C2(b)) | (Part::U2(a), Part::U2(b)) => a == b,
            (Part::Len(a), Part::Len(b)) => a == b,
            _ => false,
        }
    }
}

fn enc<E: Engine>(p: &Part<E>) -> Vec<u8> {
    match p {
        Part::C1(g) => g.to_bytes().as_ref().to_vec(),
        Part::C2(g) => g.to_bytes().as_ref().to_vec(),
        Part::U1(g) => g.to_uncompressed().as_ref().to_vec(),
        Part::U2(g) => g.to_uncompressed().as_ref().to_vec(),
        Part::Len(n) => n.to_be_bytes().to_vec(),
    }
}
fn encode<E: Engine>(ps: &[Part<E>]) -> Vec<u8> {
    let mut v = vec![];
    for p in ps {
        v.extend(enc(p));
    }
    v
}

#[derive(Clone)]
enum Obj<E: Engine> {
    Proof(Proof<E>),
    Key(VerifyingKey<E>),
    Params(Parameters<E>),
}

fn key_parts<E: Engine>(k: &VerifyingKey<E>) -> Vec<Part<E>> {
    let mut v = vec![
        Part::U1(k.alpha_g1),
        Part::U1(k.beta_g1),
        Part::U2(k.beta_g2),
        Part::U2(k.gamma_g2),
        Part::U1(k.delta_g1),
        Part::U2(k.delta_g2),
        Part::Len(k.ic.len() as u32),
    ];
    v.extend(k.ic.iter().map(|g| Part::U1(*g)));
    v
}

impl<E: Engine> Obj<E> {
    fn parts(&self) -> Vec<Part<E>> {
        match self {
            Obj::Proof(p) => vec![Part::C1(p.a), Part::C2(p.b), Part::C1(p.c)],
            Obj::Key(k) => key_parts(k),
            Obj::Params(p) => {
                let mut v = key_parts(&p.vk);
                for q in [&p.h, &p.l, &p.a, &p.b_g1] {
                    v.push(Part::Len(q.len() as u32));
                    v.extend(q.iter().map(|g| Part::U1(*g)));
                }
                v.push(Part::Len(p.b_g2.len() as u32));
                v.extend(p.b_g2.iter().map(|g| Part::U2(*g)));
                v
            }
        }
    }
    fn kind(&self) -> Kind {
        match self {
            Obj::Proof(_) => Kind::Proof,
            Obj::Key(_) => Kind::Key,
            Obj::Params(_) => Kind::Params,
        }
    }
    fn write<W: Write>(&self, w: W) -> io::Result<()> {
        match self {
            Obj::Proof(p) => p.write(w),
            Obj::Key(p) => p.write(w),
            Obj::Params(p) => p.write(w),
        }
    }
    fn read<R: Read>(k: Kind, checked: bool, r: R) -> io::Result<Self> {
        match k {
            Kind::Proof => Proof::read(r).map(Obj::Proof),
            Kind::Key => VerifyingKey::read(r).map(Obj::Key),
            Kind::Params => Parameters::read(r, checked).map(Obj::Params),
        }
    }
    /// The library's own notion of equality.
    fn equal(&self, o: &Self) -> bool {
        match (self, o) {
            (Obj::Proof(a), Obj::Proof(b)) => a == b,
            (Obj::Key(a), Obj::Key(b)) => a == b,
            (Obj::Params(a), Obj::Params(b)) => a == b,
            _ => false,
        }
    }
    fn lens(&self) -> String {
        match self {
            Obj::Proof(_) => "proof".into(),
            Obj::Key(k) => format!("key, {} ic", k.ic.len()),
            Obj::Params(p) => format!(
                "parameters, ic {} h {} l {} a {} b_g1 {} b_g2 {}",
                p.vk.ic.len(),
                p.h.len(),
                p.l.len(),
                p.a.len(),
                p.b_g1.len(),
                p.b_g2.len()
            ),
        }
    }
}

fn g1<E: Engine>(k: u64) -> E::G1Affine {
    (E::G1::generator() * E::Fr::from(k)).to_affine()
}
fn g2<E: Engine>(k: u64) -> E::G2Affine {
    (E::G2::generator() * E::Fr::from(k)).to_affine()
}

struct Gen<E: Engine> {
    rng: Rng,
    base1: Vec<E::G1Affine>,
    base2: Vec<E::G2Affine>,
}
impl<E: Engine> Gen<E> {
    fn new(s: &mut Src) -> Self {
        let mut rng = s.rng();
        let n = if E::Fr::NUM_BITS > 64 { 6 } else { 64 };
        Gen {
            base1: (0..n).map(|i| if i == 0 { g1::<E>(1) } else { nz1::<E>(&mut rng) }).collect(),
            base2: (0..n).map(|i| if i == 0 { g2::<E>(1) } else { nz2::<E>(&mut rng) }).collect(),
            rng,
        }
    }
    fn g1(&mut self) -> E::G1Affine {
        let i = (self.rng.next() % self.base1.len() as u64) as usize;
        let p = self.base1[i];
        if self.rng.next() % 2 == 0 {
            -p
        } else {
            p
        }
    }
    fn g2(&mut self) -> E::G2Affine {
        let i = (self.rng.next() % self.base2.len() as u64) as usize;
        let p = self.base2[i];
        if self.rng.next() % 2 == 0 {
            -p
        } else {
            p
        }
    }
    fn obj(&mut self, k: Kind, n: &[usize; 6]) -> Obj<E> {
        match k {
            Kind::Proof => Obj::Proof(Proof {
                a: self.g1(),
                b: self.g2(),
                c: self.g1(),
            }),
            Kind::Key => Obj::Key(self.key(n[0])),
            Kind::Params => Obj::Params(Parameters {
                vk: self.key(n[0]),
                h: self.v1(n[1]),
                l: self.v1(n[2]),
                a: self.v1(n[3]),
                b_g1: self.v1(n[4]),
                b_g2: Arc::new((0..n[5]).map(|_| self.g2()).collect()),
            }),
        }
    }
    fn v1(&mut self, n: usize) -> Arc<Vec<E::G1Affine>> {
        Arc::new((0..n).map(|_| self.g1()).collect())
    }
    fn key(&mut self, n: usize) -> VerifyingKey<E> {
        VerifyingKey {
            alpha_g1: self.g1(),
            beta_g1: self.g1(),
            beta_g2: self.g2(),
            gamma_g2: self.g2(),
            delta_g1: self.g1(),
            delta_g2: self.g2(),
            ic: (0..n).map(|_| self.g1()).collect(),
        }
    }
}
fn nz1<E: Engine>(r: &mut Rng) -> E::G1Affine {
    loop {
        let f = E::Fr::random(&mut *r);
        if !f.is_zero_vartime() {
            return (E::G1::generator() * f).to_affine();
        }
    }
}
fn nz2<E: Engine>(r: &mut Rng) -> E::G2Affine {
    loop {
        let f = E::Fr::random(&mut *r);
        if !f.is_zero_vartime() {
            return (E::G2::generator() * f).to_affine();
        }
    }
}

fn kind(s: &mut Src) -> Kind {
    [Kind::Proof, Kind::Key, Kind::Params][s.weighted(&[2, 3, 5])]
}

// ------------------------------------------------------------------- C07

fn round<E: Engine>(s: &mut Src, big: usize) -> R {
    let mut g = Gen::<E>::new(s);
    let count = s.size(1, 3);
    let mut stream = vec![];
    let mut objs: Vec<(Obj<E>, usize)> = vec![];
    for _ in 0..count {
        let k = kind(s);
        let mut n = [0usize; 6];
        for x in n.iter_mut() {
            *x = s.skewed(0, 40);
        }
        if big > 0 && s.chance(1, 4) {
            let i = s.below(6);
            n[i] = *s.pick(&[255, 256, 257, 300, big]);
            s.label("a vector of more than 254 elements");
        }
        let o = g.obj(k, &n);
        s.label(match k {
            Kind::Proof => "proof",
            Kind::Key => "key",
            Kind::Params => "parameters",
        });
        let mut w = Sink::new(s);
        no_panic(|| o.write(&mut w))
            .map_err(|e| format!("write panicked: {}", e))?
            .map_err(|e| format!("write failed: {}", e))?;
        let want = encode(&o.parts());
        ensure!(
            w.out == want,
            "{}: the encoding differs at byte {:?} ({} written, {} expected)",
            o.lens(),
            w.out.iter().zip(&want).position(|(a, b)| a != b),
            w.out.len(),
            want.len()
        );
        let len = w.out.len();
        stream.extend(w.out);
        objs.push((o, len));
    }
    s.note(|| format!("stream of {} bytes: {}", stream.len(), objs.iter().map(|o| o.0.lens()).collect::<Vec<_>>().join(" | ")));
    let tail = s.size(0, 3);
    stream.extend(std::iter::repeat(0xa5).take(tail));
    for checked in [true, false] {
        let mut r = Pieces::new(&stream, s);
        let mut at = 0;
        for (o, len) in &objs {
            let got = no_panic(|| Obj::<E>::read(o.kind(), checked, &mut r))
                .map_err(|e| format!("read panicked: {}", e))?
                .map_err(|e| format!("{} (checked {}): reading back failed: {}", o.lens(), checked, e))?;
            ensure!(got.parts() == o.parts(), "{} (checked {}): reading back gives another value", o.lens(), checked);
            ensure!(got.equal(o) && o.equal(&got), "{}: equal values compare as different", o.lens());
            at += len;
            ensure_eq!(r.pos, at, "{} (checked {}): bytes consumed", o.lens(), checked);
            let mut again = vec![];
            got.write(&mut again).map_err(|e| e.to_string())?;
            ensure!(again == stream[at - len..at], "{}: writing the value read gives other bytes", o.lens());
        }
    }
    // values that differ in one place compare as different
    let (o, _) = &objs[0];
    let parts = o.parts();
    let points: Vec<usize> = (0..parts.len()).filter(|i| !matches!(parts[*i], Part::Len(_))).collect();
    let i = *s.pick(&points);
    let mut p2 = parts.clone();
    p2[i] = match &parts[i] {
        Part::C1(g) => Part::C1(-*g),
        Part::U1(g) => Part::U1(-*g),
        Part::C2(g) => Part::C2(-*g),
        Part::U2(g) => Part::U2(-*g),
        Part::Len(n) => Part::Len(*n),
    };
    let other = Obj::<E>::read(o.kind(), true, &encode(&p2)[..]).map_err(|e| e.to_string())?;
    ensure!(!o.equal(&other) && !other.equal(o), "{}: values that differ in element {} compare as equal", o.lens(), i);
    ensure!(other.parts() == p2, "{}: element {} lost", o.lens(), i);
    // and so do vectors of which one is the beginning of the other
    let lens: Vec<usize> = (0..parts.len()).filter(|i| matches!(parts[*i], Part::Len(_))).collect();
    if !lens.is_empty() {
        let i = *s.pick(&lens);
        let n = match parts[i] {
            Part::Len(n) => n as usize,
            _ => 0,
        };
        let mut p3 = parts.clone();
        if n > 0 && s.bool() {
            p3.remove(i + n);
            p3[i] = Part::Len(n as u32 - 1);
        } else {
            // the last vector of parameters, b_g2, is the only one over G2
            let g2 = lens.len() == 6 && i == lens[5];
            p3.insert(i + n + 1, if g2 { Part::U2(g.g2()) } else { Part::U1(g.g1()) });
            p3[i] = Part::Len(n as u32 + 1);
        }
        let other = Obj::<E>::read(o.kind(), true, &encode(&p3)[..]).map_err(|e| e.to_string())?;
        ensure!(!o.equal(&other) && !other.equal(o), "{}: values that differ in the length of a vector compare as equal", o.lens());
        ensure!(other.parts() == p3, "{}: changing the length of a vector gives another value", o.lens());
    }
    s.nontrivial_if(stream.len() > 3 * COMPRESSED + tail);
    Ok(())
}
fn c07_mock(s: &mut Src) -> R {
    round::<Mock<GOLD>>(s, 1000)
}
fn c07_wide(s: &mut Src) -> R {
    round::<Mock<P61>>(s, 70_000)
}
fn c07_bls(s: &mut Src) -> R {
    round::<Bls12>(s, 0)
}

// ------------------------------------------------------------------- C08

/// What the decoder must return, by parsing the bytes part by part.
fn parse<E: Engine>(k: Kind, checked: bool, mut b: &[u8]) -> Option<(Vec<Part<E>>, usize)> {
    let start = b.len();
    fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
        if b.len() < n {
            return None;
        }
        let (x, y) = b.split_at(n);
        *b = y;
        Some(x)
    }
    fn comp<G: PrimeCurveAffine + GroupEncoding>(b: &mut &[u8]) -> Option<G> {
        let mut r = <G as GroupEncoding>::Repr::default();
        let n = r.as_ref().len();
        r.as_mut().copy_from_slice(take(b, n)?);
        let g: Option<G> = G::from_bytes(&r).into();
        g.filter(|g| !bool::from(g.is_identity()))
    }
    // without checks only the curve equation and the subgroup are left out,
    // and only for the parameters outside the verifying key
    fn unc<G: PrimeCurveAffine + UncompressedEncoding>(b: &mut &[u8], checked: bool) -> Option<G> {
        let mut r = <G as UncompressedEncoding>::Uncompressed::default();
        let n = r.as_ref().len();
        r.as_mut().copy_from_slice(take(b, n)?);
        let g: Option<G> = if checked { G::from_uncompressed(&r) } else { G::from_uncompressed_unchecked(&r) }.into();
        g.filter(|g| !bool::from(g.is_identity()))
    }
    fn len(b: &mut &[u8]) -> Option<u32> {
        let x = take(b, 4)?;
        Some(u32::from_be_bytes([x[0], x[1], x[2], x[3]]))
    }
    let mut v: Vec<Part<E>> = vec![];
    if k == Kind::Proof {
        v.push(Part::C1(comp(&mut b)?));
        v.push(Part::C2(comp(&mut b)?));
        v.push(Part::C1(comp(&mut b)?));
    } else {
        v.push(Part::U1(unc(&mut b, true)?));
        v.push(Part::U1(unc(&mut b, true)?));
        v.push(Part::U2(unc(&mut b, true)?));
        v.push(Part::U2(unc(&mut b, true)?));
        v.push(Part::U1(unc(&mut b, true)?));
        v.push(Part::U2(unc(&mut b, true)?));
        let n = len(&mut b)?;
        v.push(Part::Len(n));
        for _ in 0..n {
            v.push(Part::U1(unc(&mut b, true)?));
        }
    }
    if k == Kind::Params {
        for q in 0..5 {
            let n = len(&mut b)?;
            v.push(Part::Len(n));
            for _ in 0..n {
                v.push(if q < 4 { Part::U1(unc(&mut b, checked)?) } else { Part::U2(unc(&mut b, checked)?) });
            }
        }
    }
    Some((v, start - b.len()))
}

/// Encodings that look like points but are not acceptable ones.
trait Hostile: Engine {
    /// `g`: 1 or 2; returns the bytes and a label.
    fn hostile(s: &mut Src, g: u8, compressed: bool) -> (Vec<u8>, &'static str);
}
impl<const P: u64> Hostile for Mock<P> {
    fn hostile(s: &mut Src, g: u8, compressed: bool) -> (Vec<u8>, &'static str) {
        let v = s.range(1, P - 1);
        let c = |tag, v: u64, y: u64| {
            if compressed {
                enc_compressed(tag, v, (y >> 56) as u8 ^ g).to_vec()
            } else {
                enc_uncompressed(tag, v, y).to_vec()
            }
        };
        match s.below(7) {
            0 => {
                let id = Pt::<P, 1>(Fp::ZERO);
                let b = if compressed { id.to_bytes().0.to_vec() } else { id.to_uncompressed().0.to_vec() };
                (b, "identity")
            }
            1 => (c(TAG_WRONG_SUBGROUP, v, y_of(v, g)), "wrong subgroup"),
            2 => (c(TAG_POINT, v, !y_of(v, g)), "off the curve"),
            3 => {
                let k = s.draw((u64::MAX - P).min(3));
                (c(TAG_POINT, P + k, y_of(P + k, g)), "not canonical")
            }
            4 => (c(TAG_POINT, 0, y_of(0, g)), "zero as a finite point"),
            5 => (c(TAG_POINT, v, y_of(v, 3 - g)), "point of the other group"),
            _ => (c(s.draw(255) as u8, v, y_of(v, g)), "any tag"),
        }
    }
}

/// Curve points of BLS12-381 that are not in the prime-order subgroup.
fn bls_torsion(s: &mut Src, g: u8, compressed: bool) -> Vec<u8> {
    use bls12_381::{G1Affine, G2Affine};
    let mut r = s.rng();
    loop {
        if g == 1 {
            let mut b = [0u8; 48];
            for x in b[16..].iter_mut() {
                *x = r.next() as u8;
            }
            b[0] = 0x80 | ((r.next() as u8 & 1) << 5);
            let p: Option<G1Affine> = G1Affine::from_compressed_unchecked(&b).into();
            if let Some(p) = p {
                if !bool::from(p.is_torsion_free()) {
                    return if compressed { b.to_vec() } else { p.to_uncompressed().to_vec() };
                }
            }
        } else {
            let mut b = [0u8; 96];
            for x in b[16..48].iter_mut() {
                *x = r.next() as u8;
            }
            for x in b[64..].iter_mut() {
                *x = r.next() as u8;
            }
            b[0] = 0x80 | ((r.next() as u8 & 1) << 5);
            let p: Option<G2Affine> = G2Affine::from_compressed_unchecked(&b).into();
            if let Some(p) = p {
                if !bool::from(p.is_torsion_free()) {
                    return if compressed { b.to_vec() } else { p.to_uncompressed().to_vec() };
                }
            }
        }
    }
}
const BLS_Q: [u8; 48] = [
    0x1a, 0x01, 0x11, 0xea, 0x39, 0x7f, 0xe6, 0x9a, 0x4b, 0x1b, 0xa7, 0xb6, 0x43, 0x4b, 0xac, 0xd7, 0x64, 0x77, 0x4b, 0x84, 0xf3, 0x85, 0x12, 0xbf, 0x67, 0x30,
    0xd2, 0xa0, 0xf6, 0xb0, 0xf6, 0x24, 0x1e, 0xab, 0xff, 0xfe, 0xb1, 0x53, 0xff, 0xff, 0xb9, 0xfe, 0xff, 0xff, 0xff, 0xff, 0xaa, 0xab,
];

impl Hostile for Bls12 {
    fn hostile(s: &mut Src, g: u8, compressed: bool) -> (Vec<u8>, &'static str) {
        let good = || -> Vec<u8> {
            match (g, compressed) {
                (1, true) => g1::<Bls12>(5).to_bytes().as_ref().to_vec(),
                (1, false) => g1::<Bls12>(5).to_uncompressed().as_ref().to_vec(),
                (_, true) => g2::<Bls12>(5).to_bytes().as_ref().to_vec(),
                (_, false) => g2::<Bls12>(5).to_uncompressed().as_ref().to_vec(),
            }
        };
        let n = good().len();
        match s.below(6) {
            0 => {
                let mut b = vec![0; n];
                b[0] = if compressed { 0xc0 } else { 0x40 };
                (b, "identity")
            }
            1 => (bls_torsion(s, g, compressed), "wrong subgroup"),
            2 => {
                let mut b = good();
                let i = s.below(n);
                b[i] ^= 1 << s.draw(7);
                (b, "off the curve or other flags")
            }
            3 => {
                let mut b = good();
                let k = s.below(n / 48);
                let flags = if k == 0 { b[0] & 0xe0 } else { 0 };
                b[k * 48..k * 48 + 48].copy_from_slice(&BLS_Q);
                b[k * 48] |= flags;
                b[k * 48 + 47] = b[k * 48 + 47].wrapping_add(s.draw(3) as u8);
                (b, "not canonical")
            }
            4 => {
                let mut b = good();
                b[0] ^= *s.pick(&[0x80u8, 0x40, 0x20, 0xc0, 0xe0]);
                (b, "any tag")
            }
            _ => (vec![0; n], "zero as a finite point"),
        }
    }
}

fn check_read<E: Engine>(s: &mut Src, k: Kind, bytes: &[u8], what: &str) -> R {
    // room for growing vectors, whatever the growth policy
    let allowed = 16 * bytes.len() + (1 << 20);
    for checked in [true, false] {
        if k != Kind::Params && !checked {
            continue;
        }
        let mode = if checked { "" } else { " (unchecked)" };
        let want = parse::<E>(k, checked, bytes);
        let mut r = Pieces::new(bytes, s);
        let (got, peak) = measured(|| no_panic(|| Obj::<E>::read(k, checked, &mut r)));
        let got = got.map_err(|e| format!("{:?}{}, {}: the reader panicked: {}", k, mode, what, e))?;
        ensure!(peak <= allowed, "{:?}{}, {}: {} bytes allocated to read {} bytes", k, mode, what, peak, bytes.len());
        match (&got, &want) {
            (Ok(o), Some((parts, used))) => {
                ensure!(o.parts() == *parts, "{:?}{}, {}: another value was read", k, mode, what);
                ensure_eq!(r.pos, *used, "{:?}{}, {}: bytes consumed", k, mode, what);
                s.label(if checked { "accepted" } else { "accepted unchecked" });
            }
            (Ok(_), None) => return Err(format!("{:?}{}, {}: malformed data was accepted", k, mode, what)),
            (Err(e), Some(_)) => return Err(format!("{:?}{}, {}: well-formed data was refused: {}", k, mode, what, e)),
            (Err(_), None) => s.label(if checked { "refused" } else { "refused unchecked" }),
        }
    }
    Ok(())
}

fn mutate<E: Hostile>(s: &mut Src, maxlen: usize) -> R {
    let mut g = Gen::<E>::new(s);
    let k = kind(s);
    let mut n = [0usize; 6];
    for x in n.iter_mut() {
        *x = s.skewed(0, maxlen);
    }
    if E::Fr::NUM_BITS <= 64 && s.chance(1, 200) {
        // positions far into a vector
        let i = s.below(6);
        n[i] = *s.pick(&[100, 256, 300, 1100, 2100, 4200]) + s.below(10);
        s.label("a vector of at least 100 elements");
    }
    let o = g.obj(k, &n);
    let parts = o.parts();
    let mut segs: Vec<Vec<u8>> = parts.iter().map(enc).collect();
    let mut what: Vec<&'static str> = vec![];
    for _ in 0..s.weighted(&[1, 8, 2]) {
        let i = s.below(segs.len());
        let w = match s.weighted(&[6, 2, 2]) {
            0 => {
                // one element replaced
                let pts: Vec<usize> = (0..parts.len()).filter(|i| !matches!(parts[*i], Part::Len(_))).collect();
                let i = *s.pick(&pts);
                let (b, w) = match parts[i] {
                    Part::C1(_) => E::hostile(s, 1, true),
                    Part::C2(_) => E::hostile(s, 2, true),
                    Part::U1(_) => E::hostile(s, 1, false),
                    _ => E::hostile(s, 2, false),
                };
                segs[i] = b;
                w
            }
            1 => {
                let b = s.below(segs[i].len());
                segs[i][b] ^= 1 << s.draw(7);
                "bit flipped"
            }
            _ => {
                let b = s.below(segs[i].len());
                segs[i][b] = *s.pick(&[0, 0xff, 0x80, 0x40, 1]);
                "byte replaced"
            }
        };
        what.push(w);
    }
    if k != Kind::Proof && s.chance(1, 4) {
        let ls: Vec<usize> = (0..parts.len()).filter(|i| matches!(parts[*i], Part::Len(_))).collect();
        let i = *s.pick(&ls);
        let old = match parts[i] {
            Part::Len(n) => n,
            _ => 0,
        };
        let new = match s.below(5) {
            0 => old.wrapping_add(1),
            1 => old.wrapping_sub(1),
            2 => u32::MAX - s.draw(3) as u32,
            3 => 1u32 << s.range(10, 31),
            _ => s.u32s(),
        };
        segs[i] = new.to_be_bytes().to_vec();
        what.push("length replaced");
    }
    let mut bytes = segs.concat();
    match s.weighted(&[6, 2, 1, 1, 1]) {
        0 => {}
        1 => {
            let n = s.below(bytes.len() + 1);
            bytes.truncate(n);
            what.push("truncated");
        }
        2 => {
            let i = s.below(bytes.len());
            bytes.remove(i);
            what.push("byte removed");
        }
        3 => {
            let i = s.below(bytes.len() + 1);
            bytes.insert(i, s.draw(255) as u8);
            what.push("byte inserted");
        }
        _ => {
            bytes.extend([1, 2, 3]);
            what.push("trailing bytes");
        }
    }
    if what.is_empty() {
        what.push("nothing changed");
    }
    for w in &what {
        s.label(w);
    }
    s.note(|| format!("{}: {} -> {} bytes", o.lens(), what.join(", "), bytes.len()));
    s.nontrivial_if(what != ["nothing changed"]);
    check_read::<E>(s, k, &bytes, &what.join(", "))
}
fn c08_mock(s: &mut Src) -> R {
    mutate::<Mock<GOLD>>(s, 12)
}
fn c08_small(s: &mut Src) -> R {
    mutate::<Mock<P31>>(s, 40)
}
fn c08_bls(s: &mut Src) -> R {
    mutate::<Bls12>(s, 4)
}

/// Arbitrary bytes, and each kind of object read as each other.
fn c08_noise(s: &mut Src) -> R {
    type E = Mock<GOLD>;
    let k = kind(s);
    let bytes = if s.bool() {
        let n = s.skewed(0, 400);
        s.bytes(n)
    } else {
        let mut g = Gen::<E>::new(s);
        let k2 = kind(s);
        let mut n = [0usize; 6];
        for x in n.iter_mut() {
            *x = s.skewed(0, 6);
        }
        let b = encode(&g.obj(k2, &n).parts());
        let cut = s.below(b.len());
        b[cut..].to_vec()
    };
    s.note(|| format!("{:?} from {} bytes", k, bytes.len()));
    s.nontrivial_if(!bytes.is_empty());
    check_read::<E>(s, k, &bytes, "arbitrary bytes")
}

/// A fault of the transport at any byte offset is reported.
fn faults<E: Engine>(s: &mut Src, maxlen: usize) -> R {
    let mut g = Gen::<E>::new(s);
    let k = kind(s);
    let mut n = [0usize; 6];
    for x in n.iter_mut() {
        *x = s.skewed(0, maxlen);
    }
    if E::Fr::NUM_BITS <= 64 && s.chance(1, 200) {
        // positions far into a vector
        let i = s.below(6);
        n[i] = *s.pick(&[100, 256, 300, 1100, 2100, 4200]) + s.below(10);
        s.label("a vector of at least 100 elements");
    }
    let o = g.obj(k, &n);
    let bytes = encode(&o.parts());
    let at = s.below(bytes.len());
    let fault = if s.chance(1, 4) { Fault::Zero } else { Fault::Kind(*s.pick(KINDS)) };
    s.note(|| format!("{}: {:?} at byte {} of {}", o.lens(), fault, at, bytes.len()));
    let reading = s.bool();
    let (res, hit) = if reading {
        s.label("reader fails");
        let checked = s.bool();
        let mut r = Pieces::new(&bytes, s);
        r.at = at;
        r.fault = fault;
        let x = no_panic(|| Obj::<E>::read(k, checked, &mut r).map(|_| ()));
        (x, r.hit)
    } else {
        s.label("writer fails");
        let mut w = Sink::new(s);
        w.at = at;
        w.fault = fault;
        let x = no_panic(|| o.write(&mut w));
        ensure!(bytes.starts_with(&w.out), "the bytes written before the fault are wrong");
        (x, w.hit)
    };
    let res = res.map_err(|e| format!("panicked on a transport fault: {}", e))?;
    ensure!(hit, "the object needs byte {} but the transport was not asked for it", at);
    match res {
        Ok(()) => return Err(format!("{:?} at byte {} was swallowed", fault, at)),
        Err(e) => match fault {
            Fault::Kind(kd) => ensure_eq!(e.kind(), kd, "the fault is reported as another error"),
            _ => {
                let want = if reading { io::ErrorKind::UnexpectedEof } else { io::ErrorKind::WriteZero };
                ensure_eq!(e.kind(), want, "the fault is reported as another error");
            }
        },
    }
    s.nontrivial();
    Ok(())
}
fn c08_faults(s: &mut Src) -> R {
    faults::<Mock<GOLD>>(s, 5)
}
fn c08_faults_bls(s: &mut Src) -> R {
    faults::<Bls12>(s, 2)
}

fn main() {
    vph::runner::main(vec![
        Prop {
            id: "C07",
            rule: "the stream is longer than one proof",
            assumptions: &["the point encodings of the curve implementation round-trip"],
            threads: THREADS,
            subs: vec![
                sub("mock", 300000, 6000000, c07_mock),
                sub("wide", 2000, 40000, c07_wide),
                sub("bls", 800, 20000, c07_bls),
            ],
        },
        Prop {
            id: "C08",
            rule: "the encoding was altered or the transport fails",
            assumptions: &[
                "checked point decoding of the curve implementation is right (the mock engine's is part of the harness)",
                "allocation within 1 MiB + 16 bytes per input byte counts as proportionate",
            ],
            threads: THREADS,
            subs: vec![
                sub("mock", 1200000, 20000000, c08_mock),
                sub("small", 500000, 10000000, c08_small),
                sub("bls", 3000, 80000, c08_bls),
                sub("noise", 500000, 10000000, c08_noise),
                sub("faults", 600000, 5000000, c08_faults),
                sub("faults_bls", 2000, 40000, c08_faults_bls),
            ],
        },
    ])
}
