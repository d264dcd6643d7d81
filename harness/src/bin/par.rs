//! C09 independence of parallelism, C24 Worker and Waiter.
//! This file is built twice: with and without bellman's multicore feature.

use bellman::domain::{EvaluationDomain, Scalar};
use bellman::multicore::{Waiter, Worker};
use bellman::multiexp::{multiexp, DensityTracker, Exponent, FullDensity};
use bls12_381::Bls12;
use ff::{Field, PrimeFieldBits};
use group::{GroupEncoding, WnafGroup};
use groth16::*;
use pairing::MultiMillerLoop;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vph::circ::*;
use vph::engine::*;
use vph::fp::*;
use vph::gro::*;
use vph::mock::{Mock, Pt};
use vph::runner::*;
use vph::{ensure, ensure_eq};

type MG = Mock<GOLD>;

fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(x));
    }
    h
}

// ------------------------------------------------------------------- C09

/// One operation with a result that must not depend on how it is scheduled.
trait Job: Send + Sync {
    fn run(&self) -> Result<u64, String>;
    fn text(&self) -> String;
}

struct Prove<E: MultiMillerLoop> {
    c: Circ<E::Fr>,
    tx: Toxic<E::Fr>,
    r: E::Fr,
    s: E::Fr,
    wrong: bool,
}
impl<E> Job for Prove<E>
where
    E: MultiMillerLoop,
    E::Fr: PrimeFieldBits,
    E::G1: WnafGroup,
    E::G2: WnafGroup,
{
    fn run(&self) -> Result<u64, String> {
        let p = no_panic(|| generate::<E>(&self.c, &self.tx, E::Fr::ONE, E::Fr::ONE)).map_err(|e| format!("generate_parameters panicked: {}", e))?;
        let mut p = match p {
            Ok(p) => p,
            Err(e) => return Ok(hash_bytes(ekind(&e).as_bytes())),
        };
        let mut b = vec![];
        p.write(&mut b).map_err(|e| e.to_string())?;
        let mut h = hash_bytes(&b);
        if self.wrong {
            // parameters that are too short: an error, in every configuration
            let mut l = (*p.l).clone();
            l.pop();
            p.l = Arc::new(l);
        }
        let pf = no_panic(|| create_proof::<E, _, _>(&self.c, &p, self.r, self.s)).map_err(|e| format!("create_proof panicked: {}", e))?;
        match pf {
            Err(_) => h = mix(h, 1),
            Ok(pf) => {
                let mut b = vec![];
                b.extend_from_slice(pf.a.to_bytes().as_ref());
                b.extend_from_slice(pf.b.to_bytes().as_ref());
                b.extend_from_slice(pf.c.to_bytes().as_ref());
                h = mix(h, hash_bytes(&b));
                let v = no_panic(|| verify_proof(&prepare_verifying_key(&p.vk), &pf, &self.c.inputs))?;
                h = mix(h, v.is_ok() as u64);
                if !self.wrong {
                    v.map_err(|e| format!("honest proof rejected: {}", e))?;
                }
            }
        }
        Ok(h)
    }
    fn text(&self) -> String {
        format!("setup, proof and verification of {}", self.c.describe())
    }
}

struct Multi {
    seed: u64,
    n: usize,
    dense: bool,
    missing: bool,
}
impl Job for Multi {
    fn run(&self) -> Result<u64, String> {
        type F = Fp<GOLD>;
        let mut r = Rng::new(self.seed);
        let e: Vec<F> = (0..self.n)
            .map(|_| match r.next() % 4 {
                0 => F::ZERO,
                1 => F::ONE,
                _ => F::random(&mut r),
            })
            .collect();
        let d: Vec<bool> = (0..self.n).map(|_| self.dense || r.next() % 2 == 0).collect();
        let mut b: Vec<Pt<GOLD, 1>> = d.iter().filter(|x| **x).map(|_| Pt(Fp::new(1 + r.next() % 1000))).collect();
        let mut want = F::ZERO;
        let mut it = b.iter();
        for (x, d) in e.iter().zip(&d) {
            if *d {
                want += it.next().unwrap().0 * *x;
            }
        }
        let mut err = false;
        if self.missing {
            if let Some(i) = (0..self.n).filter(|i| d[*i]).last() {
                b.pop();
                err = e[i] != F::ZERO;
            }
        }
        let exps: Arc<Vec<Exponent<F>>> = Arc::new(e.iter().map(|x| x.into()).collect());
        let w = Worker::new();
        let res: Result<Pt<GOLD, 1>, _> = no_panic(|| {
            if self.dense {
                multiexp(&w, (Arc::new(b), 0), FullDensity, exps).wait()
            } else {
                let mut t = DensityTracker::new();
                for (i, x) in d.iter().enumerate() {
                    t.add_element();
                    if *x {
                        t.inc(i);
                    }
                }
                multiexp(&w, (Arc::new(b), 0), Arc::new(t), exps).wait()
            }
        })
        .map_err(|e| format!("multiexp panicked: {}", e))?;
        match res {
            Ok(g) => {
                ensure!(!err, "multiexp of {} exponents misses a base without an error", self.n);
                if !self.missing {
                    ensure_eq!(g.0, want, "multiexp of {} exponents", self.n);
                }
                Ok(g.0.v())
            }
            Err(e) => {
                ensure!(self.missing, "multiexp of {} exponents: {:?}", self.n, e);
                Ok(1)
            }
        }
    }
    fn text(&self) -> String {
        format!("multiexp of {} exponents, full density {}, a base missing {}", self.n, self.dense, self.missing)
    }
}

struct Fft {
    seed: u64,
    n: usize,
    ops: Vec<u8>,
}
impl Job for Fft {
    fn run(&self) -> Result<u64, String> {
        type F = Fp<GOLD>;
        let mut r = Rng::new(self.seed);
        let mk = |r: &mut Rng| EvaluationDomain::<F, Scalar<F>>::from_coeffs((0..self.n).map(|_| Scalar(F::random(&mut *r))).collect()).map_err(|e| e.to_string());
        let mut d = mk(&mut r)?;
        let o = mk(&mut r)?;
        let g = F::random(&mut r);
        no_panic(|| {
            let w = Worker::new();
            for op in &self.ops {
                match op {
                    0 => d.fft(&w),
                    1 => d.ifft(&w),
                    2 => d.coset_fft(&w),
                    3 => d.icoset_fft(&w),
                    4 => d.distribute_powers(&w, g),
                    5 => d.mul_assign(&w, &o),
                    6 => d.sub_assign(&w, &o),
                    _ => d.divide_by_z_on_coset(&w),
                }
            }
        })
        .map_err(|e| format!("domain operation panicked: {}", e))?;
        let mut h = 0;
        for x in d.into_coeffs() {
            h = mix(h, x.0.v());
        }
        Ok(h)
    }
    fn text(&self) -> String {
        format!("domain of {} coefficients, operations {:?}", self.n, self.ops)
    }
}

fn prove_job<E>(s: &mut Src, sh: &Shape, rows: usize) -> Prove<E>
where
    E: MultiMillerLoop,
    E::Fr: PrimeFieldBits,
{
    let c = circuit::<E::Fr>(s, sh, rows);
    label_circ(s, &c);
    Prove {
        tx: gen_toxic(s),
        r: scalar(s),
        s: scalar(s),
        wrong: !c.aux.is_empty() && s.chance(1, 8),
        c,
    }
}
fn multi_job(s: &mut Src) -> Multi {
    Multi {
        seed: s.draw(u64::MAX),
        n: if s.bool() { s.skewed(0, 1500) } else { s.size(0, 70) },
        dense: s.bool(),
        missing: s.chance(1, 6),
    }
}
fn fft_job(s: &mut Src) -> Fft {
    Fft {
        seed: s.draw(u64::MAX),
        n: if s.bool() { s.skewed(0, 1100) } else { s.size(0, 40) },
        ops: {
            let k = s.size(1, 5);
            (0..k).map(|_| s.draw(7) as u8).collect()
        },
    }
}

fn alone(s: &mut Src, j: &dyn Job) -> R {
    s.note(|| j.text());
    let h = j.run()?;
    s.emit(h);
    s.nontrivial();
    Ok(())
}
fn c09_groth(s: &mut Src) -> R {
    let j = prove_job::<MG>(s, &SHAPE, 300);
    alone(s, &j)
}
fn c09_groth9(s: &mut Src) -> R {
    let j = prove_job::<Mock<PS9>>(s, &SHAPE, 200);
    alone(s, &j)
}
fn c09_bls(s: &mut Src) -> R {
    let j = prove_job::<Bls12>(s, &SMALL, 20);
    alone(s, &j)
}
fn c09_multiexp(s: &mut Src) -> R {
    let j = multi_job(s);
    alone(s, &j)
}
fn c09_fft(s: &mut Src) -> R {
    let j = fft_job(s);
    alone(s, &j)
}

/// Several operations at once from threads of one process, against the same
/// operations one after another.
fn c09_concurrent(s: &mut Src) -> R {
    let n = s.size(2, 10);
    let mut jobs: Vec<Box<dyn Job>> = vec![];
    for _ in 0..n {
        jobs.push(match s.below(3) {
            0 => Box::new(multi_job(s)),
            1 => Box::new(fft_job(s)),
            _ => Box::new(prove_job::<MG>(s, &SHAPE, 100)),
        });
    }
    s.note(|| format!("{} operations: {}", n, jobs.iter().map(|j| j.text()).collect::<Vec<_>>().join(" || ")));
    let mut want = vec![];
    for j in &jobs {
        want.push(j.run()?);
    }
    let barrier = std::sync::Barrier::new(n);
    let got: Vec<Result<u64, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|j| {
                let b = &barrier;
                sc.spawn(move || {
                    b.wait();
                    j.run()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
    });
    for (i, (g, w)) in got.into_iter().zip(want).enumerate() {
        ensure_eq!(g?, w, "operation {} of {} differs when run concurrently: {}", i, n, jobs[i].text());
    }
    s.nontrivial();
    Ok(())
}

/// Very many operations outstanding at the same time: the pool is held up
/// until all of them have been asked for.
fn c09_burst(s: &mut Src) -> R {
    let n = if s.bool() { s.size(100, 400) } else { s.size(2, 60) };
    let multi = s.chance(2, 3);
    let kinds: Vec<Box<dyn Job>> = (0..s.size(1, 6))
        .map(|_| -> Box<dyn Job> {
            if multi || s.bool() {
                let mut j = multi_job(s);
                j.n %= 300;
                Box::new(j)
            } else {
                let mut j = fft_job(s);
                j.n %= 300;
                Box::new(j)
            }
        })
        .collect();
    s.note(|| format!("{} operations of the kinds {}", n, kinds.iter().map(|j| j.text()).collect::<Vec<_>>().join(" || ")));
    if n >= 100 {
        s.label("at least 100 operations");
    }
    let mut want = vec![];
    for j in &kinds {
        want.push(j.run()?);
    }
    let gate = Gate::default();
    let mut held = vec![];
    if cfg!(feature = "mc") {
        let t: usize = std::env::var("VP_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        for _ in 0..t {
            let g = gate.clone();
            held.push(Worker::new().compute(move || g.pass()));
        }
    }
    let asked = AtomicUsize::new(0);
    let got: Vec<Result<u64, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (j, asked) = (&kinds[i % kinds.len()], &asked);
                sc.spawn(move || {
                    asked.fetch_add(1, SeqCst);
                    j.run()
                })
            })
            .collect();
        while asked.load(SeqCst) < n {
            std::thread::yield_now();
        }
        std::thread::sleep(Duration::from_millis(10));
        gate.open();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
    });
    for h in held {
        h.wait();
    }
    for (i, g) in got.into_iter().enumerate() {
        let k = i % kinds.len();
        ensure_eq!(g?, want[k], "one of {} operations differs when run concurrently: {}", n, kinds[k].text());
    }
    s.nontrivial();
    Ok(())
}

// ------------------------------------------------------------------- C24

struct Task {
    runs: Arc<AtomicUsize>,
    value: u64,
}

fn spin(n: u64) -> u64 {
    let mut x = n;
    for _ in 0..n {
        x = std::hint::black_box(mix(x, 1));
    }
    x
}

fn submit(w: &Worker, value: u64, work: u64, deep: u32, all: &mut Vec<Task>) -> Waiter<u64> {
    let runs = Arc::new(AtomicUsize::new(0));
    all.push(Task {
        runs: runs.clone(),
        value,
    });
    let w2 = w.clone();
    w.compute(move || {
        spin(work);
        if deep > 0 {
            // a computation that hands out further ones and forgets them, and
            // uses a scope of its own
            let w3 = w2.clone();
            let r2 = runs.clone();
            drop(w2.compute(move || {
                let _ = w3.log_num_threads();
                r2.fetch_add(1000, SeqCst);
            }));
            let n = AtomicUsize::new(0);
            w2.scope(deep as usize, |sc, chunk| {
                let n = &n;
                for _ in 0..deep {
                    sc.spawn(move |_| {
                        n.fetch_add(chunk.min(1), SeqCst);
                    });
                }
            });
            if n.load(SeqCst) == deep as usize {
                runs.fetch_add(1_000_000, SeqCst);
            }
        }
        runs.fetch_add(1, SeqCst);
        value
    })
}

#[derive(Clone, Debug)]
enum Op {
    Submit { work: u64, deep: u32 },
    Wait(u64),
    Drop(u64),
    Done,
    Scope { elements: usize, nested: bool },
    Yield,
    /// Waiting inside the pool: refused or done, but never a deadlock.
    Inside(usize),
}

fn one_thread(id: u64, ops: &[Op]) -> Result<Vec<(Task, usize)>, String> {
    let w = if id % 2 == 0 { Worker::new() } else { Worker::new().clone() };
    let mut tasks = vec![];
    let mut expect = vec![];
    let mut open: Vec<(usize, Waiter<u64>)> = vec![];
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Submit { work, deep } => {
                let x = submit(&w, id << 32 | i as u64, *work, *deep, &mut tasks);
                expect.push(if *deep > 0 { 1_001_001 } else { 1 });
                open.push((tasks.len() - 1, x));
            }
            Op::Wait(k) if !open.is_empty() => {
                let (t, x) = open.remove((*k % open.len() as u64) as usize);
                let v = x.wait();
                ensure_eq!(v, tasks[t].value, "wait() gives the result of another computation");
                let runs = tasks[t].runs.load(SeqCst);
                ensure!(runs % 1000 == 1, "a computation that delivered its result ran {} times", runs % 1000);
            }
            Op::Drop(k) if !open.is_empty() => {
                open.remove((*k % open.len() as u64) as usize);
            }
            Op::Done => {
                ensure_eq!(Waiter::done(i).wait(), i, "Waiter::done");
                drop(Waiter::done(i));
            }
            Op::Scope { elements, nested } => scope(&w, *elements, *nested)?,
            _ => std::thread::yield_now(),
        }
    }
    for (t, x) in open {
        if t % 3 == 0 {
            drop(x);
        } else {
            ensure_eq!(x.wait(), tasks[t].value, "wait() gives the result of another computation");
        }
    }
    Ok(tasks.into_iter().zip(expect).collect())
}

fn scope(w: &Worker, n: usize, nested: bool) -> R {
    let mut v = vec![0u32; n];
    let mut seen = 0;
    let done = AtomicUsize::new(0);
    let spawned = AtomicUsize::new(0);
    let ret = w.scope(n, |sc, chunk| {
        seen = chunk;
        let (done, spawned) = (&done, &spawned);
        for c in v.chunks_mut(chunk.max(1)) {
            spawned.fetch_add(1, SeqCst);
            sc.spawn(move |sc2| {
                spin(50);
                if nested {
                    spawned.fetch_add(1, SeqCst);
                    sc2.spawn(move |_| {
                        spin(200);
                        done.fetch_add(1, SeqCst);
                    });
                }
                for x in c {
                    *x += 1;
                }
                done.fetch_add(1, SeqCst);
            });
        }
        n as u64 + 7
    });
    ensure_eq!(ret, n as u64 + 7, "return value of scope");
    ensure!(seen > 0, "scope({}) hands out chunk size 0", n);
    ensure!(v.iter().all(|x| *x == 1), "scope({}) with chunk size {}: elements not processed exactly once", n, seen);
    ensure_eq!(done.load(SeqCst), spawned.load(SeqCst), "tasks unfinished when scope returns");
    Ok(())
}

fn c24_history(s: &mut Src) -> R {
    let nt = s.size(1, 4);
    let mut plans: Vec<Vec<Op>> = vec![];
    for _ in 0..nt {
        let k = s.skewed(1, 60);
        let style = s.draw(2);
        let mut ops = vec![];
        for _ in 0..k {
            let ws: &[u32] = match style {
                0 => &[6, 4, 2, 1, 2, 1, 0],
                1 => &[12, 1, 1, 1, 1, 0, 1],
                _ => &[6, 1, 5, 1, 2, 1, 1],
            };
            ops.push(match s.weighted(ws) {
                0 => Op::Submit {
                    work: *s.pick(&[0, 10, 300, 3000]),
                    deep: if s.chance(1, 5) { s.size(1, 5) as u32 } else { 0 },
                },
                1 => Op::Wait(s.draw(100)),
                2 => Op::Drop(s.draw(100)),
                3 => Op::Done,
                4 => Op::Scope {
                    elements: if s.bool() { s.size(0, 40) } else { s.skewed(0, 3000) },
                    nested: s.bool(),
                },
                5 => Op::Yield,
                _ => Op::Inside(s.size(1, 20)),
            });
        }
        plans.push(ops);
    }
    s.note(|| format!("{} threads: {:?}", nt, plans));
    let total: usize = plans.iter().flatten().filter(|o| matches!(o, Op::Submit { .. })).count();
    if total > 20 {
        s.label("more than 20 computations");
    }
    if plans.iter().flatten().any(|o| matches!(o, Op::Drop(_))) {
        s.label("a handle is discarded");
    }
    if plans.iter().flatten().any(|o| matches!(o, Op::Submit { deep, .. } if *deep > 0)) {
        s.label("nested computations");
    }
    if plans.iter().flatten().any(|o| matches!(o, Op::Scope { elements: 0, .. })) {
        s.label("scope of 0 elements");
    }
    let res: Vec<Result<Vec<(Task, usize)>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(i, ops)| sc.spawn(move || no_panic(|| one_thread(i as u64, ops)).and_then(|x| x)))
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
    });
    // everything handed out runs to the end, exactly once, wanted or not
    let t0 = Instant::now();
    for r in res {
        for (t, want) in r? {
            while t.runs.load(SeqCst) != want && t0.elapsed() < Duration::from_secs(30) {
                std::thread::yield_now();
            }
            ensure_eq!(t.runs.load(SeqCst), want, "runs of one computation (nested ones count 1000)");
        }
    }
    s.nontrivial_if(total > 1);
    Ok(())
}

/// Far more computations than threads, and then waiting in some order.
fn c24_flood(s: &mut Src) -> R {
    let n = s.skewed(1, 3000);
    let w = Worker::new();
    let mut tasks = vec![];
    let work = *s.pick(&[0, 0, 20, 200]);
    let ws: Vec<Waiter<u64>> = (0..n).map(|i| submit(&w, i as u64 * 3, work, 0, &mut tasks)).collect();
    let order = s.draw(3);
    let mut rng = s.rng();
    let mut ws: Vec<(usize, Waiter<u64>)> = ws.into_iter().enumerate().collect();
    s.note(|| format!("{} computations, order {}", n, order));
    match order {
        0 => {}
        1 => ws.reverse(),
        2 => {
            for i in (1..ws.len()).rev() {
                ws.swap(i, (rng.next() % (i as u64 + 1)) as usize);
            }
        }
        _ => {
            let mut k = 0;
            ws.retain(|_| {
                k += 1;
                k % 7 == 0
            });
        }
    }
    for (i, x) in ws {
        ensure_eq!(x.wait(), i as u64 * 3, "result of computation {} of {}", i, n);
    }
    let t0 = Instant::now();
    for t in &tasks {
        while t.runs.load(SeqCst) != 1 && t0.elapsed() < Duration::from_secs(30) {
            std::thread::yield_now();
        }
        ensure_eq!(t.runs.load(SeqCst), 1, "runs of one computation");
    }
    // the pool still works after the flood
    ensure_eq!(w.compute(|| 5).wait(), 5, "after the flood");
    s.nontrivial_if(n > 4);
    Ok(())
}

/// A gate that computations wait at.
#[derive(Clone, Default)]
struct Gate(Arc<(std::sync::Mutex<bool>, std::sync::Condvar)>);
impl Gate {
    fn pass(&self) {
        let mut g = self.0 .0.lock().unwrap();
        while !*g {
            g = self.0 .1.wait(g).unwrap();
        }
    }
    fn open(&self) {
        *self.0 .0.lock().unwrap() = true;
        self.0 .1.notify_all();
    }
}

/// Backlogs: the queue is bounded while the pool is busy, and once a backlog
/// is over computations run in the background again.
fn c24_backlog(s: &mut Src) -> R {
    if !cfg!(feature = "mc") {
        // everything runs in place
        return Ok(());
    }
    let t: usize = std::env::var("VP_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let rounds = s.size(1, 4);
    let w = Worker::new();
    let mut plan = vec![];
    for _ in 0..rounds {
        let kind = s.below(3);
        let n = match s.below(3) {
            0 => s.skewed(1, 4 * t + 4),
            1 => 4 * t + s.size(1, 40),
            _ => s.skewed(1, 300),
        };
        plan.push((kind, n));
        let mut tasks = vec![];
        match kind {
            // a plain flood
            0 => {
                let ws: Vec<_> = (0..n).map(|i| submit(&w, i as u64, 20, 0, &mut tasks)).collect();
                for (i, x) in ws.into_iter().enumerate() {
                    ensure_eq!(x.wait(), i as u64, "result in a backlog");
                }
            }
            // the whole pool is busy while more and more is handed out
            1 => {
                let gate = Gate::default();
                let busy: Vec<_> = (0..t)
                    .map(|i| {
                        let g = gate.clone();
                        w.compute(move || {
                            g.pass();
                            i
                        })
                    })
                    .collect();
                let limit = 8 * t + 8;
                let total = limit + n;
                let handed = AtomicUsize::new(0);
                let started = Arc::new(AtomicUsize::new(0));
                let r: R = std::thread::scope(|sc| {
                    let h = sc.spawn(|| {
                        let w = Worker::new();
                        let mut ws = vec![];
                        for i in 0..total {
                            let st = started.clone();
                            ws.push(w.compute(move || {
                                st.fetch_add(1, SeqCst);
                                i
                            }));
                            handed.fetch_add(1, SeqCst);
                        }
                        for (i, x) in ws.into_iter().enumerate() {
                            if x.wait() != i {
                                return Err(format!("result of computation {} in a backlog", i));
                            }
                        }
                        Ok(())
                    });
                    let t0 = Instant::now();
                    while handed.load(SeqCst) <= limit && t0.elapsed() < Duration::from_millis(15) {
                        std::thread::yield_now();
                    }
                    let over = handed.load(SeqCst);
                    let run = started.load(SeqCst);
                    gate.open();
                    let r = h.join().unwrap_or_else(|_| Err("thread panicked".into()));
                    ensure!(
                        over <= limit + run,
                        "{} computations wait at once although only {} threads work",
                        over - run,
                        t
                    );
                    r
                });
                r?;
                for (i, x) in busy.into_iter().enumerate() {
                    ensure_eq!(x.wait(), i, "result of a long computation");
                }
                ensure_eq!(started.load(SeqCst), total, "computations of a backlog that ran");
                s.label("the pool was busy");
            }
            // nobody waits
            _ => {
                for i in 0..n {
                    drop(submit(&w, i as u64, 20, 0, &mut tasks));
                }
            }
        }
        let t0 = Instant::now();
        for k in &tasks {
            while k.runs.load(SeqCst) != 1 && t0.elapsed() < Duration::from_secs(30) {
                std::thread::yield_now();
            }
            ensure_eq!(k.runs.load(SeqCst), 1, "runs of one computation");
        }
        // now (at most one computation per thread is still on its way out)
        // handing out does not wait for the computation
        let gate = Gate::default();
        let m = s.size(1, 2 * t);
        let (tx, rx) = std::sync::mpsc::channel();
        let g2 = gate.clone();
        let h = std::thread::spawn(move || {
            let w = Worker::new();
            let ws: Vec<_> = (0..m)
                .map(|i| {
                    let g = g2.clone();
                    w.compute(move || {
                        g.pass();
                        i
                    })
                })
                .collect();
            let _ = tx.send(());
            ws.into_iter().enumerate().all(|(i, x)| x.wait() == i)
        });
        let free = rx.recv_timeout(Duration::from_secs(6)).is_ok();
        gate.open();
        let ok = h.join().unwrap_or(false);
        ensure!(free, "with {} threads and no backlog, handing out {} computations waits for one of them to finish", t, m);
        ensure!(ok, "results after a backlog");
    }
    s.note(|| format!("{} threads, rounds {:?}", t, plan));
    s.nontrivial_if(plan.iter().any(|p| p.1 > 4 * t + 1));
    Ok(())
}

fn c24_scope(s: &mut Src) -> R {
    let w = Worker::new();
    let n = s.skewed(0, 5000);
    s.note(|| format!("{} elements", n));
    let t: usize = std::env::var("VP_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let l = w.log_num_threads();
    if cfg!(feature = "mc") {
        ensure!((1usize << l) <= t && t < (2usize << l), "log_num_threads {} for {} threads", l, t);
    } else {
        ensure_eq!(l, 0, "log_num_threads");
    }
    scope(&w, n, s.bool())?;
    s.nontrivial_if(n > 1);
    Ok(())
}

fn main() {
    vph::runner::main(vec![
        Prop {
            id: "C09",
            rule: "every case (an operation is run in every configuration, or several at once)",
            assumptions: &["schedules are sampled by running, not enumerated"],
            threads: THREADS_MANY,
            subs: vec![
                replicate("groth", 6000, 100000, c09_groth),
                replicate("groth9", 2000, 30000, c09_groth9),
                replicate("multiexp", 8000, 60000, c09_multiexp),
                replicate("fft", 16000, 150000, c09_fft),
                replicate("bls", 20, 500, c09_bls),
                sub("concurrent", 3000, 60000, c09_concurrent),
                sub("burst", 450, 12000, c09_burst),
            ],
        },
        Prop {
            id: "C24",
            rule: "at least two computations, or a scope of at least two elements",
            assumptions: &["computations terminate by themselves and do not panic", "schedules are sampled by running, not enumerated"],
            threads: THREADS_MANY,
            subs: vec![
                sub("history", 16000, 400000, c24_history),
                sub("flood", 1600, 40000, c24_flood),
                sub("backlog", 1500, 60000, c24_backlog),
                sub("scope", 30000, 500000, c24_scope),
            ],
        },
    ])
}
