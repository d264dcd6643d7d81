//! Runs the checks of one property in worker processes (each with its own
//! rayon pool size, one optionally built without the multicore feature),
//! collects evidence and turns failures, crashes and deadlocks into replay
//! files.

use crate::engine::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// Cases are split between the workers.
    Split,
    /// Every worker runs every case; the emitted digests must agree.
    Replicate,
}

pub struct Sub {
    pub name: &'static str,
    pub f: PropFn,
    pub quick: u64,
    pub thorough: u64,
    pub mode: Mode,
}

pub fn sub(name: &'static str, quick: u64, thorough: u64, f: PropFn) -> Sub {
    Sub {
        name,
        f,
        quick,
        thorough,
        mode: Mode::Split,
    }
}
pub fn replicate(name: &'static str, quick: u64, thorough: u64, f: PropFn) -> Sub {
    Sub {
        name,
        f,
        quick,
        thorough,
        mode: Mode::Replicate,
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    /// Pool sizes of the workers (0 = the worker built without multicore).
    pub threads: &'static [usize],
}

pub const THREADS: &[usize] = &[1, 2, 3, 4, 5, 7, 8, 16];
pub const THREADS_ST: &[usize] = &[1, 2, 3, 4, 6, 8, 16, 0];
/// Also far more threads than cores.
pub const THREADS_MT: &[usize] = &[1, 2, 3, 4, 5, 7, 8, 16, 64];
pub const THREADS_MANY: &[usize] = &[1, 2, 3, 4, 6, 8, 16, 64, 0];

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}… ({} chars)", t, s.chars().count())
    }
}

fn root() -> PathBuf {
    std::env::var_os("VP_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn cases(s: &Sub, tier: &str) -> u64 {
    let n = if tier == "thorough" { s.thorough } else { s.quick };
    match std::env::var("VP_SCALE").ok().and_then(|x| x.parse::<f64>().ok()) {
        Some(k) => ((n as f64) * k).ceil() as u64,
        None => n,
    }
}

fn only() -> Option<String> {
    std::env::var("VP_ONLY").ok()
}

/// Entry point of every check binary.
pub fn main(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &Prop {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {} in this binary", id);
            std::process::exit(2)
        })
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => parent(find(&args[2])),
        Some("child") => child(
            find(&args[2]),
            args[3].parse().unwrap(),
            args[4].parse().unwrap(),
            Path::new(&args[5]),
        ),
        // run a stored list of choices: exit 0 pass, 1 fail (or die)
        Some("try") => {
            install_hook();
            let p = find(&args[2]);
            let s = p.subs.iter().find(|s| s.name == args[3]).expect("sub");
            let txt = fs::read_to_string(&args[4]).unwrap();
            let (r, src) = one(s.f, parse_choices(&txt), true);
            for n in &src.notes {
                println!("{}", n);
            }
            if let Some(d) = src.digest {
                println!("digest {:016x}", d);
            }
            match r {
                Ok(()) => 0,
                Err(e) => {
                    println!("FAIL {}", e);
                    1
                }
            }
        }
        // regenerate case `idx`, streaming its choices to a file
        Some("dump") => {
            install_hook();
            let p = find(&args[2]);
            let s = p.subs.iter().find(|s| s.name == args[3]).expect("sub");
            let idx: u64 = args[4].parse().unwrap();
            let mut src = Src::generate(seed(), p.id, s.name, idx);
            src.log_to(fs::File::create(&args[5]).unwrap());
            match run_case(s.f, &mut src) {
                Ok(()) => 0,
                Err(e) => {
                    println!("FAIL {}", e);
                    1
                }
            }
        }
        Some("list") => {
            for p in &props {
                for s in &p.subs {
                    println!("{} {} quick={} thorough={}", p.id, s.name, s.quick, s.thorough);
                }
            }
            0
        }
        Some("replay") => replay(&props, Path::new(&args[2])),
        _ => {
            eprintln!("usage: check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code)
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}
fn tier() -> String {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough".into(),
        _ => "quick".into(),
    }
}

pub fn parse_choices(t: &str) -> Vec<u64> {
    let t = match t.find("\"choices\"") {
        Some(i) => {
            let t = &t[i..];
            let a = t.find('[').unwrap();
            let b = t.find(']').unwrap();
            &t[a + 1..b]
        }
        None => t,
    };
    t.split(|c: char| !c.is_ascii_digit())
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().unwrap())
        .collect()
}

fn json_field(t: &str, k: &str) -> Option<String> {
    let i = t.find(&format!("\"{}\":", k))?;
    let t = t[i + k.len() + 3..].trim_start();
    if let Some(t) = t.strip_prefix('"') {
        Some(t[..t.find('"')?].to_string())
    } else {
        Some(
            t.split(|c: char| c == ',' || c == '\n' || c == '}')
                .next()?
                .trim()
                .to_string(),
        )
    }
}

fn one(f: PropFn, choices: Vec<u64>, verbose: bool) -> (R, Src) {
    let mut s = Src::replay(choices);
    s.verbose = verbose;
    let r = run_case(f, &mut s);
    (r, s)
}

#[allow(clippy::too_many_arguments)]
fn write_replay(
    p: &Prop,
    s: &Sub,
    idx: u64,
    threads: usize,
    kind: &str,
    msg: &str,
    choices: &[u64],
    notes: &[String],
    extra: &str,
) -> PathBuf {
    let dir = root().join("evidence/replay");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{:016x}.json", p.id, s.name, hash_words(choices)));
    let exe = std::env::current_exe()
        .ok()
        .and_then(|e| e.file_name().map(|x| x.to_string_lossy().into_owned()))
        .unwrap_or_default();
    let txt = format!(
        "{{\n \"property\": {},\n \"sub\": {},\n \"kind\": {},\n \"message\": {},\n \"binary\": {},\n \"threads\": {},\n \"seed\": {},\n \"case\": {},\n{} \"choices\": [{}],\n \"description\": [{}]\n}}\n",
        esc(p.id),
        esc(s.name),
        esc(kind),
        esc(&clip(msg, 3000)),
        esc(&exe),
        threads,
        seed(),
        idx,
        extra,
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
        notes.iter().map(|n| esc(&clip(n, 4000))).collect::<Vec<_>>().join(",\n  ")
    );
    fs::write(&path, txt).expect("write replay");
    path
}

// ------------------------------------------------------------------- child

fn child(p: &Prop, w: u64, nw: u64, dir: &Path) -> i32 {
    install_hook();
    let threads: usize = std::env::var("VP_THREADS").unwrap().parse().unwrap();
    let prog = fs::File::create(dir.join(format!("w{}.progress", w))).unwrap();
    let mut out = String::new();
    let mut hashes: Vec<u8> = vec![];
    let mut digests = String::new();
    let tier = tier();
    let mut code = 0;
    let t0 = Instant::now();
    'outer: for (si, s) in p.subs.iter().enumerate() {
        if let Some(o) = only() {
            if o != s.name {
                continue;
            }
        }
        let n = cases(s, &tier);
        let (mut evals, mut nontriv) = (0u64, 0u64);
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut samples = 0;
        let ts = Instant::now();
        let (mut idx, step) = match s.mode {
            Mode::Split => (w, nw),
            Mode::Replicate => (0, 1),
        };
        while idx < n {
            let mut b = [0u8; 24];
            b[..8].copy_from_slice(&(si as u64 + 1).to_le_bytes());
            b[8..16].copy_from_slice(&idx.to_le_bytes());
            b[16..].copy_from_slice(&evals.to_le_bytes());
            let _ = prog.write_at(&b, 0);
            let mut src = Src::generate(seed(), p.id, s.name, idx);
            src.verbose = samples < 1 && idx / step >= 2;
            let r = run_case(s.f, &mut src);
            evals += 1;
            if src.is_nontrivial() {
                nontriv += 1;
                hashes.extend_from_slice(&mix(hash_words(&src.rec), si as u64).to_le_bytes());
                if src.verbose && r.is_ok() {
                    samples += 1;
                    out.push_str(&format!(
                        "SAMPLE {}\n",
                        format!(
                            "{{\"sub\": {}, \"case\": {}, \"draws\": {}, \"case_text\": {}}}",
                            esc(s.name),
                            idx,
                            src.rec.len(),
                            esc(&clip(&src.notes.join("; "), 600))
                        )
                    ));
                }
            }
            for l in &src.labels {
                *labels.entry(l).or_default() += 1;
            }
            if s.mode == Mode::Replicate {
                digests.push_str(&format!("{} {} {:016x}\n", si, idx, src.digest.unwrap_or(0)));
            }
            if let Err(msg) = r {
                let f = s.f;
                let first = src.rec.clone();
                let reproduced = one(f, first.clone(), false).0.is_err();
                let best = if reproduced {
                    shrink(first, 4000, Duration::from_secs(60), |c| {
                        let (r, s) = one(f, c.to_vec(), false);
                        r.err().map(|_| s.rec)
                    })
                } else {
                    first
                };
                let (r, fin) = one(f, best.clone(), true);
                let m = match r {
                    Err(m) => m,
                    Ok(()) => format!("{} (not reproduced on an immediate re-run)", msg),
                };
                let path = write_replay(p, s, idx, threads, "failure", &m, &best, &fin.notes, "");
                out.push_str(&format!("FAIL {} {}\n", path.display(), m.replace('\n', " ")));
                code = 1;
            }
            if code != 0 {
                out.push_str(&format!("SUB {} {} {} 0\n", s.name, evals, nontriv));
                break 'outer;
            }
            idx += step;
        }
        out.push_str(&format!(
            "SUB {} {} {} {:.2}\n",
            s.name,
            evals,
            nontriv,
            ts.elapsed().as_secs_f64()
        ));
        for (l, c) in labels {
            out.push_str(&format!("LABEL {} {} {}\n", s.name, c, l));
        }
    }
    out.push_str(&format!("TIME {:.2}\n", t0.elapsed().as_secs_f64()));
    fs::write(dir.join(format!("w{}.hashes", w)), hashes).unwrap();
    fs::write(dir.join(format!("w{}.digests", w)), digests).unwrap();
    fs::write(dir.join(format!("w{}.out", w)), out).unwrap();
    code
}

// ------------------------------------------------------------------ parent

fn spawn(exe: &Path, threads: usize, args: &[String], errfile: &Path) -> Child {
    let f = fs::File::create(errfile).unwrap();
    let mut c = Command::new(exe);
    c.args(args)
        .env("VP_THREADS", threads.to_string())
        .env("RAYON_NUM_THREADS", threads.max(1).to_string())
        .env("VERIF_SEED", seed().to_string())
        .env("VERIF_TIER", tier())
        .stdin(Stdio::null())
        .stdout(f.try_clone().unwrap())
        .stderr(f);
    c.spawn().expect("spawn worker")
}

/// CPU ticks used so far, and whether every thread is asleep.
fn activity(pid: u32) -> Option<(u64, bool)> {
    let st = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &st[st.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let ticks: u64 = f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    let mut asleep = true;
    for t in fs::read_dir(format!("/proc/{}/task", pid)).ok()? {
        let t = t.ok()?;
        let st = fs::read_to_string(t.path().join("stat")).ok()?;
        let s = &st[st.rfind(')')? + 2..];
        if !s.starts_with('S') {
            asleep = false;
        }
    }
    Some((ticks, asleep))
}

enum End {
    Exit(i32),
    Signal(i32),
    Deadlock,
    Stall,
    Timeout,
}

const DEADLOCK_POLLS: u32 = 60;
/// A single case that burns this much CPU does not terminate: the slowest
/// honest case takes a few seconds.
const STALL_WALL: u64 = 240;
const STALL_TICKS: u64 = 100 * 150;

/// Waits for all children.  Stops early once one of them reports a failure.
fn supervise(children: &mut [(Child, Option<PathBuf>)], limit: Duration) -> Vec<Option<End>> {
    let t0 = Instant::now();
    let n = children.len();
    let mut ends: Vec<Option<End>> = (0..n).map(|_| None).collect();
    let mut last: Vec<(u64, Vec<u8>, u32)> = vec![(0, vec![], 0); n];
    let mut stall: Vec<(Vec<u8>, Instant, u64)> = vec![(vec![255], Instant::now(), 0); n];
    let mut tick = 0u64;
    loop {
        let mut alive = 0;
        let mut bad = false;
        for (i, (c, prog)) in children.iter_mut().enumerate() {
            if ends[i].is_some() {
                continue;
            }
            match c.try_wait() {
                Ok(Some(st)) => {
                    ends[i] = Some(match st.code() {
                        Some(c) => End::Exit(c),
                        None => End::Signal(st.signal().unwrap_or(0)),
                    });
                }
                _ => {
                    alive += 1;
                    if tick % 50 == 0 {
                        if let Some((ticks, asleep)) = activity(c.id()) {
                            let pr = prog
                                .as_ref()
                                .and_then(|p| fs::read(p).ok())
                                .unwrap_or_default();
                            if asleep && ticks == last[i].0 && pr == last[i].1 {
                                last[i].2 += 1;
                            } else {
                                last[i] = (ticks, pr.clone(), 0);
                            }
                            if pr != stall[i].0 {
                                stall[i] = (pr, Instant::now(), ticks);
                            } else if stall[i].1.elapsed().as_secs() > STALL_WALL
                                && ticks - stall[i].2 > STALL_TICKS
                            {
                                let _ = c.kill();
                                let _ = c.wait();
                                ends[i] = Some(End::Stall);
                            }
                            if last[i].2 >= DEADLOCK_POLLS {
                                let _ = c.kill();
                                let _ = c.wait();
                                ends[i] = Some(End::Deadlock);
                            }
                        }
                    }
                }
            }
            if matches!(ends[i], Some(End::Exit(1)) | Some(End::Signal(_)) | Some(End::Deadlock) | Some(End::Stall)) {
                bad = true;
            }
        }
        if alive == 0 {
            return ends;
        }
        if bad || t0.elapsed() > limit {
            for (i, (c, _)) in children.iter_mut().enumerate() {
                if ends[i].is_none() {
                    let _ = c.kill();
                    let _ = c.wait();
                    if !bad {
                        ends[i] = Some(End::Timeout);
                    }
                }
            }
            return ends;
        }
        tick += 1;
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn binary_for(threads: usize) -> Option<PathBuf> {
    let me = std::env::current_exe().ok()?;
    if threads > 0 {
        return Some(me);
    }
    let p = PathBuf::from(std::env::var_os("VP_ST_DIR")?).join(me.file_name()?);
    if p.exists() {
        Some(p)
    } else {
        None
    }
}

fn run_once(p: &Prop, s: &Sub, threads: usize, choices: &[u64], dir: &Path) -> (Option<End>, String) {
    let f = dir.join("try.choices");
    fs::write(
        &f,
        choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
    )
    .unwrap();
    let out = dir.join("try.out");
    let exe = match binary_for(threads) {
        Some(e) => e,
        None => return (None, String::new()),
    };
    let c = spawn(
        &exe,
        threads,
        &[
            "try".into(),
            p.id.into(),
            s.name.into(),
            f.display().to_string(),
        ],
        &out,
    );
    let mut cs = [(c, None)];
    let e = supervise(&mut cs, Duration::from_secs(120)).pop().unwrap();
    (e, fs::read_to_string(&out).unwrap_or_default())
}

fn digest_of(t: &str) -> Option<String> {
    t.lines()
        .rev()
        .find_map(|l| l.strip_prefix("digest ").map(|s| s.to_string()))
}

fn parent(p: &Prop) -> i32 {
    let t0 = Instant::now();
    let tier = tier();
    let dir = root().join(format!("target/run/{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).expect("run dir");
    let workers: Vec<(usize, PathBuf)> = p
        .threads
        .iter()
        .filter_map(|t| binary_for(*t).map(|b| (*t, b)))
        .collect();
    let skipped_st = p.threads.contains(&0) && !workers.iter().any(|w| w.0 == 0);
    let nw = workers.len() as u64;
    let mut kids: Vec<(Child, Option<PathBuf>)> = workers
        .iter()
        .enumerate()
        .map(|(w, (t, exe))| {
            let c = spawn(
                exe,
                *t,
                &[
                    "child".into(),
                    p.id.into(),
                    w.to_string(),
                    nw.to_string(),
                    dir.display().to_string(),
                ],
                &dir.join(format!("w{}.err", w)),
            );
            (c, Some(dir.join(format!("w{}.progress", w))))
        })
        .collect();
    let limit = if tier == "thorough" { 6 * 3600 } else { 700 };
    let ends = supervise(&mut kids, Duration::from_secs(limit));

    let mut violations: Vec<(String, PathBuf)> = vec![];
    let mut errors: Vec<String> = vec![];
    let (mut evals, mut nontriv) = (0u64, 0u64);
    let mut per_sub: BTreeMap<String, (u64, u64, f64)> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut set: HashSet<u64> = HashSet::new();
    let mut digests: BTreeMap<(u64, u64), BTreeMap<String, Vec<usize>>> = BTreeMap::new();

    for (w, e) in ends.iter().enumerate() {
        let threads = workers[w].0;
        if let Ok(o) = fs::read_to_string(dir.join(format!("w{}.out", w))) {
            for l in o.lines() {
                let mut it = l.splitn(2, ' ');
                let (k, rest) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
                match k {
                    "FAIL" => {
                        let mut q = rest.splitn(2, ' ');
                        let path = PathBuf::from(q.next().unwrap());
                        violations.push((q.next().unwrap_or("").to_string(), path));
                    }
                    "SUB" => {
                        let f: Vec<&str> = rest.split(' ').collect();
                        let e = per_sub.entry(f[0].into()).or_default();
                        let (a, b): (u64, u64) = (f[1].parse().unwrap(), f[2].parse().unwrap());
                        e.0 += a;
                        e.1 += b;
                        e.2 += f[3].parse::<f64>().unwrap_or(0.0);
                        evals += a;
                        nontriv += b;
                    }
                    "LABEL" => {
                        let f: Vec<&str> = rest.splitn(3, ' ').collect();
                        *labels.entry(format!("{}: {}", f[0], f[2])).or_default() +=
                            f[1].parse::<u64>().unwrap();
                    }
                    "SAMPLE" => samples.push(rest.to_string()),
                    _ => {}
                }
            }
        }
        if let Ok(h) = fs::read(dir.join(format!("w{}.hashes", w))) {
            for c in h.chunks_exact(8) {
                let mut b = [0; 8];
                b.copy_from_slice(c);
                set.insert(u64::from_le_bytes(b));
            }
        }
        if let Ok(d) = fs::read_to_string(dir.join(format!("w{}.digests", w))) {
            for l in d.lines() {
                let f: Vec<&str> = l.split(' ').collect();
                digests
                    .entry((f[0].parse().unwrap(), f[1].parse().unwrap()))
                    .or_default()
                    .entry(f[2].into())
                    .or_default()
                    .push(threads);
            }
        }
        match e {
            None | Some(End::Exit(0)) | Some(End::Exit(1)) => {}
            Some(End::Timeout) => errors.push(format!("worker {} ran out of time", w)),
            Some(End::Exit(c)) => errors.push(format!(
                "worker {} ended with code {}: {}",
                w,
                c,
                clip(
                    &fs::read_to_string(dir.join(format!("w{}.err", w))).unwrap_or_default(),
                    800
                )
            )),
            Some(End::Signal(9)) | Some(End::Signal(15)) => {
                errors.push(format!("worker {} was killed", w))
            }
            Some(End::Signal(_)) | Some(End::Deadlock) | Some(End::Stall) => {
                let what = match e {
                    Some(End::Signal(s)) => format!("the process died with signal {}", s),
                    Some(End::Stall) => "one case does not terminate".to_string(),
                    _ => "deadlock: every thread asleep, no progress".to_string(),
                };
                let pr = fs::read(dir.join(format!("w{}.progress", w))).unwrap_or_default();
                if pr.len() < 16 {
                    errors.push(format!("worker {}: {} before the first case", w, what));
                    continue;
                }
                let si = u64::from_le_bytes(pr[..8].try_into().unwrap()) as usize - 1;
                let idx = u64::from_le_bytes(pr[8..16].try_into().unwrap());
                let s = &p.subs[si];
                let err = fs::read_to_string(dir.join(format!("w{}.err", w))).unwrap_or_default();
                let is_sig = matches!(e, Some(End::Signal(_)));
                violations.push(crash(p, s, idx, threads, &workers[w].1, &what, &err, is_sig, &dir));
            }
        }
    }
    // digest comparison
    if violations.is_empty() && errors.is_empty() {
        for ((si, idx), m) in &digests {
            if m.len() > 1 {
                let s = &p.subs[*si as usize];
                violations.push(mismatch(p, s, *idx, m, &dir));
                break;
            }
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    // evidence
    let mut known: Vec<String> = vec![];
    violations.retain(|(m, path)| match known_finding(p.id, m, path) {
        Some(k) => {
            known.push(k);
            false
        }
        None => true,
    });
    samples.sort_by_key(|s| s.len());
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    let keep: Vec<String> = samples
        .iter()
        .rev()
        .filter(|s| {
            let k = json_field(s, "sub").unwrap_or_default();
            let c = seen.entry(k).or_default();
            *c += 1;
            *c <= 2
        })
        .cloned()
        .collect();
    let replicas = nw;
    let cover = format!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"nontrivial_evaluations\": {}, \"per_sub\": {{{}}}, \"labels\": {{{}}}, \"workers\": {}}}",
        evals,
        set.len(),
        esc(p.rule),
        keep.join(", "),
        nontriv,
        per_sub
            .iter()
            .map(|(k, v)| format!("{}: {{\"evaluations\": {}, \"nontrivial\": {}, \"cpu_s\": {:.1}}}", esc(k), v.0, v.1, v.2))
            .collect::<Vec<_>>()
            .join(", "),
        labels
            .iter()
            .map(|(k, v)| format!("{}: {}", esc(k), v))
            .collect::<Vec<_>>()
            .join(", "),
        esc(&format!(
            "{} processes; rayon threads {}{}",
            replicas,
            workers.iter().map(|w| if w.0 == 0 { "none (built without multicore)".into() } else { w.0.to_string() }).collect::<Vec<String>>().join(","),
            if skipped_st { "; the build without multicore was not available" } else { "" }
        ))
    );
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {}, \"assumptions\": [{}], \"wall_s\": {:.1}, \"violations\": {}}}\n",
        esc(p.id),
        esc(&tier),
        seed(),
        cover,
        p.assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(", "),
        wall,
        violations.len()
    );
    let _ = fs::create_dir_all(root().join("evidence"));
    fs::write(root().join(format!("evidence/{}.json", p.id)), ev).expect("evidence");
    let _ = fs::remove_dir_all(&dir);

    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1}s",
        p.id,
        tier,
        evals,
        set.len(),
        wall
    );
    for (k, v) in &per_sub {
        println!("  {:24} {:>9} cases {:>9} non-trivial {:>8.1} cpu s", k, v.0, v.1, v.2);
    }
    if std::env::var_os("VP_LABELS").is_some() {
        for (k, v) in &labels {
            println!("    {:50} {}", k, v);
        }
    }
    for k in known {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    if !violations.is_empty() {
        for (m, path) in &violations {
            println!("  {}", clip(m, 1500));
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("ERROR {}", e);
        }
        return 2;
    }
    let _ = std::io::stdout().flush();
    0
}

/// `known-findings.txt` holds `known: property=<id> match=<text>` lines; the
/// text must appear in the failure message.
fn known_finding(id: &str, msg: &str, _path: &Path) -> Option<String> {
    let t = fs::read_to_string(root().join("known-findings.txt")).ok()?;
    for l in t.lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={} match=", id)) {
            let r = r.trim();
            if !r.is_empty() && msg.contains(r) {
                return Some(r.to_string());
            }
        }
    }
    None
}

#[allow(clippy::too_many_arguments)]
fn crash(
    p: &Prop,
    s: &Sub,
    idx: u64,
    threads: usize,
    exe: &Path,
    what: &str,
    err: &str,
    shrinkable: bool,
    dir: &Path,
) -> (String, PathBuf) {
    let log = dir.join("dump.choices");
    let c = spawn(
        exe,
        threads,
        &[
            "dump".into(),
            p.id.into(),
            s.name.into(),
            idx.to_string(),
            log.display().to_string(),
        ],
        &dir.join("dump.err"),
    );
    let mut cs = [(c, None)];
    let e = supervise(&mut cs, Duration::from_secs(150)).pop().unwrap();
    let mut choices = parse_choices(&fs::read_to_string(&log).unwrap_or_default());
    let again = matches!(e, Some(End::Signal(_)) | Some(End::Deadlock));
    if again && shrinkable {
        choices = shrink(choices, 400, Duration::from_secs(60), |c| {
            match run_once(p, s, threads, c, dir).0 {
                Some(End::Signal(x)) if x != 9 && x != 15 => Some(c.to_vec()),
                _ => None,
            }
        });
    }
    let msg = format!(
        "{}{}; stderr: {}",
        what,
        if again { "" } else { " (not reproduced on an immediate re-run)" },
        clip(err.trim(), 600)
    );
    let path = write_replay(p, s, idx, threads, "crash", &msg, &choices, &[], "");
    (msg, path)
}

fn mismatch(
    p: &Prop,
    s: &Sub,
    idx: u64,
    m: &BTreeMap<String, Vec<usize>>,
    dir: &Path,
) -> (String, PathBuf) {
    let mut groups: Vec<(&String, &Vec<usize>)> = m.iter().collect();
    groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
    let (ta, tb) = (groups[0].1[0], groups[1].1[0]);
    let mut src = Src::generate(seed(), p.id, s.name, idx);
    let _ = run_case(s.f, &mut src);
    let differs = |c: &[u64]| {
        let a = digest_of(&run_once(p, s, ta, c, dir).1);
        let b = digest_of(&run_once(p, s, tb, c, dir).1);
        a != b
    };
    let mut choices = src.rec.clone();
    let repro = differs(&choices);
    if repro {
        choices = shrink(choices, 300, Duration::from_secs(60), |c| {
            if differs(c) {
                Some(c.to_vec())
            } else {
                None
            }
        });
    }
    let (_, fin) = one(s.f, choices.clone(), true);
    let msg = format!(
        "results differ between worker configurations (threads, 0 = no multicore): {:?}{}",
        m.values().collect::<Vec<_>>(),
        if repro { "" } else { " (not reproduced on an immediate re-run)" }
    );
    let path = write_replay(
        p,
        s,
        idx,
        ta,
        "mismatch",
        &msg,
        &choices,
        &fin.notes,
        &format!(" \"threads_b\": {},\n", tb),
    );
    (msg, path)
}

fn replay(props: &[Prop], file: &Path) -> i32 {
    let t = fs::read_to_string(file).expect("replay file");
    let id = json_field(&t, "property").unwrap();
    let sn = json_field(&t, "sub").unwrap();
    let p = props.iter().find(|p| p.id == id).expect("property");
    let s = p.subs.iter().find(|s| s.name == sn).expect("sub");
    let threads: usize = json_field(&t, "threads").unwrap().parse().unwrap();
    let choices = parse_choices(&t);
    let dir = root().join(format!("target/run/replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let (e, out) = run_once(p, s, threads, &choices, &dir);
    print!("{}", out);
    let mut bad = match e {
        Some(End::Exit(0)) => false,
        Some(End::Exit(1)) => true,
        Some(End::Signal(x)) => {
            println!("died with signal {}", x);
            true
        }
        Some(End::Deadlock) | Some(End::Stall) | Some(End::Timeout) => {
            println!("deadlock or no termination");
            true
        }
        _ => {
            eprintln!("no answer");
            return 2;
        }
    };
    if let Some(tb) = json_field(&t, "threads_b") {
        let (_, o2) = run_once(p, s, tb.parse().unwrap(), &choices, &dir);
        print!("{}", o2);
        bad = bad || digest_of(&out) != digest_of(&o2);
    }
    let _ = fs::remove_dir_all(&dir);
    if bad {
        println!("VIOLATION property={} replay={}", id, file.display());
        1
    } else {
        println!("passes");
        0
    }
}
