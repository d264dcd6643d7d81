//! Choice-sequence property-based testing.
//!
//! A property is a function of a `Src`.  Every random decision is a bounded
//! integer drawn from the `Src`, so a case *is* its list of draws: it can be
//! stored, replayed and shrunk without knowing what it means.

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($l:expr, $r:expr, $($a:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if !(*l == *r) { return Err(format!("{}: got {:?}, expected {:?}", format!($($a)*), l, r)); }
    }};
}

/// splitmix64 / xoshiro256**
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
fn sm(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    sm(&mut x) ^ b
}
pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100_0000_01b3)
    })
}
pub fn hash_words(ws: &[u64]) -> u64 {
    ws.iter().fold(0x1234_5678_9abc_def1, |h, w| mix(h, *w))
}
impl Rng {
    pub fn new(mut seed: u64) -> Self {
        let mut s = [0; 4];
        for x in s.iter_mut() {
            *x = sm(&mut seed);
        }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
}
impl rand_core::RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let b = self.next().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand_core::CryptoRng for Rng {}

pub struct Src {
    replay: Option<Vec<u64>>,
    exhausted: bool,
    pub rec: Vec<u64>,
    rng: Rng,
    index: u64,
    pub labels: Vec<&'static str>,
    nontrivial: bool,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub digest: Option<u64>,
    log: Option<std::fs::File>,
}

impl Src {
    pub fn generate(seed: u64, prop: &str, sub: &str, index: u64) -> Src {
        let s = mix(mix(mix(seed, hash_str(prop)), hash_str(sub)), index);
        Src {
            replay: None,
            exhausted: false,
            rec: vec![],
            rng: Rng::new(s),
            index,
            labels: vec![],
            nontrivial: false,
            verbose: false,
            notes: vec![],
            digest: None,
            log: None,
        }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        let mut s = Src::generate(0, "", "", 0);
        s.replay = Some(choices);
        s
    }
    pub fn log_to(&mut self, f: std::fs::File) {
        self.log = Some(f);
    }
    /// Uniform in `0..=max`.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(max),
            None => {
                let x = self.rng.next();
                if max == u64::MAX {
                    x
                } else {
                    ((x as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
        };
        self.push(v)
    }
    fn push(&mut self, v: u64) -> u64 {
        self.rec.push(v);
        if let Some(r) = &self.replay {
            // a generator that waits for a nonzero choice never ends here
            if self.rec.len() > r.len() + 200_000 {
                self.exhausted = true;
                panic!("out of choices");
            }
        }
        if let Some(f) = self.log.as_mut() {
            use std::io::Write;
            let _ = writeln!(f, "{}", v);
        }
        v
    }
    /// The index of the case in an enumerated family (recorded like a draw).
    pub fn enumerate(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => self.index % n,
        };
        self.push(v)
    }
    pub fn is_replay(&self) -> bool {
        self.replay.is_some()
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo)
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64 - 1) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.draw(1) == 1
    }
    /// True with probability `n/d`; false is the simple value.
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.draw(d - 1) >= d - n
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Index chosen with the given weights; recorded as the index itself.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.rec.len()).copied().unwrap_or(0).min(ws.len() as u64 - 1);
                let mut v = v as usize;
                while ws[v] == 0 && v > 0 {
                    v -= 1;
                }
                v as u64
            }
            None => {
                let tot: u64 = ws.iter().map(|w| *w as u64).sum();
                let mut x = ((self.rng.next() as u128 * tot as u128) >> 64) as u64;
                let mut i = 0;
                while x >= ws[i] as u64 {
                    x -= ws[i] as u64;
                    i += 1;
                }
                i as u64
            }
        };
        self.push(v) as usize
    }
    /// Skewed towards small sizes: each magnitude equally likely.
    pub fn skewed(&mut self, lo: usize, hi: usize) -> usize {
        let span = (hi - lo) as u64;
        let bits = 64 - span.leading_zeros() as u64;
        let v = match &self.replay {
            Some(r) => r.get(self.rec.len()).copied().unwrap_or(0).min(span),
            None => {
                let b = self.rng.next() % (bits + 1);
                let m = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
                (self.rng.next() & m).min(span)
            }
        };
        lo + self.push(v) as usize
    }
    /// 64-bit values with boundary values over-represented.
    pub fn special_u64(&mut self) -> u64 {
        match self.weighted(&[3, 3, 2, 3]) {
            0 => self.draw(4),
            1 => {
                let b = self.draw(63);
                let d = self.draw(2);
                (1u64 << b).wrapping_add(d).wrapping_sub(1)
            }
            2 => u64::MAX - self.draw(4),
            _ => self.draw(u64::MAX),
        }
    }
    pub fn u32s(&mut self) -> u32 {
        match self.weighted(&[2, 2, 2, 1, 6]) {
            0 => self.draw(3) as u32,
            1 => 1u32 << self.draw(31),
            2 => u32::MAX - self.draw(3) as u32,
            3 => 0x8000_0000u32.wrapping_add(self.draw(2) as u32).wrapping_sub(1),
            _ => self.draw(u32::MAX as u64) as u32,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        // one draw per 7 bytes keeps sequences short
        let mut out = Vec::with_capacity(n);
        while out.len() < n {
            let w = self.draw((1 << 56) - 1).to_le_bytes();
            let k = (n - out.len()).min(7);
            out.extend_from_slice(&w[..k]);
        }
        out
    }
    pub fn rng(&mut self) -> Rng {
        let s = self.draw(u64::MAX);
        Rng::new(s)
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// Marks the case non-trivial (by the rule stated with the property).
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn is_nontrivial(&self) -> bool {
        self.nontrivial
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let s = f();
            self.notes.push(s);
        }
    }
    pub fn emit(&mut self, w: u64) {
        self.digest = Some(mix(self.digest.unwrap_or(7), w));
    }
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some(format!("panic at {}: {}", loc, msg));
        }
        if std::env::var_os("VP_PANIC").is_some() {
            eprintln!("panic at {}: {}", loc, msg);
        }
    }));
}

/// Runs `f` and turns a panic into `Err`.
pub fn no_panic<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .lock()
            .ok()
            .and_then(|mut g| g.take())
            .unwrap_or_else(|| "panic".into())),
    }
}

pub type PropFn = fn(&mut Src) -> R;

pub fn run_case(f: PropFn, s: &mut Src) -> R {
    let r = catch_unwind(AssertUnwindSafe(|| f(s)));
    if s.exhausted {
        // not a case at all
        return Ok(());
    }
    match r {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC
            .lock()
            .ok()
            .and_then(|mut g| g.take())
            .unwrap_or_else(|| "panic".into())),
    }
}

/// Shrinks `start` with respect to `fails`, which runs a candidate and
/// returns the (normalised) choices actually used if it still fails.
pub fn shrink(
    start: Vec<u64>,
    max_tries: usize,
    max_time: Duration,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = start;
    let mut tries = 0;
    let simpler = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($c:expr) => {{
            let c: Vec<u64> = $c;
            if tries >= max_tries || t0.elapsed() > max_time {
                return best;
            }
            tries += 1;
            if c == best {
                false
            } else if let Some(mut used) = fails(&c) {
                while used.last() == Some(&0) {
                    used.pop();
                }
                if simpler(&used, &best) {
                    best = used;
                    true
                } else {
                    false
                }
            } else {
                false
            }
        }};
    }
    loop {
        let before = best.clone();
        // truncate
        let mut k = best.len() / 2;
        while k > 0 {
            while best.len() >= k && attempt!(best[..best.len() - k].to_vec()) {}
            k /= 2;
        }
        // delete blocks
        for k in [64usize, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= k && k > 0 {
                i -= if k > 4 { k } else { 1 };
                if i + k <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + k);
                    if attempt!(c) {
                        i = i.min(best.len());
                    }
                }
                if i == 0 {
                    break;
                }
            }
        }
        // delete an element and decrement an earlier "count"
        for i in 0..best.len().min(40) {
            for k in [1usize, 2, 3, 4, 6, 8] {
                for j in [i + 1, i + 2, i + 3] {
                    if i < best.len() && best[i] > 0 && best[i] < 1000 && j + k <= best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(j..j + k);
                        attempt!(c);
                    }
                }
            }
        }
        // zero blocks
        for k in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    attempt!(c);
                }
                i += k;
            }
        }
        // minimise values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let (mut lo, mut hi) = (0u64, v); // lo passes (assumed), hi fails
                while lo + 1 < hi {
                    let mid = lo + (hi - lo) / 2;
                    if i >= best.len() {
                        break;
                    }
                    let mut c = best.clone();
                    c[i] = mid;
                    if attempt!(c) {
                        hi = mid;
                    } else {
                        lo = mid;
                    }
                }
                if i < best.len() && best[i] > 0 {
                    let mut c = best.clone();
                    c[i] -= 1;
                    attempt!(c);
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
