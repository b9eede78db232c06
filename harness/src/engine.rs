//! A small property-based testing engine: choice-sequence generation, shrinking, replay, evidence.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.unit()
    }
    pub fn sign(&mut self) -> f64 {
        if self.next() & 1 == 0 { 1.0 } else { -1.0 }
    }
    /// magnitude 10^[a, b] with a random sign
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        self.sign() * 10f64.powf(self.range(a, b))
    }
}

/// A generated case: the sequence of values drawn by the check.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Case {
    pub f: Vec<f64>,
    pub i: Vec<i64>,
}
impl Case {
    fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut add = |x: u64| {
            h ^= x;
            h = h.wrapping_mul(0x100000001b3);
            h ^= h >> 29;
        };
        for x in &self.f {
            add(x.to_bits());
        }
        add(0x1234567);
        for x in &self.i {
            add(*x as u64);
        }
        h
    }
    fn show(&self) -> String {
        let f: Vec<String> = self.f.iter().map(|x| format!("{:?}", x)).collect();
        let i: Vec<String> = self.i.iter().map(|x| x.to_string()).collect();
        format!("f=[{}] i=[{}]", f.join(", "), i.join(", "))
    }
}

/// What a float was drawn by (its generator and the parameters of it), so that a fuzzed case keeps to
/// values that its generators can give.
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Other,
    /// `Src::real` of this exponent
    Real(f64),
    /// between the two
    Range(f64, f64),
    /// `Src::angle`
    Angle,
}
pub type Tag = (usize, Kind);

/// A case with the tags of its floats and the bounds of its integers
#[derive(Clone, Default)]
pub struct Entry {
    pub case: Case,
    pub tags: Vec<Tag>,
}

enum Mode {
    Gen(Rng),
    Replay { case: Case, nf: usize, ni: usize },
    /// the values of an entry, with those in the plan changed
    Mutate { rng: Rng, base: Entry, plan_f: Vec<usize>, plan_i: Vec<usize>, nf: usize, ni: usize },
}

fn mutate_f(r: &mut Rng, base: &Entry, x: f64, kind: Kind, g: impl FnOnce(&mut Rng) -> f64) -> f64 {
    let other = |r: &mut Rng| {
        let n = base.case.f.len() as u64;
        let k = r.below(n) as usize;
        (base.tags[k].1 != Kind::Other).then(|| base.case.f[k])
    };
    match kind {
        Kind::Other => g(r),
        Kind::Real(e) => {
            let lim = 10f64.powf(e.max(1.0));
            let y = match r.below(16) {
                0 | 1 => 0.0,
                2 => 1.0,
                3 => -1.0,
                4 => -x,
                5 | 6 => other(r).unwrap_or(x),
                7 => -other(r).unwrap_or(x),
                8 => x * (1.0 + r.log(-16.0, -1.0)),
                9 => x.round(),
                10 => [0.5, 2.0, 10.0, 0.1][r.below(4) as usize] * x,
                _ => return g(r),
            };
            // small ones are not under those of the generator
            if y.abs() > lim || (y != 0.0 && y.abs() < 0.1f64.powf(e.max(1.0))) { x } else { y }
        }
        Kind::Range(a, b) => {
            let y = match r.below(10) {
                0 => a,
                1 => b,
                2 => 0.0,
                3 => -x,
                4 => other(r).unwrap_or(x),
                5 => x * (1.0 + r.log(-16.0, -1.0)),
                6 => x.round(),
                _ => return g(r),
            };
            // tiny ones only where the generator gives them
            let tiny = |z: f64| z != 0.0 && z.abs() < 1e-7 * (b - a);
            if tiny(y) && !tiny(x) { x } else { y.clamp(a, b) }
        }
        Kind::Angle => {
            let quarter = std::f64::consts::PI / 2.0;
            let y = match r.below(12) {
                0 => 0.0,
                1 => -x,
                2 => x + (r.below(9) as f64 - 4.0) * quarter,
                3 => other(r).unwrap_or(x),
                4 => (r.below(9) as f64 - 4.0) * quarter - other(r).unwrap_or(x),
                5 => x * (1.0 + r.log(-16.0, -1.0)),
                6 => (x / quarter).round() * quarter,
                7 => [0.5, 2.0, -0.5, 3.0][r.below(4) as usize] * x,
                _ => return g(r),
            };
            if y.abs() > 1e6 || (y != 0.0 && y.abs() < 1e-16) { x } else { y }
        }
    }
}
fn mutate_i(r: &mut Rng, base: &Entry, x: i64, lo: i64, hi: i64, g: impl FnOnce(&mut Rng) -> i64) -> i64 {
    match r.below(8) {
        0 => 0,
        1 => x.saturating_add(1),
        2 => x.saturating_sub(1),
        3 => x.wrapping_neg(),
        4 => base.case.i[r.below(base.case.i.len() as u64) as usize],
        5 if hi.checked_sub(lo).map_or(false, |d| d > 0 && d < 1 << 40) => lo + r.below((hi - lo + 1) as u64) as i64,
        _ => g(r),
    }
}

/// The source of the values of a case: random, or the replay of a recorded case.
pub struct Src {
    mode: Mode,
    pub drawn: Case,
    tags: Vec<Tag>,
    log_to: Option<std::fs::File>,
}
impl Src {
    fn gen(rng: Rng) -> Self {
        Src { mode: Mode::Gen(rng), drawn: Case::default(), tags: vec![], log_to: None }
    }
    fn replay(case: Case) -> Self {
        Src { mode: Mode::Replay { case, nf: 0, ni: 0 }, drawn: Case::default(), tags: vec![], log_to: None }
    }
    fn mutate(mut rng: Rng, base: Entry) -> Self {
        let (f, i) = (base.case.f.len(), base.case.i.len());
        let n = [1, 1, 1, 2, 2, 3, 4, 8][rng.below(8) as usize];
        let (mut plan_f, mut plan_i) = (vec![], vec![]);
        // sometimes neighbours, together
        let run = rng.below(4) == 0;
        let start = rng.below((f + i).max(1) as u64) as usize;
        for k in 0..n {
            let p = if run { start + k } else { rng.below((f + i).max(1) as u64) as usize };
            if p < f {
                plan_f.push(p);
            } else {
                plan_i.push(p - f);
            }
        }
        Src { mode: Mode::Mutate { rng, base, plan_f, plan_i, nf: 0, ni: 0 }, drawn: Case::default(), tags: vec![], log_to: None }
    }
    fn entry(self) -> Entry {
        Entry { case: self.drawn, tags: self.tags }
    }
    /// draw a float with the given generator, which must not depend on variables (recorded; replayed as it is)
    #[track_caller]
    pub fn f(&mut self, g: impl FnOnce(&mut Rng) -> f64) -> f64 {
        let l = std::panic::Location::caller();
        self.fk((l as *const std::panic::Location) as usize, Kind::Other, g)
    }
    /// magnitude 10^[a, b] with a random sign
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        self.fk(((a * 1e3) as i64 * 1_000_003 + (b * 1e3) as i64) as usize, Kind::Other, |r| r.log(a, b))
    }
    /// the same, for a generator given by the tag
    pub fn fk(&mut self, place: usize, kind: Kind, g: impl FnOnce(&mut Rng) -> f64) -> f64 {
        let tag = (place, kind);
        let x = match &mut self.mode {
            Mode::Gen(r) => g(r),
            Mode::Replay { case, nf, .. } => {
                *nf += 1;
                case.f.get(*nf - 1).copied().unwrap_or(0.0)
            }
            Mode::Mutate { rng, base, plan_f, nf, .. } => {
                let k = *nf;
                *nf += 1;
                if base.tags.get(k) != Some(&tag) {
                    g(rng)
                } else if plan_f.contains(&k) {
                    mutate_f(rng, base, base.case.f[k], kind, g)
                } else {
                    base.case.f[k]
                }
            }
        };
        self.drawn.f.push(x);
        self.log_value(b'f', x.to_bits());
        self.tags.push(tag);
        x
    }
    fn log_value(&mut self, kind: u8, bits: u64) {
        if let Some(f) = &mut self.log_to {
            let mut b = [kind; 9];
            b[1..].copy_from_slice(&bits.to_le_bytes());
            let _ = std::io::Write::write_all(f, &b);
        }
    }
    /// draw an integer in [lo, hi] with the given generator
    pub fn ig(&mut self, lo: i64, hi: i64, g: impl FnOnce(&mut Rng) -> i64) -> i64 {
        let x = match &mut self.mode {
            Mode::Gen(r) => g(r),
            Mode::Replay { case, ni, .. } => {
                *ni += 1;
                case.i.get(*ni - 1).copied().unwrap_or(0)
            }
            Mode::Mutate { rng, base, plan_i, ni, .. } => {
                let k = *ni;
                *ni += 1;
                match base.case.i.get(k) {
                    None => g(rng),
                    Some(&x) if plan_i.contains(&k) => mutate_i(rng, base, x, lo, hi, g),
                    Some(&x) if x < lo || x > hi => g(rng),
                    Some(&x) => x,
                }
            }
        };
        let x = x.clamp(lo, hi);
        self.drawn.i.push(x);
        self.log_value(b'i', x as u64);
        x
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        self.ig(lo, hi, |r| lo + r.below((hi - lo + 1) as u64) as i64)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.int(0, n as i64 - 1) as usize
    }
    pub fn flag(&mut self) -> bool {
        self.int(0, 1) == 1
    }
}

pub enum Stop {
    Discard,
    Known(&'static str, String),
    Fail(String),
}
/// Ok(non-trivial?)
pub type R<T = bool> = Result<T, Stop>;

pub fn fail<T>(msg: String) -> R<T> {
    Err(Stop::Fail(msg))
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::engine::Stop::Fail(format!($($a)*))); } };
}
/// discard the case unless the condition holds
#[macro_export]
macro_rules! assume {
    ($c:expr) => { if !$c { return Err($crate::engine::Stop::Discard); } };
}

#[derive(Clone, Copy)]
pub struct Check {
    pub prop: &'static str,
    pub name: &'static str,
    pub ty: &'static str,
    pub run: fn(&mut Src) -> R,
    /// cases in the quick tier
    pub n: usize,
    /// what makes a case non-trivial
    pub rule: &'static str,
}
impl Check {
    pub fn id(&self) -> String {
        format!("{}<{}>", self.name, self.ty)
    }
}

fn exec(c: &Check, s: &mut Src) -> R {
    match catch_unwind(AssertUnwindSafe(|| (c.run)(s))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_else(|| "?".into());
            Err(Stop::Fail(format!("panicked: {}", m)))
        }
    }
}

fn try_case(c: &Check, case: &Case) -> (R, Case) {
    let mut s = Src::replay(case.clone());
    let r = exec(c, &mut s);
    (r, s.drawn)
}

fn cost_f(x: f64) -> usize {
    if x == 0.0 {
        0
    } else if x == 1.0 {
        1
    } else if x == -1.0 {
        2
    } else if x.fract() == 0.0 && x.abs() < 1e6 {
        3 + (x.abs() as usize).to_string().len()
    } else {
        10 + format!("{:?}", x).len()
    }
}
fn cost(c: &Case) -> usize {
    c.f.iter().map(|x| cost_f(*x)).sum::<usize>()
        + c.i.iter().map(|x| if *x == 0 { 0 } else { 1 + (64 - x.unsigned_abs().leading_zeros()) as usize * 2 + (*x < 0) as usize }).sum::<usize>()
        + c.f.len()
        + c.i.len()
}

fn shrink(c: &Check, start: Case, msg: String, deadline: Instant) -> (Case, String, usize) {
    let (mut best, mut msg, mut steps) = (start, msg, 0);
    let mut improved = true;
    while improved && Instant::now() < deadline {
        improved = false;
        let mut cands: Vec<Case> = vec![];
        for k in 0..best.i.len() {
            let x = best.i[k];
            for y in [0, x / 2, x - x.signum()] {
                if y != x {
                    let mut d = best.clone();
                    d.i[k] = y;
                    cands.push(d);
                }
            }
        }
        for k in 0..best.f.len() {
            let x = best.f[k];
            let r = |p: f64| (x * p).round() / p;
            for y in [0.0, 1.0, -1.0, x.round(), r(10.0), r(100.0), r(1e4), r(1e8), x / 2.0, (x / 2.0).round()] {
                if y != x && y.is_finite() {
                    let mut d = best.clone();
                    d.f[k] = y;
                    cands.push(d);
                }
            }
        }
        for d in cands {
            if Instant::now() > deadline {
                break;
            }
            if cost(&d) >= cost(&best) {
                continue;
            }
            let (r, drawn) = try_case(c, &d);
            if let Err(Stop::Fail(m)) = r {
                // keep the normalized sequence really drawn
                let d = if cost(&drawn) <= cost(&d) { drawn } else { d };
                best = d;
                msg = m;
                steps += 1;
                improved = true;
                break;
            }
        }
    }
    (best, msg, steps)
}

fn mix(a: u64, s: &str) -> u64 {
    let mut h = a ^ 0x243F6A8885A308D3;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        h ^= h >> 31;
    }
    h
}

#[derive(Default)]
pub struct Stats {
    pub evals: usize,
    pub discards: usize,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: Vec<(&'static str, String, Case)>,
    pub known_count: usize,
}
pub struct Failure {
    pub check: Check,
    pub case: Case,
    pub msg: String,
    pub steps: usize,
}

const CHUNKS: usize = 8;
/// distinct non-trivial cases remembered per chunk (memory)
const NT_CAP: usize = 250_000;
const HANG: Duration = Duration::from_secs(30);

/// With VERIF_TRACE=<dir>, what each thread is running is noted there before each case, so that the
/// supervisor can tell which case ended the process (a stack overflow, for example).
pub struct Trace(Option<std::fs::File>);
impl Trace {
    fn new(t: usize) -> Self {
        Trace(std::env::var("VERIF_TRACE").ok().and_then(|d| std::fs::File::create(format!("{}/{}", d, t)).ok()))
    }
    fn note(&self, check: usize, seed: u64) {
        if let Some(f) = &self.0 {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(check as u64).to_le_bytes());
            b[8..].copy_from_slice(&seed.to_le_bytes());
            let _ = std::os::unix::fs::FileExt::write_at(f, &b, 0);
        }
    }
    /// (check, seed) of each thread
    pub fn read(dir: &std::path::Path) -> Vec<(usize, u64)> {
        let mut o = vec![];
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let b = std::fs::read(e.path()).unwrap_or_default();
            if b.len() == 16 {
                o.push((u64::from_le_bytes(b[..8].try_into().unwrap()) as usize, u64::from_le_bytes(b[8..].try_into().unwrap())));
            }
        }
        o.sort();
        o
    }
}

struct Slot {
    check: usize,
    start: Instant,
    seed: u64,
}

/// Run all the checks; returns the statistics per check, and the failures.
pub fn run_all(checks: &[Check], seed: u64, mult: f64, known_ids: &[String], on_hang: fn(&Check, &Case)) -> (Vec<Stats>, Vec<Failure>) {
    let jobs: Vec<(usize, usize)> = (0..checks.len()).flat_map(|k| (0..CHUNKS).map(move |c| (k, c))).collect();
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let results: Vec<Mutex<(Stats, Option<(usize, Case, String)>)>> = checks.iter().map(|_| Mutex::new((Stats::default(), None))).collect();
    let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let slots: Vec<Mutex<Option<Slot>>> = (0..nthreads).map(|_| Mutex::new(None)).collect();
    std::thread::scope(|sc| {
        for t in 0..nthreads {
            let (jobs, next, done, results, slots) = (&jobs, &next, &done, &results, &slots);
            sc.spawn(move || {
                let trace = Trace::new(t);
                loop {
                    let j = next.fetch_add(1, Ordering::SeqCst);
                    if j >= jobs.len() {
                        break;
                    }
                    let (k, chunk) = jobs[j];
                    let c = &checks[k];
                    let n = ((c.n as f64 * mult) as usize / CHUNKS).max(1);
                    let mut rng = Rng::new(mix(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (chunk as u64) << 48, &format!("{}{}{}", c.prop, c.name, c.ty)));
                    let mut st = Stats::default();
                    let mut failed = None;
                    for k2 in 0..n {
                        let sd = rng.next();
                        *slots[t].lock().unwrap() = Some(Slot { check: k, start: Instant::now(), seed: sd });
                        trace.note(k, sd);
                        let mut s = Src::gen(Rng::new(sd));
                        let r = exec(c, &mut s);
                        match r {
                            Err(Stop::Discard) => {
                                st.discards += 1;
                                continue;
                            }
                            Ok(nt) => {
                                st.evals += 1;
                                if nt {
                                    if st.nontrivial.len() < NT_CAP { st.nontrivial.insert(s.drawn.hash()); }
                                    if chunk == 0 && st.samples.len() < 2 && k2 > 2 {
                                        st.samples.push(s.drawn.show());
                                    }
                                }
                            }
                            Err(Stop::Known(id, m)) if known_ids.iter().any(|x| x == id) => {
                                st.evals += 1;
                                st.known_count += 1;
                                if st.nontrivial.len() < NT_CAP { st.nontrivial.insert(s.drawn.hash()); }
                                if st.known.is_empty() {
                                    st.known.push((id, m, s.drawn.clone()));
                                }
                            }
                            Err(Stop::Known(_, m)) | Err(Stop::Fail(m)) => {
                                st.evals += 1;
                                failed = Some((chunk, s.drawn.clone(), m));
                                break;
                            }
                        }
                    }
                    *slots[t].lock().unwrap() = None;
                    let mut g = results[k].lock().unwrap();
                    g.0.evals += st.evals;
                    g.0.discards += st.discards;
                    g.0.known_count += st.known_count;
                    g.0.nontrivial.extend(st.nontrivial);
                    g.0.samples.extend(st.samples);
                    if g.0.known.is_empty() {
                        g.0.known = st.known;
                    }
                    if let Some(f) = failed {
                        if g.1.as_ref().map_or(true, |o| f.0 < o.0) {
                            g.1 = Some(f);
                        }
                    }
                }
                done.fetch_add(1, Ordering::SeqCst);
            });
        }
        // watchdog
        loop {
            if done.load(Ordering::SeqCst) == nthreads {
                break;
            }
            std::thread::sleep(Duration::from_millis(5));
            for s in slots.iter() {
                if let Some(sl) = &*s.lock().unwrap() {
                    if sl.start.elapsed() > HANG {
                        // what was drawn is lost in the hung thread: record the seed, from which replay draws again
                        let case = Case { f: vec![], i: vec![sl.seed as i64] };
                        on_hang(&checks[sl.check], &case);
                    }
                }
            }
        }
    });
    let mut stats = vec![];
    let mut fails = vec![];
    for (k, m) in results.into_iter().enumerate() {
        let (st, f) = m.into_inner().unwrap();
        stats.push(st);
        if let Some((_, case, msg)) = f {
            let budget = if fails.is_empty() { 15 } else { 3 };
            let (case, msg, steps) = shrink(&checks[k], case, msg, Instant::now() + Duration::from_secs(budget));
            fails.push(Failure { check: checks[k], case, msg, steps });
        }
    }
    (stats, fails)
}

/// The result of the coverage-guided stage of one check
#[derive(Default)]
pub struct Fuzzed {
    pub execs: usize,
    pub evals: usize,
    pub corpus: usize,
    pub edges: usize,
    pub nontrivial: usize,
    pub known: usize,
    pub failure: Option<(Case, String, usize)>,
}

/// Coverage-guided search: cases that reach new edges (or new counts of them) are kept and mutated.
/// It is deterministic. The number of each case is written to `note` before it runs; the values of case
/// `log.0` are written to the file `log.1` as they are drawn (for a case that ends the process, or that
/// does not end).
pub fn fuzz(c: &Check, seed: u64, n: usize, known_ids: &[String], note: &std::fs::File, log: Option<(usize, std::fs::File)>) -> Fuzzed {
    let mut rng = Rng::new(mix(seed.wrapping_mul(0xD1342543DE82EF95), &format!("fuzz{}{}{}", c.prop, c.name, c.ty)));
    let mut seen = crate::cov::Seen::new();
    assert!(seen.instrumented(), "this build has no coverage counters");
    let mut corpus: Vec<Entry> = vec![];
    let mut o = Fuzzed::default();
    let mut nt: HashSet<u64> = HashSet::new();
    let first = (n / 20).clamp(50, 2000);
    for k in 0..n {
        let sub = Rng::new(rng.next());
        let mut s = if k < first || corpus.is_empty() || rng.below(16) == 0 {
            Src::gen(sub)
        } else {
            let pick = |r: &mut Rng| {
                let l = corpus.len() as u64;
                (if r.below(2) == 0 { r.below(l) } else { l - 1 - r.below((l + 3) / 4) }) as usize
            };
            let mut base = corpus[pick(&mut rng)].clone();
            if rng.below(8) == 0 {
                // the beginning of one and the end of another
                let e = &corpus[pick(&mut rng)];
                let (f, i) = (base.case.f.len().min(e.case.f.len()), base.case.i.len().min(e.case.i.len()));
                let (f, i) = (rng.below(f as u64 + 1) as usize, rng.below(i as u64 + 1) as usize);
                base.case.f.truncate(f);
                base.tags.truncate(f);
                base.case.f.extend(&e.case.f[f..]);
                base.tags.extend(&e.tags[f..]);
                base.case.i.truncate(i);
                base.case.i.extend(&e.case.i[i..]);
            }
            Src::mutate(sub, base)
        };
        let _ = std::os::unix::fs::FileExt::write_at(note, &(k as u64).to_le_bytes(), 0);
        if let Some((at, f)) = &log {
            if *at == k {
                s.log_to = f.try_clone().ok();
            }
        }
        crate::cov::Seen::clear();
        let r = exec(c, &mut s);
        o.execs += 1;
        let new = seen.take();
        match r {
            Err(Stop::Discard) => continue,
            Ok(t) => {
                o.evals += 1;
                if t && nt.len() < NT_CAP {
                    nt.insert(s.drawn.hash());
                }
                if new {
                    corpus.push(s.entry());
                }
            }
            Err(Stop::Known(id, _)) if known_ids.iter().any(|x| x == id) => {
                o.evals += 1;
                o.known += 1;
                if new {
                    corpus.push(s.entry());
                }
            }
            Err(Stop::Known(_, m)) | Err(Stop::Fail(m)) => {
                o.evals += 1;
                o.failure = Some(shrink(c, s.drawn, m, Instant::now() + Duration::from_secs(10)));
                break;
            }
        }
    }
    o.corpus = corpus.len();
    o.edges = seen.edges;
    o.nontrivial = nt.len();
    o
}

/// the case that `fuzz` wrote as it was drawn
pub fn logged_case(b: &[u8]) -> Case {
    let mut c = Case::default();
    for w in b.chunks_exact(9) {
        let x = u64::from_le_bytes(w[1..].try_into().unwrap());
        if w[0] == b'f' {
            c.f.push(f64::from_bits(x));
        } else {
            c.i.push(x as i64);
        }
    }
    c
}

pub fn replay(c: &Check, case: Case, seed_only: bool) -> R {
    let mut s = if seed_only { Src::gen(Rng::new(case.i[0] as u64)) } else { Src::replay(case) };
    exec(c, &mut s)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn replay_text(c: &Check, case: &Case, msg: &str, hang: bool) -> String {
    let f: Vec<String> = case.f.iter().map(|x| format!("\"{:016x}\"", x.to_bits())).collect();
    let fv: Vec<String> = case.f.iter().map(|x| json_str(&format!("{:?}", x))).collect();
    let i: Vec<String> = case.i.iter().map(|x| x.to_string()).collect();
    format!(
        "{{\n \"property\": {},\n \"check\": {},\n \"hang_seed\": {},\n \"f_bits\": [{}],\n \"f\": [{}],\n \"i\": [{}],\n \"message\": {}\n}}\n",
        json_str(c.prop), json_str(&c.id()), hang, f.join(", "), fv.join(", "), i.join(", "), json_str(msg)
    )
}

fn field<'a>(t: &'a str, k: &str) -> &'a str {
    let p = t.find(&format!("\"{}\":", k)).expect("field missing in the replay file");
    t[p..].splitn(2, ':').nth(1).unwrap().trim_start()
}
fn list(t: &str, k: &str) -> Vec<String> {
    let s = field(t, k);
    let s = &s[1..s.find(']').unwrap()];
    s.split(',').map(|x| x.trim().trim_matches('"').to_string()).filter(|x| !x.is_empty()).collect()
}
/// (check id, case, hang)
pub fn parse_replay(t: &str) -> (String, Case, bool) {
    let id = field(t, "check")[1..].split('"').next().unwrap().to_string();
    let f = list(t, "f_bits").iter().map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap())).collect();
    let i = list(t, "i").iter().map(|x| x.parse().unwrap()).collect();
    (id, Case { f, i }, field(t, "hang_seed").starts_with("true"))
}
