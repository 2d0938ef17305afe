//! Stateless exhaustive explorer: a scenario is a function that asks `Ch` for choices;
//! the engine runs it once for every sequence of answers (depth-first, all alternatives).
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return Err($crate::engine::Fail{sig: String::from($sig), msg: format!($($a)*)}); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    // FNV-1a 64, 8 bytes at a time
    let mut h: u64 = 0xcbf29ce484222325;
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h ^= u64::from_le_bytes(c.try_into().unwrap());
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    for &c in it.remainder() {
        h ^= c as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 32)
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

#[derive(Default)]
pub struct Acc {
    pub execs: AtomicU64,
    pub steps: AtomicU64,
    pub states: Mutex<HashSet<u64>>,
    pub outcomes: Mutex<HashSet<u64>>,
    pub nontrivial: Mutex<HashSet<u64>>,
    pub covers: Mutex<BTreeMap<String, u64>>,
}

pub struct Ch<'a> {
    prefix: &'a [u32],
    pub path: Vec<u32>,
    width: Vec<u32>,
    budget: u32,
    deviated: bool,
    pub tier: Tier,
    acc: &'a Acc,
    local_steps: u64,
    local_states: Vec<u64>,
    local_outcomes: Vec<u64>,
    local_nontrivial: Vec<u64>,
    local_covers: Vec<String>,
    pub desc: Vec<String>,
    pub describe: bool,
    pub trivial: bool,
    pub worker: usize,
    pub fails: Vec<Fail>,
}

/// A scenario without a budget of deviations that offers some explores less than it seems to.
pub static DEAD_CHOICE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

impl<'a> Ch<'a> {
    /// Record a violation without ending the execution (at most one per signature).
    pub fn report(&mut self, f: Fail) {
        if !self.fails.iter().any(|x| x.sig == f.sig) {
            self.fails.push(f);
        }
    }
    pub fn check(&mut self, c: bool, sig: impl Into<String>, msg: impl FnOnce() -> String) {
        if !c {
            let sig = sig.into();
            if !self.fails.iter().any(|x| x.sig == sig) {
                self.fails.push(Fail { sig, msg: msg() });
            }
        }
    }
    pub fn report_all(&mut self, fs: Vec<Fail>) {
        for f in fs {
            self.report(f)
        }
    }
    fn raw(&mut self, n: u32) -> usize {
        let i = self.path.len();
        let v = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if v >= n.max(1) {
            eprintln!("replay divergence: choice {v} of {n} at {i}");
            std::process::exit(3);
        }
        self.path.push(v);
        self.width.push(n.max(1));
        v as usize
    }
    /// Full choice among n alternatives.
    pub fn pick(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.raw(n as u32)
    }
    /// Choice whose alternatives 1.. cost one unit of the deviation budget.
    pub fn dev(&mut self, n: usize) -> usize {
        if n <= 1 || self.budget == 0 {
            if n > 1 && !self.deviated {
                DEAD_CHOICE.store(true, std::sync::atomic::Ordering::Relaxed);
            }
            return 0;
        }
        let v = self.raw(n as u32);
        if v > 0 {
            self.budget -= 1;
            self.deviated = true;
        }
        v
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.pick(xs.len())]
    }
    pub fn dev_of<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.dev(xs.len())]
    }
    pub fn budget_left(&self) -> u32 {
        self.budget
    }
    pub fn set_budget(&mut self, b: u32) {
        self.budget = b;
    }
    pub fn step(&mut self) {
        self.local_steps += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.local_steps += n;
    }
    pub fn state(&mut self, h: u64) {
        self.local_states.push(h);
    }
    pub fn outcome(&mut self, h: u64) {
        self.local_outcomes.push(h);
    }
    pub fn nontrivial(&mut self, h: u64) {
        self.local_nontrivial.push(h);
    }
    pub fn cover(&mut self, s: &str) {
        if !self.local_covers.iter().any(|x| x == s) {
            self.local_covers.push(s.to_string());
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describe {
            self.desc.push(f());
        }
    }
}

pub struct Violation {
    pub scenario: String,
    pub path: Vec<u32>,
    pub fail: Fail,
    pub count: u64,
}

type Body<'s> = Box<dyn Fn(&mut Ch) -> Res + Sync + Send + 's>;
pub struct Scenario<'s> {
    pub name: &'static str,
    pub bound: String,
    pub budget: u32,
    pub body: Body<'s>,
    pub threads: usize,
    pub hang_secs: u64,
}
impl<'s> Scenario<'s> {
    pub fn new(name: &'static str, bound: impl Into<String>, budget: u32, body: impl Fn(&mut Ch) -> Res + Sync + Send + 's) -> Self {
        Scenario { name, bound: bound.into(), budget, body: Box::new(body), threads: 8, hang_secs: 60 }
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
}

thread_local! { static PANIC_INFO: RefCell<Option<(String,String)>> = const { RefCell::new(None) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_INFO.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
/// Run f; a panic becomes (message, location).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_INFO.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}
fn panic_sig(msg: &str, loc: &str) -> String {
    let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
    let short: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(70).collect();
    let short = short.replace('\n', " ");
    format!("panic@{}:{}", file.rsplit('/').next().unwrap_or(file), short)
}
pub fn panic_fail(p: (String, String)) -> Fail {
    Fail { sig: panic_sig(&p.0, &p.1), msg: format!("panicked: {} at {}", p.0, p.1) }
}

pub struct ScenarioReport {
    pub name: String,
    pub bound: String,
    pub execs: u64,
    pub steps: u64,
    pub states: u64,
    pub outcomes: u64,
    pub nontrivial: u64,
    pub exhaustive: bool,
    pub wall: f64,
    pub covers: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
}

struct Slot {
    start: Mutex<Option<(Instant, Vec<u32>)>>,
}

pub fn run_one(sc: &Scenario, tier: Tier, prefix: &[u32], acc: &Acc, describe: bool, worker: usize) -> (Vec<Fail>, Vec<u32>, Vec<u32>, Vec<String>, bool) {
    let mut ch = Ch {
        prefix,
        path: Vec::with_capacity(16),
        width: Vec::with_capacity(16),
        budget: sc.budget,
        deviated: false,
        tier,
        acc,
        local_steps: 0,
        local_states: vec![],
        local_outcomes: vec![],
        local_nontrivial: vec![],
        local_covers: vec![],
        desc: vec![],
        describe,
        trivial: false,
        worker,
        fails: vec![],
    };
    let r = match guarded(|| (sc.body)(&mut ch)) {
        Ok(r) => r,
        Err(p) => Err(panic_fail(p)),
    };
    if let Err(f) = r {
        ch.report(f);
    }
    let r = std::mem::take(&mut ch.fails);
    let a = ch.acc;
    a.execs.fetch_add(1, Ordering::Relaxed);
    a.steps.fetch_add(ch.local_steps, Ordering::Relaxed);
    if !ch.local_states.is_empty() {
        a.states.lock().unwrap().extend(ch.local_states.iter());
    }
    if !ch.local_outcomes.is_empty() {
        a.outcomes.lock().unwrap().extend(ch.local_outcomes.iter());
    }
    if !ch.local_nontrivial.is_empty() {
        a.nontrivial.lock().unwrap().extend(ch.local_nontrivial.iter());
    }
    if !ch.local_covers.is_empty() {
        let mut c = a.covers.lock().unwrap();
        for l in ch.local_covers.drain(..) {
            *c.entry(l).or_insert(0) += 1;
        }
    }
    (r, ch.path, ch.width, ch.desc, ch.trivial)
}

pub struct Opts<'k> {
    pub tier: Tier,
    pub deadline: Instant,
    pub is_known: &'k (dyn Fn(&str) -> bool + Sync),
    pub on_hang: &'k (dyn Fn(&str, &[u32]) + Sync),
}

pub fn explore(sc: &Scenario, o: &Opts) -> ScenarioReport {
    let t0 = Instant::now();
    let acc = Acc::default();
    let queue: Mutex<(Vec<Vec<u32>>, usize)> = Mutex::new((vec![vec![]], 0));
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let viols: Mutex<BTreeMap<String, Violation>> = Mutex::new(BTreeMap::new());
    let first_unlisted: Mutex<Option<Instant>> = Mutex::new(None);
    let samples: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
    let slots: Vec<Slot> = (0..sc.threads).map(|_| Slot { start: Mutex::new(None) }).collect();
    let done = AtomicBool::new(false);

    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..sc.threads {
            let (queue, cv, stop, capped, viols, first_unlisted, samples, acc, slot) =
                (&queue, &cv, &stop, &capped, &viols, &first_unlisted, &samples, &acc, &slots[w]);
            hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || {
                let mut local: Vec<Vec<u32>> = vec![];
                loop {
                    let job = if let Some(j) = local.pop() {
                        // share work when others are idle
                        if local.len() > 1 {
                            let mut q = queue.lock().unwrap();
                            if q.0.len() < sc.threads {
                                let half = local.len() / 2;
                                q.0.extend(local.drain(..half));
                                cv.notify_all();
                            }
                        }
                        j
                    } else {
                        let mut q = queue.lock().unwrap();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                return;
                            }
                            if let Some(j) = q.0.pop() {
                                q.1 += 1;
                                break j;
                            }
                            if q.1 == 0 {
                                cv.notify_all();
                                return;
                            }
                            q = cv.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                        }
                    };
                    let execn = acc.execs.load(Ordering::Relaxed);
                    let describe = execn < 3 || (execn & 0xfff) == 0xabc;
                    *slot.start.lock().unwrap() = Some((Instant::now(), job.clone()));
                    let (r, path, width, desc, trivial) = run_one(sc, o.tier, &job, acc, describe, w);
                    *slot.start.lock().unwrap() = None;
                    if describe && !desc.is_empty() && !trivial {
                        let mut sm = samples.lock().unwrap();
                        if sm.len() < 6 {
                            sm.push((execn, format!("{}:{} {}", sc.name, path_str(&path), desc.join("; "))));
                        }
                    }
                    for f in r {
                        let known = (o.is_known)(&f.sig);
                        let mut v = viols.lock().unwrap();
                        let n = v.get(&f.sig).map_or(0, |x| x.count) + 1;
                        if let Some(x) = v.get_mut(&f.sig) {
                            x.count = n;
                        }
                        let better = v.get(&f.sig).is_none_or(|x| path.iter().filter(|a| **a > 0).count() < x.path.iter().filter(|a| **a > 0).count());
                        if better {
                            v.insert(f.sig.clone(), Violation { scenario: sc.name.into(), path: path.clone(), fail: f, count: n });
                        }
                        let unl = v.values().filter(|x| !(o.is_known)(&x.fail.sig)).count();
                        drop(v);
                        if !known {
                            let mut fu = first_unlisted.lock().unwrap();
                            let t = *fu.get_or_insert_with(Instant::now);
                            if unl >= 40 || t.elapsed() > Duration::from_secs(8) {
                                capped.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    for i in (job.len()..path.len()).rev() {
                        for alt in (1..width[i]).rev() {
                            let mut p = path[..i].to_vec();
                            p.push(alt);
                            local.push(p);
                        }
                    }
                    if Instant::now() > o.deadline {
                        capped.store(true, Ordering::Relaxed);
                        stop.store(true, Ordering::Relaxed);
                    }
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                    if local.is_empty() {
                        let mut q = queue.lock().unwrap();
                        q.1 -= 1;
                        if q.1 == 0 && q.0.is_empty() {
                            cv.notify_all();
                        }
                    }
                }
            }).unwrap());
        }
        // watchdog
        let (slots, done) = (&slots, &done);
        s.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                for sl in slots {
                    let g = sl.start.lock().unwrap();
                    if let Some((t, p)) = g.as_ref() {
                        if t.elapsed() > Duration::from_secs(sc.hang_secs) {
                            (o.on_hang)(sc.name, p);
                        }
                    }
                }
            }
        });
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let mut sm = samples.into_inner().unwrap();
    sm.sort();
    let n = |m: &Mutex<HashSet<u64>>| m.lock().unwrap().len() as u64;
    ScenarioReport {
        name: sc.name.into(),
        bound: sc.bound.clone(),
        execs: acc.execs.load(Ordering::Relaxed),
        steps: acc.steps.load(Ordering::Relaxed),
        states: n(&acc.states),
        outcomes: n(&acc.outcomes),
        nontrivial: n(&acc.nontrivial),
        exhaustive: !capped.load(Ordering::Relaxed),
        wall: t0.elapsed().as_secs_f64(),
        covers: acc.covers.into_inner().unwrap(),
        samples: sm.into_iter().map(|x| x.1).collect(),
        violations: viols.into_inner().unwrap().into_values().collect(),
    }
}

pub fn path_str(p: &[u32]) -> String {
    if p.is_empty() {
        return "-".into();
    }
    // trailing zeros are implied
    let mut e = p.len();
    while e > 0 && p[e - 1] == 0 {
        e -= 1;
    }
    if e == 0 {
        return "-".into();
    }
    p[..e].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
pub fn parse_path(s: &str) -> Vec<u32> {
    if s == "-" {
        return vec![];
    }
    s.split(',').filter_map(|x| x.parse().ok()).collect()
}
