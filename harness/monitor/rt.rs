//! Monitoring runtime: deterministic workload items spread over worker threads,
//! clause counters, violation and panic capture, a progress watchdog, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng([u64; 4], u64);
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)], 0)
    }
    pub fn u(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn f(&mut self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        let v = a + (b - a) * self.f();
        self.near(v, a, b)
    }
    /// A twin makes the same choices, but values come out slightly different.
    pub fn twin(seed: u64, twist: u64) -> Rng {
        let mut r = Rng::new(seed);
        r.1 = twist;
        r
    }
    fn twist(&mut self, what: u32) -> Option<u64> {
        // The low three bits say what differs: numbers, colours, counts.
        if self.1 >> what & 1 == 0 {
            return None;
        }
        let low = self.1 & 7;
        let mut s = self.1;
        let z = splitmix(&mut s);
        self.1 = z & !7 | low;
        (z >> 60 < 6).then(|| mix(z, 5))
    }
    pub fn near(&mut self, v: f64, lo: f64, hi: f64) -> f64 {
        match self.twist(0) {
            None => v,
            Some(z) => {
                let e = 10f64.powf(((z >> 8) % 800) as f64 / -100.0) * (hi - lo) * 0.02;
                (if z & 1 == 0 { v + e } else { v - e }).clamp(lo, hi)
            }
        }
    }
    pub fn near_rgb(&mut self, v: u32) -> u32 {
        match self.twist(1) {
            None => v,
            Some(z) => v ^ 1 << (8 * (z % 3) + (z >> 8) % 3),
        }
    }
    pub fn near_bool(&mut self, v: bool) -> bool {
        v ^ self.twist(2).is_some()
    }
    pub fn near_count(&mut self, v: i64) -> i64 {
        match self.twist(2) {
            None => v,
            Some(z) => v + 1 + (z % 9) as i64 * (v / 8),
        }
    }
    /// Inclusive.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u() % n as u64) as usize
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    splitmix(&mut x)
}

#[derive(Default)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}
type Set = HashSet<u64, BuildHasherDefault<Ident>>;

// ---------------------------------------------------------------- run
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub clause: String,
    pub phase: String,
    pub index: u64,
    pub detail: String,
}
#[derive(Default)]
struct Shared {
    clauses: BTreeMap<&'static str, u64>,
    tallies: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    phases: Vec<(String, u64, u64, f64)>,
    errors: Vec<String>,
    rule: String,
    assumptions: Vec<String>,
    required: Vec<&'static str>,
    exhaustive: Vec<String>,
}
struct Slot {
    tid: AtomicU64,
    /// CPU time (clock ticks) of the thread when the current item began; MAX = idle.
    start: AtomicU64,
    index: AtomicU64,
}
pub struct Run {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub replay: Option<(String, u64)>,
    began: Instant,
    cap: Duration,
    evals: AtomicU64,
    exact: AtomicU64,
    shards: Vec<Mutex<Set>>,
    shared: Mutex<Shared>,
    stop: AtomicBool,
    slots: Vec<Slot>,
    current_phase: Mutex<String>,
    pub threads: usize,
    dir: String,
}
const MAX_VIOLATIONS: usize = 5;
const SHARD_CAP: usize = 120_000;

thread_local! {
    static PANIC: RefCell<Option<(String, String, bool)>> = const { RefCell::new(None) };
}
/// (message, location, the panic came from the monitor itself)
pub fn take_panic() -> Option<(String, String, bool)> {
    PANIC.with(|p| p.borrow_mut().take())
}
fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let own = if loc.starts_with("monitor/") {
            true
        } else if loc.contains("/repo/") {
            false
        } else {
            // A panic inside std: blame the innermost non-std caller.
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            let mut verdict = false;
            for l in bt.lines() {
                if l.contains("material_color_utilities_rs::") {
                    verdict = false;
                    break;
                }
                if l.contains("monitor::") && !l.contains("monitor::rt::") {
                    verdict = true;
                    break;
                }
            }
            verdict
        };
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc, own)));
    }));
}
/// Run library code; Err(description) if it panicked.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let (m, l, own) = take_panic().unwrap_or_default();
            if own {
                std::panic::resume_unwind(e);
            }
            Err(format!("panicked: {m} at {l}"))
        }
    }
}
fn tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(|s| s.to_string())))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}
fn cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}
fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|v| v.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
        / 1_000_000
}

pub struct Cx<'r> {
    pub r: &'r Run,
    pub rng: Rng,
    pub phase: &'static str,
    pub index: u64,
    clauses: BTreeMap<&'static str, u64>,
    tallies: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    evals: u64,
    exact: u64,
    last: [f64; 8],
    last_n: usize,
    story: String,
    bad: Vec<Violation>,
}
impl<'r> Cx<'r> {
    /// One evaluated case, identified by its inputs.
    pub fn case(&mut self, input: &[f64]) {
        self.evals += 1;
        let mut h = hash_str(self.phase);
        for v in input {
            h = mix(h, v.to_bits());
        }
        self.last_n = input.len().min(8);
        self.last[..self.last_n].copy_from_slice(&input[..self.last_n]);
        self.hashes.push(h);
        if self.hashes.len() >= 4096 {
            self.flush();
        }
    }
    /// Cases known to be distinct by construction (enumerations).
    pub fn cases_exact(&mut self, n: u64) {
        self.evals += n;
        self.exact += n;
    }
    pub fn case_hash(&mut self, h: u64) {
        self.evals += 1;
        self.last_n = 0;
        self.hashes.push(mix(h, hash_str(self.phase)));
    }
    /// Free text describing what is being executed, for reports.
    pub fn story(&mut self, s: String) {
        self.story = s;
    }
    fn flush(&mut self) {
        let n = self.r.shards.len() as u64;
        for h in self.hashes.drain(..) {
            let mut s = self.r.shards[((h >> 40) % n) as usize].lock().unwrap();
            if s.len() < SHARD_CAP {
                s.insert(h);
            }
        }
    }
    pub fn tally(&mut self, k: impl Into<String>) {
        *self.tallies.entry(k.into()).or_insert(0) += 1;
    }
    pub fn tally_n(&mut self, k: impl Into<String>, n: u64) {
        *self.tallies.entry(k.into()).or_insert(0) += n;
    }
    /// Record that a clause was evaluated; a false verdict is a violation.
    pub fn ok(&mut self, clause: &'static str, good: bool, detail: impl FnOnce() -> String) -> bool {
        *self.clauses.entry(clause).or_insert(0) += 1;
        if !good {
            self.fail(clause, detail());
        }
        good
    }
    pub fn ok_n(&mut self, clause: &'static str, n: u64) {
        *self.clauses.entry(clause).or_insert(0) += n;
    }
    pub fn near(&mut self, clause: &'static str, got: f64, want: f64, tol: f64, what: impl FnOnce() -> String) -> bool {
        let good = (got - want).abs() <= tol || got == want || (got.is_nan() && want.is_nan());
        self.ok(clause, good, || format!("{}: got {got:?}, specified {want:?} (tolerance {tol:e})", what()))
    }
    /// Relative comparison at 1e-9 with an absolute floor of 1e-9.
    pub fn same(&mut self, clause: &'static str, got: f64, want: f64, what: impl FnOnce() -> String) -> bool {
        let tol = 1e-9 * want.abs().max(1.0);
        self.near(clause, got, want, tol, what)
    }
    pub fn fail(&mut self, clause: &str, detail: String) {
        if self.bad.len() < MAX_VIOLATIONS {
            let mut d = detail;
            if self.last_n > 0 {
                let _ = write!(d, " | case {:?}", &self.last[..self.last_n]);
            }
            if !self.story.is_empty() {
                let _ = write!(d, " | {}", self.story);
            }
            self.bad.push(Violation { clause: clause.into(), phase: self.phase.into(), index: self.index, detail: d });
        }
    }
    pub fn failed(&self) -> bool {
        !self.bad.is_empty()
    }
    /// Run library code that must not panic.
    pub fn call<T>(&mut self, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match guarded(f) {
            Ok(v) => Some(v),
            Err(e) => {
                let w = what();
                self.fail("no_panic", format!("{w} {e}"));
                None
            }
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        let mut sh = self.r.shared.lock().unwrap();
        let pre = format!("[{}]", self.phase);
        if sh.samples.iter().filter(|x| x.starts_with(&pre)).count() < 3 {
            let t = format!("{pre} {}", s());
            sh.samples.push(t);
        }
    }
    pub fn thorough(&self) -> bool {
        self.r.tier == Tier::Thorough
    }
}

impl Run {
    pub fn new(id: &'static str, tier: Tier, seed: u64, replay: Option<(String, u64)>) -> Run {
        install_hook();
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16);
        Run {
            id,
            tier,
            seed,
            replay,
            began: Instant::now(),
            cap: Duration::from_secs(if tier == Tier::Quick { 420 } else { 5400 }),
            evals: AtomicU64::new(0),
            exact: AtomicU64::new(0),
            shards: (0..64).map(|_| Mutex::new(Set::default())).collect(),
            shared: Mutex::new(Shared::default()),
            stop: AtomicBool::new(false),
            slots: (0..threads)
                .map(|_| Slot { tid: AtomicU64::new(0), start: AtomicU64::new(u64::MAX), index: AtomicU64::new(0) })
                .collect(),
            current_phase: Mutex::new(String::new()),
            threads,
            dir: std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()),
        }
    }
    pub fn describe(&self, rule: &str, assumptions: &[&str]) {
        let mut s = self.shared.lock().unwrap();
        s.rule = rule.into();
        s.assumptions = assumptions.iter().map(|x| x.to_string()).collect();
    }
    /// Clauses that must have been evaluated at least once, or the run is void.
    pub fn require(&self, clauses: &[&'static str]) {
        self.shared.lock().unwrap().required.extend_from_slice(clauses);
    }
    pub fn exhausted(&self, what: &str) {
        self.shared.lock().unwrap().exhaustive.push(what.into());
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    /// n items in the quick tier, n * factor in the thorough one.
    pub fn scaled(&self, n: u64, factor: u64) -> u64 {
        match self.tier {
            Tier::Quick => n,
            Tier::Thorough => n * factor,
        }
    }
    pub fn item_rng(&self, phase: &str, index: u64) -> Rng {
        Rng::new(mix(mix(mix(self.seed, hash_str(self.id)), hash_str(phase)), index))
    }
    pub fn phase(&self, name: &'static str, items: u64, f: impl Fn(&mut Cx) + Sync) {
        if self.stopped() {
            return;
        }
        if let Some((p, _)) = &self.replay {
            if p != name {
                return;
            }
        }
        *self.current_phase.lock().unwrap() = name.into();
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let finished = AtomicBool::new(false);
        std::thread::scope(|s| {
            let workers: Vec<_> = (0..self.threads)
                .map(|w| {
                    let (next, done, f) = (&next, &done, &f);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            let slot = &self.slots[w];
                            let me = tid();
                            slot.tid.store(me, SeqCst);
                            loop {
                                if self.stopped() || self.began.elapsed() > self.cap {
                                    break;
                                }
                                let mut i = next.fetch_add(1, SeqCst);
                                if let Some((_, only)) = &self.replay {
                                    if i > 0 {
                                        break;
                                    }
                                    i = *only;
                                } else if i >= items {
                                    break;
                                }
                                slot.index.store(i, SeqCst);
                                slot.start.store(cpu_ticks(me).unwrap_or(0), SeqCst);
                                self.item(name, i, f);
                                slot.start.store(u64::MAX, SeqCst);
                                done.fetch_add(1, SeqCst);
                            }
                        })
                        .expect("spawn worker")
                })
                .collect();
            let fin = &finished;
            s.spawn(move || self.watch(fin));
            for w in workers {
                let _ = w.join();
            }
            finished.store(true, SeqCst);
        });
        let mut sh = self.shared.lock().unwrap();
        sh.phases.push((name.into(), items, done.load(SeqCst), t0.elapsed().as_secs_f64()));
    }
    fn watch(&self, finished: &AtomicBool) {
        let mut n = 0u32;
        while !finished.load(SeqCst) {
            std::thread::sleep(Duration::from_millis(20));
            n += 1;
            if n % 50 != 0 {
                continue;
            }
            let phase = self.current_phase.lock().unwrap().clone();
            for s in &self.slots {
                let st = s.start.load(SeqCst);
                if st == u64::MAX {
                    continue;
                }
                if let Some(now) = cpu_ticks(s.tid.load(SeqCst)) {
                    if s.start.load(SeqCst) == st && now.saturating_sub(st) > 100 * 150 {
                        self.abort("bounded_time", &phase, s.index.load(SeqCst), "a workload item used more than 150 s of CPU time; such items take well under 10 s");
                    }
                }
            }
            if rss_mb() > 14_000 {
                self.abort("bounded_memory", &phase, 0, "the process grew beyond 14 GB; it normally stays below 2 GB");
            }
        }
    }
    fn abort(&self, clause: &str, phase: &str, index: u64, detail: &str) -> ! {
        let mut sh = self.shared.lock().unwrap();
        sh.violations.push(Violation { clause: clause.into(), phase: phase.into(), index, detail: detail.into() });
        drop(sh);
        std::process::exit(self.finish());
    }
    fn item(&self, name: &'static str, i: u64, f: &(impl Fn(&mut Cx) + Sync)) {
        let mut cx = Cx {
            r: self,
            rng: self.item_rng(name, i),
            phase: name,
            index: i,
            clauses: BTreeMap::new(),
            tallies: BTreeMap::new(),
            hashes: Vec::new(),
            evals: 0,
            exact: 0,
            last: [0.0; 8],
            last_n: 0,
            story: String::new(),
            bad: Vec::new(),
        };
        let res = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
        let mut err = None;
        if res.is_err() {
            let (m, l, own) = take_panic().unwrap_or_default();
            if own {
                err = Some(format!("{name}[{i}]: monitor panicked: {m} at {l} | case {:?} | {}", &cx.last[..cx.last_n], cx.story));
            } else {
                cx.fail("no_panic", format!("the library panicked: {m} at {l}"));
            }
        }
        cx.flush();
        if i < 3 && (!cx.story.is_empty() || cx.last_n > 0) {
            let t = if cx.story.is_empty() { format!("last case {:?}", &cx.last[..cx.last_n]) } else { cx.story.chars().take(300).collect() };
            cx.sample(|| t);
        }
        self.evals.fetch_add(cx.evals, SeqCst);
        self.exact.fetch_add(cx.exact, SeqCst);
        let mut sh = self.shared.lock().unwrap();
        for (k, v) in cx.clauses {
            *sh.clauses.entry(k).or_insert(0) += v;
        }
        for (k, v) in cx.tallies {
            *sh.tallies.entry(k).or_insert(0) += v;
        }
        if let Some(e) = err {
            sh.errors.push(e);
            self.stop.store(true, SeqCst);
        }
        if !cx.bad.is_empty() {
            sh.violations.extend(cx.bad);
            if sh.violations.len() >= MAX_VIOLATIONS {
                self.stop.store(true, SeqCst);
            }
        }
    }
    /// Write the evidence and replay files, print the verdict, return the exit code.
    pub fn finish(&self) -> i32 {
        let mut sh = self.shared.lock().unwrap();
        let mut distinct = self.exact.load(SeqCst);
        for s in &self.shards {
            distinct += s.lock().unwrap().len() as u64;
        }
        let evals = self.evals.load(SeqCst);
        let truncated = sh.phases.iter().any(|p| p.2 < p.1);
        let mut void = vec![];
        if sh.violations.is_empty() && self.replay.is_none() {
            for c in &sh.required {
                if sh.clauses.get(c).copied().unwrap_or(0) == 0 {
                    void.push(c.to_string());
                }
            }
            if evals == 0 {
                void.push("evaluations".into());
            }
        }
        sh.violations.sort_by(|a, b| (&a.phase, a.index).cmp(&(&b.phase, b.index)));
        let tier = if self.tier == Tier::Quick { "quick" } else { "thorough" };
        let mut lines = vec![];
        if !sh.violations.is_empty() {
            let d = format!("{}/replays", self.dir);
            let _ = std::fs::create_dir_all(&d);
            for (n, v) in sh.violations.iter().enumerate() {
                let path = format!("{d}/{}-{}.json", self.id, n);
                let body = format!(
                    "{{\"property\":{},\"tier\":{},\"seed\":{},\"phase\":{},\"index\":{},\"clause\":{},\"detail\":{}}}\n",
                    js(self.id), js(tier), self.seed, js(&v.phase), v.index, js(&v.clause), js(&v.detail)
                );
                let _ = std::fs::write(&path, body);
                lines.push((path, v.clone()));
            }
        }
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n",
            js(self.id), js(tier), self.seed, evals, distinct, js(&sh.rule)
        );
        let _ = write!(j, "  \"samples\": [{}],\n", sh.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
        let _ = write!(
            j,
            "  \"clause_evaluations\": {{{}}},\n",
            sh.clauses.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(
            j,
            "  \"observed_classes\": {{{}}},\n",
            sh.tallies.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
        );
        let _ = write!(
            j,
            "  \"phases\": [{}],\n",
            sh.phases
                .iter()
                .map(|p| format!("{{\"name\": {}, \"items_planned\": {}, \"items_run\": {}, \"wall_s\": {:.2}}}", js(&p.0), p.1, p.2, p.3))
                .collect::<Vec<_>>()
                .join(", ")
        );
        let _ = write!(
            j,
            "  \"enumerated_completely\": [{}],\n  \"worker_threads\": {},\n  \"truncated_by_time\": {}\n }},\n",
            sh.exhaustive.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            self.threads,
            truncated
        );
        let _ = write!(
            j,
            " \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            sh.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "),
            self.began.elapsed().as_secs_f64(),
            sh.violations.len()
        );
        if self.replay.is_none() {
            let _ = std::fs::create_dir_all(format!("{}/evidence", self.dir));
            if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", self.dir, self.id), j) {
                eprintln!("cannot write evidence: {e}");
                return 2;
            }
        }
        println!(
            "{}: {} evaluations, {} distinct, {} clauses, {:.1} s",
            self.id,
            evals,
            distinct,
            sh.clauses.len(),
            self.began.elapsed().as_secs_f64()
        );
        if !lines.is_empty() {
            for (path, v) in &lines {
                println!("  {} [{} #{}]: {}", v.clause, v.phase, v.index, v.detail);
                println!("VIOLATION property={} replay={}", self.id, path);
            }
            return 1;
        }
        if !sh.errors.is_empty() {
            for e in &sh.errors {
                println!("MONITOR ERROR: {e}");
            }
            return 2;
        }
        if !void.is_empty() {
            println!("VOID RUN: nothing observed for {}", void.join(", "));
            return 2;
        }
        0
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
