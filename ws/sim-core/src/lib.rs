//! Deterministic simulation core: seeded choices, run loop, violation capture, minimisation,
//! replay files and evidence.

mod src;
pub use crate::src::{mix, Rng, Src};

use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashSet},
    panic,
    sync::atomic::{AtomicU64, AtomicUsize, Ordering},
    sync::Mutex,
    time::Instant,
};

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub property: String,
    pub class: String,
    pub detail: String,
}

pub type Res<T = ()> = Result<T, Violation>;

/// Per-run context: which property is being decided, statistics, log.
pub struct Ctx {
    pub property: String,
    pub trace: bool,
    pub log: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub checks: u64,
    pub foreign: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub sim_time: u64,
    pub steps: u64,
    pub nontrivial: bool,
    event_digest: u64,
    known_classes: BTreeSet<String>,
    stop_at_foreign: bool,
}

impl Ctx {
    pub fn new(property: &str, trace: bool, known_classes: BTreeSet<String>) -> Self {
        Ctx {
            property: property.into(),
            trace,
            log: vec![],
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            states: HashSet::new(),
            checks: 0,
            foreign: BTreeMap::new(),
            known: BTreeMap::new(),
            sim_time: 0,
            steps: 0,
            nontrivial: false,
            event_digest: 0xcbf2_9ce4_8422_2325,
            known_classes,
            stop_at_foreign: std::env::var_os("SIM_FOREIGN").is_some(),
        }
    }
    pub fn is(&self, p: &str) -> bool {
        self.property == p
    }
    /// Records a fault that really happened.
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
    }
    /// Records that a condition worth reaching was reached.
    pub fn probe(&mut self, what: &'static str) {
        *self.probes.entry(what).or_insert(0) += 1;
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 4096 {
            self.states.insert(h);
        }
        self.event(h);
    }
    /// Feeds the run's event digest, which the determinism self-check compares.
    pub fn event(&mut self, h: u64) {
        self.event_digest = mix(self.event_digest, h);
    }
    pub fn digest(&self) -> u64 {
        self.event_digest
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            self.log.push(s);
        }
    }
    /// Checks a property. A failure of another property than the one being decided is only
    /// counted: that property has its own check.
    pub fn check(&mut self, property: &str, class: &str, ok: bool, detail: impl FnOnce() -> String) -> Res {
        if self.property == property {
            self.checks += 1;
            self.event(self.checks);
        }
        if ok {
            return Ok(());
        }
        self.fail(property, class, detail)
    }
    pub fn fail(&mut self, property: &str, class: &str, detail: impl FnOnce() -> String) -> Res {
        if self.property != property {
            *self.foreign.entry(format!("{property}:{class}")).or_insert(0) += 1;
            // development aid: stop at another property's failure
            if self.stop_at_foreign {
                return Err(Violation { property: property.into(), class: class.into(), detail: detail() });
            }
            return Ok(());
        }
        if self.known_classes.contains(class) {
            *self.known.entry(class.to_string()).or_insert(0) += 1;
            return Ok(());
        }
        Err(Violation { property: property.into(), class: class.into(), detail: detail() })
    }
}

pub trait Scenario: Sized {
    const NAME: &'static str;
    /// Components that ran the real code, and those that were stubs.
    fn real() -> &'static [&'static str];
    fn stubs() -> &'static [&'static str];
    fn new(src: &mut Src, ctx: &mut Ctx) -> Self;
    fn step(&mut self, src: &mut Src, ctx: &mut Ctx) -> Res;
    /// Faults have stopped: drain, check liveness and history.
    fn finish(&mut self, _src: &mut Src, _ctx: &mut Ctx) -> Res {
        Ok(())
    }
    fn steps(&self) -> usize;
    /// To which property a panic of the code under test is attributed; None means: to the
    /// property being decided, whichever it is.
    fn panic_property(&self) -> Option<&'static str> {
        None
    }
}

#[derive(Clone, Default, Debug)]
pub struct Tape {
    pub steps: Vec<Vec<u64>>,
    pub finish: Vec<u64>,
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub harness_error: Option<String>,
    pub tape: Tape,
    pub ctx: Ctx,
}

/// Where each worker is: its run, and the step in it. A step that never ends is a violation too, and
/// somebody else has to see it.
const SLOTS: usize = 257;
#[allow(clippy::declare_interior_mutable_const)]
const IDLE: AtomicU64 = AtomicU64::new(u64::MAX);
static RUN: [AtomicU64; SLOTS] = [IDLE; SLOTS];
static STEP: [AtomicU64; SLOTS] = [IDLE; SLOTS];
/// What to report when what hangs is the minimiser: the violation as it was found.
static FOUND: Mutex<Option<(Value, String)>> = Mutex::new(None);
const MINIMISER: usize = SLOTS - 1;
const FINISH: u64 = 1 << 32;

thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
/// Says that a worker is done, however it ends.
struct Done<'a>(&'a AtomicUsize);
impl Drop for Done<'_> {
    fn drop(&mut self) {
        at_run(u64::MAX);
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}
fn at_run(i: u64) {
    if let Some(r) = RUN.get(SLOT.with(|s| s.get())) {
        r.store(i, Ordering::SeqCst);
    }
}
fn at_step(i: u64) {
    if let Some(r) = STEP.get(SLOT.with(|s| s.get())) {
        // the high part tells executions of the same step from one another
        let n = (r.load(Ordering::SeqCst) >> 33).wrapping_add(1);
        r.store(n << 33 | i, Ordering::SeqCst);
    }
}
/// The worker that aborts (its stack has overflowed, or no memory is left for it).
static ABORTED: AtomicU64 = AtomicU64::new(u64::MAX);
extern "C" {
    fn signal(number: i32, handler: extern "C" fn(i32)) -> usize;
    fn pause() -> i32;
}
const SIGABRT: i32 = 6;
extern "C" fn aborted(_: i32) {
    let slot = SLOT.with(|s| s.get());
    if slot < SLOTS {
        ABORTED.store(slot as u64, Ordering::SeqCst);
        // whoever watches ends the process
        loop {
            unsafe { pause() };
        }
    }
}
/// Looks after the workers until `done`. Gives the slot that makes no progress, if one does not.
/// Looks are counted, not seconds, so that a machine that stands still for a while is no violation.
fn watch(done: impl Fn() -> bool) -> Option<(usize, u64, &'static str)> {
    let limit: u32 = std::env::var("SIM_HANG").ok().and_then(|x| x.parse().ok()).unwrap_or(120) * 20;
    let mut seen = vec![(0u64, 0u64, 0u32); SLOTS];
    let mut looks = 0u32;
    while !done() {
        std::thread::sleep(std::time::Duration::from_millis(50));
        looks += 1;
        let i = ABORTED.load(Ordering::SeqCst) as usize;
        if i < SLOTS {
            return Some((i, STEP[i].load(Ordering::SeqCst) & (2 * FINISH - 1), "aborts"));
        }
        for i in 0..SLOTS {
            let now = (RUN[i].load(Ordering::SeqCst), STEP[i].load(Ordering::SeqCst));
            if now.0 == u64::MAX || now != (seen[i].0, seen[i].1) {
                seen[i] = (now.0, now.1, 0);
            } else {
                seen[i].2 += 1;
                if seen[i].2 > limit {
                    return Some((i, now.1 & (2 * FINISH - 1), "does not end"));
                }
            }
        }
        if looks % 2 == 0 {
            let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|x| x.split(' ').nth(1)?.parse::<u64>().ok()).unwrap_or(0);
            if pages > (10 << 30) / 4096 {
                let i = (0..SLOTS).max_by_key(|i| seen[*i].2).unwrap_or(0);
                return Some((i, seen[i].1 & (2 * FINISH - 1), "takes all memory"));
            }
        }
    }
    None
}

thread_local! {
    static PANIC_INFO: RefCell<Option<(String, String)>> = RefCell::new(None);
    static IN_SIM: RefCell<bool> = RefCell::new(false);
}

pub fn install_panic_hook() {
    unsafe { signal(SIGABRT, aborted) };
    let prev = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        if IN_SIM.with(|x| *x.borrow()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            PANIC_INFO.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            prev(info)
        }
    }));
}

/// Runs `f`, returning Err((location, message)) if it panicked.
pub fn catching<R>(f: impl FnOnce() -> R) -> Result<R, (String, String)> {
    let was = IN_SIM.with(|x| std::mem::replace(&mut *x.borrow_mut(), true));
    let r = panic::catch_unwind(panic::AssertUnwindSafe(f));
    IN_SIM.with(|x| *x.borrow_mut() = was);
    r.map_err(|_| PANIC_INFO.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

fn is_harness_location(loc: &str) -> bool {
    loc.starts_with("sim-") || loc.contains("/ws/sim-") || loc.contains("/ws/shim/") || loc.starts_with("shim/")
}

enum Feed<'a> {
    Seed(u64, usize),
    Tape(&'a Tape),
}

fn execute<S: Scenario>(property: &str, feed: Feed, trace: bool, known: &BTreeSet<String>) -> Outcome {
    let mut ctx = Ctx::new(property, trace, known.clone());
    let mut tape = Tape::default();
    let mk = |i: u64, feed: &Feed, fin: bool| match feed {
        Feed::Seed(s, _) => Src::generate(mix(*s, i)),
        Feed::Tape(t) => {
            if fin {
                Src::replay(t.finish.clone())
            } else {
                Src::replay(t.steps.get(i as usize).cloned().unwrap_or_default())
            }
        }
    };
    let mut violation = None;
    let mut harness_error = None;
    let mut sc: Option<S> = None;
    let handle = |r: Result<Res, (String, String)>,
                      sc: Option<&S>,
                      ctx: &mut Ctx,
                      harness_error: &mut Option<String>,
                      violation: &mut Option<Violation>|
     -> bool {
        match r {
            Ok(Ok(())) => true,
            Ok(Err(v)) => {
                *violation = Some(v);
                false
            }
            Err((loc, msg)) => {
                if is_harness_location(&loc) {
                    *harness_error = Some(format!("harness panic at {loc}: {msg}"));
                } else {
                    let p = sc.and_then(|s| s.panic_property()).unwrap_or(property).to_string();
                    let short = loc.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
                    if let Err(v) = ctx.fail(&p, &format!("panic at {short}"), || format!("panicked at {loc}: {msg}")) {
                        *violation = Some(v);
                    }
                }
                false
            }
        }
    };

    at_step(0);
    let mut src = mk(0, &feed, false);
    let r = catching(|| S::new(&mut src, &mut ctx));
    tape.steps.push(src.tape);
    let mut go = match r {
        Ok(s) => {
            sc = Some(s);
            true
        }
        Err(e) => handle(Err(e), None, &mut ctx, &mut harness_error, &mut violation),
    };
    if let Some(s) = sc.as_mut() {
        let n = match &feed {
            Feed::Seed(_, cap) => s.steps().min(*cap),
            Feed::Tape(t) => t.steps.len().saturating_sub(1),
        };
        for i in 1..=n {
            at_step(i as u64);
            let mut src = mk(i as u64, &feed, false);
            let r = catching(|| s.step(&mut src, &mut ctx));
            tape.steps.push(src.tape);
            ctx.steps += 1;
            go = handle(r, Some(s), &mut ctx, &mut harness_error, &mut violation);
            if !go {
                break;
            }
        }
        let whole = match &feed {
            Feed::Seed(_, cap) => s.steps() <= *cap,
            Feed::Tape(_) => true,
        };
        if go && whole {
            at_step(FINISH);
            let mut src = mk(u64::MAX, &feed, true);
            let r = catching(|| s.finish(&mut src, &mut ctx));
            tape.finish = src.tape;
            handle(r, Some(s), &mut ctx, &mut harness_error, &mut violation);
        }
    }
    Outcome { violation, harness_error, tape, ctx }
}

/// Shrinks a failing tape while a violation of the same property and class persists.
fn minimise<S: Scenario>(property: &str, v: &Violation, tape: Tape, known: &BTreeSet<String>, budget_ms: u128) -> (Tape, usize) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut tries = 0usize;
    let attempt = |cand: &Tape, tries: &mut usize| -> Option<Tape> {
        *tries += 1;
        let o = execute::<S>(property, Feed::Tape(cand), false, known);
        match o.violation {
            Some(ref w) if w.property == v.property && w.class == v.class => Some(o.tape),
            _ => None,
        }
    };
    // the run stopped at the violation, so drop everything after it first
    let over = |t: &Instant| t.elapsed().as_millis() > budget_ms;
    loop {
        let mut progress = false;
        // remove whole steps, in shrinking chunks
        let mut chunk = (best.steps.len() / 2).max(1);
        while !over(&t0) {
            let mut i = 1;
            while i < best.steps.len() && !over(&t0) {
                let end = (i + chunk).min(best.steps.len());
                let mut cand = best.clone();
                cand.steps.drain(i..end);
                if let Some(t) = attempt(&cand, &mut tries) {
                    best = t;
                    progress = true;
                } else {
                    i = end;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // simplify draws
        let mut si = 0;
        while si <= best.steps.len() && !over(&t0) {
            let len = if si < best.steps.len() { best.steps[si].len() } else { best.finish.len() };
            // zero ranges
            let mut w = len;
            while w > 0 && !over(&t0) {
                let mut j = 0;
                while j < len && !over(&t0) {
                    let get = |b: &Tape| if si < b.steps.len() { b.steps[si].clone() } else { b.finish.clone() };
                    let mut cur = get(&best);
                    if cur.len() <= j {
                        break;
                    }
                    let e = (j + w).min(cur.len());
                    if cur[j..e].iter().any(|x| *x != 0) {
                        let orig = cur.clone();
                        for x in &mut cur[j..e] {
                            *x = 0;
                        }
                        let put = |b: &mut Tape, c: Vec<u64>| {
                            if si < b.steps.len() {
                                b.steps[si] = c
                            } else {
                                b.finish = c
                            }
                        };
                        let mut cand = best.clone();
                        put(&mut cand, cur);
                        if let Some(t) = attempt(&cand, &mut tries) {
                            best = t;
                            progress = true;
                        } else if w == 1 {
                            // binary descent on a single value
                            let (mut lo, mut hi) = (0u64, orig[j]);
                            while hi - lo > 1 && !over(&t0) {
                                let mid = lo + (hi - lo) / 2;
                                let mut c = get(&best);
                                if c.len() <= j {
                                    break;
                                }
                                c[j] = mid;
                                let mut cand = best.clone();
                                put(&mut cand, c);
                                if let Some(t) = attempt(&cand, &mut tries) {
                                    best = t;
                                    hi = mid;
                                    progress = true;
                                } else {
                                    lo = mid;
                                }
                            }
                        }
                    }
                    j += w;
                }
                w /= 2;
                if len > 64 && w < len / 64 {
                    break;
                }
            }
            si += 1;
        }
        if !progress || over(&t0) {
            break;
        }
    }
    (best, tries)
}

fn tape_json(t: &Tape) -> Value {
    json!({"steps": t.steps, "finish": t.finish})
}

fn tape_from(v: &Value) -> Tape {
    let arr = |v: &Value| -> Vec<u64> { v.as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default() };
    Tape {
        steps: v["steps"].as_array().map(|a| a.iter().map(arr).collect()).unwrap_or_default(),
        finish: arr(&v["finish"]),
    }
}

pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
}

/// known_findings.txt: `KNOWN-FINDING: property=<id> class=<class>; <text>` lines; others
/// (`fixed: ...`, comments) suppress nothing.
pub fn load_known(path: &str) -> Vec<Known> {
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("KNOWN-FINDING: property=") {
                if let Some((id, rest)) = rest.split_once(" class=") {
                    if let Some((class, text)) = rest.split_once("; ") {
                        out.push(Known { property: id.into(), class: class.into(), text: text.into() });
                    }
                }
            }
        }
    }
    out
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into())
}

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    sim_time: u64,
    checks: u64,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    foreign: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    states: HashSet<u64>,
    run_digests: HashSet<u64>,
    det_checked: u64,
    samples: BTreeMap<u64, Vec<String>>,
    failures: BTreeMap<u64, (Violation, Tape)>,
    error: Option<String>,
    executed: BTreeMap<&'static str, u64>,
}

pub struct Budget {
    /// number of runs
    pub runs: u64,
    /// wall-clock cap in seconds
    pub secs: f64,
}

pub struct Plan<'a> {
    pub property: &'a str,
    pub level: &'a str,
    pub rule: &'a str,
    pub assumptions: Vec<String>,
}

pub struct PartResult {
    agg: Agg,
    name: &'static str,
    real: &'static [&'static str],
    stubs: &'static [&'static str],
    replay: Option<(Violation, String)>,
    wall: f64,
}

/// Runs one scenario's share of a property's check.
pub fn run_part<S: Scenario>(property: &str, seed: u64, budget: Budget) -> PartResult {
    let t0 = Instant::now();
    let workers = std::env::var("VERIF_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    });
    let known: BTreeSet<String> = load_known(&format!("{}/known_findings.txt", verif_dir()))
        .into_iter()
        .filter(|k| k.property == property)
        .map(|k| k.class)
        .collect();
    let base = mix(seed, mix(hash_str(S::NAME), hash_str(property)));
    let next = AtomicU64::new(0);
    let first_fail = AtomicU64::new(u64::MAX);
    let agg = Mutex::new(Agg::default());
    let workers = workers.clamp(1, MINIMISER);
    let alive = AtomicUsize::new(workers);
    let (alive, next, first_fail, known, budget, agg_) = (&alive, &next, &first_fail, &known, &budget, &agg);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            if let Some((i, step, what)) = watch(|| alive.load(Ordering::SeqCst) == 0) {
                let run = RUN[i].load(Ordering::SeqCst);
                let runs = next.load(Ordering::SeqCst);
                hang::<S>(property, seed, run, mix(base, run), step, what, runs);
            }
        });
        for w in 0..workers {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let agg = agg_;
                    SLOT.with(|s| s.set(w));
                    let _done = Done(alive);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= budget.runs || i > first_fail.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed().as_secs_f64() > budget.secs && i > 16 {
                            break;
                        }
                        let rs = mix(base, i);
                        let trace = i < 3;
                        at_run(i);
                        let o = execute::<S>(property, Feed::Seed(rs, usize::MAX), trace, known);
                        // determinism self-check on a sample of the runs
                        let det = i % 61 == 5 && o.harness_error.is_none();
                        let mut err = o.harness_error.clone().map(|e| format!("{e} (scenario {} run {i} seed {rs})", S::NAME));
                        if det {
                            let o2 = execute::<S>(property, Feed::Tape(&o.tape), false, known);
                            if o2.ctx.digest() != o.ctx.digest() || o2.violation != o.violation {
                                err = Some(format!("run {i} (seed {rs}) of {} is not deterministic", S::NAME));
                            }
                        }
                        at_run(u64::MAX);
                        let mut a = agg.lock().unwrap();
                        if err.is_some() && a.error.is_none() {
                            a.error = err;
                        }
                        a.det_checked += det as u64;
                        a.runs += 1;
                        a.nontrivial += (o.ctx.nontrivial && a.run_digests.insert(o.ctx.digest())) as u64;
                        a.steps += o.ctx.steps;
                        a.sim_time += o.ctx.sim_time;
                        a.checks += o.ctx.checks;
                        for (k, v) in &o.ctx.faults {
                            *a.faults.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in &o.ctx.probes {
                            *a.probes.entry(k).or_insert(0) += v;
                        }
                        for (k, v) in &o.ctx.foreign {
                            *a.foreign.entry(k.clone()).or_insert(0) += v;
                        }
                        for (k, v) in &o.ctx.known {
                            *a.known.entry(k.clone()).or_insert(0) += v;
                        }
                        if a.states.len() < 4_000_000 {
                            a.states.extend(o.ctx.states.iter());
                        }
                        if trace {
                            a.samples.insert(i, o.ctx.log);
                        }
                        if let Some(v) = o.violation {
                            a.failures.insert(i, (v, o.tape));
                            first_fail.fetch_min(i, Ordering::SeqCst);
                        }
                    }
                })
                .unwrap();
        }
    });
    let mut agg = agg.into_inner().unwrap();
    *agg.executed.entry(S::NAME).or_insert(0) = agg.runs;
    let mut replay = None;
    if let Some((i, (v, tape))) = agg.failures.iter().next() {
        // minimise in a worker-like thread with a big stack
        let rs = mix(base, *i);
        let (v, tape) = (v.clone(), tape.clone());
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{property}-{}-{seed}-{i}.json", S::NAME);
        let found = json!({
            "property": property, "scenario": S::NAME, "class": v.class, "detail": v.detail, "seed": seed, "run": i, "run_seed": rs,
            "tape": tape_json(&tape),
        });
        *FOUND.lock().unwrap() = Some((found, path.clone()));
        let over = AtomicUsize::new(0);
        let (min, tries, o) = std::thread::scope(|sc| {
            sc.spawn(|| {
                if watch(|| over.load(Ordering::SeqCst) == 1).is_some() {
                    if let Some((doc, path)) = FOUND.lock().unwrap().clone() {
                        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap_or_default());
                        println!("{} [{}] {}", v.class, S::NAME, v.detail);
                        println!("VIOLATION property={property} replay={path}");
                    }
                    std::process::exit(1);
                }
            });
            let over = &over;
            let known = known;
            let (v, tape) = (&v, &tape);
            let r = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    SLOT.with(|s| s.set(MINIMISER));
                    at_run(0);
                    let (min, tries) = minimise::<S>(property, v, tape.clone(), known, 40_000);
                    let o = execute::<S>(property, Feed::Tape(&min), true, known);
                    at_run(u64::MAX);
                    (min, tries, o)
                })
                .unwrap()
                .join();
            over.store(1, Ordering::SeqCst);
            r.unwrap()
        });
        let detail = o.violation.clone().map(|x| x.detail).unwrap_or_default();
        let doc = json!({
            "property": property,
            "scenario": S::NAME,
            "class": v.class,
            "detail": detail,
            "seed": seed,
            "run": i,
            "run_seed": rs,
            "original_steps": tape.steps.len(),
            "minimised_steps": min.steps.len(),
            "minimiser_executions": tries,
            "trace": o.ctx.log,
            "tape": tape_json(&min),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap_or_default());
        let mut v2 = v.clone();
        v2.detail = detail;
        replay = Some((v2, path));
    }
    PartResult { agg, name: S::NAME, real: S::real(), stubs: S::stubs(), replay, wall: t0.elapsed().as_secs_f64() }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Reports a run of which one step does not end, and ends the process. The replay file is the seed
/// and how far to go: the draws of a step that has not ended are not to be had.
fn hang<S: Scenario>(property: &str, seed: u64, run: u64, run_seed: u64, step: u64, what: &str, runs: u64) -> ! {
    let at = if step >= FINISH { "the end".into() } else { format!("step {step}") };
    let doc = json!({
        "property": property, "scenario": S::NAME, "class": what, "detail": format!("{at} {what}"),
        "seed": seed, "run": run, "run_seed": run_seed, "until": if step >= FINISH { u64::MAX } else { step },
    });
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{property}-{}-{seed}-{run}.json", S::NAME);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap_or_default());
    let ev = json!({
        "property": property,
        "tier": std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        "seed": seed,
        "level": "exploration",
        "coverage": {"evaluations": runs, "distinct_nontrivial": runs, "rule": "ended by a run that does not end", "samples": [doc]},
        "assumptions": [],
        "wall_s": 0.0,
        "violations": 1,
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    let _ = std::fs::write(format!("{}/evidence/{property}.json", verif_dir()), serde_json::to_string_pretty(&ev).unwrap_or_default());
    println!("{what} [{}] {at} of run {run} {what}", S::NAME);
    println!("VIOLATION property={property} replay={path}");
    std::process::exit(1)
}

/// Replays a tape; exits like a check.
pub fn replay_part<S: Scenario>(doc: &Value) -> i32 {
    let property = doc["property"].as_str().unwrap_or("").to_string();
    let tape = tape_from(&doc["tape"]);
    let over = AtomicUsize::new(0);
    let o = std::thread::scope(|sc| {
        sc.spawn(|| {
            if let Some((_, step, what)) = watch(|| over.load(Ordering::SeqCst) == 1) {
                println!("{}", if step >= FINISH { format!("the end {what}") } else { format!("step {step} {what}") });
                println!("VIOLATION property={property} replay={}", std::env::args().nth(2).unwrap_or_default());
                std::process::exit(1);
            }
        });
        let (over, property, tape) = (&over, &property, &tape);
        let r = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, move || {
                SLOT.with(|s| s.set(MINIMISER));
                at_run(0);
                let feed = match (doc["run_seed"].as_u64(), doc["until"].as_u64()) {
                    (Some(s), Some(n)) => Feed::Seed(s, usize::try_from(n).unwrap_or(usize::MAX)),
                    _ => Feed::Tape(tape),
                };
                execute::<S>(property, feed, true, &BTreeSet::new())
            })
            .unwrap()
            .join();
        over.store(1, Ordering::SeqCst);
        r.unwrap()
    });
    for l in &o.ctx.log {
        println!("{l}");
    }
    if let Some(e) = o.harness_error {
        eprintln!("harness error: {e}");
        return 2;
    }
    match o.violation {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Merges the parts of a property's check, writes its evidence, prints the verdict and returns
/// the exit status.
pub fn conclude(plan: Plan, tier: &str, seed: u64, parts: Vec<PartResult>) -> i32 {
    let wall: f64 = parts.iter().map(|p| p.wall).sum();
    let mut evaluations = 0;
    let mut nontrivial = 0;
    let mut samples: Vec<Value> = vec![];
    let mut scen = vec![];
    let mut errors = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut violations = 0;
    let mut assumptions = plan.assumptions.clone();
    for p in &parts {
        let a = &p.agg;
        evaluations += a.runs;
        nontrivial += a.nontrivial;
        if let Some(e) = &a.error {
            errors.push(e.clone());
        }
        for (k, v) in &a.known {
            *known_hits.entry(k.clone()).or_insert(0) += v;
        }
        violations += a.failures.len();
        for (i, log) in a.samples.iter().take(2) {
            let mut lines: Vec<String> = log.iter().take(40).map(|l| l.chars().take(220).collect()).collect();
            if log.len() > 40 {
                lines.push(format!("... {} more events", log.len() - 40));
            }
            samples.push(json!({"scenario": p.name, "run": i, "events": lines}));
        }
        scen.push(json!({
            "scenario": p.name,
            "runs": a.runs,
            "distinct_nontrivial_runs": a.nontrivial,
            "runs_per_hour": (a.runs as f64 / p.wall.max(0.001) * 3600.0) as u64,
            "simulated_steps": a.steps,
            "simulated_time_seconds": a.sim_time,
            "property_evaluations": a.checks,
            "faults_injected": a.faults,
            "conditions_reached": a.probes,
            "distinct_states": a.states.len(),
            "determinism_reruns": a.det_checked,
            "other_properties_failing_seen": a.foreign,
            "real_components": p.real,
            "stubbed_components": p.stubs,
            "wall_s": p.wall,
        }));
    }
    assumptions.push("seeded sampling of schedules and fault sequences, not exhaustive".into());
    let ev = json!({
        "property": plan.property,
        "tier": tier,
        "seed": seed,
        "level": plan.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": plan.rule,
            "samples": samples,
            "scenarios": scen,
            "state_measure": "distinct digests of the simulated system's observable state after a step, summed per scenario",
            "known_findings_hit": known_hits,
        },
        "assumptions": assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", plan.property), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "property={} tier={tier} seed={seed} runs={evaluations} nontrivial={nontrivial} wall={wall:.1}s",
        plan.property
    );
    for k in load_known(&format!("{}/known_findings.txt", verif_dir())) {
        if k.property == plan.property {
            println!("KNOWN-FINDING: property={} {} (hit {} times in this run)", k.property, k.text, known_hits.get(&k.class).unwrap_or(&0));
        }
    }
    let mut rc = 0;
    for p in &parts {
        if let Some((v, path)) = &p.replay {
            println!("{} [{}] {}", v.class, p.name, v.detail);
            println!("VIOLATION property={} replay={}", plan.property, path);
            rc = 1;
        }
    }
    if rc == 0 && !errors.is_empty() {
        for e in errors {
            eprintln!("harness error: {e}");
        }
        return 2;
    }
    rc
}

/// Command line shared by all simulators:
///   <bin> check <property>      (VERIF_SEED, VERIF_TIER)
///   <bin> replay <file>
pub fn main_with(check: impl Fn(&str, u64, &str) -> Option<i32>, replay: impl Fn(&Value) -> Option<i32>) -> ! {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let rc = match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() > 2 => check(&args[2], seed, tier).unwrap_or_else(|| {
            eprintln!("unknown property {}", args[2]);
            2
        }),
        Some("replay") if args.len() > 2 => {
            let s = std::fs::read_to_string(&args[2]).unwrap_or_else(|e| {
                eprintln!("{e}");
                std::process::exit(2)
            });
            let doc: Value = serde_json::from_str(&s).unwrap_or_else(|e| {
                eprintln!("{e}");
                std::process::exit(2)
            });
            let rc = replay(&doc).unwrap_or(2);
            if rc == 1 {
                println!("VIOLATION property={} replay={}", doc["property"].as_str().unwrap_or("?"), args[2]);
            }
            rc
        }
        _ => {
            eprintln!("usage: check <property> | replay <file>");
            2
        }
    };
    std::process::exit(rc)
}
