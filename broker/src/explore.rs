//! Enumeration of all executions of a scenario within a deviation bound.
//!
//! An execution is determined by its choice sequence. Choice 0 is the default schedule; every
//! other choice costs one deviation, except for the parameters of a scenario (`Kind::Pick`), which
//! are always enumerated completely. For a bound D every execution with at most D deviations is run
//! exactly once, each in a thread of its own with a fixed random stream.

use crate::{crash, det};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};
use tokio::mc::{self, Choice, Config, Deviation, End, Kind, Report};

/// The execution needs the encrypted transport in a build without it
pub const NOT_HERE: &str = "not in this build";

/// What a scenario reports about one execution
pub struct Ctx {
    pub violations: RefCell<Vec<String>>,
    obs: RefCell<DefaultHasher>,
    pub log: RefCell<Vec<String>>,
    pub verbose: bool,
    clock: Cell<u64>,
    evals: Cell<u64>,
    /// Histories and operations enumerated by the body itself
    histories: Cell<u64>,
    operations: Cell<u64>,
}

impl Ctx {
    fn new(verbose: bool) -> Self {
        Ctx {
            violations: RefCell::new(Vec::new()),
            obs: RefCell::new(DefaultHasher::new()),
            log: RefCell::new(Vec::new()),
            verbose,
            clock: Cell::new(0),
            evals: Cell::new(0),
            histories: Cell::new(0),
            operations: Cell::new(0),
        }
    }
    pub fn fail(&self, what: impl Into<String>) {
        let what = what.into();
        self.note(|| format!("VIOLATED: {}", what));
        self.violations.borrow_mut().push(what);
    }
    pub fn check(&self, ok: bool, what: impl FnOnce() -> String) -> bool {
        self.evals.set(self.evals.get() + 1);
        if !ok {
            self.fail(what());
        }
        ok
    }
    /// The body itself enumerated a history of so many operations
    pub fn history(&self, operations: u64) {
        self.histories.set(self.histories.get() + 1);
        self.operations.set(self.operations.get() + operations);
    }
    pub fn failed(&self) -> bool {
        !self.violations.borrow().is_empty()
    }
    /// Part of the observable outcome
    pub fn observe<T: Hash>(&self, t: &T) {
        t.hash(&mut *self.obs.borrow_mut());
    }
    pub fn note(&self, s: impl FnOnce() -> String) {
        if self.verbose {
            let s = s();
            self.log
                .borrow_mut()
                .push(format!("[step {:>4}] {}", mc::steps(), s));
        }
    }
    /// A logical time stamp, every call gives a later one
    pub fn tick(&self) -> u64 {
        self.clock.set(self.clock.get() + 1);
        self.clock.get()
    }
}

pub type Fut = Pin<Box<dyn Future<Output = ()>>>;
pub type Body = Arc<dyn Fn(Rc<Ctx>) -> Fut + Send + Sync>;

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    pub cfg: Config,
    pub seed: u64,
    /// Deviation bounds of the two tiers
    pub bound: [u32; 2],
    pub body: Body,
}

pub fn scenario<F, R>(name: impl Into<String>, bound: [u32; 2], body: F) -> Scenario
where
    F: Fn(Rc<Ctx>) -> R + Send + Sync + 'static,
    R: Future<Output = ()> + 'static,
{
    Scenario {
        name: name.into(),
        cfg: Config::default(),
        seed: 1,
        bound,
        body: Arc::new(move |c| Box::pin(body(c))),
    }
}

impl Scenario {
    pub fn cfg(mut self, f: impl FnOnce(&mut Config)) -> Self {
        f(&mut self.cfg);
        self
    }
    /// The default schedule until the body says `mc::calm(false)`
    pub fn calm(mut self) -> Self {
        self.cfg.calm = true;
        self
    }
    pub fn seed(mut self, s: u64) -> Self {
        self.seed = s;
        self
    }
}

pub struct Outcome {
    pub report: Report,
    pub violations: Vec<String>,
    pub obs: u64,
    pub evals: u64,
    pub histories: u64,
    pub operations: u64,
    pub log: Vec<String>,
}

/// No poll and no operation takes that long
pub const HANG: Duration = Duration::from_secs(40);
/// No execution takes longer than so many times that
const HANGS: u32 = 6;

/// Preemption inside polls is limited to `await` points: the code holds locks of the standard
/// library there, which must not be preempted on the thread they are held by
pub static AWAIT_POINTS_ONLY: AtomicBool = AtomicBool::new(false);

fn execute(sc: &Scenario, script: Vec<Deviation>, verbose: bool) -> Outcome {
    det::seed(sc.seed);
    let ctx = Rc::new(Ctx::new(verbose));
    let mut cfg = sc.cfg.clone();
    if AWAIT_POINTS_ONLY.load(Ordering::Relaxed) {
        cfg.points &= mc::POINTS_AWAIT;
    }
    let c = ctx.clone();
    let body = sc.body.clone();
    // the body is built under the control of the runtime
    let report = mc::run(cfg, script, async move { body(c).await });
    let mut violations = ctx.violations.borrow().clone();
    match &report.end {
        End::Done | End::Diverged(_) => (),
        End::DriverPanic(m) if m.contains(NOT_HERE) => violations.clear(),
        End::DriverPanic(m) => violations.push(format!("the scenario cannot be carried out: {}", m)),
        e => violations.push(format!("the execution does not end: {:?}", e)),
    }
    let obs = ctx.obs.borrow().finish();
    let log = ctx.log.borrow().clone();
    Outcome {
        report,
        violations,
        obs,
        evals: ctx.evals.get(),
        histories: ctx.histories.get(),
        operations: ctx.operations.get(),
        log,
    }
}

/// As much as the threads of a runtime have
const STACK: usize = 2 << 20;
/// The property that is checked, and the directory of replays
pub static PROPERTY: OnceLock<(String, std::path::PathBuf)> = OnceLock::new();
static HEADS: Mutex<BTreeMap<String, &'static crash::Head>> = Mutex::new(BTreeMap::new());

fn script_tail(data: *const (), out: &crash::Out) {
    let script = unsafe { &*data.cast::<Vec<Deviation>>() };
    for d in script {
        out.number(d.pos);
        out.bytes(b":");
        out.number(d.n);
        out.bytes(b":");
        out.number(d.alt);
        out.bytes(b" ");
    }
}

/// Runs one execution in a thread of its own; `None` if it hangs
pub fn run_once(sc: &Arc<Scenario>, script: &[Deviation], verbose: bool) -> Option<Outcome> {
    let head = *HEADS.lock().unwrap().entry(sc.name.clone()).or_insert_with(|| {
        let (property, dir) = PROPERTY.get().expect("no property");
        let file = dir.join(format!("{}-{}.txt", property, sc.name));
        crash::Head::new(property, &file, format!("property {}\nscenario {}\nscript ", property, sc.name))
    });
    let (tx, rx) = channel();
    let sc2 = sc.clone();
    let script = script.to_vec();
    let counter = Arc::new(AtomicU64::new(0));
    let counting = counter.clone();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            mc::progress(counting);
            crash::enter(head, script_tail, (&script as *const Vec<Deviation>).cast());
            let o = execute(&sc2, script.clone(), verbose);
            crash::leave();
            let _ = tx.send(o);
        })
        .expect("cannot start a thread");
    let mut seen = 0;
    for _ in 0..HANGS {
        match rx.recv_timeout(HANG) {
            Ok(o) => {
                let _ = h.join();
                return Some(o);
            }
            Err(RecvTimeoutError::Timeout) => {
                let now = counter.load(Ordering::Relaxed);
                if now == seen {
                    return None;
                }
                seen = now;
            }
            Err(RecvTimeoutError::Disconnected) => {
                eprintln!("internal error: an execution of {} died", sc.name);
                std::process::exit(2);
            }
        }
    }
    None
}

#[derive(Default, Clone)]
pub struct Stats {
    pub executions: u64,
    pub steps: u64,
    pub points: u64,
    pub histories: u64,
    pub evals: u64,
    pub max_points: usize,
    pub distinct: u64,
    pub diverged: u64,
    pub bound: Option<u32>,
    pub complete: bool,
    pub per_cost: Vec<u64>,
    pub picks: u64,
    /// Executions that need the encrypted transport, in a build without it
    pub skipped: u64,
}

pub struct Found {
    pub script: Vec<Deviation>,
    pub what: Vec<String>,
}

struct Item {
    script: Vec<Deviation>,
    cost: u32,
}

struct Shared {
    stack: Vec<Item>,
    active: usize,
    stop: bool,
    stats: Stats,
    seen: HashSet<u64>,
    found: Option<Found>,
    restart: bool,
}

fn children(item: &Item, choices: &[Choice], bound: u32, out: &mut Vec<Item>) {
    let start = item.script.last().map(|d| d.pos + 1).unwrap_or(0);
    for (i, c) in choices.iter().enumerate().skip(start as usize) {
        let cost = item.cost + (c.kind != Kind::Pick) as u32;
        if cost > bound {
            continue;
        }
        for alt in c.lo.max(1)..c.n {
            let mut script = item.script.clone();
            script.push(Deviation {
                pos: i as u32,
                n: c.n,
                alt,
            });
            out.push(Item { script, cost });
        }
    }
}

/// Explores `sc` completely up to `bound` deviations, or until `deadline`
pub fn explore(sc: &Arc<Scenario>, bound: u32, deadline: Instant, threads: usize) -> (Stats, Option<Found>) {
    loop {
        let (stats, found, restart) = explore_once(sc, bound, deadline, threads);
        if restart {
            AWAIT_POINTS_ONLY.store(true, Ordering::Relaxed);
            continue;
        }
        return (stats, found);
    }
}

fn explore_once(
    sc: &Arc<Scenario>,
    bound: u32,
    deadline: Instant,
    threads: usize,
) -> (Stats, Option<Found>, bool) {
    let shared = Mutex::new(Shared {
        stack: vec![Item {
            script: Vec::new(),
            cost: 0,
        }],
        active: 0,
        stop: false,
        stats: Stats {
            per_cost: vec![0; bound as usize + 1],
            ..Stats::default()
        },
        seen: HashSet::new(),
        found: None,
        restart: false,
    });
    let cv = Condvar::new();
    let timed_out = AtomicBool::new(false);
    let dead = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let item = {
                    let mut g = shared.lock().unwrap();
                    loop {
                        if g.stop {
                            return;
                        }
                        if let Some(i) = g.stack.pop() {
                            g.active += 1;
                            break i;
                        }
                        if g.active == 0 {
                            cv.notify_all();
                            return;
                        }
                        g = cv.wait(g).unwrap();
                    }
                };
                let o = run_once(sc, &item.script, false);
                let mut kids = Vec::new();
                let mut g = shared.lock().unwrap();
                g.active -= 1;
                match o {
                    None => {
                        if !AWAIT_POINTS_ONLY.load(Ordering::Relaxed)
                            && sc.cfg.points & !mc::POINTS_AWAIT != 0
                        {
                            g.restart = true;
                        } else if g.found.is_none() {
                            g.found = Some(Found {
                                script: item.script.clone(),
                                what: vec!["the execution hangs within one poll".to_string()],
                            });
                        }
                        g.stop = true;
                    }
                    Some(o) => {
                        match &o.report.end {
                            End::DriverPanic(m) if m.contains(NOT_HERE) => g.stats.skipped += 1,
                            _ => g.stats.executions += 1,
                        }
                        g.stats.steps += o.report.steps + o.operations;
                        g.stats.histories += o.histories;
                        g.stats.evals += o.evals;
                        let start = item.script.last().map(|d| d.pos as usize + 1).unwrap_or(0);
                        g.stats.points += o.report.choices.len().saturating_sub(start) as u64;
                        g.stats.max_points = g.stats.max_points.max(o.report.choices.len());
                        g.stats.per_cost[item.cost as usize] += 1;
                        if g.seen.len() < 4_000_000 {
                            g.seen.insert(o.obs);
                        }
                        if matches!(o.report.end, End::Diverged(_)) {
                            g.stats.diverged += 1;
                        } else if !o.violations.is_empty() {
                            if g.found.is_none() {
                                g.found = Some(Found {
                                    script: item.script.clone(),
                                    what: o.violations.clone(),
                                });
                            }
                            g.stop = true;
                        } else {
                            children(&item, &o.report.choices, bound, &mut kids);
                            kids.reverse();
                            g.stack.append(&mut kids);
                        }
                    }
                }
                if Instant::now() > deadline {
                    timed_out.store(true, Ordering::Relaxed);
                    g.stop = true;
                }
                drop(g);
                cv.notify_all();
            });
        }
    });
    let _ = dead;
    let g = shared.into_inner().unwrap();
    let mut stats = g.stats;
    stats.distinct = g.seen.len() as u64;
    stats.complete = !timed_out.load(Ordering::Relaxed) && g.found.is_none();
    if stats.complete {
        stats.bound = Some(bound);
    }
    (stats, g.found, g.restart)
}
