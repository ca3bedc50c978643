//! Exhaustive enumeration of choice sequences, spread over all cores.

use crate::crash;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// How many leading choices make a unit of work
const UNIT: usize = 3;

/// The choices of one leaf. A family asks for its choices in an order that depends on earlier
/// answers only.
pub struct Ch {
    path: Vec<(u32, u32)>,
    pos: usize,
    unit: u64,
    mine: u64,
    /// this leaf is another worker's
    pub skip: bool,
    steps: u64,
    next: Arc<AtomicU64>,
    replay: bool,
}
impl Ch {
    fn new(next: Arc<AtomicU64>) -> Ch {
        let mine = next.fetch_add(1, Ordering::Relaxed);
        Ch { path: Vec::new(), pos: 0, unit: 0, mine, skip: false, steps: 0, next, replay: false }
    }
    pub fn replay(path: Vec<(u32, u32)>) -> Ch {
        let mut c = Ch::new(Arc::new(AtomicU64::new(0)));
        c.path = path;
        c.replay = true;
        c
    }
    /// On the first leaf
    pub fn first() -> Ch {
        Ch::new(Arc::new(AtomicU64::new(0)))
    }
    pub fn path(&self) -> &[(u32, u32)] {
        &self.path
    }
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "no alternative");
        if self.skip {
            return 0;
        }
        if self.pos < self.path.len() {
            let (m, c) = self.path[self.pos];
            assert_eq!(m as usize, n, "the enumeration diverged");
            self.pos += 1;
            if self.pos == UNIT {
                self.check();
            }
            return c as usize;
        }
        assert!(!self.replay, "the enumeration diverged");
        self.path.push((n as u32, 0));
        self.pos += 1;
        self.steps += 1;
        if self.pos == UNIT {
            self.check();
        }
        0
    }
    fn check(&mut self) {
        if !self.replay && self.unit != self.mine {
            self.skip = true;
        }
    }
    pub fn of<T: Copy>(&mut self, xs: &[T]) -> T {
        let i = self.pick(xs.len());
        if self.skip {
            return xs[0];
        }
        xs[i]
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    /// Called by a family when all its choices are made: whether this worker judges the leaf
    pub fn mine(&mut self) -> bool {
        if self.pos < UNIT {
            self.check();
        }
        if self.replay {
            assert_eq!(self.pos, self.path.len(), "the enumeration diverged");
        }
        !self.skip
    }
    /// On to the next leaf
    fn advance(&mut self) -> bool {
        self.path.truncate(self.pos.min(self.path.len()));
        loop {
            match self.path.last_mut() {
                None => return false,
                Some((n, c)) if *c + 1 < *n => {
                    *c += 1;
                    if self.path.len() <= UNIT {
                        self.end_unit();
                    }
                    self.steps += 1;
                    break;
                }
                _ => {
                    self.path.pop();
                }
            }
        }
        self.pos = 0;
        self.skip = false;
        true
    }
    fn end_unit(&mut self) {
        if self.unit == self.mine {
            self.mine = self.next.fetch_add(1, Ordering::Relaxed);
        }
        self.unit += 1;
    }
}

/// What a worker counts
#[derive(Default)]
pub struct Local {
    pub calls: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub waiting: u64,
    pub unclear: u64,
    pub distinct: HashSet<u64>,
}
impl Local {
    pub fn outcome<T: std::hash::Hash>(&mut self, t: &T) {
        if self.distinct.len() < 200_000 {
            use std::hash::Hasher;
            #[allow(deprecated)]
            let mut h = std::hash::SipHasher::new();
            t.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
}

pub type Run = Box<dyn Fn(&mut Ch, &mut Local) -> Result<(), String> + Send + Sync>;
/// A family of inputs with their judgement
pub struct Family {
    pub name: String,
    /// 0: in both tiers, 1: in the thorough tier
    pub tier: u8,
    pub run: Run,
}
pub fn family(
    name: impl Into<String>,
    tier: u8,
    run: impl Fn(&mut Ch, &mut Local) -> Result<(), String> + Send + Sync + 'static,
) -> Family {
    Family { name: name.into(), tier, run: Box::new(run) }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub leaves: u64,
    pub steps: u64,
    pub calls: u64,
    pub accepted: u64,
    pub rejected: u64,
    pub waiting: u64,
    pub unclear: u64,
    pub distinct: u64,
    pub complete: bool,
    pub secs: f32,
}
pub struct Found {
    pub path: Vec<(u32, u32)>,
    pub what: String,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string().replace('\n', " "));
    }));
}
fn path_tail(data: *const (), out: &crash::Out) {
    let ch = unsafe { &*data.cast::<Ch>() };
    for (n, c) in &ch.path {
        out.number(*c);
        out.bytes(b"/");
        out.number(*n);
        out.bytes(b" ");
    }
}
/// The leaves of `ch` are run by this thread from now on
pub fn enter(head: &'static crash::Head, ch: &Ch) {
    crash::enter(head, path_tail, (ch as *const Ch).cast());
}
pub fn guarded(f: &Family, ch: &mut Ch, l: &mut Local) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| (f.run)(ch, l))) {
        Ok(r) => r,
        Err(_) => {
            let what = LAST_PANIC.with(|p| p.borrow().clone());
            if what.contains("the enumeration diverged") || what.contains("no alternative") {
                eprintln!("internal error in {}: {}", f.name, what);
                std::process::exit(2);
            }
            Err(what)
        }
    }
}

const HANG: Duration = Duration::from_secs(60);

pub fn explore(
    f: &Family,
    deadline: Instant,
    threads: usize,
    head: &'static crash::Head,
    on_hang: &(dyn Fn(Found) + Sync),
) -> (Stats, Option<Found>) {
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = AtomicBool::new(false);
    let late = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let total: Mutex<(Stats, HashSet<u64>)> = Mutex::new(Default::default());
    // for every worker: whether it is at work, and the path of its current leaf
    type Beat = (AtomicBool, Mutex<Vec<(u32, u32)>>);
    let beats: Vec<Beat> = (0..threads).map(|_| (AtomicBool::new(true), Mutex::new(Vec::new()))).collect();
    std::thread::scope(|s| {
        for w in 0..threads {
            let (next, stop, late, done, found, total, beats) =
                (next.clone(), &stop, &late, &done, &found, &total, &beats);
            s.spawn(move || {
                crate::det::seed(w as u64 + 1);
                // moved into place before its address is taken
                let mut ch = Box::new(Ch::new(next));
                enter(head, &ch);
                let mut l = Local::default();
                let mut leaves = 0u64;
                let mut mysteps = 0u64;
                let mut n = 0u64;
                let mut first = true;
                loop {
                    n += 1;
                    if n % 256 == 0 {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if n % 4096 == 0 && Instant::now() > deadline {
                            late.store(true, Ordering::Relaxed);
                            break;
                        }
                    }
                    let s0 = ch.steps;
                    if let Ok(mut p) = beats[w].1.try_lock() {
                        p.clear();
                        p.extend_from_slice(&ch.path);
                    }
                    let r = guarded(f, &mut ch, &mut l);
                    if !ch.skip {
                        leaves += 1;
                        mysteps += ch.steps - s0 + (!first) as u64;
                    }
                    first = false;
                    if let Err(what) = r {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some(Found { path: ch.path.clone(), what });
                        }
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                    if !ch.advance() {
                        break;
                    }
                }
                crash::leave();
                beats[w].0.store(false, Ordering::Relaxed);
                let mut t = total.lock().unwrap();
                t.0.leaves += leaves;
                t.0.steps += mysteps;
                t.0.calls += l.calls;
                t.0.accepted += l.accepted;
                t.0.rejected += l.rejected;
                t.0.waiting += l.waiting;
                t.0.unclear += l.unclear;
                t.1.extend(l.distinct);
                drop(t);
                done.fetch_add(1, Ordering::Relaxed);
            });
        }
        // a leaf that does not come to an end
        let mut last: Vec<(Vec<(u32, u32)>, Instant)> =
            (0..threads).map(|_| (Vec::new(), Instant::now())).collect();
        while done.load(Ordering::Relaxed) < threads as u64 {
            std::thread::sleep(Duration::from_millis(5));
            if t0.elapsed() < HANG {
                continue;
            }
            for w in 0..threads {
                let p = beats[w].1.lock().unwrap().clone();
                if p != last[w].0 || !beats[w].0.load(Ordering::Relaxed) {
                    last[w] = (p, Instant::now());
                } else if last[w].1.elapsed() > HANG {
                    on_hang(Found { path: p, what: format!("does not come to an end within {:?}", HANG) });
                }
            }
        }
    });
    let (mut st, d) = total.into_inner().unwrap();
    st.distinct = d.len() as u64;
    st.complete = !late.load(Ordering::Relaxed) && !stop.load(Ordering::Relaxed);
    st.secs = t0.elapsed().as_secs_f32();
    (st, found.into_inner().unwrap())
}
