//! T01 to T03: the subscription store, driven directly and compared with a list of subscriptions

use crate::explore::*;
use crate::oracle::matches;
use crate::SKIP;
use apiformes_packet::prelude::QoS;
use apiformes_server_lib::mc::{SubscriptionFlags, TopicsTable};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;
use tokio::mc;

/// Options of a subscription
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Opt {
    qos: u8,
    no_local: bool,
    rap: bool,
}
const fn o(qos: u8, no_local: bool) -> Opt {
    Opt { qos, no_local, rap: false }
}
fn qos(n: u8) -> QoS {
    match n {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        _ => QoS::QoS2,
    }
}
fn level(q: &QoS) -> u8 {
    match q {
        QoS::QoS0 => 0,
        QoS::QoS1 => 1,
        QoS::QoS2 => 2,
    }
}
fn flags(o: Opt) -> SubscriptionFlags {
    let mut f = SubscriptionFlags::empty();
    if o.no_local {
        f |= SubscriptionFlags::NO_LOCAL;
    }
    if o.rap {
        f |= SubscriptionFlags::RETAIN_AS_PUBLISHED;
    }
    f
}

const NAMES: [&str; 3] = ["X", "Y", "Z"];

struct Store {
    table: TopicsTable,
    ids: Vec<Arc<str>>,
}
/// Who gets a message, with which options
type Found = BTreeMap<String, (u8, bool)>;

impl Store {
    fn new() -> Self {
        Store {
            table: TopicsTable::new(),
            ids: NAMES.iter().map(|n| Arc::from(*n)).collect(),
        }
    }
    async fn subscribe(&self, c: usize, filter: &str, o: Opt) {
        self.table.subscribe(self.ids[c].clone(), Arc::from(filter), qos(o.qos), flags(o)).await;
    }
    async fn unsubscribe(&self, c: usize, filter: &str) {
        self.table.unsubscribe(self.ids[c].clone(), filter).await;
    }
    async fn remove_all(&self, c: usize) {
        self.table.unsubscribe_all(self.ids[c].clone()).await;
    }
    async fn get(&self, topic: &str) -> Found {
        self.table
            .get_all_subscribed(topic)
            .await
            .iter()
            .map(|(c, i)| (c.to_string(), (level(&i.qos), i.flags.contains(SubscriptionFlags::NO_LOCAL))))
            .collect()
    }
}

/// The same as a list
#[derive(Default)]
struct List<'a>(Vec<(usize, &'a str, Opt)>);

impl<'a> List<'a> {
    fn unsubscribe(&mut self, c: usize, filter: &str) {
        self.0.retain(|s| s.0 != c || s.1 != filter);
    }
    fn subscribe(&mut self, c: usize, filter: &'a str, o: Opt) {
        self.unsubscribe(c, filter);
        self.0.push((c, filter, o));
    }
    fn remove_all(&mut self, c: usize) {
        self.0.retain(|s| s.0 != c);
    }
    fn get(&self, m: impl Fn(&str) -> bool) -> Found {
        let mut found = Found::new();
        for (c, f, o) in &self.0 {
            if m(f) {
                let e = found.entry(NAMES[*c].to_string()).or_insert((0, true));
                e.0 = e.0.max(o.qos);
                e.1 &= o.no_local;
            }
        }
        found
    }
}

// ---------------------------------------------------------------- matching

fn names(levels: &[&str], max: usize) -> Vec<String> {
    let mut all: Vec<String> = Vec::new();
    let mut last: Vec<String> = levels.iter().map(|l| l.to_string()).collect();
    for _ in 0..max {
        all.extend(last.iter().cloned());
        last = last.iter().flat_map(|n| levels.iter().map(move |l| format!("{}/{}", n, l))).collect();
    }
    all.retain(|n| !n.is_empty());
    all
}
/// All filters of up to `max` levels, `#` is one of them
fn filters(levels: &[&str], max: usize) -> Vec<String> {
    let mut with: Vec<&str> = levels.to_vec();
    with.push("+");
    let mut all = names(&with, max);
    let mut multi = vec!["#".to_string(), "/#".to_string()];
    multi.extend(names(&with, max - 1).into_iter().map(|n| format!("{}/#", n)));
    multi.sort();
    multi.dedup();
    all.extend(multi);
    // refused by the broker
    all.retain(|f| !f.starts_with("$share/"));
    all
}

/// Every filter alone against every topic
async fn singles(ctx: Rc<Ctx>, levels: &'static [&'static str], max: usize) {
    let fs = filters(levels, max);
    let ts = names(levels, max + 1);
    let parts = 16;
    let part = mc::pick(parts);
    for (i, f) in fs.iter().enumerate().skip(part).step_by(parts) {
        let s = Store::new();
        let opt = o((i % 3) as u8, i % 2 == 0);
        s.subscribe(0, f, opt).await;
        let mut l = List::default();
        l.subscribe(0, f, opt);
        ctx.history(1 + ts.len() as u64);
        for t in &ts {
            let got = s.get(t).await;
            let want = l.get(|f| matches(f, t));
            if !ctx.check(got == want, || format!("filter {:?}, topic {:?}: {:?} instead of {:?}", f, t, got, want)) {
                return;
            }
        }
    }
}

const OPTS: [Opt; 4] = [
    Opt { qos: 0, no_local: false, rap: true },
    o(1, true),
    o(2, false),
    Opt { qos: 0, no_local: true, rap: true },
];
/// Every combination of options
fn options() -> Vec<Opt> {
    (0..12u8).map(|i| Opt { qos: i % 3, no_local: i / 3 % 2 == 1, rap: i / 6 == 1 }).collect()
}

/// Every pair of filters: both held by one client, one of them by another as well
async fn pairs(ctx: Rc<Ctx>, levels: &'static [&'static str], max: usize, all_opts: bool) {
    let fs = filters(levels, max);
    let ts = names(levels, max);
    let table: Vec<Vec<bool>> = fs.iter().map(|f| ts.iter().map(|t| matches(f, t)).collect()).collect();
    let opts = options();
    let parts = 64;
    let part = mc::pick(parts);
    for i in (part..fs.len()).step_by(parts) {
        for j in 0..fs.len() {
            let combos = if all_opts { opts.len() * opts.len() } else { 1 };
            for k in 0..combos {
                let k = if all_opts { k } else { (i * 7 + j) % (opts.len() * opts.len()) };
                let (a, b) = (opts[k / opts.len()], opts[k % opts.len()]);
                let s = Store::new();
                let mut l = List::default();
                for (c, f, o) in [(0, i, a), (1, j, a), (0, j, b)] {
                    s.subscribe(c, &fs[f], o).await;
                    l.subscribe(c, &fs[f], o);
                }
                ctx.history(3 + ts.len() as u64);
                for (n, t) in ts.iter().enumerate() {
                    let got = s.get(t).await;
                    let want = l.get(|f| if f == fs[i] { table[i][n] } else { table[j][n] });
                    if !ctx.check(got == want, || {
                        format!("X: {:?} {:?}, {:?} {:?}, Y: {:?} {:?}, topic {:?}: {:?} instead of {:?}", fs[i], a, fs[j], b, fs[j], a, t, got, want)
                    }) {
                        return;
                    }
                }
            }
        }
    }
}

/// All sets of up to three filters with all options, of one client or three
async fn triples(ctx: Rc<Ctx>, levels: &'static [&'static str], max: usize) {
    let fs = filters(levels, max);
    let ts = names(levels, max + 1);
    let i = mc::pick(fs.len());
    for j in 0..fs.len() {
        for k in 0..fs.len() {
            for n in 0..64 {
                let (a, b, c) = (OPTS[n / 16], OPTS[n / 4 % 4], OPTS[n % 4]);
                let s = Store::new();
                let mut l = List::default();
                for (who, f, o) in [(0, i, a), (0, j, b), (0, k, c), (1, i, b), (1, k, a), (2, j, c)] {
                    s.subscribe(who, &fs[f], o).await;
                    l.subscribe(who, &fs[f], o);
                }
                ctx.history(6 + ts.len() as u64);
                for t in &ts {
                    let got = s.get(t).await;
                    let want = l.get(|f| matches(f, t));
                    if !ctx.check(got == want, || format!("{:?} {:?}, {:?} {:?}, {:?} {:?}, topic {:?}: {:?} instead of {:?}", fs[i], a, fs[j], b, fs[k], c, t, got, want)) {
                        return;
                    }
                }
            }
        }
    }
}

/// Deep and wide
async fn deep(ctx: Rc<Ctx>) {
    let depth = 1 + mc::pick(40);
    let kind = mc::pick(6);
    let s = Store::new();
    let mut l = List::default();
    let t = vec!["a"; depth].join("/");
    let all: Vec<String> = match kind {
        // one filter for every level
        0 => (0..depth).map(|i| format!("{}#", "a/".repeat(i))).collect(),
        // a wildcard at every level
        1 => (0..depth)
            .map(|i| (0..depth).map(|j| if i == j { "+" } else { "a" }).collect::<Vec<_>>().join("/"))
            .collect(),
        2 => vec![t.clone(), format!("{}/#", t), format!("{}/a", t), vec!["+"; depth].join("/")],
        3 => (0..depth * 20).map(|i| format!("{}/{}", t, i)).collect(),
        // long levels
        4 => (0..depth).map(|i| "x".repeat(i * 50 + 1)).collect(),
        // many empty levels
        _ => (1..=depth).map(|i| "/".repeat(i)).collect(),
    };
    for (i, f) in all.iter().enumerate() {
        let opt = OPTS[i % 4];
        s.subscribe(i % 3, f, opt).await;
        l.subscribe(i % 3, f, opt);
    }
    let mut ts = vec![t.clone(), format!("{}/a", t), format!("{}/b", t), format!("{}/", t), format!("/{}", t), format!("{}/0", t), "/".repeat(depth)];
    if depth > 1 {
        ts.push(vec!["a"; depth - 1].join("/"));
        ts.push(vec!["b"; depth].join("/"));
    }
    ts.push("x".repeat((depth / 2) * 50 + 1));
    for round in 0..4 {
        ctx.history(all.len() as u64 + ts.len() as u64);
        for t in &ts {
            let got = s.get(t).await;
            let want = l.get(|f| matches(f, t));
            if !ctx.check(got == want, || format!("depth {}, kind {}, topic {:?}: {:?} instead of {:?}", depth, kind, t, got, want)) {
                return;
            }
        }
        if round < 3 {
            s.remove_all(round).await;
            l.remove_all(round);
        }
    }
}

/// As many levels as a topic can have
async fn depth(ctx: Rc<Ctx>) {
    let levels = [2_000, 32_768, 65_536][mc::pick(3)];
    let level = if levels > 32_768 { "" } else { "a" };
    let t = vec![level; levels].join("/");
    let n = t.len();
    // not longer than 65535 bytes
    let f = match mc::pick(6) {
        0 => t.clone(),
        1 => format!("{}#", &t[..n - level.len()]),
        2 => format!("{}+", &t[..n - level.len()]),
        3 if level.is_empty() => format!("{}#", &t[..n - 1]),
        3 => vec!["+"; levels].join("/"),
        4 => format!("+{}", &t[level.len()..]),
        _ => format!("{}#", &t[..levels / 2 / (level.len() + 1) * (level.len() + 1)]),
    };
    if f.len() > 65535 || t.len() > 65535 {
        return;
    }
    let s = Store::new();
    let mut l = List::default();
    let o = [OPTS[0], OPTS[1]];
    let ts = [t.clone(), format!("{}/a", &t[..n - 2]), t[..n - 2].to_string(), "a".to_string()];
    for step in 0..6 {
        match step {
            0 => {
                s.subscribe(0, &f, o[0]).await;
                l.subscribe(0, &f, o[0]);
            }
            1 => {
                s.subscribe(1, &f, o[1]).await;
                l.subscribe(1, &f, o[1]);
            }
            2 => {
                s.unsubscribe(0, &f).await;
                l.unsubscribe(0, &f);
            }
            3 => {
                s.subscribe(0, "#", o[0]).await;
                l.subscribe(0, "#", o[0]);
            }
            4 => {
                s.remove_all(1).await;
                l.remove_all(1);
            }
            _ => {
                s.subscribe(2, &f, o[0]).await;
                l.subscribe(2, &f, o[0]);
            }
        }
        ctx.history(1 + ts.len() as u64);
        for (i, t) in ts.iter().enumerate() {
            let got = s.get(t).await;
            let want = l.get(|f| matches(f, t));
            if !ctx.check(got == want, || format!("a topic of {} levels ({}), after step {}: {:?} instead of {:?}", levels, i, step, got, want)) {
                return;
            }
        }
    }
}

/// The body enumerates by itself, there are no schedules
fn direct(s: Scenario) -> Scenario {
    s.cfg(|c| {
        c.points = 0;
        c.sched = false;
        c.max_ops = u64::MAX;
    })
}

pub fn t01() -> Vec<Scenario> {
    vec![
        direct(scenario("t01-singles", [0, 0], |c| singles(c, &["a", "b", "A", "", "$s"], 3))),
        direct(scenario("t01-singles-deep", [SKIP, 0], |c| singles(c, &["a", "b", "A", "", "$s"], 4))),
        direct(scenario("t01-singles-names", [0, 0], |c| {
            singles(c, &["a", "aa", "ab", " ", "$", "a$", "é", "\u{ffff}", "$share", "$SYS", "\u{1f600}"], 2)
        })),
        direct(scenario("t01-pairs", [0, 0], |c| pairs(c, &["a", "", "$s"], 2, true))),
        direct(scenario("t01-pairs-wide", [0, 0], |c| pairs(c, &["a", "b", "", "$s"], 3, false))),
        direct(scenario("t01-pairs-options", [0, 0], |c| pairs(c, &["a", "b", ""], 3, true))),
        direct(scenario("t01-triples", [0, 0], |c| triples(c, &["a"], 2))),
        direct(scenario("t01-triples-3", [SKIP, 0], |c| triples(c, &["a"], 3))),
        direct(scenario("t01-triples-2", [SKIP, 0], |c| triples(c, &["a", "b"], 2))),
        direct(scenario("t01-deep", [0, 0], deep)),
        direct(scenario("t01-depth", [0, 0], depth)),
        direct(scenario("t01-clients", [0, 0], many_clients)),
        direct(scenario("t01-filters", [0, 0], many_filters)),
    ]
}

// ---------------------------------------------------------------- histories

#[derive(Clone, Copy, Debug, Hash)]
enum Op {
    Sub(usize, &'static str, Opt),
    Unsub(usize, &'static str),
    All(usize),
    Get(&'static str),
}

impl Op {
    async fn run(self, s: &Store) -> Option<Found> {
        match self {
            Op::Sub(c, f, o) => s.subscribe(c, f, o).await,
            Op::Unsub(c, f) => s.unsubscribe(c, f).await,
            Op::All(c) => s.remove_all(c).await,
            Op::Get(t) => return Some(s.get(t).await),
        }
        None
    }
    fn apply(self, l: &mut List<'static>) {
        match self {
            Op::Sub(c, f, o) => l.subscribe(c, f, o),
            Op::Unsub(c, f) => l.unsubscribe(c, f),
            Op::All(c) => l.remove_all(c),
            Op::Get(_) => (),
        }
    }
}

fn menu(clients: usize, fs: &[&'static str], opts: &[Opt]) -> Vec<Op> {
    let mut v = Vec::new();
    for c in 0..clients {
        for f in fs {
            v.extend(opts.iter().map(|o| Op::Sub(c, f, *o)));
            v.push(Op::Unsub(c, f));
        }
        v.push(Op::All(c));
    }
    v
}

/// All operation sequences of length `len`; every shorter one is the beginning of one of them
async fn sequences(ctx: Rc<Ctx>, clients: usize, fs: &'static [&'static str], opts: &'static [Opt], topics: &'static [&'static str], len: usize) {
    histories(ctx, clients, fs, opts, topics, len, false).await
}

/// The same with all lookups after every operation, so that the lookups are part of the history.
/// Their order alternates: each topic is looked up right before and right after an operation
async fn histories(ctx: Rc<Ctx>, clients: usize, fs: &'static [&'static str], opts: &'static [Opt], topics: &'static [&'static str], len: usize, seen: bool) {
    let first = if seen { mc::pick(topics.len()) } else { 0 };
    let menu = menu(clients, fs, opts);
    let n = menu.len();
    // the first two operations select the part
    let split = if len > 2 { 2 } else { 1 };
    let mut seq: Vec<usize> = (0..split).map(|_| mc::pick(n)).collect();
    seq.resize(len, 0);
    loop {
        let s = Store::new();
        let mut l = List::default();
        for (step, i) in seq.iter().enumerate() {
            menu[*i].run(&s).await;
            menu[*i].apply(&mut l);
            if !seen && step + 1 < len {
                continue;
            }
            for k in 0..topics.len() {
                let k = if step % 2 == 0 { k } else { topics.len() - 1 - k };
                let t = topics[(k + first) % topics.len()];
                let got = s.get(t).await;
                let want = l.get(|f| matches(f, t));
                if !ctx.check(got == want, || {
                    let ops: Vec<Op> = seq[..step + 1].iter().map(|i| menu[*i]).collect();
                    format!("after {:?} topic {:?}: {:?} instead of {:?}", ops, t, got, want)
                }) {
                    return;
                }
            }
        }
        ctx.history((len + topics.len()) as u64);
        let mut at = len;
        loop {
            if at == split {
                return;
            }
            at -= 1;
            seq[at] += 1;
            if seq[at] < n {
                break;
            }
            seq[at] = 0;
        }
    }
}

const TWO: &[Opt] = &[o(0, false), o(2, true)];
const ONE: &[Opt] = &[o(1, false)];
const WIDE: &[&str] = &["a", "a/b", "+", "+/b", "#", "a/#", "/a", "$s/#"];
const WIDE_T: &[&str] = &["a", "a/b", "/a", "$s/a", "a/b/c", "b"];

pub fn t02() -> Vec<Scenario> {
    vec![
        direct(scenario("t02-wide-2", [0, 0], |c| sequences(c, 2, WIDE, &OPTS, WIDE_T, 2))),
        direct(scenario("t02-seen-2", [0, 0], |c| histories(c, 2, WIDE, &OPTS, WIDE_T, 2, true))),
        direct(scenario("t02-seen-3", [0, 0], |c| histories(c, 2, WIDE, TWO, WIDE_T, 3, true))),
        direct(scenario("t02-seen-4", [0, 0], |c| histories(c, 2, &["a", "a/b", "+", "a/#"], ONE, &["a", "a/b", "b"], 4, true))),
        direct(scenario("t02-seen-5", [0, 0], |c| histories(c, 2, &["a", "#"], ONE, &["a", "b"], 5, true))),
        direct(scenario("t02-seen-6", [SKIP, 0], |c| histories(c, 2, &["a/b", "a/#"], TWO, &["a", "a/b"], 6, true))),
        direct(scenario("t02-wide-3", [0, 0], |c| sequences(c, 2, WIDE, TWO, WIDE_T, 3))),
        direct(scenario("t02-wide-4", [0, 0], |c| sequences(c, 2, WIDE, TWO, WIDE_T, 4))),
        direct(scenario("t02-three-clients", [0, 0], |c| sequences(c, 3, &["a/b", "a/#"], TWO, &["a/b", "a"], 4))),
        direct(scenario("t02-overlap", [0, 0], |c| sequences(c, 2, &["a", "a/#", "+"], ONE, &["a", "b"], 5))),
        direct(scenario("t02-overlap-long", [SKIP, 0], |c| sequences(c, 2, &["a", "a/#", "+"], ONE, &["a", "b"], 6))),
        direct(scenario("t02-nested", [0, 0], |c| sequences(c, 1, &["a", "a/b", "a/b/c", "a/b/#", "a/+/c"], ONE, &["a", "a/b", "a/b/c"], 5))),
        direct(scenario("t02-nested-long", [SKIP, 0], |c| sequences(c, 1, &["a", "a/b", "a/b/c", "a/b/#", "a/+/c"], ONE, &["a", "a/b", "a/b/c"], 7))),
        direct(scenario("t02-mid", [SKIP, 0], |c| sequences(c, 2, &["a", "a/b", "+/b", "#", "/a"], ONE, &["a/b", "/a", "a"], 6))),
        direct(scenario("t02-same", [0, 0], |c| sequences(c, 1, &["a/b"], &OPTS, &["a/b", "a"], 7))),
        direct(scenario("t02-window", [0, 0], |c| window(c, 2, &["a", "a/b", "a/#"], ONE, &["a", "a/b"], 4))),
        direct(scenario("t02-window-options", [0, 0], |c| window(c, 2, &["a/b", "#"], &OPTS, &["a/b", "c"], 3))),
        direct(scenario("t02-window-3", [0, 0], |c| window(c, 3, WIDE, TWO, WIDE_T, 2))),
        direct(scenario("t02-window-5", [0, 0], |c| window(c, 2, &["a", "a/b", "a/#"], ONE, &["a", "a/b"], 5))),
        direct(scenario("t02-window-6", [0, 0], |c| window(c, 1, &["a", "a/b", "a/#"], TWO, &["a", "a/b"], 5))),
        direct(scenario("t02-empty", [0, 0], |c| sequences(c, 1, &["/", "//", "/+", "/#"], ONE, &["/", "//", "/a", "///"], 5))),
    ]
}

// ---------------------------------------------------------------- large tables

/// A table of any number of clients, and the same as a list
struct Large {
    table: TopicsTable,
    ids: Vec<Arc<str>>,
    list: Vec<BTreeMap<String, Opt>>,
}
impl Large {
    fn new(clients: usize) -> Self {
        Large {
            table: TopicsTable::new(),
            ids: (0..clients).map(|i| Arc::from(format!("client{}", i))).collect(),
            list: vec![BTreeMap::new(); clients],
        }
    }
    async fn subscribe(&mut self, c: usize, f: &str, o: Opt) {
        self.table.subscribe(self.ids[c].clone(), Arc::from(f), qos(o.qos), flags(o)).await;
        self.list[c].insert(f.to_string(), o);
    }
    async fn unsubscribe(&mut self, c: usize, f: &str) {
        self.table.unsubscribe(self.ids[c].clone(), f).await;
        self.list[c].remove(f);
    }
    async fn remove_all(&mut self, c: usize) {
        self.table.unsubscribe_all(self.ids[c].clone()).await;
        self.list[c].clear();
    }
    /// Whether a lookup finds what the list says
    async fn same(&self, ctx: &Ctx, topic: &str, after: impl Fn() -> String) -> bool {
        let got: Found = self
            .table
            .get_all_subscribed(topic)
            .await
            .iter()
            .map(|(c, i)| (c.to_string(), (level(&i.qos), i.flags.contains(SubscriptionFlags::NO_LOCAL))))
            .collect();
        let mut want = Found::new();
        for (c, fs) in self.list.iter().enumerate() {
            for (_, o) in fs.iter().filter(|(f, _)| matches(f, topic)) {
                let e = want.entry(self.ids[c].to_string()).or_insert((0, true));
                e.0 = e.0.max(o.qos);
                e.1 &= o.no_local;
            }
        }
        ctx.check(got == want, || {
            let first = got.iter().find(|(c, o)| want.get(*c) != Some(o)).or(want.iter().find(|(c, _)| !got.contains_key(*c)));
            format!("{}, topic {:?}: {} clients instead of {}, different: {:?}", after(), topic, got.len(), want.len(), first)
        })
    }
}

const SIZES: &[usize] = &[1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 4097];

/// So many clients, each with one to three filters, which leave one after the other
async fn many_clients(ctx: Rc<Ctx>) {
    let n = SIZES[mc::pick(SIZES.len())];
    let set: &[&str] = [&["a"][..], &["a/b", "a/+", "#"][..], &["a/b", "a/#", "+/b", "b", "+"][..]][mc::pick(3)];
    let mut l = Large::new(n);
    for c in 0..n {
        for k in 0..set.len().min(3) {
            l.subscribe(c, set[(c + k) % set.len()], OPTS[(c / 3 + k) % 4]).await;
        }
    }
    ctx.history(n as u64);
    let ts = ["a", "a/b", "b", "c/b", "a/b/c"];
    for t in ts {
        if !l.same(&ctx, t, || format!("{} clients with {:?}", n, set)).await {
            return;
        }
    }
    // down to the last one, looking at every power of two
    for c in (0..n).rev() {
        match c % 3 {
            0 => l.remove_all(c).await,
            _ => {
                for k in 0..set.len().min(3) {
                    l.unsubscribe(c, set[(c + k) % set.len()]).await;
                }
            }
        }
        if c < 4 || c.is_power_of_two() {
            for t in ts {
                if !l.same(&ctx, t, || format!("{} of {} clients with {:?} left", n - c, n, set)).await {
                    return;
                }
            }
        }
    }
}

/// One client with so many filters, another with one of them
async fn many_filters(ctx: Rc<Ctx>) {
    let n = SIZES[mc::pick(SIZES.len())];
    let kind = mc::pick(4);
    let name = |i: usize| match kind {
        // siblings
        0 => format!("a/{}", i),
        1 => format!("{}", i),
        // a tree
        2 => format!("{}/{}/{}", i / 64, i / 8 % 8, i % 8),
        // filters that match the same topics
        _ => (0..13).map(|b| if i >> b & 1 == 1 { "+" } else { "x" }).collect::<Vec<_>>().join("/"),
    };
    let mut l = Large::new(3);
    for i in 0..n {
        l.subscribe(0, &name(i), OPTS[i % 4]).await;
        if i % 5 == 0 {
            l.subscribe(1, &name(i), OPTS[(i + 1) % 4]).await;
        }
    }
    l.subscribe(2, &name(n - 1), OPTS[2]).await;
    ctx.history(n as u64);
    let mut ts: Vec<String> = [0, 1, n / 3, n / 2, n.saturating_sub(2), n - 1, n].iter().map(|i| name(*i).replace('+', "y")).collect();
    ts.dedup();
    for step in 0..5 {
        for t in &ts {
            if !l.same(&ctx, t, || format!("{} filters like {:?}, step {}", n, name(n - 1), step)).await {
                return;
            }
        }
        match step {
            // every other one is given up
            0 => {
                for i in (0..n).step_by(2) {
                    l.unsubscribe(0, &name(i)).await;
                }
            }
            1 => l.remove_all(1).await,
            2 => l.remove_all(0).await,
            _ => {
                for i in (0..n).rev() {
                    l.subscribe(0, &name(i), OPTS[(i + step) % 4]).await;
                }
            }
        }
    }
}

/// One table is used for long: every sequence of `k` operations out of `menu` happens on it (a de Bruijn sequence),
/// all topics are looked up after every operation
async fn window(ctx: Rc<Ctx>, clients: usize, fs: &'static [&'static str], opts: &'static [Opt], topics: &'static [&'static str], k: usize) {
    let menu = menu(clients, fs, opts);
    let n = menu.len();
    // the part is given by a rotation of the menu, which gives another order of the same sequences
    let turn = mc::pick(2) * (n / 2);
    let mut a = vec![0usize; n * k];
    let mut seq: Vec<usize> = Vec::new();
    fn db(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, seq: &mut Vec<usize>) {
        if t > k {
            if k % p == 0 {
                seq.extend_from_slice(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        db(t + 1, p, n, k, a, seq);
        for j in a[t - p] + 1..n {
            a[t] = j;
            db(t + 1, t, n, k, a, seq);
        }
    }
    db(1, 1, n, k, &mut a, &mut seq);
    let head: Vec<usize> = seq[..k - 1].to_vec();
    seq.extend(head);
    let s = Store::new();
    let mut l = List::default();
    for (step, i) in seq.iter().enumerate() {
        let op = menu[(*i + turn) % n];
        op.run(&s).await;
        op.apply(&mut l);
        for t in topics {
            let got = s.get(t).await;
            let want = l.get(|f| matches(f, t));
            if !ctx.check(got == want, || {
                let ops: Vec<Op> = seq[..step + 1].iter().rev().take(k + 3).rev().map(|i| menu[(*i + turn) % n]).collect();
                format!("after {} operations, the last of which {:?}, topic {:?}: {:?} instead of {:?}", step + 1, ops, t, got, want)
            }) {
                return;
            }
        }
    }
    ctx.history(seq.len() as u64);
}

// ---------------------------------------------------------------- concurrency

/// One operation of one task
#[derive(Clone, Debug)]
struct Event {
    start: u64,
    end: u64,
    op: Op,
    found: Option<Found>,
}

/// A change of one subscription, which is a regular register
#[derive(Clone, Copy, Debug)]
struct Access {
    start: u64,
    end: u64,
    value: Option<Opt>,
}

fn judge(ctx: &Ctx, initial: &List<'static>, events: &[Event]) {
    let mut fs: Vec<&str> = initial.0.iter().map(|s| s.1).collect();
    for e in events {
        match e.op {
            Op::Sub(_, f, _) | Op::Unsub(_, f) => fs.push(f),
            _ => (),
        }
    }
    fs.sort();
    fs.dedup();
    for c in 0..NAMES.len() {
        // which filters this client may have held
        let mine: Vec<&str> = fs
            .iter()
            .copied()
            .filter(|f| {
                initial.0.iter().any(|s| s.0 == c && s.1 == *f)
                    || events.iter().any(|e| matches!(e.op, Op::Sub(x, g, _) if x == c && g == *f))
            })
            .collect();
        let start_value = |f: &str| initial.0.iter().find(|s| s.0 == c && s.1 == f).map(|s| s.2);
        let writes = |f: &str| -> Vec<Access> {
            let mut w: Vec<Access> = events
                .iter()
                .filter_map(|e| {
                    let value = match e.op {
                        Op::Sub(x, g, o) if x == c && g == f => Some(o),
                        Op::Unsub(x, g) if x == c && g == f => None,
                        Op::All(x) if x == c => None,
                        _ => return None,
                    };
                    Some(Access { start: e.start, end: e.end, value })
                })
                .collect();
            // removals of the same subscription that overlap are effective when all have returned
            loop {
                let mut changed = false;
                for i in 0..w.len() {
                    for j in 0..w.len() {
                        let (a, b) = (w[i], w[j]);
                        if a.value.is_none() && b.value.is_none() && b.start < a.end && a.end < b.end {
                            w[i].end = b.end;
                            changed = true;
                        }
                    }
                }
                if !changed {
                    return w;
                }
            }
        };
        let reads = || events.iter().filter_map(|e| match (e.op, &e.found) {
            (Op::Get(t), Some(f)) => Some((e, t, f.get(NAMES[c]).copied())),
            _ => None,
        });
        // a lookup combines values each of which is current, or being changed
        for (e, t, got) in reads() {
            let relevant: Vec<_> = mine.iter().filter(|g| matches(g, t)).collect();
            if relevant.is_empty() {
                ctx.check(got.is_none(), || format!("{} found for {:?}: {:?}", NAMES[c], t, events));
            }
            let mut combos: Vec<Option<(u8, bool)>> = vec![None];
            for f in relevant {
                let w = writes(f);
                let mut may = Vec::new();
                // not overwritten before the lookup began
                for a in &w {
                    if a.start < e.end && !w.iter().any(|b| a.end < b.start && b.end < e.start) {
                        may.push(a.value);
                    }
                }
                if !w.iter().any(|b| b.end < e.start) {
                    may.push(start_value(f));
                }
                combos = combos
                    .iter()
                    .flat_map(|x| {
                        may.iter().map(move |v| match (x, v) {
                            (None, v) => v.map(|o| (o.qos, o.no_local)),
                            (x, None) => *x,
                            (Some(x), Some(o)) => Some((x.0.max(o.qos), x.1 & o.no_local)),
                        })
                    })
                    .collect();
            }
            ctx.check(combos.contains(&got), || {
                format!("{} is found as {:?} for {:?}, possible are {:?}: {:?}", NAMES[c], got, t, combos, events)
            });
        }
    }
}

async fn concurrent(ctx: Rc<Ctx>, initial: &[&[Op]], menu: &'static [Op], shape: &[usize], finals: &'static [&'static str]) {
    let s = Rc::new(Store::new());
    let mut l = List::default();
    for op in initial[mc::pick(initial.len())] {
        op.run(&s).await;
        op.apply(&mut l);
    }
    let events = Rc::new(RefCell::new(Vec::new()));
    let mut joins = Vec::new();
    let mut last = 0;
    for (task, n) in shape.iter().enumerate() {
        let mut ops = Vec::new();
        for i in 0..*n {
            // tasks of one operation are interchangeable
            let lo = if *n == 1 && i == 0 && task > 0 && shape[task - 1] == 1 { last } else { 0 };
            last = lo + mc::pick(menu.len() - lo);
            ops.push(menu[last]);
        }
        let (s, ctx, events) = (s.clone(), ctx.clone(), events.clone());
        joins.push(mc::spawn(["one", "two", "three", "four"][task], async move {
            for op in ops {
                let start = ctx.tick();
                let found = op.run(&s).await;
                let end = ctx.tick();
                events.borrow_mut().push(Event { start, end, op, found });
            }
        }));
    }
    mc::calm(false);
    for j in joins {
        ctx.check(j.await.is_ok(), || "a task panicked".to_string());
    }
    mc::calm(true);
    let mut all = events.borrow().clone();
    for t in finals {
        let start = ctx.tick();
        let found = Some(s.get(t).await);
        let end = ctx.tick();
        all.push(Event { start, end, op: Op::Get(t), found });
    }
    for e in &all {
        ctx.observe(&e.found);
    }
    judge(&ctx, &l, &all);
    // nothing survives the removal of everything
    for c in 0..NAMES.len() {
        s.remove_all(c).await;
        for t in finals {
            let got = s.get(t).await;
            ctx.check(!got.contains_key(NAMES[c]), || format!("{} keeps a subscription for {:?} after all were removed: {:?}", NAMES[c], t, all));
        }
    }
    for t in finals {
        ctx.check(s.get(t).await.is_empty(), || format!("{:?} has a subscriber", t));
    }
}

const P: Opt = o(0, false);
const Q: Opt = o(2, true);
const FINALS: &[&str] = &["a", "a/b", "a/c", "a/b/c", "d"];
const MENU: &[Op] = &[
    Op::Sub(0, "a/b", P),
    Op::Sub(0, "a/b", Q),
    Op::Sub(1, "a/b", P),
    Op::Sub(1, "a/c", P),
    Op::Sub(1, "a/b/c", Q),
    Op::Sub(0, "a/#", Q),
    Op::Sub(0, "+/b", P),
    Op::Sub(1, "#", P),
    Op::Unsub(0, "a/b"),
    Op::Unsub(1, "a/b"),
    Op::All(0),
    Op::All(1),
    Op::Get("a/b"),
    Op::Get("a"),
];
const SMALL: &[Op] = &[
    Op::Sub(0, "a/b", P),
    Op::Sub(0, "a/b", Q),
    Op::Sub(1, "a/c", P),
    Op::Unsub(0, "a/b"),
    Op::All(0),
    Op::Get("a/b"),
];
const INITIAL: &[&[Op]] = &[
    &[],
    &[Op::Sub(0, "a/b", P)],
    &[Op::Sub(0, "a/b", Q), Op::Sub(0, "a/#", P), Op::Sub(1, "a/b", P)],
    &[Op::Sub(0, "a/b", P), Op::Unsub(0, "a/b")],
];

pub fn t03() -> Vec<Scenario> {
    vec![
        scenario("t03-two", [3, 5], |c| concurrent(c, INITIAL, MENU, &[1, 1], FINALS)).calm(),
        scenario("t03-three", [1, 3], |c| concurrent(c, &INITIAL[..3], MENU, &[1, 1, 1], FINALS)).calm(),
        scenario("t03-three-small", [2, 4], |c| concurrent(c, &INITIAL[..2], SMALL, &[1, 1, 1], FINALS)).calm(),
        scenario("t03-two-two", [1, 3], |c| concurrent(c, &INITIAL[..2], SMALL, &[2, 2], FINALS)).calm(),
        scenario("t03-two-two-menu", [SKIP, 1], |c| concurrent(c, &INITIAL[..1], MENU, &[2, 2], FINALS)).calm(),
        scenario("t03-three-two", [0, 2], |c| concurrent(c, &INITIAL[..2], SMALL, &[3, 2], FINALS)).calm(),
        scenario("t03-four", [0, 2], |c| concurrent(c, &INITIAL[1..3], SMALL, &[1, 1, 1, 1], FINALS)).calm(),
    ]
}
