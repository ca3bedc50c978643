//! B01 to B04: delivery, order, no-local, acknowledgements

use crate::client::*;
use crate::explore::*;
use crate::oracle::matches;
use crate::wire::{self, Pkt, NO_LOCAL, RAP, SUB};
use std::rc::Rc;
use tokio::mc;

pub fn count(c: &Client, payload: &[u8]) -> usize {
    c.messages().iter().filter(|p| &p[..] == payload).count()
}

/// All publishes a client received must be well formed QoS 0 messages
pub fn clean(ctx: &Ctx, c: &Client) {
    for p in c.received() {
        match &p {
            Pkt::Publish { flags, .. } => {
                ctx.check(*flags == 0, || format!("{} got a PUBLISH with flags {}", c.name(), flags));
            }
            Pkt::Malformed(b) => ctx.fail(format!("{} got malformed bytes {}", c.name(), hex(b))),
            _ => (),
        }
    }
    ctx.check(c.leftover() == 0, || format!("{} got an incomplete packet", c.name()));
}

pub fn grant(ctx: &Ctx, c: &Client, got: Option<Vec<u8>>, n: usize) {
    ctx.check(got == Some(vec![0; n]), || {
        format!("the subscription of {} is not granted: {:?}", c.name(), got)
    });
}

const SETS: &[&[&str]] = &[
    &[],
    &["a/b"],
    &["a/+"],
    &["a/#"],
    &["#"],
    &["+/b"],
    &["a/b", "a/#"],
    &["a/b", "#", "+/+", "a/+"],
    &["/b"],
    &["+/+/c", "a"],
    &["a/b/#", "/#"],
    &["$SYS/x", "+/x"],
    &["A/b", "a/b/"],
    &["/", "+"],
];
const TOPICS: &[&str] = &[
    "a/b", "a", "a/b/c", "/b", "$SYS/x", "A/b", "a/b/", "/", "b", "q/x",
];

fn matrix(sets: &'static [&'static [&'static str]]) -> impl Fn(Rc<Ctx>) -> Fut + Send + Sync {
    move |ctx| {
        Box::pin(async move {
            let _b = Broker::start(Opts::default()).await;
            let mut cs = Vec::new();
            for id in ["A", "B", "C"] {
                cs.push(client(&ctx, id).await);
            }
            let mut subs: Vec<&[&str]> = Vec::new();
            for c in &cs[..2] {
                let s = sets[mc::pick(sets.len())];
                subs.push(s);
                let with: Vec<_> = s.iter().map(|f| (*f, SUB)).collect();
                if !with.is_empty() {
                    let got = c.subscribe(1, &with).await;
                    grant(&ctx, c, got, s.len());
                }
            }
            subs.push(&[]);
            let publisher = mc::pick(3);
            for (i, t) in TOPICS.iter().enumerate() {
                cs[publisher].publish(t, format!("m{}", i).as_bytes());
            }
            settle().await;
            for (c, s) in cs.iter().zip(&subs) {
                clean(&ctx, c);
                for (i, t) in TOPICS.iter().enumerate() {
                    let expect = s.iter().any(|f| matches(f, t)) as usize;
                    let n = count(c, format!("m{}", i).as_bytes());
                    ctx.observe(&n);
                    ctx.check(n == expect, || {
                        format!(
                            "{} with subscriptions {:?} got {} copies of a message for {:?}, expected {}",
                            c.name(), s, n, t, expect
                        )
                    });
                }
                let total = c.messages().len();
                let expect = TOPICS.iter().filter(|t| s.iter().any(|f| matches(f, t))).count();
                ctx.check(total == expect, || {
                    format!("{} got {} messages instead of {}", c.name(), total, expect)
                });
                for p in c.received() {
                    if let Pkt::Publish { topic, payload, .. } = p {
                        let i: Option<usize> = std::str::from_utf8(&payload[1..]).ok().and_then(|s| s.parse().ok());
                        ctx.check(i.map(|i| TOPICS.get(i) == Some(&&*topic)) == Some(true), || {
                            format!("{} got payload {:?} with topic {:?}", c.name(), payload, topic)
                        });
                    }
                }
            }
        })
    }
}

fn user(s: &str) -> Vec<u8> {
    // the codec under test represents a user property by a single string
    let mut v = vec![38];
    v.extend(wire::string(s));
    v
}
fn p_str(id: u8, s: &str) -> Vec<u8> {
    let mut v = vec![id];
    v.extend(wire::string(s));
    v
}

/// Property blocks of a PUBLISH that are forwarded
pub fn forwarded_props() -> Vec<Vec<u8>> {
    let long = "x".repeat(130);
    vec![
        vec![],
        vec![1, 0],
        vec![1, 1],
        p_str(3, "text/plain"),
        p_str(3, ""),
        p_str(8, "re/sponse"),
        vec![9, 0, 0],
        vec![9, 0, 3, 0, 255, 128],
        p_str(3, &long),
        [vec![1, 1], p_str(3, "c"), p_str(8, "r"), vec![9, 0, 1, 7]].concat(),
    ]
}

async fn content(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts { noise: true, ..Opts::default() }).await;
    let p = any_client(&ctx, "P", mc::pick(2) == 1).await;
    let s = any_client(&ctx, "S", mc::pick(2) == 1).await;
    let got = s.subscribe(1, &[("t/#", SUB)]).await;
    grant(&ctx, &s, got, 1);
    let blocks = forwarded_props();
    let block = &blocks[mc::pick(blocks.len())];
    let sizes = [0usize, 1, 2, 100, 126, 127, 128, 129, 250, 700];
    let size = sizes[mc::pick(sizes.len())];
    let topics = ["t", "t/ä/x", "t//"];
    let topic = topics[mc::pick(topics.len())];
    let payload: Vec<u8> = (0..size).map(|i| (i * 7 + 250) as u8).collect();
    let packet = wire::publish_with(0, topic, None, block, &payload);
    let sent = wire::single(packet.clone());
    p.send(&packet);
    settle().await;
    let got: Vec<Pkt> = s.received().into_iter().filter(|x| x.is_publish()).collect();
    ctx.observe(&got);
    ctx.check(got == vec![sent.clone()], || format!("sent {} but {:?} arrived", show(&sent), got));
    clean(&ctx, &s);
    let own = p.messages();
    ctx.check(own.is_empty(), || "the publisher got a message it is not subscribed to".to_string());
}

/// Concurrent publishers, subscribers and a client that subscribes meanwhile
async fn concurrent(ctx: Rc<Ctx>, queue: usize) {
    let _b = Broker::start(Opts { queue, ..Opts::default() }).await;
    let a = client(&ctx, "A").await;
    let b = client(&ctx, "B").await;
    let p = client(&ctx, "P").await;
    let d = client(&ctx, "D").await;
    let g = a.subscribe(1, &[("t/#", SUB), ("t/1", SUB)]).await;
    grant(&ctx, &a, g, 2);
    let g = b.subscribe(1, &[("t/1", SUB)]).await;
    grant(&ctx, &b, g, 1);
    settle().await;
    let (p2, a2, d2) = (p.clone(), a.clone(), d.clone());
    let t1 = mc::spawn("P", async move {
        p2.publish("t/1", b"p1");
        p2.publish("t/2", b"p2");
    });
    let t2 = mc::spawn("A", async move {
        a2.publish("t/1", b"a1");
        a2.publish("u", b"a2");
    });
    let ctx2 = ctx.clone();
    let t3 = mc::spawn("D", async move {
        let r = d2.subscribe(5, &[("+/1", SUB), ("u", SUB)]).await;
        ctx2.check(r == Some(vec![0, 0]), || format!("D is not granted: {:?}", r));
        d2.publish("t/1", b"d1");
    });
    let _ = t1.await;
    let _ = t2.await;
    let _ = t3.await;
    settle().await;
    let expect = |c: &Client, m: &[u8], lo: usize, hi: usize| {
        let n = count(c, m);
        ctx.observe(&n);
        ctx.check(n >= lo && n <= hi, || {
            format!("{} got {} copies of {:?}", c.name(), n, String::from_utf8_lossy(m))
        });
    };
    for (m, a_, b_, lo) in [
        (b"p1", 1, 1, 0),
        (b"a1", 1, 1, 0),
        (b"d1", 1, 1, 1),
    ] {
        expect(&a, m, a_, a_);
        expect(&b, m, b_, b_);
        expect(&d, m, lo, 1);
    }
    expect(&a, b"p2", 1, 1);
    expect(&b, b"p2", 0, 0);
    expect(&d, b"p2", 0, 0);
    expect(&a, b"a2", 0, 0);
    expect(&b, b"a2", 0, 0);
    expect(&d, b"a2", 0, 1);
    ctx.check(p.messages().is_empty(), || "P got a message".to_string());
    for c in [&a, &b, &p, &d] {
        clean(&ctx, c);
    }
}

/// Clients come and go while others publish
async fn churn(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts::default()).await;
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    let how = mc::pick(3);
    let ctx2 = ctx.clone();
    let x = Client::open(&ctx, "X");
    let x2 = x.clone();
    let t1 = mc::spawn("X", async move {
        connected(&ctx2, &x2, "X").await;
        x2.subscribe(1, &[("t", SUB), ("+", SUB)]).await;
        x2.publish("t", b"x1");
        match how {
            0 => x2.close(),
            1 => x2.reset(),
            _ => x2.half_close(),
        }
    });
    let p2 = p.clone();
    let t2 = mc::spawn("P", async move {
        p2.publish("t", b"p1");
        settle().await;
        p2.publish("t", b"p2");
    });
    let _ = t1.await;
    let _ = t2.await;
    settle().await;
    p.publish("t", b"p3");
    s.publish("t", b"s1");
    settle().await;
    for (m, lo) in [(&b"p1"[..], 1), (b"p2", 1), (b"p3", 1), (b"s1", 1), (b"x1", 0)] {
        let n = count(&s, m);
        ctx.observe(&n);
        ctx.check(n >= lo && n <= 1, || {
            format!("S got {} copies of {:?}", n, String::from_utf8_lossy(m))
        });
    }
    clean(&ctx, &s);
    clean(&ctx, &p);
}

/// Many subscribers, so that every position of a delivery round matters
async fn fanout(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts::default()).await;
    let mut cs = Vec::new();
    for i in 0..6 {
        let c = client(&ctx, &format!("c{}", i)).await;
        let f = ["t", "+", "#", "t/#", "u", "t"][i];
        let g = c.subscribe(1, &[(f, SUB | if i == 5 { NO_LOCAL } else { 0 })]).await;
        grant(&ctx, &c, g, 1);
        cs.push(c);
    }
    settle().await;
    let leaver = mc::pick(7);
    let who = mc::pick(6);
    let c = cs[who].clone();
    let t = mc::spawn("publisher", async move {
        c.publish("t", b"1");
        c.publish("t", b"2");
        c.publish("u", b"3");
    });
    if leaver < 6 && leaver != who {
        cs[leaver].reset();
    }
    let _ = t.await;
    settle().await;
    for (i, c) in cs.iter().enumerate() {
        if i == leaver && i != who {
            continue;
        }
        let expect: &[usize; 3] = match i {
            4 => &[0, 0, 1],
            1 | 2 => &[1, 1, 1],
            5 if who == 5 => &[0, 0, 0],
            _ => &[1, 1, 0],
        };
        let got = [count(c, b"1"), count(c, b"2"), count(c, b"3")];
        ctx.observe(&got);
        ctx.check(&got == expect, || {
            format!("c{} got {:?} instead of {:?} (publisher c{}, c{} left)", i, got, expect, who, leaver)
        });
    }
}

pub fn b01() -> Vec<Scenario> {
    let mut v = vec![
        scenario("b01-matrix", [0, 2], matrix(SETS)),
        scenario("b01-content", [0, 2], content),
        scenario("b01-concurrent", [2, 4], |c| concurrent(c, 1 << 16)),
        scenario("b01-concurrent-q1", [2, 4], |c| concurrent(c, 0)),
        scenario("b01-churn", [2, 4], churn),
        scenario("b01-fanout", [1, 3], fanout),
    ];
    for seed in 2..4 {
        v.push(scenario(format!("b01-fanout-seed{}", seed), [1, 2], fanout).seed(seed));
    }
    v
}

// ---------------------------------------------------------------- order

fn is_subsequence(part: &[Vec<u8>], whole: &[&str]) -> bool {
    let mut it = whole.iter();
    part.iter().all(|p| it.any(|w| w.as_bytes() == &p[..]))
}

async fn burst(ctx: Rc<Ctx>, queue: usize, noise: bool) {
    let _b = Broker::start(Opts { queue, noise, ..Opts::default() }).await;
    let p = any_client(&ctx, "P", noise).await;
    let s = any_client(&ctx, "S", noise).await;
    let u = client(&ctx, "U").await;
    let g = s.subscribe(1, &[("t/#", SUB)]).await;
    grant(&ctx, &s, g, 1);
    let g = u.subscribe(1, &[("t/+", SUB), ("#", SUB)]).await;
    grant(&ctx, &u, g, 2);
    settle().await;
    // the messages in one write, or one after the other
    let together = mc::pick(2) == 0;
    let names = ["1", "2", "3", "4"];
    let p2 = p.clone();
    let t1 = mc::spawn("P", async move {
        let mut all = Vec::new();
        for (i, n) in names.iter().enumerate() {
            let m = p2.encrypt(&wire::publish(["t/a", "t/b"][i % 2], n.as_bytes()));
            if together {
                all.extend(m);
            } else {
                p2.raw(&m);
                tokio::task::yield_now().await;
            }
        }
        if together {
            p2.raw(&all);
        }
    });
    let _ = t1.await;
    settle().await;
    for c in [&s, &u] {
        let got = c.messages();
        ctx.observe(&got);
        let want: Vec<Vec<u8>> = names.iter().map(|n| n.as_bytes().to_vec()).collect();
        ctx.check(got == want, || format!("{} got {:?}", c.name(), got.iter().map(|g| String::from_utf8_lossy(g).to_string()).collect::<Vec<_>>()));
    }
}

async fn two_publishers(ctx: Rc<Ctx>, queue: usize) {
    let _b = Broker::start(Opts { queue, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    let q = client(&ctx, "Q").await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    let send = |c: &Client, names: [&'static str; 3]| {
        let c = c.clone();
        mc::spawn("publisher", async move {
            for n in names {
                c.publish("t", n.as_bytes());
                tokio::task::yield_now().await;
            }
        })
    };
    let t1 = send(&p, ["p1", "p2", "p3"]);
    let t2 = send(&q, ["q1", "q2", "q3"]);
    let _ = t1.await;
    let _ = t2.await;
    settle().await;
    let got = s.messages();
    ctx.observe(&got);
    for names in [["p1", "p2", "p3"], ["q1", "q2", "q3"]] {
        let part: Vec<Vec<u8>> = got.iter().filter(|g| g[0] == names[0].as_bytes()[0]).cloned().collect();
        ctx.check(part.len() == 3 && is_subsequence(&part, &names), || {
            format!("S got {:?}", got.iter().map(|g| String::from_utf8_lossy(g).to_string()).collect::<Vec<_>>())
        });
    }
}

/// Subscribing in the middle of a stream: the acknowledgement is first, and there are no gaps
async fn suback_first(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts::default()).await;
    let p = client(&ctx, "P").await;
    let s = client(&ctx, "S").await;
    settle().await;
    let names = ["1", "2", "3", "4"];
    let p2 = p.clone();
    let t1 = mc::spawn("P", async move {
        for n in names {
            p2.publish("t/x", n.as_bytes());
            tokio::task::yield_now().await;
        }
    });
    let s2 = s.clone();
    let t2 = mc::spawn("S", async move {
        s2.send(&wire::subscribe(9, &[("other", SUB), ("t/x", SUB), ("#", SUB)]));
        s2.until(|p| matches!(p, Pkt::SubAck { .. })).await;
    });
    let _ = t1.await;
    let _ = t2.await;
    settle().await;
    let got = s.received();
    ctx.observe(&got);
    let ack = got.iter().position(|p| matches!(p, Pkt::SubAck { .. }));
    let first = got.iter().position(|p| p.is_publish());
    if let (Some(a), Some(f)) = (ack, first) {
        ctx.check(a < f, || "a message precedes the acknowledgement of its subscription".to_string());
    }
    ctx.check(ack.is_some(), || "no SUBACK".to_string());
    let m = s.messages();
    let k = m.len().min(names.len());
    let tail: Vec<Vec<u8>> = names[names.len() - k..].iter().map(|n| n.as_bytes().to_vec()).collect();
    ctx.check(m == tail, || format!("messages with gaps or out of order: {:?}", m));
}

/// Two subscribers and a publisher that also makes requests of other kinds
async fn mixed(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts { queue: 0, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    let mut all = Vec::new();
    all.extend(wire::publish("t", b"1"));
    all.extend(wire::subscribe(1, &[("t", SUB)]));
    all.extend(wire::publish("t", b"2"));
    all.extend(wire::subscribe(2, &[("t", SUB | NO_LOCAL)]));
    all.extend(wire::publish("t", b"3"));
    all.extend(wire::subscribe(3, &[("t", SUB)]));
    all.extend(wire::publish("t", b"4"));
    p.raw(&all);
    settle().await;
    let seq = |c: &Client| -> Vec<String> {
        c.received()
            .iter()
            .filter_map(|p| match p {
                Pkt::Publish { payload, .. } => Some(String::from_utf8_lossy(payload).to_string()),
                Pkt::SubAck { pid, .. } => Some(format!("ack{}", pid)),
                _ => None,
            })
            .collect()
    };
    let got = (seq(&s), seq(&p));
    ctx.observe(&got);
    ctx.check(got.0 == ["ack1", "1", "2", "3", "4"], || format!("S saw {:?}", got.0));
    ctx.check(got.1 == ["ack1", "2", "ack2", "ack3", "4"], || format!("P saw {:?}", got.1));
}

pub fn b02() -> Vec<Scenario> {
    vec![
        scenario("b02-burst", [2, 4], |c| burst(c, 1 << 16, false)).cfg(|c| c.short_reads = true),
        scenario("b02-burst-q1", [2, 4], |c| burst(c, 0, false)).cfg(|c| c.short_writes = true),
        scenario("b02-burst-noise", [2, 4], |c| burst(c, 0, true)),
        scenario("b02-two", [2, 4], |c| two_publishers(c, 1 << 16)),
        scenario("b02-two-q1", [2, 4], |c| two_publishers(c, 0)),
        scenario("b02-suback", [2, 4], suback_first),
        scenario("b02-mixed", [2, 4], mixed).cfg(|c| c.short_reads = true),
    ]
}

// ---------------------------------------------------------------- no-local

const NL_FILTERS: &[(&str, u8)] = &[
    ("t/a", SUB),
    ("t/a", SUB | NO_LOCAL),
    ("t/+", SUB),
    ("t/+", SUB | NO_LOCAL),
    ("#", SUB | NO_LOCAL),
    ("#", SUB | RAP),
    ("t/a/#", SUB | NO_LOCAL | RAP),
    ("t/a/#", SUB),
    ("u", SUB | NO_LOCAL),
];

async fn nolocal(ctx: Rc<Ctx>, n: usize, separate: bool) {
    let _b = Broker::start(Opts::default()).await;
    let a = client(&ctx, "A").await;
    let b = client(&ctx, "B").await;
    let mut subs: Vec<(&str, u8)> = Vec::new();
    for _ in 0..n {
        let s = NL_FILTERS[mc::pick(NL_FILTERS.len())];
        subs.push(s);
        if separate {
            let g = a.subscribe(1, &[s]).await;
            grant(&ctx, &a, g, 1);
        }
    }
    if !separate {
        let g = a.subscribe(1, &subs).await;
        grant(&ctx, &a, g, subs.len());
    }
    let g = b.subscribe(1, &[("t/a", SUB | NO_LOCAL)]).await;
    grant(&ctx, &b, g, 1);
    // later subscriptions to the same filter replace earlier ones
    let mut effective: Vec<(&str, u8)> = Vec::new();
    for s in &subs {
        effective.retain(|e| e.0 != s.0);
        effective.push(*s);
    }
    for t in ["t/a", "u"] {
        a.publish(t, format!("a:{}", t).as_bytes());
        b.publish(t, format!("b:{}", t).as_bytes());
    }
    settle().await;
    for t in ["t/a", "u"] {
        let all = effective.iter().any(|(f, _)| matches(f, t));
        let local = effective.iter().any(|(f, o)| matches(f, t) && o & NO_LOCAL == 0);
        let own = count(&a, format!("a:{}", t).as_bytes());
        let other = count(&a, format!("b:{}", t).as_bytes());
        ctx.observe(&(own, other));
        ctx.check(own == local as usize, || {
            format!("A got {} copies of its own message for {} with {:?}", own, t, effective)
        });
        ctx.check(other == all as usize, || {
            format!("A got {} copies of a message of B for {} with {:?}", other, t, effective)
        });
    }
    let own = count(&b, b"b:t/a");
    let other = count(&b, b"a:t/a");
    ctx.check(own == 0 && other == 1, || format!("B got {} own and {} other messages", own, other));
}

/// The option changes while messages are published
async fn nolocal_concurrent(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts::default()).await;
    let a = client(&ctx, "A").await;
    let b = client(&ctx, "B").await;
    let g = a.subscribe(1, &[("t", SUB | NO_LOCAL)]).await;
    grant(&ctx, &a, g, 1);
    settle().await;
    let a2 = a.clone();
    let t1 = mc::spawn("A", async move {
        // all of this in one stream, hence handled in this order
        a2.publish("t", b"a1");
        a2.send(&wire::subscribe(2, &[("t", SUB)]));
        a2.publish("t", b"a2");
        a2.send(&wire::subscribe(3, &[("t", SUB | NO_LOCAL)]));
        a2.publish("t", b"a3");
        a2.send(&wire::subscribe(4, &[("+", SUB | NO_LOCAL), ("#", SUB | NO_LOCAL)]));
        a2.publish("t", b"a4");
        a2.send(&wire::subscribe(5, &[("+", SUB)]));
        a2.publish("t", b"a5");
    });
    let b2 = b.clone();
    let ctx2 = ctx.clone();
    let t2 = mc::spawn("B", async move {
        b2.publish("t", b"b1");
        let g = b2.subscribe(1, &[("t", SUB)]).await;
        ctx2.check(g == Some(vec![0]), || "B is not granted".to_string());
        b2.publish("t", b"b2");
    });
    let _ = t1.await;
    let _ = t2.await;
    settle().await;
    for (m, n) in [(b"a1", 0), (b"a2", 1), (b"a3", 0), (b"a4", 0), (b"a5", 1), (b"b1", 1), (b"b2", 1)] {
        let got = count(&a, m);
        ctx.observe(&got);
        ctx.check(got == n, || {
            format!("A got {} copies of {:?}", got, String::from_utf8_lossy(m))
        });
    }
    let got = count(&b, b"b2");
    ctx.check(got == 1, || format!("B got {} copies of its own message", got));
}

/// Identifiers that resemble each other
async fn nolocal_ids(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts::default()).await;
    let ids = ["a", "A", "aa", "a ", "ä", ""];
    let mut cs = Vec::new();
    for id in ids {
        let c = client(&ctx, id).await;
        let g = c.subscribe(1, &[("t", SUB | NO_LOCAL)]).await;
        grant(&ctx, &c, g, 1);
        cs.push(c);
    }
    let who = mc::pick(ids.len());
    cs[who].publish("t", b"x");
    settle().await;
    for (i, c) in cs.iter().enumerate() {
        let got = count(c, b"x");
        ctx.check(got == (i != who) as usize, || {
            format!("{:?} got {} copies of a message of {:?}", ids[i], got, ids[who])
        });
    }
}

pub fn b03() -> Vec<Scenario> {
    vec![
        scenario("b03-two", [1, 3], |c| nolocal(c, 2, false)),
        scenario("b03-three", [1, 3], |c| nolocal(c, 3, true)),
        scenario("b03-one", [2, 4], |c| nolocal(c, 1, true)),
        scenario("b03-concurrent", [2, 4], nolocal_concurrent),
        scenario("b03-ids", [2, 4], nolocal_ids),
        scenario("b03-two-seed2", [1, 3], |c| nolocal(c, 2, true)).seed(2),
    ]
}

// ---------------------------------------------------------------- acknowledgements

/// Filters with options, and whether they are supported
const REQUESTS: &[(&str, u8, bool)] = &[
    ("f/1", SUB, true),
    ("f/+", SUB | NO_LOCAL, true),
    ("f/2", SUB | RAP, true),
    ("#", SUB, true),
    ("f/1", 0x21, false),
    ("f/2", 0x22, false),
    ("f/3", 0x00, false),
    ("f/#", 0x10, false),
    ("$share/g/f/1", SUB, false),
    ("+/3", SUB | NO_LOCAL | RAP, true),
];
const PROBES: &[&str] = &["f/1", "f/2", "f/3", "g", "$share/g/f/1"];

/// Any legal option byte, with an ordinary and with a shared filter, before or behind others
fn any_request() -> Vec<(&'static str, u8, bool)> {
    let filter = ["f/1", "f/#", "$share/g/f/1"][mc::pick(3)];
    let qos = mc::pick(3) as u8;
    let (nl, rap, rh) = (mc::pick(2) as u8, mc::pick(2) as u8, mc::pick(3) as u8);
    let shared = filter.starts_with('$');
    // no-local on a shared subscription is a protocol error
    let nl = if shared { 0 } else { nl };
    let one = (filter, qos | nl << 2 | rap << 3 | rh << 4, qos == 0 && rh == 2 && !shared);
    match mc::pick(4) {
        0 => vec![one],
        1 => vec![one, REQUESTS[2]],
        2 => vec![REQUESTS[4], one],
        _ => vec![REQUESTS[2], one, REQUESTS[6]],
    }
}
async fn positional(ctx: Rc<Ctx>, n: usize, before: bool) {
    let _b = Broker::start(Opts::default()).await;
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    let o = client(&ctx, "O").await;
    let g = o.subscribe(77, &[("f/1", SUB)]).await;
    grant(&ctx, &o, g, 1);
    let mut effective: Vec<&str> = Vec::new();
    if before {
        let g = s.subscribe(1, &[("f/2", SUB)]).await;
        grant(&ctx, &s, g, 1);
        effective.push("f/2");
    }
    let req = if n == 0 {
        any_request()
    } else {
        (0..1 + mc::pick(n)).map(|_| REQUESTS[mc::pick(REQUESTS.len())]).collect()
    };
    let n = req.len();
    let list: Vec<(&str, u8)> = req.iter().map(|r| (r.0, r.1)).collect();
    let pid = [1u16, 0x00ff, 0xffff][n % 3];
    let already = s.received().len();
    s.send(&wire::subscribe(pid, &list));
    settle().await;
    let new = s.received()[already..].to_vec();
    let reasons = match &new[..] {
        [Pkt::SubAck { pid: x, reasons, .. }] => {
            ctx.check(*x == pid, || format!("SUBACK for {} instead of {}", x, pid));
            reasons.clone()
        }
        other => {
            ctx.fail(format!("{:?} is answered with {:?}", list, other));
            return;
        }
    };
    ctx.observe(&reasons);
    if !ctx.check(reasons.len() == n, || format!("{} reason codes for {} filters", reasons.len(), n)) {
        return;
    }
    for (i, (f, o, supported)) in req.iter().enumerate() {
        let granted = reasons[i] <= 2;
        ctx.check(granted || reasons[i] >= 0x80, || format!("reason code {:#x}", reasons[i]));
        ctx.check(reasons[i] != 1 && reasons[i] != 2, || "a QoS above 0 is granted".to_string());
        if *supported {
            ctx.check(granted, || format!("{} with options {:#x} is refused in {:?}", f, o, list));
        }
        if granted {
            effective.push(*f);
        }
    }
    for t in PROBES {
        p.publish(t, t.as_bytes());
    }
    settle().await;
    for t in PROBES {
        let want = effective.iter().any(|f| matches(f, t)) as usize;
        let got = count(&s, t.as_bytes());
        ctx.observe(&got);
        ctx.check(got == want, || {
            format!("after {:?} was answered with {:?}, a message for {} arrives {} times", list, reasons, t, got)
        });
    }
    let got = o.messages();
    ctx.check(got == vec![b"f/1".to_vec()], || format!("the other subscriber got {:?}", got));
    ctx.check(o.received().iter().filter(|p| matches!(p, Pkt::SubAck { .. })).count() == 1, || {
        "the other subscriber got a SUBACK".to_string()
    });
}

/// Subscriptions of several clients at once, in several packets; a message published after an
/// acknowledgement was seen arrives
async fn ack_concurrent(ctx: Rc<Ctx>, queue: usize) {
    let _b = Broker::start(Opts { queue, ..Opts::default() }).await;
    let a = client(&ctx, "A").await;
    let b = client(&ctx, "B").await;
    settle().await;
    let run = |me: &Client, tag: &'static str| {
        let (me, ctx) = (me.clone(), ctx.clone());
        mc::spawn(tag, async move {
            let mut all = wire::subscribe(10, &[("x/y", SUB)]);
            all.extend(wire::subscribe(11, &[("x/+", SUB), ("z", 0x21)]));
            all.extend(wire::subscribe(12, &[("$share/a/b", SUB), ("x/y/z", SUB), ("#", SUB)]));
            me.raw(&all);
            let mut expect = vec![(10u16, 1usize), (11, 2), (12, 3)].into_iter();
            while let Some((pid, n)) = expect.next() {
                match me.until(|p| matches!(p, Pkt::SubAck { .. })).await {
                    Some(Pkt::SubAck { pid: x, reasons, .. }) => {
                        ctx.check(x == pid && reasons.len() == n, || {
                            format!("{} got SUBACK {} with {:?} instead of {} with {} codes", tag, x, reasons, pid, n)
                        });
                        if x == 11 && reasons.len() == 2 {
                            ctx.check(reasons[0] == 0 && reasons[1] >= 0x80, || format!("codes {:?}", reasons));
                        }
                        if x == 12 && reasons.len() == 3 {
                            ctx.check(reasons[0] >= 0x80 && reasons[1] == 0 && reasons[2] == 0, || format!("codes {:?}", reasons));
                        }
                    }
                    other => ctx.fail(format!("{} got {:?}", tag, other)),
                }
                me.publish("x/y", format!("{}{}", tag, pid).as_bytes());
            }
        })
    };
    let t1 = run(&a, "A");
    let t2 = run(&b, "B");
    let _ = t1.await;
    let _ = t2.await;
    settle().await;
    for c in [&a, &b] {
        for pid in [10, 11, 12] {
            let own = count(c, format!("{}{}", c.name(), pid).as_bytes());
            ctx.observe(&own);
            ctx.check(own == 1, || {
                format!("{} got {} copies of the message it sent after acknowledgement {}", c.name(), own, pid)
            });
        }
        let acks = c.received().iter().filter(|p| matches!(p, Pkt::SubAck { .. })).count();
        ctx.check(acks == 3, || format!("{} got {} SUBACKs", c.name(), acks));
    }
}

/// Filters sharing prefixes are created at the same time as messages are routed through them
async fn ack_tree(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts::default()).await;
    let filters = ["x", "x/y", "x/y/z", "x/+/z", "+/y/#"];
    let a = client(&ctx, "A").await;
    let b = client(&ctx, "B").await;
    let p = client(&ctx, "P").await;
    settle().await;
    let run = |c: &Client, i: usize| {
        let (c, ctx) = (c.clone(), ctx.clone());
        let f = filters[i];
        mc::spawn("subscriber", async move {
            let g = c.subscribe(1, &[(f, SUB)]).await;
            ctx.check(g == Some(vec![0]), || format!("{} is not granted: {:?}", f, g));
        })
    };
    let i = mc::pick(filters.len());
    let j = mc::pick(filters.len());
    let t1 = run(&a, i);
    let t2 = run(&b, j);
    p.publish("x/y/z", b"early");
    let _ = t1.await;
    let _ = t2.await;
    p.publish("x/y/z", b"late");
    settle().await;
    for (c, k) in [(&a, i), (&b, j)] {
        let want = matches(filters[k], "x/y/z") as usize;
        let late = count(c, b"late");
        let early = count(c, b"early");
        ctx.observe(&(late, early));
        ctx.check(late == want && early <= want, || {
            format!("{} subscribed to {} got {} messages", c.name(), filters[k], late)
        });
    }
}

pub fn b04() -> Vec<Scenario> {
    vec![
        scenario("b04-positional", [0, 2], |c| positional(c, 3, false)),
        scenario("b04-options", [0, 1], |c| positional(c, 0, false)),
        scenario("b04-positional-1", [2, 4], |c| positional(c, 1, true)),
        scenario("b04-positional-2", [1, 3], |c| positional(c, 2, true)),
        scenario("b04-concurrent", [2, 4], |c| ack_concurrent(c, 1 << 16)),
        scenario("b04-concurrent-q1", [2, 4], |c| ack_concurrent(c, 0)),
        scenario("b04-tree", [2, 4], ack_tree),
    ]
}
