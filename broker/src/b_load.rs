//! B15 and B17: slow consumers, tiny queues, unsupported requests

use crate::b_connect::{p2, p4};
use crate::b_deliver::{clean, count, grant};
use crate::client::*;
use crate::explore::*;
use crate::wire::{self, Pkt, NO_LOCAL, SUB};
use std::rc::Rc;
use tokio::mc;

fn names(who: &str, n: usize) -> Vec<String> {
    (0..n).map(|i| format!("{}{}", who, i)).collect()
}
fn text(m: Vec<Vec<u8>>) -> Vec<String> {
    m.iter().map(|m| String::from_utf8_lossy(m).to_string()).collect()
}
fn from(c: &Client, who: &str) -> Vec<String> {
    text(c.messages()).into_iter().filter(|m| m.starts_with(who)).collect()
}
/// The client reads `step` bytes at a time until nothing more comes
async fn drain(c: &Client, step: usize) {
    loop {
        settle().await;
        if c.available() == 0 {
            return;
        }
        c.pull_max(step);
    }
}

const QUEUES: &[usize] = &[0, 1, 400, 1000, 1 << 16];

/// One consumer does not read
async fn slow(ctx: Rc<Ctx>, noise: bool, n: usize) {
    let queue = QUEUES[mc::pick(QUEUES.len())];
    let cap = [1usize, 4, 16][mc::pick(3)];
    let _b = Broker::start(Opts { noise, queue, ..Opts::default() }).await;
    let v = any_client(&ctx, "V", noise).await;
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    for c in [&v, &s] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    v.pull();
    v.set_capacity(cap);
    mc::calm(false);
    let want = names("p", n);
    for m in &want {
        p.publish("t", m.as_bytes());
    }
    // the slow one goes on publishing, it may be served only after it reads again
    v.publish("t", b"v0");
    settle().await;
    ctx.check(from(&s, "p") == want, || format!("S got {:?} while another client does not read", text(s.messages())));
    served(&ctx, &s, "s").await;
    served(&ctx, &p, "p").await;
    let n = client(&ctx, "N").await;
    served(&ctx, &n, "n").await;
    drain(&v, 3).await;
    // it may have delayed itself, so its own message comes at the latest now
    ctx.check(from(&s, "v") == ["v0"], || format!("S got {:?} of the client that did not read", from(&s, "v")));
    let got: Vec<String> = from(&v, "p").into_iter().filter(|m| !m.starts_with("probe")).collect();
    ctx.check(got == want, || format!("the slow client finally got {:?}", text(v.messages())));
    ctx.check(from(&v, "v") == ["v0"], || format!("the slow client finally got {:?}", text(v.messages())));
    clean(&ctx, &v);
    v.set_capacity(1 << 20);
    served(&ctx, &v, "v").await;
}

/// Everybody publishes to everybody, and nobody reads for a while
async fn flood(ctx: Rc<Ctx>, n: usize, msgs: usize) {
    let queue = QUEUES[mc::pick(QUEUES.len())];
    let cap = [1usize, 9][mc::pick(2)];
    let _b = Broker::start(Opts { queue, ..Opts::default() }).await;
    let mut cs = Vec::new();
    for i in 0..n {
        let c = client(&ctx, &format!("c{}", i)).await;
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, &c, g, 1);
        cs.push(c);
    }
    settle().await;
    for c in &cs {
        c.pull();
        c.set_capacity(cap);
    }
    mc::calm(false);
    for (i, c) in cs.iter().enumerate() {
        let mut all = Vec::new();
        for m in names(&format!("m{}-", i), msgs) {
            all.extend(wire::publish("t", m.as_bytes()));
        }
        c.raw(&all);
    }
    settle().await;
    let mut moved = true;
    while moved {
        moved = false;
        for c in &cs {
            if c.available() > 0 {
                moved = true;
                c.pull_max(5);
            }
        }
        settle().await;
    }
    for c in &cs {
        for i in 0..n {
            let who = format!("m{}-", i);
            let got = from(c, &who);
            ctx.check(got == names(&who, msgs), || format!("{} got {:?} of c{} with queue {}", c.name(), got, i, queue));
        }
        clean(&ctx, c);
    }
    for c in &cs {
        c.set_capacity(1 << 20);
    }
    for c in &cs {
        served(&ctx, c, &c.name()).await;
    }
}

/// Requests of all kinds through the smallest queue
async fn tiny(ctx: Rc<Ctx>) {
    let queue = [0usize, 1, 100, 200, 300, 500][mc::pick(6)];
    let _b = Broker::start(Opts { queue, ..Opts::default() }).await;
    let a = client(&ctx, "A").await;
    let b = client(&ctx, "B").await;
    settle().await;
    mc::calm(false);
    let mut all = wire::subscribe(1, &[("t", SUB)]);
    all.extend(wire::publish("t", b"a0"));
    all.extend(wire::pingreq());
    all.extend(wire::publish("t", b"a1"));
    all.extend(wire::subscribe(2, &[("u", SUB)]));
    all.extend(wire::publish("u", b"a2"));
    a.raw(&all);
    let mut all = wire::subscribe(1, &[("u", SUB)]);
    all.extend(wire::publish("t", b"b0"));
    all.extend(wire::publish("u", b"b1"));
    b.raw(&all);
    settle().await;
    let see = |c: &Client| -> Vec<String> {
        c.received()[1..]
            .iter()
            .map(|p| match p {
                Pkt::SubAck { pid, .. } => format!("ack{}", pid),
                Pkt::Publish { payload, .. } => String::from_utf8_lossy(payload).to_string(),
                Pkt::Disconnect { .. } => "refused".to_string(),
                p => format!("{:?}", p),
            })
            .collect()
    };
    let (sa, sb) = (see(&a), see(&b));
    ctx.observe(&(sa.clone(), sb.clone()));
    let own_a: Vec<&String> = sa.iter().filter(|s| !s.starts_with('b')).collect();
    let own_b: Vec<&String> = sb.iter().filter(|s| !s.starts_with('a') || s.starts_with("ack")).collect();
    ctx.check(own_a == ["ack1", "a0", "refused", "a1", "ack2", "a2"], || format!("A saw {:?}", sa));
    ctx.check(own_b == ["ack1", "b1"], || format!("B saw {:?}", sb));
    for m in ["b0", "b1"] {
        ctx.check(sa.iter().filter(|s| *s == m).count() <= 1, || format!("A saw {:?}", sa));
    }
}

/// The consumer stops reading in the middle of a message, another one ends
async fn stop_and_go(ctx: Rc<Ctx>, noise: bool) {
    let _b = Broker::start(Opts { noise, queue: 0, ..Opts::default() }).await;
    let v = any_client(&ctx, "V", noise).await;
    let w = client(&ctx, "W").await;
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    for c in [&v, &w, &s] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    for c in [&v, &w] {
        c.pull();
        c.set_capacity(6);
    }
    mc::calm(false);
    let p2 = p.clone();
    let t = mc::spawn("P", async move {
        for m in names("p", 3) {
            p2.publish("t", m.as_bytes());
            tokio::task::yield_now().await;
        }
    });
    match mc::pick(3) {
        0 => w.close(),
        1 => w.reset(),
        _ => (),
    }
    let v2 = v.clone();
    let t2 = mc::spawn("V", async move {
        for _ in 0..2 {
            v2.pull_max(2);
            tokio::task::yield_now().await;
        }
    });
    let _ = t.await;
    let _ = t2.await;
    settle().await;
    ctx.check(from(&s, "p") == names("p", 3), || format!("S got {:?}", text(s.messages())));
    drain(&v, 100).await;
    ctx.check(from(&v, "p") == names("p", 3), || format!("V got {:?}", text(v.messages())));
    clean(&ctx, &v);
}

pub fn b15() -> Vec<Scenario> {
    vec![
        scenario("b15-slow", [1, 4], |c| slow(c, false, 4)).calm(),
        scenario("b15-slow-noise", [1, 3], |c| slow(c, true, 4)).calm(),
        scenario("b15-flood-2", [1, 4], |c| flood(c, 2, 3)).calm(),
        scenario("b15-flood-3", [1, 3], |c| flood(c, 3, 2)).calm(),
        scenario("b15-flood-long", [0, 2], |c| flood(c, 3, 30)).calm().cfg(|c| c.max_steps = 100_000),
        scenario("b15-tiny", [2, 4], tiny).calm(),
        scenario("b15-tiny-io", [2, 4], tiny).calm().cfg(|c| {
            c.short_reads = true;
            c.short_writes = true;
        }),
        scenario("b15-stop", [2, 4], |c| stop_and_go(c, false)).calm(),
        scenario("b15-stop-noise", [2, 4], |c| stop_and_go(c, true)).calm(),
    ]
}

// ---------------------------------------------------------------- unsupported requests

pub fn unsupported() -> Vec<(&'static str, Vec<u8>)> {
    let p = |flags: u8, pid: Option<u16>, props: &[u8]| wire::publish_with(flags, "t", pid, props, b"bad");
    let ct: &[u8] = &[3, 0, 1, b'c'];
    vec![
        ("QoS 1", p(2, Some(7), &[])),
        ("QoS 2", p(4, Some(7), &[])),
        ("QoS 1 dup", p(10, Some(7), &[])),
        ("QoS 2 retain", p(5, Some(7), &[])),
        ("retain", p(1, None, &[])),
        ("alias", p(0, None, &p2(35, 1))),
        ("alias 65535", p(0, None, &p2(35, 65535))),
        ("alias 0", p(0, None, &p2(35, 0))),
        ("alias and content type", p(0, None, &[ct, &p2(35, 3)].concat())),
        ("subscription identifier", p(0, None, &[11, 5])),
        ("expiry", p(0, None, &p4(2, 100))),
        ("expiry 0", p(0, None, &p4(2, 0))),
        ("expiry and format", p(0, None, &[&[1u8, 1][..], &p4(2, 9), ct].concat())),
        ("subscribe with identifier", wire::subscribe_with(9, &[11, 1], &[("u", SUB)])),
        ("subscribe with large identifier", wire::subscribe_with(9, &[11, 0xff, 0xff, 0xff, 0x7f], &[("u", SUB), ("w", SUB)])),
        ("ping", wire::pingreq()),
        ("unsubscribe", wire::unsubscribe(9, &["t"])),
        ("unsubscribe several", wire::unsubscribe(9, &["t", "own", "zz"])),
        ("auth", wire::frame(0xF0, &[0x18, 0])),
        ("re-auth", wire::frame(0xF0, &[0x19, 5, 21, 0, 2, b'a', b'b'])),
    ]
}

async fn refused(ctx: Rc<Ctx>, noise: bool, n: usize) {
    let b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let x = any_client(&ctx, "X", noise).await;
    let g = s.subscribe(1, &[("#", SUB)]).await;
    grant(&ctx, &s, g, 1);
    let g = x.subscribe(1, &[("t", SUB | NO_LOCAL), ("own", SUB)]).await;
    grant(&ctx, &x, g, 2);
    settle().await;
    mc::calm(false);
    let menu = unsupported();
    let mut all = x.encrypt(&wire::publish("own", b"before"));
    let mut what = Vec::new();
    for _ in 0..n {
        let (w, p) = &menu[mc::pick(menu.len())];
        what.push(*w);
        all.extend(x.encrypt(p));
    }
    x.raw(&all);
    s.publish("t", b"other");
    settle().await;
    let refusals = |c: &Client| {
        c.received().iter().filter(|p| matches!(p, Pkt::Disconnect { reason: 0x83, .. })).count()
    };
    ctx.check(refusals(&x) == n, || format!("{:?}: {} refusals", what, refusals(&x)));
    let other = x.received().iter().filter(|p| !matches!(p, Pkt::Disconnect { reason: 0x83, .. } | Pkt::Publish { .. } | Pkt::ConnAck { .. } | Pkt::SubAck { pid: 1, .. })).count();
    ctx.check(other == 0, || format!("{:?}: answered with {:?}", what, x.received()));
    ctx.check(!s.received().iter().any(|p| matches!(p, Pkt::Disconnect { .. })), || format!("{:?}: another client is told to disconnect", what));
    ctx.check(!s.closed(), || format!("{:?}: another client is disconnected", what));
    ctx.observe(&text(s.messages()));
    for (c, list) in [(&s, ["before", "other"]), (&x, ["before", "other"])] {
        for m in list {
            let k = count(c, m.as_bytes());
            ctx.check(k == 1, || format!("{:?}: {} got {} copies of {}", what, c.name(), k, m));
        }
        let k = c.messages().len();
        ctx.check(k == 2, || format!("{:?}: {} got {:?}", what, c.name(), text(c.messages())));
    }
    // subscriptions are as they were
    let mark = x.messages().len();
    for t in ["t", "own", "u", "w", "zz"] {
        s.publish(t, t.as_bytes());
    }
    settle().await;
    if !x.closed() {
        let got = text(x.messages()[mark..].to_vec());
        ctx.check(got == ["t", "own"], || format!("{:?}: afterwards the client receives {:?}", what, got));
        registered(&ctx, &b, &["S", "X"]).await;
    }
    served(&ctx, &s, "s").await;
}

/// The requester is taken over or ends meanwhile
async fn refused_gone(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts { queue: 0, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("#", SUB)]).await;
    grant(&ctx, &s, g, 1);
    let x = client(&ctx, "X").await;
    settle().await;
    mc::calm(false);
    let menu = unsupported();
    let (what, p) = &menu[mc::pick(menu.len())];
    x.raw(p);
    let how = mc::pick(3);
    match how {
        0 => (),
        1 => x.close(),
        _ => x.reset(),
    }
    let y = Client::open(&ctx, "Y");
    y.send(&wire::connect("X"));
    settle().await;
    // the new connection did not ask for anything
    let got = y.received();
    ctx.check(matches!(&got[..], [Pkt::ConnAck { reason: 0, .. }]), || format!("{}: the next connection got {:?}", what, got));
    ctx.check(s.messages().is_empty(), || format!("{}: {:?} was delivered", what, text(s.messages())));
    ctx.check(!s.received().iter().any(|p| matches!(p, Pkt::Disconnect { .. })), || "another client is told to disconnect".to_string());
    s.publish("u", b"later");
    s.publish("t", b"later");
    settle().await;
    ctx.check(y.messages().is_empty(), || format!("{}: the next connection got {:?}", what, text(y.messages())));
    served(&ctx, &y, "y").await;
}

pub fn b17() -> Vec<Scenario> {
    vec![
        scenario("b17-one", [1, 4], |c| refused(c, false, 1)).calm(),
        scenario("b17-one-noise", [1, 3], |c| refused(c, true, 1)).calm(),
        scenario("b17-two", [1, 3], |c| refused(c, false, 2)).calm(),
        scenario("b17-three", [crate::SKIP, 0], |c| refused(c, false, 3)).calm(),
        scenario("b17-gone", [2, 4], refused_gone).calm(),
    ]
}
