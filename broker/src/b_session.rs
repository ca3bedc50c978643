//! B08, B13, B14, B16: takeover, time-outs, shutdown, clean starts

use crate::b_deliver::{count, grant};
use crate::client::*;
use crate::explore::*;
use crate::wire::{self, Pkt, SUB};
use std::rc::Rc;
use std::time::Duration;
use tokio::mc;

fn end(c: &Client, how: usize) {
    match how {
        0 => (),
        1 => c.close(),
        2 => c.reset(),
        3 => c.half_close(),
        _ => {
            c.raw(&[0, 0, 0, 0, 0, 1]);
        }
    }
}
fn open(ctx: &Rc<Ctx>, name: &str, noise: bool) -> Client {
    if noise {
        Client::open_noise(ctx, name)
    } else {
        Client::open(ctx, name)
    }
}
fn connacked(c: &Client) -> bool {
    matches!(c.received().first(), Some(Pkt::ConnAck { reason: 0, .. }))
}

// ---------------------------------------------------------------- takeover

/// The older connection does something, while the newer one connects
async fn takeover(ctx: Rc<Ctx>, old_noise: bool, new_noise: bool, queue: usize) {
    let noise = old_noise || new_noise;
    let b = Broker::start(Opts { noise, queue, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    let old = open(&ctx, "old", old_noise);
    connected(&ctx, &old, "S").await;
    let g = old.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &old, g, 1);
    let new = open(&ctx, "new", new_noise);
    if new_noise {
        new.handshake().await;
    }
    settle().await;
    let tasks = mc::subject_tasks().len();
    mc::calm(false);
    match mc::pick(4) {
        0 => (),
        1 => {
            old.publish("t", b"old");
        }
        2 => {
            old.send(&wire::subscribe(2, &[("t", SUB), ("u", SUB)]));
        }
        _ => {
            old.send(&wire::pingreq());
        }
    }
    let how = mc::pick(5);
    let order = mc::pick(2);
    let traffic = mc::pick(2) == 1;
    if order == 0 {
        end(&old, how);
    }
    let mut all = new.encrypt(&wire::connect("S"));
    all.extend(new.encrypt(&wire::subscribe(7, &[("t", SUB)])));
    all.extend(new.encrypt(&wire::publish("t", b"new")));
    new.raw(&all);
    if traffic {
        p.publish("t", b"p1");
        p.publish("t", b"p2");
    }
    if order == 1 {
        end(&old, how);
    }
    settle().await;
    if ctx.check(connacked(&new), || format!("the newer connection got {:?}", new.received())) {
        ctx.check(!new.closed(), || "the newer connection is closed".to_string());
        let acks = new.received().iter().filter(|p| matches!(p, Pkt::SubAck { pid: 7, .. })).count();
        ctx.check(acks == 1, || format!("the newer connection got {} acknowledgements", acks));
        let n = count(&new, b"new");
        ctx.observe(&n);
        ctx.check(n == 1, || format!("the newer connection got its message {} times", n));
    }
    ctx.check(old.closed(), || "the older connection stays open".to_string());
    registered(&ctx, &b, &["P", "S"]).await;
    // the newer one has taken the place of the older one
    let now = mc::subject_tasks().len();
    // one task for S, as before; the one that was connecting is gone
    let expect = tasks - 1;
    ctx.check(now == expect, || format!("{} tasks instead of {}", now, expect));
    served(&ctx, &new, "new").await;
    p.publish("t", b"late");
    settle().await;
    let n = count(&new, b"late");
    ctx.check(n == 1, || format!("the newer connection got {} copies of a message", n));
    served(&ctx, &p, "p").await;
}

/// One connection after the other, each as soon as the one before is acknowledged
async fn chain(ctx: Rc<Ctx>, n: usize, mix: bool) {
    let b = Broker::start(Opts { noise: mix, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    settle().await;
    mc::calm(false);
    let mut cs: Vec<Client> = Vec::new();
    for i in 0..n {
        let c = open(&ctx, &format!("c{}", i), mix && i % 2 == 1);
        connected(&ctx, &c, "S").await;
        cs.push(c);
    }
    settle().await;
    let last = cs.pop().unwrap();
    for c in &cs {
        ctx.check(c.closed(), || format!("the older connection {} stays open", c.name()));
    }
    ctx.check(!last.closed(), || "the newest connection is closed".to_string());
    registered(&ctx, &b, &["P", "S"]).await;
    served(&ctx, &last, "last").await;
    served(&ctx, &p, "p").await;
}

/// Connections with the same identifier race; exactly one of them stays
async fn race(ctx: Rc<Ctx>, n: usize) {
    let b = Broker::start(Opts::default()).await;
    let p = client(&ctx, "P").await;
    settle().await;
    let tasks = mc::subject_tasks().len();
    mc::calm(false);
    let mut cs = Vec::new();
    for i in 0..n {
        let c = open(&ctx, &format!("c{}", i), false);
        let mut all = wire::connect("S");
        all.extend(wire::subscribe(7, &[("t", SUB)]));
        c.raw(&all);
        cs.push(c);
    }
    p.publish("t", b"p1");
    settle().await;
    let up: Vec<&Client> = cs.iter().filter(|c| !c.closed()).collect();
    ctx.observe(&up.iter().map(|c| c.name()).collect::<Vec<_>>());
    if !ctx.check(up.len() == 1, || format!("{} connections with the same identifier are open", up.len())) {
        return;
    }
    registered(&ctx, &b, &["P", "S"]).await;
    let now = mc::subject_tasks().len();
    ctx.check(now == tasks + 1, || format!("{} tasks instead of {}", now, tasks + 1));
    served(&ctx, up[0], "up").await;
    p.publish("t", b"p2");
    settle().await;
    let got = count(up[0], b"p2");
    ctx.check(got == 1, || format!("the remaining connection got {} copies of a message", got));
    let c = up[0].clone();
    c.close();
    settle().await;
    registered(&ctx, &b, &["P"]).await;
    let now = mc::subject_tasks().len();
    ctx.check(now == tasks, || format!("{} tasks instead of {}", now, tasks));
}

/// The older connection cannot be written to
async fn takeover_blocked(ctx: Rc<Ctx>) {
    let b = Broker::start(Opts { queue: 0, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    let old = client(&ctx, "S").await;
    let g = old.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &old, g, 1);
    settle().await;
    old.pull();
    old.set_capacity(5);
    mc::calm(false);
    for m in ["1", "2", "3"] {
        p.publish("t", m.as_bytes());
    }
    if mc::pick(2) == 1 {
        settle().await;
    }
    let new = client(&ctx, "S").await;
    settle().await;
    ctx.check(!new.closed(), || "the newer connection is closed".to_string());
    ctx.check(old.closed(), || "the older connection stays open".to_string());
    registered(&ctx, &b, &["P", "S"]).await;
    served(&ctx, &new, "new").await;
    served(&ctx, &p, "p").await;
}

/// Failing attempts to connect do not disturb the connected client
async fn takeover_refused(ctx: Rc<Ctx>) {
    let b = Broker::start(Opts::default()).await;
    let p = client(&ctx, "P").await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    mc::calm(false);
    let bad = [
        wire::connect_with("S", 0, 60, &[], &[]),
        wire::connect_with("S", wire::CLEAN | 0x80, 60, &[], &wire::string("u")),
        wire::connect_with("S", wire::CLEAN | 1, 60, &[], &[]),
        wire::connect_with("S", wire::CLEAN, 60, &[], &[])[..8].to_vec(),
    ];
    let x = Client::open(&ctx, "X");
    x.raw(&bad[mc::pick(bad.len())]);
    p.publish("t", b"p1");
    x.close();
    settle().await;
    registered(&ctx, &b, &["P", "S"]).await;
    let n = count(&s, b"p1");
    ctx.check(n == 1, || format!("S got {} copies of a message", n));
    served(&ctx, &s, "s").await;
}

/// Similar identifiers are different identifiers
async fn similar(ctx: Rc<Ctx>) {
    let b = Broker::start(Opts::default()).await;
    let ids = ["S", "s", "S ", "Ś", "SS", "S/"];
    let mut cs = Vec::new();
    for id in ids {
        cs.push(client(&ctx, id).await);
    }
    settle().await;
    mc::calm(false);
    registered(&ctx, &b, &ids).await;
    let again = mc::pick(ids.len());
    let new = client(&ctx, ids[again]).await;
    settle().await;
    for (i, c) in cs.iter().enumerate() {
        ctx.check(c.closed() == (i == again), || format!("{:?} is closed or not: {}", ids[i], c.closed()));
    }
    registered(&ctx, &b, &ids).await;
    served(&ctx, &new, "new").await;
    served(&ctx, &cs[(again + 1) % ids.len()], "other").await;
}

pub fn b08() -> Vec<Scenario> {
    vec![
        scenario("b08-takeover", [2, 5], |c| takeover(c, false, false, 1 << 16)).calm(),
        scenario("b08-takeover-q1", [1, 5], |c| takeover(c, false, false, 0)).calm(),
        scenario("b08-takeover-noise-old", [1, 5], |c| takeover(c, true, false, 1 << 16)).calm(),
        scenario("b08-takeover-noise-new", [1, 5], |c| takeover(c, false, true, 1 << 16)).calm(),
        scenario("b08-takeover-noise", [1, 5], |c| takeover(c, true, true, 1 << 16)).calm(),
        scenario("b08-chain-2", [4, 6], |c| chain(c, 2, false)).calm(),
        scenario("b08-chain-3", [3, 6], |c| chain(c, 3, false)).calm(),
        scenario("b08-chain-mix", [2, 5], |c| chain(c, 4, true)).calm(),
        scenario("b08-race-2", [3, 6], |c| race(c, 2)).calm(),
        scenario("b08-race-3", [3, 6], |c| race(c, 3)).calm(),
        scenario("b08-blocked", [2, 6], takeover_blocked).calm(),
        scenario("b08-refused", [4, 6], takeover_refused).calm(),
        scenario("b08-similar", [3, 5], similar).calm(),
    ]
}

// ---------------------------------------------------------------- clean start

/// The first connection ends in some way while its SUBSCRIBE is in flight; the next one starts clean
async fn clean_start(ctx: Rc<Ctx>, noise: bool, queue: usize) {
    let b = Broker::start(Opts { noise, queue, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    let c1 = open(&ctx, "c1", noise);
    connected(&ctx, &c1, "C").await;
    let early = mc::pick(2) == 1;
    if early {
        let g = c1.subscribe(1, &[("t/#", SUB)]).await;
        grant(&ctx, &c1, g, 1);
    }
    settle().await;
    mc::calm(false);
    let how = mc::pick(5);
    let wait = mc::pick(3);
    let mut all = c1.encrypt(&wire::subscribe(2, &[("t/a", SUB), ("t/+", SUB)]));
    all.extend(c1.encrypt(&wire::publish("t/a", b"c1")));
    all.extend(c1.encrypt(&wire::subscribe(3, &[("u", SUB), ("#", SUB)])));
    c1.raw(&all);
    if wait == 1 {
        tokio::task::yield_now().await;
    } else if wait == 2 {
        settle().await;
    }
    end(&c1, how);
    // how == 0: taken over
    let c2 = client(&ctx, "C").await;
    p.publish("t/a", b"p0");
    settle().await;
    p.publish("t/a", b"p1");
    p.publish("u", b"p2");
    settle().await;
    let got = c2.messages();
    ctx.check(got.is_empty(), || {
        format!("the new connection got {:?} without subscribing", got.iter().map(|m| String::from_utf8_lossy(m).to_string()).collect::<Vec<_>>())
    });
    ctx.check(c2.received().len() == 1, || format!("the new connection got {:?}", c2.received()));
    registered(&ctx, &b, &["C", "P"]).await;
    // its own subscriptions work, and only those
    let g = c2.subscribe(9, &[("u", SUB)]).await;
    grant(&ctx, &c2, g, 1);
    p.publish("u", b"p3");
    p.publish("t/a", b"p4");
    settle().await;
    let got = c2.messages();
    ctx.observe(&got);
    ctx.check(got == vec![b"p3".to_vec()], || format!("the new connection got {:?}", got));
}

/// Two generations, and a pause between them
async fn generations(ctx: Rc<Ctx>) {
    let b = Broker::start(Opts::default()).await;
    let p = client(&ctx, "P").await;
    settle().await;
    mc::calm(false);
    let filters = ["t", "+", "#", "t/#"];
    for i in 0..2 {
        let c = client(&ctx, "C").await;
        let g = c.subscribe(1, &[(filters[mc::pick(4)], SUB), (filters[i], SUB)]).await;
        grant(&ctx, &c, g, 2);
        end(&c, mc::pick(4));
        if mc::pick(2) == 1 {
            settle().await;
            if c.closed() {
                registered(&ctx, &b, &["P"]).await;
            }
        }
    }
    let c = client(&ctx, "C").await;
    p.publish("t", b"x");
    settle().await;
    let got = c.messages();
    ctx.check(got.is_empty(), || format!("the new connection got {:?}", got));
    served(&ctx, &c, "c").await;
}

/// The subscriptions of a client that is gone take no effect on a client of the same name that
/// connects on the other transport
async fn transports(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts { noise: true, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    let first_noise = mc::pick(2) == 1;
    let c1 = open(&ctx, "c1", first_noise);
    connected(&ctx, &c1, "C").await;
    let c2 = open(&ctx, "c2", !first_noise);
    if !first_noise {
        c2.handshake().await;
    }
    settle().await;
    mc::calm(false);
    c1.send(&wire::subscribe(1, &[("t", SUB)]));
    let how = mc::pick(3);
    end(&c1, how);
    c2.send(&wire::connect("C"));
    p.publish("t", b"x");
    settle().await;
    p.publish("t", b"y");
    settle().await;
    let got = c2.messages();
    ctx.check(connacked(&c2), || "the second connection is not accepted".to_string());
    ctx.check(got.is_empty(), || format!("the new connection got {:?}", got));
}

pub fn b16() -> Vec<Scenario> {
    vec![
        scenario("b16-clean", [2, 5], |c| clean_start(c, false, 1 << 16)).calm(),
        scenario("b16-clean-q1", [1, 5], |c| clean_start(c, false, 0)).calm(),
        scenario("b16-clean-noise", [1, 5], |c| clean_start(c, true, 1 << 16)).calm(),
        scenario("b16-generations", [1, 4], generations).calm(),
        scenario("b16-transports", [2, 5], transports).calm(),
    ]
}

// ---------------------------------------------------------------- time-outs

fn secs(s: u64) -> Duration {
    Duration::from_secs(s)
}
async fn pass(d: Duration) {
    // fire the timers one after the other, as time goes by
    mc::advance(d);
    settle().await;
}

/// Bytes of the stages of a plain connection
async fn idle_plain(ctx: Rc<Ctx>) {
    let keep_alive = [1u16, 2, 60, 65535][mc::pick(4)];
    let b = Broker::start(Opts { keep_alive, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    let tasks = mc::subject_tasks().len();
    mc::calm(false);
    let x = Client::open(&ctx, "X");
    let all = wire::connect(["X", "S"][mc::pick(2)]);
    let cuts = [0, 1, 2, 5, all.len() - 1];
    let cut = cuts[mc::pick(cuts.len())];
    x.raw(&all[..cut]);
    settle().await;
    let k = secs(keep_alive as u64);
    pass(k / 2).await;
    // a few bytes now and then do not keep it alive
    let cut2 = if mc::pick(2) == 1 && cut + 1 < all.len() {
        x.raw(&all[cut..cut + 1]);
        settle().await;
        cut + 1
    } else {
        cut
    };
    let _ = cut2;
    pass(k / 2 + secs(1)).await;
    ctx.check(x.closed(), || format!("a connection idle since {} bytes is still open", cut));
    ctx.check(x.received().is_empty() || matches!(&x.received()[..], [Pkt::Disconnect { .. }]), || {
        format!("the idle connection got {:?}", x.received())
    });
    registered(&ctx, &b, &["S"]).await;
    let now = mc::subject_tasks().len();
    ctx.check(now == tasks, || format!("{} tasks instead of {}", now, tasks));
    served(&ctx, &s, "s").await;
}

/// Several idle connections with different ages
async fn idle_many(ctx: Rc<Ctx>) {
    let b = Broker::start(Opts { keep_alive: 10, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    settle().await;
    let tasks = mc::subject_tasks().len();
    mc::calm(false);
    let a = Client::open(&ctx, "A");
    settle().await;
    pass(secs(6)).await;
    let c = Client::open(&ctx, "C");
    let d = Client::open(&ctx, "D");
    settle().await;
    let late = mc::pick(3);
    if late == 1 {
        a.send(&wire::connect("A"));
        settle().await;
    }
    pass(secs(5)).await;
    // A is 11 s old, C and D 5 s
    ctx.check(a.closed() == (late != 1), || "the age of another connection matters".to_string());
    ctx.check(!c.closed() && !d.closed(), || "closed too early".to_string());
    d.send(&wire::connect("D"));
    settle().await;
    ctx.check(connacked(&d), || "D is not accepted in time".to_string());
    pass(secs(6)).await;
    ctx.check(c.closed(), || "C is still open".to_string());
    let mut ids = vec!["D", "S"];
    if late == 1 {
        ids.push("A");
    }
    registered(&ctx, &b, &ids).await;
    let now = mc::subject_tasks().len();
    ctx.check(now == tasks + ids.len() - 1, || format!("{} tasks instead of {}", now, tasks + ids.len() - 1));
    pass(secs(500)).await;
    served(&ctx, &d, "d").await;
    served(&ctx, &s, "s").await;
    if late == 1 {
        served(&ctx, &a, "a").await;
    }
}

/// Stages of an encrypted connection
async fn idle_noise(ctx: Rc<Ctx>) {
    let keep_alive = [1u16, 2, 60, 65535][mc::pick(4)];
    let b = Broker::start(Opts { keep_alive, noise: true, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let q = noise_client(&ctx, "Q").await;
    settle().await;
    let tasks = mc::subject_tasks().len();
    mc::calm(false);
    let x = Client::open_noise(&ctx, "X");
    let stage = mc::pick(6);
    let hs1 = x.hs1();
    match stage {
        0 => (),
        1 => {
            x.raw(&hs1[..hs1.len() - 1]);
        }
        _ => {
            x.raw(&hs1);
            settle().await;
            if stage > 2 {
                let m = x.hs3_ready().expect("no answer to the handshake");
                if stage == 3 {
                    x.raw(&m[..m.len() - 1]);
                } else {
                    x.raw(&m);
                    if stage == 5 {
                        let c = x.encrypt(&wire::connect("X"));
                        x.raw(&c[..c.len() - 1]);
                    }
                }
            }
        }
    }
    settle().await;
    // handshake and CONNECT have their own time-outs
    for _ in 0..4 {
        pass(secs(keep_alive as u64)).await;
    }
    pass(secs(1)).await;
    ctx.check(x.closed(), || format!("a connection idle in stage {} is still open", stage));
    registered(&ctx, &b, &["Q", "S"]).await;
    let now = mc::subject_tasks().len();
    ctx.check(now == tasks, || format!("{} tasks instead of {}", now, tasks));
    served(&ctx, &s, "s").await;
    served(&ctx, &q, "q").await;
}

/// A connection that is established in time stays
async fn in_time(ctx: Rc<Ctx>, noise: bool) {
    let keep_alive = 8u64;
    let b = Broker::start(Opts { keep_alive: keep_alive as u16, noise, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    settle().await;
    mc::calm(false);
    let x = open(&ctx, "X", noise);
    settle().await;
    let almost = secs(keep_alive) - Duration::from_millis(1);
    let stages = [0, 1, 2][mc::pick(3)];
    let step = almost / 3;
    if noise {
        x.raw(&x.hs1());
        settle().await;
        if stages > 0 {
            pass(step).await;
        }
        let m = x.hs3_ready().expect("no answer to the handshake");
        x.raw(&m);
        settle().await;
    }
    if stages > 1 {
        pass(step).await;
    }
    let c = x.encrypt(&wire::connect("X"));
    let half = c.len() / 2;
    x.raw(&c[..half]);
    settle().await;
    pass(if stages == 0 { almost } else { step }).await;
    x.raw(&c[half..]);
    settle().await;
    ctx.check(connacked(&x), || "the connection is not accepted in time".to_string());
    for d in [1, keep_alive, 3 * keep_alive, 100 * keep_alive] {
        pass(secs(d)).await;
        ctx.check(!x.closed(), || "an established connection is closed by a timer".to_string());
    }
    registered(&ctx, &b, &["S", "X"]).await;
    served(&ctx, &x, "x").await;
    served(&ctx, &s, "s").await;
}

/// The timer fires while the CONNECT arrives: either way it is consistent
async fn at_once(ctx: Rc<Ctx>, noise: bool) {
    let b = Broker::start(Opts { keep_alive: 5, noise, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    let tasks = mc::subject_tasks().len();
    let x = open(&ctx, "X", noise);
    if noise {
        x.handshake().await;
    }
    settle().await;
    mc::calm(false);
    let mut all = x.encrypt(&wire::connect("X"));
    all.extend(x.encrypt(&wire::publish("t", b"x")));
    x.raw(&all);
    for _ in 0..mc::pick(3) {
        tokio::task::yield_now().await;
    }
    mc::advance(secs(5));
    settle().await;
    mc::advance(secs(20));
    settle().await;
    let up = !x.closed();
    ctx.observe(&up);
    let reg = b.registered().await.contains(&"X".to_string());
    ctx.check(up == reg, || format!("open: {}, registered: {}", up, reg));
    if up {
        ctx.check(connacked(&x), || "open without CONNACK".to_string());
        served(&ctx, &x, "x").await;
    } else {
        let now = mc::subject_tasks().len();
        ctx.check(now == tasks, || format!("{} tasks instead of {}", now, tasks));
        let n = count(&s, b"x");
        ctx.check(n == 0, || "a connection that timed out published".to_string());
    }
    served(&ctx, &s, "s").await;
}

pub fn b13() -> Vec<Scenario> {
    vec![
        scenario("b13-idle", [4, 6], idle_plain).calm(),
        scenario("b13-many", [4, 6], idle_many).calm(),
        scenario("b13-idle-noise", [3, 5], idle_noise).calm(),
        scenario("b13-in-time", [4, 6], |c| in_time(c, false)).calm(),
        scenario("b13-in-time-noise", [4, 6], |c| in_time(c, true)).calm(),
        scenario("b13-at-once", [4, 6], |c| at_once(c, false)).calm().cfg(|c| c.early_timers = true),
        scenario("b13-at-once-noise", [4, 6], |c| at_once(c, true)).calm().cfg(|c| c.early_timers = true),
    ]
}

// ---------------------------------------------------------------- shutdown

pub async fn down(ctx: &Rc<Ctx>, b: Broker, cs: &[Client]) {
    b.server.shutdown().await;
    settle().await;
    for c in cs {
        ctx.check(c.closed(), || format!("the connection of {} is still open after shutdown", c.name()));
    }
    let left = mc::subject_tasks();
    ctx.check(left.is_empty(), || {
        format!("tasks are left after shutdown: {:?}", left.iter().map(|t| &t.name[..]).collect::<Vec<_>>())
    });
    for a in [mqtt_addr(), noise_addr()] {
        ctx.check(!tokio::net::listening(a), || format!("{} is still open after shutdown", a));
    }
    ctx.observe(&mc::time());
}

/// Connections in every stage
async fn shutdown_stages(ctx: Rc<Ctx>, n: usize) {
    let b = Broker::start(Opts { noise: true, keep_alive: 50000, ..Opts::default() }).await;
    let mut cs = Vec::new();
    let mut unsettled = false;
    for i in 0..n {
        let stage = mc::pick(14);
        let id = format!("c{}", i);
        let noise = stage >= 8;
        if stage == 0 {
            continue;
        }
        let c = open(&ctx, &id, noise);
        cs.push(c.clone());
        match stage {
            1 => (),
            2 => {
                c.raw(&wire::connect(&id)[..4]);
            }
            3 => connected(&ctx, &c, &id).await,
            4 => {
                connected(&ctx, &c, &id).await;
                c.subscribe(1, &[("t", SUB)]).await;
                c.publish("t", b"x");
                unsettled = true;
            }
            5 => {
                connected(&ctx, &c, &id).await;
                c.half_close();
                unsettled = true;
            }
            6 => {
                connected(&ctx, &c, &id).await;
                c.subscribe(1, &[("t", SUB)]).await;
                c.pull();
                c.set_capacity(1);
                c.publish("t", b"x");
                c.publish("t", b"y");
            }
            7 => {
                c.raw(&wire::connect(&id));
                unsettled = true;
            }
            8 => (),
            9 => {
                c.raw(&c.hs1());
            }
            10 => {
                c.handshake().await;
            }
            11 => connected(&ctx, &c, &id).await,
            12 => {
                connected(&ctx, &c, &id).await;
                c.publish("t", b"x");
                c.half_close();
                unsettled = true;
            }
            _ => {
                c.handshake().await;
                c.set_capacity(3);
                c.send(&wire::connect(&id));
            }
        }
    }
    if !unsettled || mc::pick(2) == 1 {
        settle().await;
    }
    mc::calm(false);
    down(&ctx, b, &cs).await;
}

/// Shutdown while everything is going on
async fn shutdown_busy(ctx: Rc<Ctx>, queue: usize) {
    let b = Broker::start(Opts { noise: true, queue, keep_alive: 50000, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    let q = noise_client(&ctx, "Q").await;
    for c in [&s, &q] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    mc::calm(false);
    let mut cs = vec![s.clone(), p.clone(), q.clone()];
    let x = Client::open(&ctx, "X");
    x.raw(&wire::connect("S"));
    let y = Client::open(&ctx, "Y");
    y.raw(&wire::connect("Y"));
    let z = Client::open_noise(&ctx, "Z");
    z.raw(&z.hs1());
    cs.extend([x, y, z]);
    for m in ["1", "2", "3"] {
        p.publish("t", m.as_bytes());
        q.publish("t", m.as_bytes());
    }
    match mc::pick(3) {
        0 => s.reset(),
        1 => p.half_close(),
        _ => (),
    }
    if mc::pick(2) == 1 {
        tokio::task::yield_now().await;
    }
    down(&ctx, b, &cs).await;
}

/// All combinations of listeners; clients that connect meanwhile
async fn shutdown_listeners(ctx: Rc<Ctx>) {
    let mqtt = mc::pick(2) == 1;
    let noise = mc::pick(2) == 1;
    let queue = [0, 1 << 16][mc::pick(2)];
    let b = Broker::start(Opts { mqtt, noise, queue, keep_alive: 50000, ..Opts::default() }).await;
    let settled = mc::pick(2) == 1;
    if settled {
        settle().await;
    }
    mc::calm(false);
    let mut cs = Vec::new();
    if mqtt {
        let c = Client::open(&ctx, "M");
        c.raw(&wire::connect("M"));
        cs.push(c);
    }
    if noise {
        let c = Client::open_noise(&ctx, "N");
        c.raw(&c.hs1());
        cs.push(c);
    }
    if mc::pick(2) == 1 {
        settle().await;
    }
    let ctx2 = ctx.clone();
    let t = mc::spawn("late", async move {
        if !mqtt {
            return None;
        }
        let c = Client::try_open(&ctx2, "L")?;
        c.raw(&wire::connect("L"));
        Some(c)
    });
    let ctx3 = ctx.clone();
    let cs2 = cs.clone();
    down(&ctx3, b, &cs2).await;
    if let Ok(Some(c)) = t.await {
        settle().await;
        ctx.check(c.closed(), || "a late connection is still open after shutdown".to_string());
    }
}

/// Connections that end by themselves during shutdown
async fn shutdown_ends(ctx: Rc<Ctx>) {
    let b = Broker::start(Opts { noise: true, keep_alive: 50000, ..Opts::default() }).await;
    let mut cs = Vec::new();
    for i in 0..3 {
        let c = any_client(&ctx, &format!("c{}", i), i == 2).await;
        cs.push(c);
    }
    settle().await;
    mc::calm(false);
    let who = mc::pick(3);
    let how = 1 + mc::pick(3);
    let c = cs[who].clone();
    let second = mc::pick(2) == 1;
    let d = cs[(who + 1) % 3].clone();
    let t = mc::spawn("ending", async move {
        end(&c, how);
        if second {
            d.reset();
        }
    });
    down(&ctx, b, &cs).await;
    let _ = t.await;
}

/// Nobody reads
async fn shutdown_blocked(ctx: Rc<Ctx>) {
    let b = Broker::start(Opts { noise: true, queue: 0, keep_alive: 50000, ..Opts::default() }).await;
    let mut cs = Vec::new();
    for i in 0..3 {
        let c = any_client(&ctx, &format!("c{}", i), i == 2).await;
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, &c, g, 1);
        c.pull();
        c.set_capacity(1 + i);
        cs.push(c);
    }
    settle().await;
    mc::calm(false);
    for c in &cs {
        for m in ["1", "2"] {
            c.publish("t", m.as_bytes());
        }
    }
    if mc::pick(2) == 1 {
        settle().await;
    }
    down(&ctx, b, &cs).await;
}

pub fn b14() -> Vec<Scenario> {
    vec![
        scenario("b14-stages-1", [4, 6], |c| shutdown_stages(c, 1)).calm(),
        scenario("b14-stages-2", [1, 4], |c| shutdown_stages(c, 2)).calm(),
        scenario("b14-stages-3", [0, 3], |c| shutdown_stages(c, 3)).calm(),
        scenario("b14-busy", [2, 5], |c| shutdown_busy(c, 1 << 16)).calm(),
        scenario("b14-busy-q1", [1, 5], |c| shutdown_busy(c, 0)).calm(),
        scenario("b14-listeners", [3, 6], shutdown_listeners).calm(),
        scenario("b14-ends", [2, 6], shutdown_ends).calm(),
        scenario("b14-blocked", [2, 6], shutdown_blocked).calm(),
    ]
}
