//! B05 to B07: the CONNECT handshake, robustness against any client, clean-up

use crate::b_deliver::{count, grant};
use crate::client::*;
use crate::explore::*;
use crate::wire::{self, Pkt, Val, CLEAN, NO_LOCAL, RAP, SUB};
use std::rc::Rc;
use tokio::mc;

#[derive(Clone)]
pub enum Want {
    /// Session expiry, receive maximum
    Accept(u32, u16),
    /// Closed after a failure CONNACK
    Refuse,
    /// Closed, a failure CONNACK is fine
    Malformed,
    /// Closed, nothing is sent
    Close,
}

pub fn p4(id: u8, v: u32) -> Vec<u8> {
    let mut o = vec![id];
    o.extend(v.to_be_bytes());
    o
}
pub fn p2(id: u8, v: u16) -> Vec<u8> {
    let mut o = vec![id];
    o.extend(v.to_be_bytes());
    o
}
fn pb(id: u8, b: &[u8]) -> Vec<u8> {
    let mut o = vec![id];
    o.extend(wire::binary(b));
    o
}

pub fn first_packets(id: &str) -> Vec<(&'static str, Vec<u8>, Want)> {
    use Want::*;
    let c = |flags: u8, p: &[u8], tail: &[u8]| wire::connect_with(id, flags, 60, p, tail);
    let will = [vec![0u8], wire::string("t"), wire::binary(b"will")].concat();
    let user = wire::string("u");
    let pass = wire::binary(b"p");
    let mut v = vec![
        ("plain", c(CLEAN, &[], &[]), Accept(0, 65535)),
        ("no-keep-alive", wire::connect_with(id, CLEAN, 0, &[], &[]), Accept(0, 65535)),
        ("long-keep-alive", wire::connect_with(id, CLEAN, 65535, &[], &[]), Accept(0, 65535)),
        ("expiry", c(CLEAN, &p4(17, 77), &[]), Accept(77, 65535)),
        ("expiry-0", c(CLEAN, &p4(17, 0), &[]), Accept(0, 65535)),
        ("expiry-max", c(CLEAN, &p4(17, u32::MAX), &[]), Accept(u32::MAX, 65535)),
        ("receive-max", c(CLEAN, &p2(33, 9), &[]), Accept(0, 9)),
        ("receive-max-1", c(CLEAN, &p2(33, 1), &[]), Accept(0, 1)),
        ("receive-max-big", c(CLEAN, &p2(33, 0xfffe), &[]), Accept(0, 0xfffe)),
        ("both", c(CLEAN, &[p2(33, 258), p4(17, 0x01020304)].concat(), &[]), Accept(0x01020304, 258)),
        ("alias-max", c(CLEAN, &p2(34, 5), &[]), Accept(0, 65535)),
        ("packet-size", c(CLEAN, &p4(39, 900), &[]), Accept(0, 65535)),
        ("packet-size-max", c(CLEAN, &p4(39, u32::MAX), &[]), Accept(0, 65535)),
        ("response-info-0", c(CLEAN, &[25, 0], &[]), Accept(0, 65535)),
        ("response-info-1", c(CLEAN, &[25, 1], &[]), Accept(0, 65535)),
        ("problem-info-0", c(CLEAN, &[23, 0], &[]), Accept(0, 65535)),
        ("problem-info-1", c(CLEAN, &[23, 1], &[]), Accept(0, 65535)),
        ("user-name", c(CLEAN | 0x80, &[], &user), Refuse),
        ("password", c(CLEAN | 0x40, &[], &pass), Refuse),
        ("user-name-password", c(CLEAN | 0xC0, &[], &[user.clone(), pass.clone()].concat()), Refuse),
        ("empty-user-name", c(CLEAN | 0x80, &[], &[0, 0]), Refuse),
        ("empty-password", c(CLEAN | 0x40, &[], &[0, 0]), Refuse),
        ("will", c(CLEAN | 0x04, &[], &will), Refuse),
        ("will-qos1", c(CLEAN | 0x0C, &[], &will), Refuse),
        ("will-retain", c(CLEAN | 0x24, &[], &will), Refuse),
        ("will-user-name", c(CLEAN | 0x84, &[], &[will.clone(), user.clone()].concat()), Refuse),
        ("no-clean-start", c(0, &[], &[]), Refuse),
        ("no-clean-start-expiry", c(0, &p4(17, 5), &[]), Refuse),
        ("auth-method", c(CLEAN, &pb(21, b"SCRAM"), &[]), Refuse),
        ("auth-method-data", c(CLEAN, &[pb(21, b"X"), pb(22, b"d")].concat(), &[]), Refuse),
        ("auth-last", c(CLEAN, &[p4(17, 5), p2(33, 3), pb(21, b"X")].concat(), &[]), Refuse),
        ("bad-flags", { let mut f = c(CLEAN, &[], &[]); f[0] = 0x11; f }, Malformed),
        ("reserved-bit", c(CLEAN | 1, &[], &[]), Malformed),
        ("will-flags-without-will", c(CLEAN | 0x08, &[], &[]), Malformed),
        ("protocol-name", { let mut f = c(CLEAN, &[], &[]); f[4] = b'm'; f }, Malformed),
        ("version-4", { let mut f = c(CLEAN, &[], &[]); f[8] = 4; f }, Malformed),
        ("version-6", { let mut f = c(CLEAN, &[], &[]); f[8] = 6; f }, Malformed),
        ("twice", c(CLEAN, &[p2(33, 9), p2(33, 9)].concat(), &[]), Malformed),
        ("foreign-property", c(CLEAN, &p2(35, 9), &[]), Malformed),
        ("trailing", c(CLEAN, &[], &[0]), Malformed),
        ("missing-user-name", c(CLEAN | 0x80, &[], &[]), Malformed),
        ("garbage", vec![0xff, 0xff, 0xff, 0xff, 0xff], Malformed),
        ("type-0", vec![0, 0], Malformed),
        ("long-length", vec![0x10, 0x80, 0x80, 0x80, 0x80, 0x01], Malformed),
        ("publish", wire::publish("t", b"intruder"), Close),
        ("subscribe", wire::subscribe(1, &[("t", SUB)]), Close),
        ("unsubscribe", wire::unsubscribe(1, &["t"]), Close),
        ("pingreq", wire::pingreq(), Close),
        ("disconnect", wire::disconnect(), Close),
        ("auth", wire::frame(0xF0, &[0x18, 0]), Close),
        ("connack", wire::frame(0x20, &[0, 0, 0]), Close),
        ("suback", wire::frame(0x90, &[0, 1, 0, 0]), Close),
        ("puback", wire::frame(0x40, &[0, 1, 0, 0]), Close),
        ("pingresp", wire::frame(0xD0, &[]), Close),
    ];
    if id.is_empty() {
        v.retain(|(_, _, w)| matches!(w, Accept(..) | Refuse));
    }
    v
}

fn prop(props: &wire::Props, id: u8) -> Option<Val> {
    let mut i = props.iter().filter(|p| p.0 == id);
    let v = i.next().map(|p| p.1.clone());
    if i.next().is_some() {
        return Some(Val::Str(b"twice".to_vec()));
    }
    v
}

/// Checks a successful CONNACK, gives the assigned identifier
pub fn connack_ok(ctx: &Ctx, p: Option<&Pkt>, id: &str, expiry: u32, recv: u16, keep_alive: u16) -> String {
    match p {
        Some(Pkt::ConnAck { present, reason: 0, props }) => {
            ctx.check(*present == 0, || "CONNACK announces a session".to_string());
            for (k, v) in [
                (17, Val::Four(expiry)),
                (33, Val::Two(recv)),
                (36, Val::Byte(0)),
                (34, Val::Two(0)),
                (19, Val::Two(keep_alive)),
            ] {
                let got = prop(props, k);
                ctx.check(got == Some(v.clone()), || {
                    format!("property {} of the CONNACK is {:?} instead of {:?}", k, got, v)
                });
            }
            for k in [41, 42] {
                let got = prop(props, k);
                ctx.check(got.is_none() || got == Some(Val::Byte(0)), || {
                    format!("the CONNACK announces an unsupported feature, property {}", k)
                });
            }
            match prop(props, 18) {
                None => {
                    ctx.check(!id.is_empty(), || "no identifier was assigned".to_string());
                    id.to_string()
                }
                Some(Val::Str(s)) => {
                    ctx.check(id.is_empty(), || "an identifier was assigned although the client has one".to_string());
                    let s = String::from_utf8_lossy(&s).to_string();
                    ctx.check(!s.is_empty(), || "an empty identifier was assigned".to_string());
                    s
                }
                Some(_) => {
                    ctx.fail("bad assigned identifier");
                    String::new()
                }
            }
        }
        other => {
            ctx.fail(format!("the client {:?} is not accepted: {:?}", id, other));
            id.to_string()
        }
    }
}

const IDS: &[&str] = &["N", "BY", ""];

async fn first(ctx: Rc<Ctx>, noise: bool, tails: usize) {
    let keep_alive = 60;
    let b = Broker::start(Opts { keep_alive, noise, ..Opts::default() }).await;
    let by = client(&ctx, "BY").await;
    let g = by.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &by, g, 1);
    settle().await;
    let base = mc::subject_tasks().len();
    mc::calm(false);
    let id = IDS[mc::pick(IDS.len())];
    let menu = first_packets(id);
    let (name, packet, want) = menu[mc::pick(menu.len())].clone();
    let tail = mc::pick(tails);
    let sub = wire::subscribe(5, &[("u", SUB)]);
    let p1 = wire::publish("u", b"own");
    let p2 = wire::publish("t", b"tail");
    let x = if noise { Client::open_noise(&ctx, "X") } else { Client::open(&ctx, "X") };
    if noise && !x.handshake().await {
        ctx.fail("the noise handshake fails");
        return;
    }
    let mut bytes = x.encrypt(&packet);
    if tail == 1 {
        for m in [&sub, &p1, &p2] {
            bytes.extend(x.encrypt(m));
        }
    }
    x.raw(&bytes);
    settle().await;
    let got = x.received();
    ctx.observe(&got.len());
    let accepted = matches!(want, Want::Accept(..));
    match want {
        Want::Accept(expiry, recv) => {
            let id = connack_ok(&ctx, got.first(), id, expiry, recv, keep_alive);
            ctx.check(!x.closed(), || format!("{}: the connection is closed", name));
            let mut all = vec!["BY"];
            if id != "BY" {
                all.push(&id);
            }
            registered(&ctx, &b, &all).await;
            if tail == 1 {
                ctx.check(count(&x, b"own") == 1, || format!("{}: pipelined requests are not served", name));
            } else {
                ctx.check(got.len() == 1, || format!("{}: unsolicited packets: {:?}", name, got));
            }
            served(&ctx, &x, "x").await;
        }
        _ => {
            ctx.check(x.closed(), || format!("{}: the connection is not closed", name));
            registered(&ctx, &b, &["BY"]).await;
            let left = mc::subject_tasks().len();
            ctx.check(left == base, || format!("{}: {} tasks instead of {}", name, left, base));
            match want {
                Want::Refuse => {
                    ctx.check(
                        matches!(&got[..], [Pkt::ConnAck { reason, .. }] if *reason >= 0x80),
                        || format!("{}: answered with {:?}", name, got),
                    );
                }
                Want::Malformed => {
                    ctx.check(
                        matches!(&got[..], [] | [Pkt::ConnAck { reason: 0x80..=0xff, .. }]),
                        || format!("{}: answered with {:?}", name, got),
                    );
                }
                _ => {
                    ctx.check(got.is_empty(), || format!("{}: answered with {:?}", name, got));
                }
            }
        }
    }
    let tails = count(&by, b"tail") + count(&by, b"intruder");
    if id != "BY" || !accepted {
        ctx.check(tails == (accepted && tail == 1) as usize, || {
            format!("{}: the other client got {:?}", name, by.messages())
        });
        served(&ctx, &by, "by").await;
    }
}

/// Several clients without an identifier
async fn assigned(ctx: Rc<Ctx>) {
    let b = Broker::start(Opts { noise: true, ..Opts::default() }).await;
    let mut hs = Vec::new();
    let mut cs = Vec::new();
    for i in 0..3 {
        let c = if i == 1 {
            Client::open_noise(&ctx, &format!("c{}", i))
        } else {
            Client::open(&ctx, &format!("c{}", i))
        };
        cs.push(c.clone());
        hs.push(mc::spawn("connect", async move { c.connect("").await }));
    }
    let mut ids = Vec::new();
    for h in hs {
        let p = h.await.ok().flatten();
        ids.push(connack_ok(&ctx, p.as_ref(), "", 0, 65535, 60));
    }
    settle().await;
    let mut all: Vec<&str> = ids.iter().map(|s| &s[..]).collect();
    all.sort();
    all.dedup();
    ctx.check(all.len() == 3, || format!("assigned identifiers {:?}", ids));
    registered(&ctx, &b, &all).await;
    for (i, c) in cs.iter().enumerate() {
        served(&ctx, c, &i.to_string()).await;
    }
}

/// The first packet is CONNACK even if messages for the identifier are on their way
async fn connack_first(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts::default()).await;
    let old = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    let g = old.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &old, g, 1);
    settle().await;
    mc::calm(false);
    let new = Client::open(&ctx, "S");
    let mut all = wire::connect("S");
    all.extend(wire::subscribe(2, &[("t", SUB)]));
    new.raw(&all);
    let p2 = p.clone();
    let t = mc::spawn("P", async move {
        for m in ["1", "2", "3"] {
            p2.publish("t", m.as_bytes());
            tokio::task::yield_now().await;
        }
    });
    let _ = t.await;
    settle().await;
    let got = new.received();
    ctx.observe(&got.len());
    connack_ok(&ctx, got.first(), "S", 0, 65535, 60);
    let acks = got.iter().filter(|p| matches!(p, Pkt::ConnAck { .. })).count();
    ctx.check(acks == 1, || format!("{} CONNACKs", acks));
}

/// Nothing is done for a connection before its CONNECT is complete
async fn partial(ctx: Rc<Ctx>) {
    let b = Broker::start(Opts::default()).await;
    let by = client(&ctx, "BY").await;
    settle().await;
    let base = mc::subject_tasks().len();
    mc::calm(false);
    let ids = ["N", "BY"];
    let id = ids[mc::pick(2)];
    let mut all = wire::connect_with(id, CLEAN, 60, &p4(17, 3), &[]);
    let len = all.len();
    let cut = mc::pick(len);
    let x = Client::open(&ctx, "X");
    x.raw(&all[..cut]);
    settle().await;
    ctx.check(x.received().is_empty(), || "an answer to an incomplete CONNECT".to_string());
    registered(&ctx, &b, &["BY"]).await;
    served(&ctx, &by, "by").await;
    match mc::pick(3) {
        0 => {
            all.extend(wire::subscribe(4, &[("t", SUB)]));
            x.raw(&all[cut..]);
            settle().await;
            let got = x.received();
            connack_ok(&ctx, got.first(), id, 3, 65535, 60);
            ctx.check(got.len() == 2, || format!("answered with {:?}", got));
            served(&ctx, &x, "x").await;
        }
        k => {
            if k == 1 { x.close() } else { x.reset() }
            settle().await;
            registered(&ctx, &b, &["BY"]).await;
            let n = mc::subject_tasks().len();
            ctx.check(n == base, || format!("{} tasks instead of {}", n, base));
            served(&ctx, &by, "by2").await;
        }
    }
}

pub fn b05() -> Vec<Scenario> {
    vec![
        scenario("b05-first", [2, 4], |c| first(c, false, 2)).calm(),
        scenario("b05-first-noise", [0, 2], |c| first(c, true, 2)).calm(),
        scenario("b05-assigned", [2, 4], assigned),
        scenario("b05-assigned-seed2", [2, 4], assigned).seed(2),
        scenario("b05-connack-first", [2, 4], connack_first).calm(),
        scenario("b05-partial", [2, 4], partial).calm(),
    ]
}

// ---------------------------------------------------------------- robustness

/// What a misbehaving client may send
pub fn attacks() -> Vec<Vec<u8>> {
    let pb = |flags: u8, topic: &str, pid: Option<u16>, p: &[u8]| wire::publish_with(flags, topic, pid, p, b"atk");
    let s = |f: &str, o: u8| wire::subscribe(3, &[(f, o)]);
    let deep = vec!["d"; 60].join("/");
    let mut v = vec![
        wire::publish("t", b"atk"),
        s("t", SUB),
        wire::connect("X"),
        wire::connect("S"),
        wire::connect_with("X", 0, 0, &[], &[]),
        pb(2, "t", Some(1), &[]),
        pb(4, "t", Some(1), &[]),
        pb(6, "t", Some(1), &[]),
        pb(1, "t", None, &[]),
        pb(8, "t", None, &[]),
        pb(10, "t", Some(7), &[]),
        pb(0, "t", None, &p2(35, 1)),
        pb(0, "", None, &p2(35, 1)),
        pb(0, "", None, &[]),
        pb(0, "t", None, &[11, 5]),
        pb(0, "t", None, &p4(2, 10)),
        pb(0, "t", None, &[1, 1]),
        pb(0, "t", None, &[1, 2]),
        pb(0, "t", None, &[3, 0, 1, b'c', 8, 0, 1, b'r', 9, 0, 1, 0]),
        pb(0, "t", None, &[38, 0, 1, b'k', 0, 1, b'v']),
        pb(0, "t", None, &[38, 0, 1, b'k']),
        pb(0, "t/+", None, &[]),
        pb(0, "#", None, &[]),
        pb(0, "$SYS/t", None, &[]),
        pb(0, &deep, None, &[]),
        pb(0, "/", None, &[]),
        s("t", SUB | NO_LOCAL),
        s("t", SUB | RAP),
        s("t", SUB | RAP | NO_LOCAL),
        s("t", 0x21),
        s("t", 0x22),
        s("t", 0x23),
        s("t", 0x00),
        s("t", 0x10),
        s("t", 0x30),
        s("t", 0x60),
        s("#", SUB),
        s("", SUB),
        s("+/+/+", SUB),
        s("$share/g/t", SUB),
        s("$share//t", SUB),
        s("$share/g", SUB),
        s(&deep, SUB),
        s("a#", SUB),
        wire::subscribe(3, &[]),
        wire::subscribe(0, &[("t", SUB)]),
        wire::subscribe_with(3, &[11, 9], &[("t", SUB)]),
        wire::subscribe_with(3, &[38, 0, 1, b'k'], &[("t", SUB)]),
        wire::subscribe(3, &[("t", SUB), ("t", SUB | RAP), ("t", 0x22), ("#", SUB)]),
        wire::unsubscribe(4, &["t"]),
        wire::unsubscribe(4, &[]),
        wire::pingreq(),
        wire::disconnect(),
        wire::frame(0xE0, &[]),
        wire::frame(0xE0, &[4, 0]),
        wire::frame(0xE0, &[0x8e, 5, 17, 0, 0, 0, 1]),
        wire::frame(0xF0, &[0x18, 0]),
        wire::frame(0xF0, &[0x19, 5, 21, 0, 2, b'a', b'b']),
        wire::frame(0x20, &[0, 0, 0]),
        wire::frame(0x40, &[0, 1, 0, 0]),
        wire::frame(0x40, &[0, 1]),
        wire::frame(0x50, &[0, 1, 0, 0]),
        wire::frame(0x62, &[0, 1, 0, 0]),
        wire::frame(0x70, &[0, 1, 0, 0]),
        wire::frame(0x90, &[0, 1, 0, 0]),
        wire::frame(0xB0, &[0, 1, 0, 0]),
        wire::frame(0xD0, &[]),
        wire::frame(0xC0, &[0]),
        vec![0, 0],
        vec![0xff; 8],
        vec![0; 40],
        vec![0x30, 0xff, 0xff, 0xff, 0x7f],
        vec![0x30, 0xff, 0xff, 0xff, 0xff, 0x01],
        vec![0x30],
        vec![0x30, 5, 0, 9],
        vec![0x82, 0x80, 0x00],
        vec![0x30, 3, 0, 1, 0xff],
        wire::frame(0x30, &[0xff; 30]),
        wire::frame(0x30, &[b'x'; 1100]),
        wire::publish("t", &[7; 1010]),
    ];
    v.push(wire::frame(0x30, &[0, 1, b't', 0xff, 0xff, 0xff, 0x7f]));
    v
}

pub async fn alive(ctx: &Rc<Ctx>, s: &Client, p: &Client, noise: bool) {
    let before = count(s, b"still");
    p.publish("t", b"still");
    settle().await;
    let n = count(s, b"still") - before;
    ctx.check(n == 1, || format!("a message between other clients arrives {} times", n));
    served(ctx, s, "s").await;
    served(ctx, p, "p").await;
    let open = |noise| if noise { Client::open_noise(ctx, "N") } else { Client::open(ctx, "N") };
    for n in [false, true] {
        if n && !noise {
            continue;
        }
        let c = open(n);
        if n {
            c.raw(&c.hs1());
            settle().await;
            c.pull();
            // the handshake answers within one step
            if !c.handshake_done().await {
                ctx.fail("a new client cannot complete the noise handshake");
                continue;
            }
        }
        c.send(&wire::connect("N"));
        settle().await;
        let got = c.received();
        if ctx.check(matches!(got.first(), Some(Pkt::ConnAck { reason: 0, .. })), || {
            "a new client is not accepted".to_string()
        }) {
            served(ctx, &c, if n { "nn" } else { "n" }).await;
        }
    }
    for (task, what) in mc::panics() {
        ctx.fail(format!("a task of the broker died: {}: {}", task, what));
    }
}

pub fn finish(c: &Client, how: usize) {
    match how {
        0 => (),
        1 => c.close(),
        2 => c.reset(),
        _ => c.half_close(),
    }
}

async fn attack(ctx: Rc<Ctx>, connected_first: bool, noise: bool, n: usize, ends: usize) {
    let _b = Broker::start(Opts { noise: true, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    let menu = attacks();
    let x = if noise { Client::open_noise(&ctx, "X") } else { Client::open(&ctx, "X") };
    if noise && !x.handshake().await {
        ctx.fail("no handshake");
        return;
    }
    if connected_first {
        x.send(&wire::connect("X"));
    }
    settle().await;
    mc::calm(false);
    let mut all = Vec::new();
    for _ in 0..n {
        all.extend(x.encrypt(&menu[mc::pick(menu.len())]));
    }
    x.raw(&all);
    let end = mc::pick(ends);
    let wait = ends > 1 && mc::pick(2) == 1;
    if wait {
        settle().await;
    }
    finish(&x, end);
    settle().await;
    ctx.observe(&x.received().len());
    // messages of the attacker to S are fine, and so is taking over S
    let s = if s.closed() {
        let s = client(&ctx, "S").await;
        let g = s.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, &s, g, 1);
        s
    } else {
        s
    };
    alive(&ctx, &s, &p, true).await;
}

/// Raw bytes to the encrypted listener
async fn attack_noise_raw(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts { noise: true, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    mc::calm(false);
    let x = Client::open_noise(&ctx, "X");
    let stage = mc::pick(3);
    if stage > 0 {
        if stage == 1 {
            x.raw(&x.hs1());
        } else {
            x.handshake().await;
            x.send(&wire::connect("X"));
        }
        settle().await;
    }
    let hs1 = x.noise_sample();
    let junk: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![0, 0, 0, 0],
        vec![0, 0, 0, 1, 0],
        noise_frame(&[0; 15]),
        noise_frame(&[0; 16]),
        noise_frame(&[0; 17]),
        noise_frame(&[0; 32]),
        noise_frame(&[0; 48]),
        noise_frame(&[0; 64]),
        noise_frame(&[0xff; 64]),
        noise_frame(&[0; 100]),
        noise_frame(&[1; 300]),
        noise_frame(&vec![3; 70000]),
        vec![0xff; 10],
        vec![0, 0x80, 0, 1, 9],
        wire::connect("X"),
        hs1.clone(),
        [hs1.clone(), hs1].concat(),
    ];
    let j = &junk[mc::pick(junk.len())];
    x.raw(j);
    if mc::pick(2) == 1 {
        settle().await;
    }
    finish(&x, mc::pick(4));
    settle().await;
    alive(&ctx, &s, &p, true).await;
}

/// `accept` fails now and then
async fn attack_accept(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts { noise: true, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    mc::calm(false);
    let addr = [mqtt_addr(), noise_addr()][mc::pick(2)];
    tokio::net::fail_accept(addr, 1 + mc::pick(3) as u32);
    if mc::pick(2) == 1 {
        settle().await;
    }
    alive(&ctx, &s, &p, true).await;
}

/// Requests of a client that is gone or taken over when they are handled
async fn attack_gone(ctx: Rc<Ctx>, queue: usize) {
    let _b = Broker::start(Opts { queue, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    let x = client(&ctx, "X").await;
    settle().await;
    mc::calm(false);
    let reqs = [
        wire::publish("t", b"atk"),
        wire::subscribe(1, &[("t", SUB)]),
        wire::subscribe(1, &[("t", SUB | RAP), ("q", 0x21)]),
        wire::pingreq(),
        wire::publish_with(1, "t", None, &[], b"r"),
        wire::unsubscribe(1, &["t"]),
    ];
    let a = &reqs[mc::pick(reqs.len())];
    let b = &reqs[mc::pick(reqs.len())];
    x.raw(&[&a[..], &b[..]].concat());
    let p2 = p.clone();
    let t = mc::spawn("P", async move {
        p2.publish("t", b"p1");
        p2.publish("t", b"p2");
    });
    match mc::pick(3) {
        0 => x.close(),
        1 => x.reset(),
        _ => {
            let y = Client::open(&ctx, "X");
            y.send(&wire::connect("X"));
        }
    }
    let _ = t.await;
    settle().await;
    ctx.observe(&s.messages());
    for m in [b"p1", b"p2"] {
        let n = count(&s, m);
        ctx.check(n == 1, || format!("S got {} copies of a message", n));
    }
    alive(&ctx, &s, &p, false).await;
}

/// Filters and topics with as many levels as there can be
async fn attack_depth(ctx: Rc<Ctx>) {
    let b = Broker::start(Opts { max_packet: 100_000, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    let mut all = Vec::new();
    for n in [2_000, 32_768] {
        let a = vec!["a"; n].join("/");
        all.push((a.clone(), a.clone()));
        all.push((format!("{}#", &a[..a.len() - 1]), a.clone()));
        all.push((vec!["+"; n].join("/"), a.clone()));
        all.push((a.clone(), format!("{}b", &a[..a.len() - 1])));
    }
    all.push(("/".repeat(65_535), "/".repeat(65_535)));
    all.push((format!("{}+", "/".repeat(65_534)), "/".repeat(65_534)));
    // 64 KiB in other ways
    all.push(("x".repeat(65_535), "x".repeat(65_535)));
    let (f, t) = &all[mc::pick(all.len())];
    let x = client(&ctx, "X").await;
    x.send(&wire::subscribe(2, &[(&f[..], SUB)]));
    settle().await;
    for c in [&x, &p] {
        c.publish(t, b"deep");
        settle().await;
    }
    let end = mc::pick(4);
    finish(&x, end);
    settle().await;
    if end > 0 {
        let x = client(&ctx, "X").await;
        x.send(&wire::subscribe(3, &[(&f[..], SUB), ("u", SUB), (&f[..], SUB | NO_LOCAL)][..1 + mc::pick(2)]));
        p.publish(t, b"deep");
        settle().await;
    }
    alive(&ctx, &s, &p, false).await;
    b.server.shutdown().await;
}

pub fn b06() -> Vec<Scenario> {
    vec![
        scenario("b06-one", [1, 3], |c| attack(c, true, false, 1, 4)).calm(),
        scenario("b06-one-first", [1, 3], |c| attack(c, false, false, 1, 4)).calm(),
        scenario("b06-one-noise", [0, 2], |c| attack(c, true, true, 1, 4)).calm(),
        scenario("b06-two", [0, 2], |c| attack(c, true, false, 2, 1)).calm(),
        scenario("b06-two-first", [crate::SKIP, 0], |c| attack(c, false, false, 2, 1)).calm(),
        scenario("b06-two-noise", [crate::SKIP, 0], |c| attack(c, true, true, 2, 1)).calm(),
        scenario("b06-three", [crate::SKIP, 0], |c| attack(c, true, false, 3, 1)).calm(),
        scenario("b06-noise-raw", [0, 2], attack_noise_raw).calm(),
        scenario("b06-accept", [2, 4], attack_accept).calm(),
        scenario("b06-gone", [1, 3], |c| attack_gone(c, 1 << 16)).calm(),
        scenario("b06-depth", [0, 0], attack_depth).cfg(|c| {
            c.points = 0;
            c.sched = false;
            c.max_ops = u64::MAX;
        }),
        scenario("b06-gone-q1", [1, 3], |c| attack_gone(c, 0)).calm(),
    ]
}

// ---------------------------------------------------------------- clean-up

struct Base {
    b: Broker,
    s: Client,
    p: Client,
    tasks: usize,
}

async fn base(ctx: &Rc<Ctx>, o: Opts) -> Base {
    let b = Broker::start(o).await;
    let s = client(ctx, "S").await;
    let p = client(ctx, "P").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(ctx, &s, g, 1);
    settle().await;
    let tasks = mc::subject_tasks().len();
    Base { b, s, p, tasks }
}

impl Base {
    async fn cleaned(&self, ctx: &Rc<Ctx>, v: &[&Client], extra: &[&str]) {
        settle().await;
        let mut ids = vec!["S", "P"];
        ids.extend(extra);
        registered(ctx, &self.b, &ids).await;
        for v in v {
            ctx.check(v.closed(), || format!("the socket of {} stays open", v.name()));
        }
        let left = mc::subject_tasks();
        ctx.check(left.len() == self.tasks + extra.len(), || {
            format!(
                "{} tasks are left instead of {}: {:?}",
                left.len(),
                self.tasks + extra.len(),
                left.iter().map(|t| &t.name[..]).collect::<Vec<_>>()
            )
        });
        for s in mc::spins() {
            ctx.fail(format!("a task reads the end of a stream over and over: {}", s));
        }
    }
}

/// The connection ends after any number of bytes
async fn cut(ctx: Rc<Ctx>, ends: &'static [usize], waits: usize) {
    let base = base(&ctx, Opts::default()).await;
    mc::calm(false);
    let mut all = wire::connect("V");
    all.extend(wire::subscribe(2, &[("t", SUB), ("v", SUB)]));
    all.extend(wire::publish("t", b"from v"));
    all.extend(wire::pingreq());
    let cut = mc::pick(all.len() + 1);
    let end = ends[mc::pick(ends.len())];
    let wait = mc::pick(waits);
    let traffic = mc::pick(2) == 1;
    let v = Client::open(&ctx, "V");
    v.raw(&all[..cut]);
    if wait == 0 {
        settle().await;
    }
    if traffic {
        base.p.publish("t", b"p1");
    }
    finish(&v, end);
    base.cleaned(&ctx, &[&v], &[]).await;
    if traffic {
        let n = count(&base.s, b"p1");
        ctx.check(n == 1, || format!("S got {} copies of a message", n));
    }
}

async fn cut_noise(ctx: Rc<Ctx>) {
    let base = base(&ctx, Opts { noise: true, ..Opts::default() }).await;
    mc::calm(false);
    let v = Client::open_noise(&ctx, "V");
    let stage = mc::pick(3);
    let end = 1 + mc::pick(3);
    let wait = mc::pick(2) == 1;
    let hs1 = v.hs1();
    let mut send = |all: Vec<u8>| {
        let cut = mc::pick(all.len() + 1);
        v.raw(&all[..cut]);
    };
    match stage {
        0 => send(hs1),
        1 => {
            v.raw(&hs1);
            settle().await;
            match v.hs3_ready() {
                Some(m) => send(m),
                None => ctx.fail("no answer to the handshake"),
            }
        }
        _ => {
            v.raw(&hs1);
            settle().await;
            match v.hs3_ready() {
                Some(m) => {
                    v.raw(&m);
                    let mut all = v.encrypt(&wire::connect("V"));
                    all.extend(v.encrypt(&wire::subscribe(2, &[("t", SUB)])));
                    send(all);
                }
                None => ctx.fail("no answer to the handshake"),
            }
        }
    }
    if wait {
        settle().await;
    }
    base.p.publish("t", b"p1");
    finish(&v, end);
    base.cleaned(&ctx, &[&v], &[]).await;
}

/// Protocol errors end the connection
async fn protocol_error(ctx: Rc<Ctx>, noise: bool) {
    let base = base(&ctx, Opts { noise, ..Opts::default() }).await;
    let v = any_client(&ctx, "V", noise).await;
    let g = v.subscribe(2, &[("t", SUB)]).await;
    grant(&ctx, &v, g, 1);
    settle().await;
    mc::calm(false);
    let bad: Vec<Vec<u8>> = vec![
        vec![0, 0],
        vec![0xff; 8],
        vec![0x30, 0xff, 0xff, 0xff, 0xff, 0x01],
        wire::publish_with(6, "t", Some(1), &[], b"x"),
        wire::publish_with(0, "t/#", None, &[], b"x"),
        wire::frame(0x80, &[0, 1, 0, 0, 1, b't', SUB]),
        wire::subscribe(2, &[]),
        wire::subscribe(2, &[("t", 0x23)]),
        wire::subscribe(2, &[("a+", SUB)]),
        wire::publish_with(0, "t", None, &p2(33, 1), b"x"),
        wire::frame(0x30, &[0, 1, 0xff, 0]),
        wire::publish("t", &[1; 1100]),
        wire::frame(0xC0, &[1, 2]),
    ];
    let which = mc::pick(bad.len());
    let before = mc::pick(2) == 1;
    let traffic = mc::pick(2) == 1;
    let mut all = Vec::new();
    if before {
        all.extend(v.encrypt(&wire::publish("t", b"from v")));
    }
    all.extend(v.encrypt(&bad[which]));
    if traffic {
        base.p.publish("t", b"p1");
    }
    v.raw(&all);
    if traffic {
        base.p.publish("t", b"p2");
    }
    base.cleaned(&ctx, &[&v], &[]).await;
    let own = count(&base.s, b"x");
    ctx.check(own == 0, || "a bad packet was acted on".to_string());
    if traffic {
        for m in [b"p1", b"p2"] {
            let n = count(&base.s, m);
            ctx.check(n == 1, || format!("S got {} copies of a message", n));
        }
    }
}

/// The client does not read, and then ends
async fn blocked(ctx: Rc<Ctx>, noise: bool) {
    let base = base(&ctx, Opts { noise, queue: 0, ..Opts::default() }).await;
    let v = any_client(&ctx, "V", noise).await;
    let g = v.subscribe(2, &[("t", SUB)]).await;
    grant(&ctx, &v, g, 1);
    settle().await;
    v.pull();
    v.set_capacity([1, 7, 20][mc::pick(3)]);
    mc::calm(false);
    let n = 1 + mc::pick(2);
    for i in 0..n {
        base.p.publish("t", format!("message {}", i).as_bytes());
    }
    if mc::pick(2) == 1 {
        settle().await;
    }
    if mc::pick(2) == 1 {
        v.send(&wire::publish("t", b"from v"));
    }
    finish(&v, 1 + mc::pick(2));
    base.cleaned(&ctx, &[&v], &[]).await;
    for i in 0..n {
        let k = count(&base.s, format!("message {}", i).as_bytes());
        ctx.check(k == 1, || format!("S got {} copies of a message", k));
    }
}

/// Several connections end at the same time, one of them comes back
async fn several(ctx: Rc<Ctx>) {
    let base = base(&ctx, Opts::default()).await;
    let a = client(&ctx, "A").await;
    let b = client(&ctx, "B").await;
    settle().await;
    mc::calm(false);
    let x = Client::open(&ctx, "X");
    x.send(&wire::connect("X"));
    let again = mc::pick(3);
    let (ea, eb) = (1 + mc::pick(3), 1 + mc::pick(3));
    finish(&a, ea);
    finish(&x, 1 + mc::pick(2));
    finish(&b, eb);
    if again == 0 {
        base.cleaned(&ctx, &[&a, &b, &x], &[]).await;
        return;
    }
    if again == 1 {
        settle().await;
    }
    let a2 = Client::open(&ctx, "A");
    a2.send(&wire::connect("A"));
    base.cleaned(&ctx, &[&a, &b, &x], &["A"]).await;
    served(&ctx, &a2, "a2").await;
    a2.close();
    base.cleaned(&ctx, &[&a, &b, &x, &a2], &[]).await;
}

/// A connection that ends right when its requests are answered
async fn answered(ctx: Rc<Ctx>) {
    let base = base(&ctx, Opts { queue: 0, ..Opts::default() }).await;
    let v = client(&ctx, "V").await;
    settle().await;
    mc::calm(false);
    let reqs = [
        wire::subscribe(2, &[("t", SUB)]),
        wire::pingreq(),
        wire::disconnect(),
        wire::unsubscribe(2, &["t"]),
        wire::publish("t", b"v"),
    ];
    let mut all = Vec::new();
    for _ in 0..2 {
        all.extend(reqs[mc::pick(reqs.len())].clone());
    }
    v.raw(&all);
    base.p.publish("t", b"p1");
    finish(&v, 1 + mc::pick(3));
    base.cleaned(&ctx, &[&v], &[]).await;
}

pub fn b07() -> Vec<Scenario> {
    vec![
        scenario("b07-cut", [2, 4], |c| cut(c, &[1, 2, 3], 2)).calm(),
        scenario("b07-cut-noise", [0, 2], cut_noise).calm(),
        scenario("b07-protocol-error", [2, 4], |c| protocol_error(c, false)).calm(),
        scenario("b07-protocol-error-noise", [1, 3], |c| protocol_error(c, true)).calm(),
        scenario("b07-blocked", [2, 4], |c| blocked(c, false)).calm(),
        scenario("b07-blocked-noise", [1, 3], |c| blocked(c, true)).calm(),
        scenario("b07-several", [2, 4], several).calm(),
        scenario("b07-answered", [2, 4], answered).calm(),
    ]
}
