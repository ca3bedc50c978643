//! B09 to B12: packet sizes, segmentation, channel permeability, the encrypted transport

use crate::b_connect::p4;
use crate::b_deliver::{clean, count, forwarded_props, grant};
use crate::client::*;
use crate::explore::*;
use crate::wire::{self, Pkt, CLEAN, SUB};
use std::rc::Rc;
use std::time::Duration;
use tokio::mc;

fn open(ctx: &Rc<Ctx>, name: &str, noise: bool) -> Client {
    if noise {
        Client::open_noise(ctx, name)
    } else {
        Client::open(ctx, name)
    }
}

/// A PUBLISH frame of exactly `size` bytes
pub fn sized(topic: &str, size: usize, fill: u8) -> Vec<u8> {
    for header in 2..=5 {
        let fixed = header + 2 + topic.len() + 1;
        if size < fixed {
            continue;
        }
        let p = wire::publish(topic, &vec![fill; size - fixed]);
        if p.len() == size {
            return p;
        }
    }
    panic!("no PUBLISH of {} bytes", size)
}
/// A SUBSCRIBE frame of exactly `size` bytes
fn sized_sub(size: usize) -> Vec<u8> {
    for n in 1..size {
        let f = "f".repeat(n);
        let s = wire::subscribe(6, &[(&f, SUB)]);
        if s.len() == size {
            return s;
        }
    }
    panic!("no SUBSCRIBE of {} bytes", size)
}

// ---------------------------------------------------------------- sizes

/// Packets around the limit of the broker
async fn limit(ctx: Rc<Ctx>, noise: bool, max: usize, deltas: &'static [i64]) {
    let b = Broker::start(Opts { noise: true, max_packet: max as u32, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    let x = any_client(&ctx, "X", noise).await;
    settle().await;
    mc::calm(false);
    let size = (max as i64 + deltas[mc::pick(deltas.len())]) as usize;
    let is_sub = mc::pick(2) == 1;
    let packet = if is_sub { sized_sub(size) } else { sized("t", size, 0x55) };
    let small = sized("t", 12, 0x66);
    let mut all = Vec::new();
    // alone, after another packet, before another packet, or both
    let around = mc::pick(4);
    if around & 1 == 1 {
        all.extend(x.encrypt(&small));
    }
    all.extend(x.encrypt(&packet));
    if around & 2 == 2 {
        all.extend(x.encrypt(&sized("t", 12, 0x77)));
    }
    // in one piece, or in two or three
    match mc::pick(4) {
        0 => {
            x.raw(&all);
        }
        1 => {
            x.raw(&all[..1]);
            settle().await;
            x.raw(&all[1..]);
        }
        2 => {
            let n = all.len();
            x.raw(&all[..n - 1]);
            settle().await;
            x.raw(&all[n - 1..]);
        }
        _ => {
            for c in all.chunks(all.len() / 3 + 1) {
                x.raw(c);
                settle().await;
            }
        }
    }
    settle().await;
    let fits = size <= max;
    let body = |fill: u8| s.messages().iter().filter(|m| m.first() == Some(&fill)).count();
    let (n, before, after) = (body(0x55), body(0x66), body(0x77));
    ctx.observe(&(n, before, after, x.closed()));
    ctx.check(x.closed() != fits, || format!("after {} bytes with limit {} the connection is closed: {}", size, max, x.closed()));
    if fits {
        if is_sub {
            let acks = x.received().iter().filter(|p| matches!(p, Pkt::SubAck { pid: 6, .. })).count();
            ctx.check(acks == 1, || format!("{} bytes with limit {}: {} acknowledgements", size, max, acks));
        } else {
            ctx.check(n == 1, || format!("{} bytes with limit {}: delivered {} times", size, max, n));
        }
        ctx.check(before == around & 1, || format!("the packet before was delivered {} times", before));
        ctx.check(after == around >> 1, || format!("the packet after was delivered {} times", after));
        // two thirds of the limit should do
        if max >= 30 {
            served(&ctx, &x, "x").await;
        }
    } else {
        ctx.check(n == 0, || format!("{} bytes with limit {}: delivered {} times", size, max, n));
        ctx.check(!x.received().iter().any(|p| matches!(p, Pkt::SubAck { pid: 6, .. })), || "an oversized packet is acknowledged".to_string());
        ctx.check(before <= around & 1, || format!("the packet before was delivered {} times", before));
        ctx.check(after == 0, || "a packet after an oversized one was acted on".to_string());
        registered(&ctx, &b, &["S"]).await;
    }
    if max >= 30 {
        served(&ctx, &s, "s").await;
    }
}

/// CONNECT packets around the limit
async fn limit_connect(ctx: Rc<Ctx>, noise: bool) {
    let max = 64;
    let b = Broker::start(Opts { noise, max_packet: max, ..Opts::default() }).await;
    let size = max as usize - 2 + mc::pick(5);
    let id = "i".repeat(size - wire::connect("").len());
    let packet = wire::connect(&id);
    assert_eq!(packet.len(), size);
    let x = open(&ctx, "X", noise);
    if noise {
        x.handshake().await;
    }
    let bytes = x.encrypt(&packet);
    let cut = mc::pick(bytes.len());
    x.raw(&bytes[..cut]);
    settle().await;
    x.raw(&bytes[cut..]);
    settle().await;
    let fits = size <= max as usize;
    ctx.check(x.closed() != fits, || format!("CONNECT of {} bytes with limit {}: closed {}", size, max, x.closed()));
    registered(&ctx, &b, if fits { std::slice::from_ref(&id) } else { &[] }.iter().map(|s| &s[..]).collect::<Vec<_>>().as_slice()).await;
    if fits {
        served(&ctx, &x, "x").await;
    } else {
        ctx.check(!x.received().iter().any(|p| matches!(p, Pkt::ConnAck { reason: 0, .. })), || "accepted".to_string());
    }
}

/// Many packets that fit, back to back and cut anywhere: the limit is not about the stream
async fn limit_stream(ctx: Rc<Ctx>, noise: bool) {
    let max = 40u32;
    let _b = Broker::start(Opts { noise, max_packet: max, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    let x = any_client(&ctx, "X", noise).await;
    settle().await;
    mc::calm(false);
    let sizes = [40usize, 6, 40, 40, 39, 7, 40];
    let mut all = Vec::new();
    for (i, n) in sizes.iter().enumerate() {
        all.extend(x.encrypt(&sized("t", *n, i as u8)));
    }
    let cut = mc::pick(all.len());
    x.raw(&all[..cut]);
    if mc::pick(2) == 1 {
        settle().await;
    }
    x.raw(&all[cut..]);
    settle().await;
    let got: Vec<usize> = s.received().iter().filter_map(|p| p.payload().map(|b| b.len())).collect();
    let want: Vec<usize> = sizes.iter().map(|n| n - 6).collect();
    ctx.check(got == want, || format!("payloads of {:?} instead of {:?}", got, want));
    ctx.check(!x.closed(), || "a client that keeps the limit is disconnected".to_string());
}

/// A client announces how much it accepts
async fn announced(ctx: Rc<Ctx>, noise: bool) {
    let _b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let max = [80u32, 127, 128, 129, 130, 300][mc::pick(6)];
    let p = client(&ctx, "P").await;
    let o = client(&ctx, "O").await;
    let s = open(&ctx, "S", noise);
    if noise {
        s.handshake().await;
    }
    s.send(&wire::connect_with("S", CLEAN, 60, &p4(39, max), &[]));
    settle().await;
    for c in [&s, &o] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    mc::calm(false);
    let size = (max as i64 + [-2i64, -1, 0, 1, 2, 200][mc::pick(6)]) as usize;
    // no frame has 130 bytes
    let size = if size == 130 { 129 } else { size };
    let packet = sized("t", size, 0x55);
    p.publish("t", b"before");
    p.send(&packet);
    p.publish("t", b"after");
    settle().await;
    let fits = size <= max as usize;
    let n = s.messages().iter().filter(|m| m.first() == Some(&0x55)).count();
    ctx.observe(&n);
    ctx.check(n == fits as usize, || format!("a message of {} bytes arrives {} times at a client that accepts {}", size, n, max));
    let others = o.messages().iter().filter(|m| m.first() == Some(&0x55)).count();
    ctx.check(others == 1, || format!("another client got {} copies", others));
    for m in [&b"before"[..], b"after"] {
        let n = count(&s, m);
        ctx.check(n == 1, || format!("a small message arrives {} times", n));
    }
    served(&ctx, &s, "s").await;
    served(&ctx, &o, "o").await;
    served(&ctx, &p, "p").await;
}

/// Everything the broker sends is within the limit: acknowledgements, refusals, CONNACK
async fn announced_all(ctx: Rc<Ctx>) {
    let b = Broker::start(Opts::default()).await;
    let p = client(&ctx, "P").await;
    let max = 1 + mc::pick(60) as u32;
    let s = Client::open(&ctx, "S");
    s.send(&wire::connect_with("S", CLEAN, 60, &p4(39, max), &[]));
    settle().await;
    let up = !s.closed();
    if up {
        // 40 filters
        let many: Vec<(&str, u8)> = (0..40).map(|_| ("t", SUB)).collect();
        s.send(&wire::subscribe(2, &many));
        s.send(&wire::pingreq());
        settle().await;
        p.send(&sized("t", max as usize + 1, 1));
        p.send(&sized("t", max as usize, 2));
        settle().await;
        let got: Vec<u8> = s.messages().iter().filter_map(|m| m.first().copied()).collect();
        ctx.check(got == [2], || format!("messages {:?} arrived", got));
        registered(&ctx, &b, &["P", "S"]).await;
        ctx.check(!s.closed(), || "the connection does not stay usable".to_string());
    } else {
        registered(&ctx, &b, &["P"]).await;
    }
    ctx.observe(&up);
    let largest = s.largest();
    ctx.check(largest <= max as usize, || format!("a packet of {} bytes is sent to a client that accepts {}", largest, max));
    served(&ctx, &p, "p").await;
}

/// What a noise message can carry limits the packets as well
async fn transport_limit(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts { noise: true, max_packet: 70_000, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    let n = noise_client(&ctx, "N").await;
    let o = client(&ctx, "O").await;
    for c in [&n, &o] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    mc::calm(false);
    let size = [65_000usize, 65_518, 65_519, 65_520, 65_535, 65_536, 69_999, 70_000][mc::pick(8)];
    p.send(&sized("t", size, 1));
    p.send(&sized("t", 20, 2));
    settle().await;
    let firsts = |c: &Client| c.messages().iter().filter_map(|m| m.first().copied()).collect::<Vec<u8>>();
    let got = firsts(&n);
    // too large for one noise message: dropped for this client only
    let ok = got == [1, 2] || (size > 65_519 && got == [2]);
    ctx.check(ok, || format!("{} bytes: the encrypted client got {:?}", size, got));
    ctx.check(firsts(&o) == [1, 2], || format!("{} bytes: the other client got {:?}", size, firsts(&o)));
    served(&ctx, &n, "n").await;
    served(&ctx, &p, "p").await;
}

pub fn b09() -> Vec<Scenario> {
    vec![
        scenario("b09-limit", [2, 4], |c| limit(c, false, 64, &[-1, 0, 1, 2, 64])).calm(),
        scenario("b09-limit-noise", [2, 4], |c| limit(c, true, 64, &[-1, 0, 1, 2, 64])).calm(),
        scenario("b09-limit-129", [1, 3], |c| limit(c, false, 129, &[-2, -1, 0, 2, 3, 600])).calm(),
        scenario("b09-limit-noise-129", [0, 2], |c| limit(c, true, 129, &[-2, -1, 0, 2, 3, 600])).calm(),
        scenario("b09-limit-reads", [2, 4], |c| limit(c, false, 64, &[0, 1])).calm().cfg(|c| c.short_reads = true),
        scenario("b09-connect", [1, 3], |c| limit_connect(c, false)),
        scenario("b09-connect-noise", [1, 3], |c| limit_connect(c, true)),
        scenario("b09-stream", [1, 3], |c| limit_stream(c, false)).calm(),
        scenario("b09-stream-noise", [0, 2], |c| limit_stream(c, true)).calm(),
        scenario("b09-announced", [2, 4], |c| announced(c, false)).calm(),
        scenario("b09-announced-noise", [1, 3], |c| announced(c, true)).calm(),
        scenario("b09-announced-all", [1, 3], announced_all),
        scenario("b09-transport", [2, 4], transport_limit).calm(),
    ]
}

// ---------------------------------------------------------------- segmentation

struct Session {
    x: Client,
    s: Client,
    p: Client,
}

fn requests() -> Vec<Vec<u8>> {
    vec![
        wire::subscribe(0x1234, &[("x/+", SUB), ("y", 0x21)]),
        wire::publish("s", b"1"),
        wire::pingreq(),
        wire::publish_with(0, "s", None, &[1, 1, 9, 0, 2, 0x30, 0x82], &[0x82; 9]),
        wire::subscribe(2, &[("z", SUB)]),
        wire::publish("x/1", b"own"),
        wire::unsubscribe(3, &["x/+"]),
        wire::publish("s", b"2"),
    ]
}

async fn session(ctx: &Rc<Ctx>, noise: bool) -> Session {
    let p = client(ctx, "P").await;
    let s = client(ctx, "S").await;
    let g = s.subscribe(1, &[("s", SUB)]).await;
    grant(ctx, &s, g, 1);
    let x = open(ctx, "X", noise);
    if noise {
        x.handshake().await;
    }
    settle().await;
    Session { x, s, p }
}

impl Session {
    fn verify(&self, ctx: &Ctx, traffic: &[&str]) {
        let x = self.x.received();
        clean(ctx, &self.x);
        let mut own = Vec::new();
        let mut others = Vec::new();
        for p in &x {
            match p {
                Pkt::ConnAck { reason, .. } => own.push(format!("connack {}", reason)),
                Pkt::SubAck { pid, reasons, .. } => own.push(format!("suback {} {:?}", pid, reasons.iter().map(|r| *r >= 0x80).collect::<Vec<_>>())),
                Pkt::Disconnect { reason, .. } => own.push(format!("disconnect {}", reason)),
                Pkt::Publish { payload, .. } if payload.starts_with(b"p") => others.push(String::from_utf8_lossy(payload).to_string()),
                Pkt::Publish { topic, payload, .. } => own.push(format!("{} {}", topic, String::from_utf8_lossy(payload))),
                p => own.push(format!("{:?}", p)),
            }
        }
        let want = [
            "connack 0",
            "suback 4660 [false, true]",
            "disconnect 131",
            "suback 2 [false]",
            "x/1 own",
            "disconnect 131",
        ];
        ctx.check(own == want, || format!("the client saw {:?}", own));
        // others' messages may be from before its subscription
        let k = others.len();
        ctx.check(k <= traffic.len() && others[..] == traffic[traffic.len() - k..], || format!("the client saw {:?}", others));
        let s: Vec<Vec<u8>> = self.s.messages();
        ctx.check(s == [b"1".to_vec(), vec![0x82; 9], b"2".to_vec()], || format!("the subscriber saw {:?}", s));
        for p in self.s.received() {
            if let Pkt::Publish { payload, props, .. } = p {
                let want: &[(u8, wire::Val)] = if payload.len() == 9 {
                    &[(1, wire::Val::Byte(1)), (9, wire::Val::Bin(vec![0x30, 0x82]))]
                } else {
                    &[]
                };
                ctx.check(props == want, || format!("properties {:?} arrived", props));
            }
        }
    }
}

/// `n` cuts anywhere
async fn cuts(ctx: Rc<Ctx>, noise: bool, n: usize, wait: bool, traffic: bool) {
    let _b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let se = session(&ctx, noise).await;
    mc::calm(false);
    let mut all = se.x.encrypt(&wire::connect("X"));
    for r in requests() {
        all.extend(se.x.encrypt(&r));
    }
    let mut at = 0;
    let names = ["p1", "p2", "p3"];
    let mut sent: Vec<&str> = Vec::new();
    for i in 0..n {
        let k = mc::pick(all.len() - at);
        se.x.raw(&all[at..at + k]);
        at += k;
        if traffic {
            se.p.publish("x/2", names[i].as_bytes());
            sent.push(names[i]);
        }
        if wait {
            settle().await;
        } else {
            tokio::task::yield_now().await;
        }
    }
    se.x.raw(&all[at..]);
    settle().await;
    if traffic {
        se.p.publish("x/2", b"p-last");
        sent.push("p-last");
        settle().await;
        let n = count(&se.x, b"p-last");
        ctx.check(n == 1, || format!("a message arrived {} times", n));
    }
    se.verify(&ctx, &sent);
}

/// Pieces of one size
async fn pieces(ctx: Rc<Ctx>, noise: bool) {
    let _b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let se = session(&ctx, noise).await;
    let size = 1 + mc::pick(24);
    let wait = mc::pick(3);
    let mut all = se.x.encrypt(&wire::connect("X"));
    for r in requests() {
        all.extend(se.x.encrypt(&r));
    }
    for (i, c) in all.chunks(size).enumerate() {
        se.x.raw(c);
        match wait {
            0 => settle().await,
            1 => tokio::task::yield_now().await,
            _ if i % 7 == 0 => {
                se.p.publish("s2", b"no");
                settle().await
            }
            _ => (),
        }
    }
    settle().await;
    se.verify(&ctx, &[]);
}

/// Reads of one byte at any time, while messages for the client interrupt reading
async fn short(ctx: Rc<Ctx>, noise: bool) {
    let _b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let se = session(&ctx, noise).await;
    mc::calm(false);
    let mut all = se.x.encrypt(&wire::connect("X"));
    for r in requests() {
        all.extend(se.x.encrypt(&r));
    }
    se.x.raw(&all);
    let p = se.p.clone();
    let t = mc::spawn("P", async move {
        for m in ["p1", "p2", "p3"] {
            p.publish("x/2", m.as_bytes());
            tokio::task::yield_now().await;
        }
    });
    let _ = t.await;
    settle().await;
    se.verify(&ctx, &["p1", "p2", "p3"]);
}

/// The client's window is small, so that writing is interrupted everywhere
async fn writes(ctx: Rc<Ctx>, noise: bool) {
    let _b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let se = session(&ctx, noise).await;
    let cap = [1usize, 2, 3, 5, 8, 13][mc::pick(6)];
    se.x.pull();
    se.x.set_capacity(cap);
    let mut all = se.x.encrypt(&wire::connect("X"));
    for r in requests() {
        all.extend(se.x.encrypt(&r));
    }
    mc::calm(false);
    let k = all.len() / 2;
    se.x.raw(&all[..k]);
    settle().await;
    se.p.publish("x/2", b"p1");
    se.x.raw(&all[k..]);
    loop {
        settle().await;
        if se.x.available() == 0 {
            break;
        }
        se.x.pull();
    }
    se.verify(&ctx, &["p1"]);
}

pub fn b10() -> Vec<Scenario> {
    vec![
        scenario("b10-one-cut", [1, 3], |c| cuts(c, false, 1, true, false)).calm(),
        scenario("b10-one-cut-traffic", [1, 3], |c| cuts(c, false, 1, false, true)).calm(),
        scenario("b10-two-cuts", [0, 2], |c| cuts(c, false, 2, true, false)).calm(),
        scenario("b10-two-cuts-traffic", [0, 2], |c| cuts(c, false, 2, true, true)).calm(),
        scenario("b10-three-cuts", [crate::SKIP, 0], |c| cuts(c, false, 3, true, true)).calm(),
        scenario("b10-one-cut-noise", [0, 2], |c| cuts(c, true, 1, true, true)).calm(),
        scenario("b10-two-cuts-noise", [crate::SKIP, 0], |c| cuts(c, true, 2, true, true)).calm(),
        scenario("b10-pieces", [1, 3], |c| pieces(c, false)),
        scenario("b10-pieces-noise", [1, 3], |c| pieces(c, true)),
        scenario("b10-short", [2, 4], |c| short(c, false)).calm().cfg(|c| c.short_reads = true),
        scenario("b10-short-noise", [1, 3], |c| short(c, true)).calm().cfg(|c| c.short_reads = true),
        scenario("b10-writes", [2, 4], |c| writes(c, false)).calm().cfg(|c| c.short_writes = true),
        scenario("b10-writes-noise", [1, 3], |c| writes(c, true)).calm().cfg(|c| c.short_writes = true),
    ]
}

// ---------------------------------------------------------------- permeability

/// All combinations of transports, publishers and policies
async fn channels(ctx: Rc<Ctx>) {
    let strict = mc::pick(2) == 1;
    let _b = Broker::start(Opts { noise: true, strict, ..Opts::default() }).await;
    let kinds = [false, true, false, true];
    let mut cs = Vec::new();
    for (i, noise) in kinds.iter().enumerate() {
        let c = any_client(&ctx, &format!("c{}", i), *noise).await;
        let f = [["t", "t/#"], ["+", "t"], ["#", "t"], ["t", "+"]][i];
        let g = c.subscribe(1, &[(f[0], SUB), (f[1], SUB)]).await;
        grant(&ctx, &c, g, 2);
        cs.push(c);
    }
    settle().await;
    mc::calm(false);
    let a = mc::pick(4);
    let b = mc::pick(4);
    cs[a].publish("t", b"a");
    cs[b].publish("t", b"b");
    cs[a].publish("t", b"c");
    settle().await;
    for (i, c) in cs.iter().enumerate() {
        for (m, from) in [(b"a", a), (b"b", b), (b"c", a)] {
            let want = (!strict || !kinds[from] || kinds[i]) as usize;
            let n = count(c, m);
            ctx.check(n == want, || {
                format!(
                    "strict {}: message of c{} (encrypted {}) arrived {} times at c{} (encrypted {})",
                    strict, from, kinds[from], n, i, kinds[i]
                )
            });
        }
    }
}

/// A subscriber changes its transport while an encrypted client publishes
async fn change_subscriber(ctx: Rc<Ctx>, how: usize) {
    let _b = Broker::start(Opts { noise: true, strict: true, ..Opts::default() }).await;
    let p = noise_client(&ctx, "P").await;
    let q = client(&ctx, "Q").await;
    let w = noise_client(&ctx, "W").await;
    let old = noise_client(&ctx, "S").await;
    for c in [&old, &w] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    mc::calm(false);
    let early = mc::pick(2) == 1;
    match how {
        0 => (),
        1 => old.close(),
        _ => old.reset(),
    }
    let new = Client::open(&ctx, "new");
    let mut all = wire::connect("S");
    all.extend(wire::subscribe(2, &[("t", SUB), ("#", SUB)]));
    new.raw(&all);
    p.publish("t", b"secret 1");
    if early {
        tokio::task::yield_now().await;
    }
    q.publish("t", b"public");
    p.publish("t", b"secret 2");
    settle().await;
    p.publish("t", b"secret 3");
    q.publish("t", b"public 2");
    settle().await;
    for c in [&new, &q] {
        let got: Vec<Vec<u8>> = c.messages().into_iter().filter(|m| m.starts_with(b"secret")).collect();
        ctx.check(got.is_empty(), || format!("{} got {} encrypted messages on a plain connection", c.name(), got.len()));
    }
    let n = count(&new, b"public 2");
    ctx.check(n == 1, || format!("a public message arrived {} times", n));
    for m in [&b"secret 1"[..], b"secret 2", b"secret 3", b"public", b"public 2"] {
        let n = count(&w, m);
        ctx.check(n == 1, || format!("{} arrived {} times at an encrypted client", String::from_utf8_lossy(m), n));
    }
    ctx.observe(&count(&new, b"public"));
}

/// A publisher changes its transport while its messages are in flight
async fn change_publisher(ctx: Rc<Ctx>, queue: usize) {
    let _b = Broker::start(Opts { noise: true, strict: true, queue, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let w = noise_client(&ctx, "W").await;
    for c in [&s, &w] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    let first_noise = mc::pick(2) == 1;
    let how = mc::pick(3);
    let old = any_client(&ctx, "P", first_noise).await;
    let new = open(&ctx, "new", !first_noise);
    if !first_noise {
        new.handshake().await;
    }
    settle().await;
    mc::calm(false);
    let name = |noise: bool, i: usize| format!("{} {}", if noise { "secret" } else { "public" }, i);
    for i in 0..2 {
        old.publish("t", name(first_noise, i).as_bytes());
    }
    match how {
        0 => (),
        1 => old.close(),
        _ => old.reset(),
    }
    let mut all = new.encrypt(&wire::connect("P"));
    for i in 2..4 {
        all.extend(new.encrypt(&wire::publish("t", name(!first_noise, i).as_bytes())));
    }
    new.raw(&all);
    settle().await;
    let got: Vec<String> = s.messages().iter().map(|m| String::from_utf8_lossy(m).to_string()).collect();
    ctx.observe(&got);
    ctx.check(!got.iter().any(|m| m.starts_with("secret")), || format!("{:?} arrived at a plain connection", got));
    for i in 2..4 {
        let m = name(!first_noise, i);
        let n = count(&w, m.as_bytes());
        ctx.check(n == 1, || format!("{} arrived {} times at an encrypted client", m, n));
        if first_noise {
            let n = count(&s, m.as_bytes());
            ctx.check(n == 1, || format!("{} arrived {} times at a plain client", m, n));
        }
    }
}

/// Many clients on both transports, under each policy, publishing at the same time
async fn mixture(ctx: Rc<Ctx>, strict: bool) {
    let _b = Broker::start(Opts { noise: true, strict, ..Opts::default() }).await;
    let a = client(&ctx, "A").await;
    let b = noise_client(&ctx, "B").await;
    for c in [&a, &b] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    mc::calm(false);
    let x = Client::open(&ctx, "X");
    let mut all = wire::connect("X");
    all.extend(wire::subscribe(1, &[("t", SUB)]));
    all.extend(wire::publish("t", b"x"));
    x.raw(&all);
    a.publish("t", b"a");
    b.publish("t", b"b");
    a.publish("t", b"a2");
    b.publish("t", b"b2");
    settle().await;
    for (m, noise) in [(&b"a"[..], false), (b"b", true), (b"a2", false), (b"b2", true), (b"x", false)] {
        for (c, cn) in [(&a, false), (&b, true)] {
            let want = (!strict || !noise || cn) as usize;
            let n = count(c, m);
            ctx.check(n == want, || format!("strict {}: {:?} arrived {} times at {}", strict, String::from_utf8_lossy(m), n, c.name()));
        }
        let n = count(&x, m);
        ctx.observe(&n);
        let max = (!strict || !noise) as usize;
        ctx.check(n <= max, || format!("strict {}: {:?} arrived {} times at X", strict, String::from_utf8_lossy(m), n));
    }
}

pub fn b11() -> Vec<Scenario> {
    vec![
        scenario("b11-channels", [1, 3], channels).calm(),
        scenario("b11-subscriber-takeover", [2, 4], |c| change_subscriber(c, 0)).calm(),
        scenario("b11-subscriber-close", [1, 4], |c| change_subscriber(c, 1)).calm(),
        scenario("b11-subscriber-reset", [1, 4], |c| change_subscriber(c, 2)).calm(),
        scenario("b11-publisher", [2, 4], |c| change_publisher(c, 1 << 16)).calm(),
        scenario("b11-publisher-q1", [2, 4], |c| change_publisher(c, 0)).calm(),
        scenario("b11-mixture-strict", [2, 4], |c| mixture(c, true)).calm(),
        scenario("b11-mixture-permissive", [2, 4], |c| mixture(c, false)).calm(),
    ]
}

// ---------------------------------------------------------------- the encrypted transport

/// Content in both directions
async fn noise_content(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts { noise: true, max_packet: 70_000, ..Opts::default() }).await;
    let p = noise_client(&ctx, "P").await;
    let s = noise_client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    let blocks = forwarded_props();
    let block = &blocks[mc::pick(blocks.len())];
    let sizes = [0usize, 1, 2, 15, 16, 17, 100, 126, 127, 128, 129, 1000, 4096, 16_380, 16_390, 65_000];
    let size = sizes[mc::pick(sizes.len())];
    let mut want = Vec::new();
    for i in 0..3u8 {
        let payload: Vec<u8> = (0..size).map(|k| (k as u8).wrapping_mul(31).wrapping_add(i)).collect();
        let m = wire::publish_with(0, "t", None, block, &payload);
        want.push(wire::single(m.clone()));
        p.send(&m);
    }
    settle().await;
    let got: Vec<Pkt> = s.received().into_iter().filter(|p| p.is_publish()).collect();
    ctx.check(got == want, || {
        format!("{} messages with {} bytes: {:?} arrived", want.len(), size, got.iter().map(show).collect::<Vec<_>>())
    });
    clean(&ctx, &s);
}

struct Enc {
    b: Broker,
    s: Client,
    q: Client,
    x: Client,
}

async fn enc(ctx: &Rc<Ctx>) -> Enc {
    let b = Broker::start(Opts { noise: true, keep_alive: 50, ..Opts::default() }).await;
    let s = client(ctx, "S").await;
    let q = noise_client(ctx, "Q").await;
    for c in [&s, &q] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(ctx, c, g, 1);
    }
    let x = noise_client(ctx, "X").await;
    settle().await;
    Enc { b, s, q, x }
}

impl Enc {
    /// Exactly these messages went through, and the connection has ended or not
    async fn verify(&self, ctx: &Rc<Ctx>, want: &[&str], closed: Option<bool>, what: &str) {
        for c in [&self.s, &self.q] {
            let got: Vec<String> = c.messages().iter().map(|m| String::from_utf8_lossy(m).to_string()).collect();
            ctx.check(got == want, || format!("{}: {} got {:?} instead of {:?}", what, c.name(), got, want));
            ctx.check(!c.closed(), || format!("{}: the connection of {} ended", what, c.name()));
        }
        if let Some(closed) = closed {
            ctx.check(self.x.closed() == closed, || format!("{}: the connection is closed: {}", what, self.x.closed()));
            let mut ids = vec!["S", "Q"];
            if !closed {
                ids.push("X");
            }
            registered(ctx, &self.b, &ids).await;
        }
        served(ctx, &self.s, "s").await;
        served(ctx, &self.q, "q").await;
    }
}

/// One message is changed on its way
async fn tampered(ctx: Rc<Ctx>) {
    let e = enc(&ctx).await;
    mc::calm(false);
    let m1 = e.x.encrypt(&wire::publish("t", b"one"));
    let m2 = e.x.encrypt(&wire::publish("t", b"two"));
    let m3 = e.x.encrypt(&wire::publish("t", b"three"));
    let at = mc::pick(m2.len());
    let bit = mc::pick(8);
    let mut bad = m2.clone();
    bad[at] ^= 1 << bit;
    e.x.raw(&[&m1[..], &bad[..], &m3[..]].concat());
    settle().await;
    // a longer message is not complete yet
    let longer = at < 4 && u32::from_be_bytes([bad[0], bad[1], bad[2], bad[3]]) > (m2.len() - 4) as u32;
    let got = e.s.messages();
    // the message before may be dropped with the connection
    let want: &[&str] = if got.is_empty() { &[] } else { &["one"] };
    e.verify(&ctx, want, if longer { None } else { Some(true) }, &format!("bit {} of byte {} flipped", bit, at)).await;
}

/// Messages are dropped, repeated, exchanged, cut
async fn shuffled(ctx: Rc<Ctx>) {
    let e = enc(&ctx).await;
    mc::calm(false);
    let m: Vec<Vec<u8>> = ["one", "two", "three"].iter().map(|p| e.x.encrypt(&wire::publish("t", p.as_bytes()))).collect();
    let reframe = |m: &[u8]| noise_frame(m);
    let (seq, want, closed): (Vec<Vec<u8>>, &[&str], bool) = match mc::pick(10) {
        0 => (vec![m[0].clone(), m[1].clone(), m[2].clone()], &["one", "two", "three"], false),
        1 => (vec![m[0].clone(), m[0].clone()], &["one"], true),
        2 => (vec![m[1].clone(), m[0].clone()], &[], true),
        3 => (vec![m[0].clone(), m[2].clone(), m[1].clone()], &["one"], true),
        4 => (vec![m[0].clone(), m[1].clone(), m[1].clone(), m[2].clone()], &["one", "two"], true),
        5 => (vec![m[0].clone(), reframe(&m[1][4..m[1].len() - 1]), m[2].clone()], &["one"], true),
        6 => (vec![m[0].clone(), reframe(&m[1][4..4 + 16]), m[2].clone()], &["one"], true),
        7 => (vec![m[0].clone(), reframe(&[]), m[1].clone()], &["one"], true),
        8 => (vec![m[0].clone(), reframe(&m[1][5..]), m[2].clone()], &["one"], true),
        _ => (vec![m[0].clone(), reframe(&[&m[1][4..], &[0][..]].concat()), m[2].clone()], &["one"], true),
    };
    let together = mc::pick(2) == 1;
    for s in &seq {
        e.x.raw(s);
        if !together {
            settle().await;
        }
    }
    settle().await;
    let got = e.s.messages().len();
    // what precedes the end of a connection may be lost if it comes at once
    let want = if together && closed && got < want.len() { &want[..got] } else { want };
    e.verify(&ctx, want, Some(closed), "shuffled messages").await;
}

/// The plain text is not exactly one packet: nothing that was not sent may be acted on
async fn fragments(ctx: Rc<Ctx>) {
    let e = enc(&ctx).await;
    mc::calm(false);
    let p = wire::publish("t", b"12345678901234567890");
    let n = p.len();
    let (plain, what): (Vec<u8>, &str) = match mc::pick(6) {
        0 => (p[..n - 1].to_vec(), "last byte missing"),
        1 => (p[..n - 16].to_vec(), "last 16 bytes missing"),
        2 => (p[..mc::pick(n)].to_vec(), "cut packet"),
        3 => (wire::frame(0x30, b"\0\x01t\0")[..3].to_vec(), "header only"),
        4 => (vec![0; mc::pick(24)], "zeros"),
        _ => (wire::subscribe(3, &[("u", SUB)])[..6].to_vec(), "cut SUBSCRIBE"),
    };
    let before = mc::pick(2) == 1;
    if before {
        // leaves its bytes in whatever buffer there is
        e.x.send(&p);
        settle().await;
    }
    e.x.send(&plain);
    settle().await;
    let want: &[&str] = if before { &["12345678901234567890"] } else { &[] };
    e.verify(&ctx, want, None, what).await;
}

/// The packet is followed by further bytes in its message
async fn trailing(ctx: Rc<Ctx>) {
    let e = enc(&ctx).await;
    mc::calm(false);
    let p = wire::publish("t", b"a");
    let kind = mc::pick(5);
    let tail: Vec<u8> = match kind {
        0 => vec![0],
        1 => vec![0x30],
        2 => wire::publish("t", b"b")[..6].to_vec(),
        3 => vec![0xff; 5],
        _ => wire::publish("t", b"b"),
    };
    e.x.send(&[p, tail].concat());
    settle().await;
    e.x.send(&wire::publish("t", b"c"));
    settle().await;
    let got = e.s.messages();
    // refusing the message, or acting on the packets it holds in order; what comes after a refused part has no effect
    let all: Vec<&[u8]> = if kind == 4 { vec![b"a", b"b", b"c"] } else { vec![b"a"] };
    ctx.check(got.len() <= all.len() && got.iter().zip(&all).all(|(g, a)| g[..] == **a), || {
        format!("tail {kind}: the messages {:?} arrived", got.iter().map(|m| hex(m)).collect::<Vec<_>>())
    });
    served(&ctx, &e.s, "s").await;
}

/// Bytes that are sent before the handshake completes
async fn before_handshake(ctx: Rc<Ctx>) {
    let e = enc(&ctx).await;
    mc::calm(false);
    let y = Client::open_noise(&ctx, "Y");
    let plain: Vec<u8> = [wire::connect("Y"), wire::subscribe(1, &[("t", SUB)]), wire::publish("t", b"plain")].concat();
    let framed: Vec<u8> = [wire::connect("Y"), wire::publish("t", b"plain")].iter().flat_map(|p| noise_frame(p)).collect();
    let stage = mc::pick(3);
    if stage > 0 {
        y.raw(&y.hs1());
        settle().await;
    }
    if stage > 1 {
        let m = y.hs3_ready().expect("no answer to the handshake");
        y.raw(&m);
        settle().await;
    }
    let bytes = match mc::pick(7) {
        0 => plain,
        1 => framed,
        2 => {
            // of another connection
            let z = Client::open_noise(&ctx, "Z");
            z.handshake().await;
            z.encrypt(&wire::connect("Y"))
        }
        3 => noise_frame(&[0; 48]),
        4 => noise_frame(&[0; 64]),
        5 => y.noise_sample(),
        _ => [y.noise_sample(), noise_frame(&wire::connect("Y"))].concat(),
    };
    y.raw(&bytes);
    settle().await;
    y.raw(&bytes);
    settle().await;
    for _ in 0..4 {
        mc::advance(Duration::from_secs(50));
        settle().await;
    }
    mc::advance(Duration::from_secs(1));
    settle().await;
    ctx.check(y.closed(), || "a connection without a valid handshake stays open".to_string());
    e.verify(&ctx, &[], Some(false), "no handshake").await;
    served(&ctx, &e.x, "x").await;
}

/// A handshake with a server of another key fails
async fn wrong_key(ctx: Rc<Ctx>) {
    let e = enc(&ctx).await;
    mc::calm(false);
    let mut key = PUBLIC;
    key[mc::pick(31)] ^= 1;
    let mut hs = snow::Builder::new(PATTERN.parse().unwrap())
        .local_private_key(&[5; 32])
        .remote_public_key(&key)
        .build_initiator()
        .unwrap();
    let mut out = vec![0; 200];
    let n = match hs.write_message(&[], &mut out) {
        Ok(n) => n,
        Err(_) => return,
    };
    let y = Client::open_noise(&ctx, "Y");
    y.raw(&noise_frame(&out[..n]));
    settle().await;
    ctx.check(y.closed(), || "a handshake for another server is continued".to_string());
    ctx.check(y.available() == 0, || "a handshake for another server is answered".to_string());
    e.verify(&ctx, &[], Some(false), "wrong key").await;
}

/// Messages of the broker cannot be sent back to it, and those of one client not as another's
async fn reflected(ctx: Rc<Ctx>) {
    let e = enc(&ctx).await;
    mc::calm(false);
    let seen = e.q.raw_seen();
    let m = e.q.encrypt(&wire::publish("t", b"of q"));
    match mc::pick(2) {
        0 => e.x.raw(&seen),
        _ => e.x.raw(&m),
    };
    settle().await;
    let n = e.s.messages().len();
    ctx.check(n == 0, || format!("{} messages were not sent by a client", n));
    ctx.check(e.x.closed(), || "the connection stays open".to_string());
    served(&ctx, &e.s, "s").await;
}

/// Tampering on one connection, while others are in the middle of their traffic
async fn tampered_concurrent(ctx: Rc<Ctx>) {
    let e = enc(&ctx).await;
    mc::calm(false);
    let m1 = e.x.encrypt(&wire::publish("t", b"x1"));
    let mut m2 = e.x.encrypt(&wire::publish("t", b"x2"));
    let n = m2.len();
    m2[n - 1] ^= 1;
    e.x.raw(&[m1, m2].concat());
    e.q.publish("t", b"q1");
    e.s.publish("t", b"s1");
    e.q.publish("t", b"q2");
    settle().await;
    for c in [&e.s, &e.q] {
        for m in [b"q1", b"q2", b"s1"] {
            let n = count(c, m);
            ctx.check(n == 1, || format!("{} got {} copies of {:?}", c.name(), n, String::from_utf8_lossy(m)));
        }
        let n = count(c, b"x2");
        ctx.check(n == 0, || "a tampered message was delivered".to_string());
        ctx.observe(&count(c, b"x1"));
        clean(&ctx, c);
    }
    ctx.check(e.x.closed(), || "the connection stays open".to_string());
    registered(&ctx, &e.b, &["Q", "S"]).await;
}

pub fn b12() -> Vec<Scenario> {
    vec![
        scenario("b12-content", [4, 6], noise_content).calm(),
        scenario("b12-tampered", [1, 3], tampered).calm(),
        scenario("b12-shuffled", [2, 4], shuffled).calm(),
        scenario("b12-fragments", [2, 4], fragments).calm(),
        scenario("b12-trailing", [4, 6], trailing).calm(),
        scenario("b12-before-handshake", [2, 4], before_handshake).calm(),
        scenario("b12-wrong-key", [3, 5], wrong_key).calm(),
        scenario("b12-reflected", [4, 6], reflected).calm(),
        scenario("b12-concurrent", [2, 4], tampered_concurrent).calm(),
        scenario("b12-concurrent-io", [2, 4], tampered_concurrent).calm().cfg(|c| {
            c.short_reads = true;
            c.short_writes = true;
        }),
    ]
}
