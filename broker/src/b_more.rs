//! Systematic contents: every property, every option byte, every CONNECT flag, every identifier
//! kind, every limit; histories of earlier subscriptions

use crate::b_connect::{alive, connack_ok, finish, p2, p4};
use crate::b_deliver::{count, grant};
use crate::b_wire::sized;
use crate::client::*;
use crate::explore::*;
use crate::wire::{self, Pkt, CLEAN, SUB};
use std::rc::Rc;
use std::time::Duration;
use tokio::mc;

fn st(id: u8, s: &[u8]) -> Vec<u8> {
    let mut v = vec![id];
    v.extend(wire::binary(s));
    v
}

/// Property blocks with every property of MQTT, sensible or not
fn blocks() -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    for id in [1u8, 23, 25, 36, 37, 40, 41, 42] {
        for b in [0, 1, 2, 255] {
            v.push(vec![id, b]);
        }
    }
    for id in [19, 33, 34, 35] {
        for b in [0, 1, 65535] {
            v.push(p2(id, b));
        }
    }
    for id in [2, 17, 24, 39] {
        for b in [0, 1, 20, 65536, u32::MAX] {
            v.push(p4(id, b));
        }
    }
    for id in [3, 8, 9, 18, 21, 22, 26, 28, 31] {
        for s in [&b""[..], b"a", b"t", b"a/#", b"+", &[0xff, 0xfe], &[0], "\u{feff}\u{10ffff}".as_bytes(), &[b'l'; 300]] {
            v.push(st(id, s));
        }
    }
    for b in [&[11u8, 0][..], &[11, 1], &[11, 0xff, 0xff, 0xff, 0x7f], &[11, 0xff, 0xff, 0xff, 0xff], &[38, 0, 1, b'k', 0, 1, b'v'], &[38, 0, 0, 0, 0], &[0, 0], &[127, 1], &[0x80, 1]] {
        v.push(b.to_vec());
    }
    // together
    v.push([vec![1, 1], st(3, b"c"), st(8, b"r"), st(9, &[0xff])].concat());
    v.push([p4(2, 5), p2(35, 1), vec![11, 1]].concat());
    v.push([vec![1, 1], vec![1, 0]].concat());
    v
}
/// Payloads
fn payloads() -> Vec<Vec<u8>> {
    vec![
        vec![],
        b"text".to_vec(),
        vec![0xff, 0xfe, 0x80],
        vec![0],
        "a\u{0}\u{feff}".as_bytes().to_vec(),
        vec![0xe2, 0x82],
        vec![0x30; 600],
    ]
}

async fn start(ctx: &Rc<Ctx>, o: Opts) -> (Broker, Client, Client) {
    let b = Broker::start(o).await;
    let s = client(ctx, "S").await;
    let p = client(ctx, "P").await;
    let g = s.subscribe(1, &[("t", SUB), ("x/#", SUB)]).await;
    grant(ctx, &s, g, 2);
    settle().await;
    (b, s, p)
}
async fn again(ctx: &Rc<Ctx>, s: Client) -> Client {
    if !s.closed() {
        return s;
    }
    let s = client(ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(ctx, &s, g, 1);
    s
}

/// Every property and payload in a PUBLISH, every property in the other packets
async fn contents(ctx: Rc<Ctx>, noise: bool) {
    let (_b, s, p) = start(&ctx, Opts { noise, ..Opts::default() }).await;
    let block = { let b = blocks(); b[mc::pick(b.len())].clone() };
    let n = payloads().len();
    let which = mc::pick(n + 10);
    let x = if noise { Client::open_noise(&ctx, "X") } else { Client::open(&ctx, "X") };
    if noise && !x.handshake().await {
        ctx.fail("no handshake");
        return;
    }
    let reason = |first: u8, r: u8| {
        let mut b = vec![r];
        b.extend(wire::props(&block));
        wire::frame(first, &b)
    };
    if which != n + 3 {
        x.send(&wire::connect("X"));
    }
    let m = match which.checked_sub(n) {
        None => wire::publish_with(0, "t", None, &block, &payloads()[which]),
        Some(0) => wire::publish_with(2, "t", Some(1), &block, b"\xff"),
        Some(1) => wire::publish_with(1, "x/y", None, &block, b"\xff"),
        Some(2) => wire::publish_with(0, "", None, &block, b"x"),
        Some(3) => wire::connect_with("X", CLEAN, 60, &block, &[]),
        Some(4) => wire::subscribe_with(7, &block, &[("t", SUB), ("q", SUB)]),
        Some(5) => {
            let mut b = vec![0, 9];
            b.extend(wire::props(&block));
            b.extend(wire::string("t"));
            wire::frame(0xA2, &b)
        }
        Some(6) => reason(0xE0, 0),
        Some(7) => reason(0xE0, 0x82),
        Some(8) => reason(0xF0, 0x18),
        _ => reason(0xF0, 0x19),
    };
    x.send(&m);
    settle().await;
    for c in [&x, &p] {
        if !c.closed() && (c.name() != "X" || matches!(x.received().first(), Some(Pkt::ConnAck { reason: 0, .. }))) {
            c.publish("t", b"more");
        }
    }
    settle().await;
    ctx.observe(&x.received().len());
    let s = again(&ctx, s).await;
    alive(&ctx, &s, &p, noise).await;
}

/// Every packet of a few bytes
async fn bytes(ctx: Rc<Ctx>, alphabet: &'static [u8], longest: usize, connected_first: bool) {
    let (_b, s, p) = start(&ctx, Opts::default()).await;
    let first = mc::pick(256) as u8;
    let n = mc::pick(longest + 1);
    let body: Vec<u8> = (0..n).map(|_| alphabet[mc::pick(alphabet.len())]).collect();
    let x = Client::open(&ctx, "X");
    if connected_first {
        x.send(&wire::connect("X"));
    }
    x.raw(&wire::frame(first, &body));
    settle().await;
    if connected_first && !x.closed() {
        x.publish("t", b"x");
        settle().await;
    }
    ctx.observe(&x.received().len());
    alive(&ctx, &s, &p, false).await;
}

/// Every option byte, in any position
async fn options(ctx: Rc<Ctx>) {
    let (_b, s, p) = start(&ctx, Opts::default()).await;
    let o = mc::pick(256) as u8;
    let f = ["t", "#", "$share/g/t", "$share/g/#", "/", "$share/g", "$SYS/#", "\u{feff}"][mc::pick(8)];
    let x = client(&ctx, "X").await;
    match mc::pick(3) {
        0 => x.send(&wire::subscribe(2, &[(f, o)])),
        1 => x.send(&wire::subscribe(2, &[("t", SUB), (f, o)])),
        _ => x.send(&wire::subscribe(2, &[(f, o), ("t", SUB | 4), (f, o)])),
    };
    settle().await;
    for c in [&x, &p] {
        if !c.closed() {
            c.publish("t", b"more");
        }
    }
    settle().await;
    alive(&ctx, &s, &p, false).await;
}

/// Every CONNECT flag byte, first and later
async fn connect_flags(ctx: Rc<Ctx>, noise: bool) {
    let (_b, s, p) = start(&ctx, Opts { noise, ..Opts::default() }).await;
    let flags = mc::pick(256) as u8;
    let id = ["X", "S", ""][mc::pick(3)];
    let mut tail = Vec::new();
    let whole = mc::pick(2) == 1;
    if whole {
        if flags & 4 != 0 {
            tail.extend([0]);
            tail.extend(wire::string("t"));
            tail.extend(wire::binary(b"will"));
        }
        if flags & 0x80 != 0 {
            tail.extend(wire::string("user"));
        }
        if flags & 0x40 != 0 {
            tail.extend(wire::binary(b"pass"));
        }
    }
    let x = if noise { Client::open_noise(&ctx, "X") } else { Client::open(&ctx, "X") };
    if noise && !x.handshake().await {
        ctx.fail("no handshake");
        return;
    }
    if mc::pick(2) == 1 {
        x.send(&wire::connect("X"));
        settle().await;
    }
    x.send(&wire::connect_with(id, flags, 60, &[], &tail));
    settle().await;
    finish(&x, mc::pick(2) * 2);
    settle().await;
    let n = count(&s, b"will");
    ctx.check(n == 0, || format!("a will was published {} times", n));
    let s = again(&ctx, s).await;
    alive(&ctx, &s, &p, noise).await;
}

/// Encrypted frames of every length, before and after the handshake
async fn noise_lengths(ctx: Rc<Ctx>) {
    let (_b, s, p) = start(&ctx, Opts { noise: true, ..Opts::default() }).await;
    let x = Client::open_noise(&ctx, "X");
    let stage = mc::pick(4);
    if stage == 1 {
        x.raw(&x.hs1());
        settle().await;
    } else if stage > 1 {
        x.handshake().await;
        if stage == 3 {
            x.send(&wire::connect("X"));
        }
        settle().await;
    }
    let n = mc::pick(110);
    x.raw(&noise_frame(&vec![[0u8, 0x5a][mc::pick(2)]; n]));
    settle().await;
    if n > 0 {
        ctx.check(x.closed(), || format!("a forged frame of {} bytes in stage {} is accepted", n, stage));
    }
    alive(&ctx, &s, &p, true).await;
}

/// Every way to set the broker up
async fn setups(ctx: Rc<Ctx>) {
    let queue = [0, 1, 2, 3, 7, 1000, 1 << 20][mc::pick(7)];
    let max_packet = [100u32, 127, 128, 1024, 65535, 65536, 1 << 20][mc::pick(7)];
    let keep_alive = [1u16, 255, 256, 65535][mc::pick(4)];
    let strict = mc::pick(2) == 1;
    let b = Broker::start(Opts { queue, max_packet, keep_alive, strict, noise: true, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    for m in ["1", "2", "3", "4", "5"] {
        p.publish("t", m.as_bytes());
    }
    settle().await;
    let want: Vec<Vec<u8>> = (1..6).map(|i| i.to_string().into_bytes()).collect();
    ctx.check(s.messages() == want, || format!("S got {:?}", s.messages()));
    alive(&ctx, &s, &p, true).await;
    b.server.shutdown().await;
}

pub fn b06() -> Vec<Scenario> {
    let fast = |s: Scenario| s.calm();
    vec![
        fast(scenario("b06-contents", [0, 1], |c| contents(c, false))),
        fast(scenario("b06-contents-noise", [0, 1], |c| contents(c, true))),
        fast(scenario("b06-bytes", [0, 0], |c| bytes(c, &[0, 1, 2, 0xff], 3, true))),
        fast(scenario("b06-bytes-first", [0, 0], |c| bytes(c, &[0, 4, b'M'], 2, false))),
        fast(scenario("b06-bytes-more", [crate::SKIP, 0], |c| bytes(c, &[0, 1, b't', 0x26, 0x82], 4, true))),
        fast(scenario("b06-options", [0, 0], options)),
        fast(scenario("b06-connect-flags", [0, 0], |c| connect_flags(c, false))),
        fast(scenario("b06-connect-flags-noise", [crate::SKIP, 0], |c| connect_flags(c, true))),
        fast(scenario("b06-noise-lengths", [0, 0], noise_lengths)),
        fast(scenario("b06-setups", [0, 0], setups)),
    ]
}

// ---------------------------------------------------------------- identifiers

fn identifiers() -> Vec<String> {
    let mut v: Vec<String> = ["a", " ", "a b", "/", "#", "+", "$SYS", "0", "ä", "\u{10ffff}", "\u{feff}x", "A"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for n in [22, 23, 24, 100, 127, 128, 255, 256, 900] {
        v.push("i".repeat(n));
        v.push(format!("{}j", "i".repeat(n - 1)));
    }
    v.push("ß".repeat(400));
    v
}

/// An identifier is taken as it is
async fn identifier(ctx: Rc<Ctx>, noise: bool) {
    let b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let by = client(&ctx, "BY").await;
    let g = by.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &by, g, 1);
    settle().await;
    mc::calm(false);
    let all = identifiers();
    let id = &all[mc::pick(all.len())];
    let other = &all[mc::pick(all.len())];
    let x = any_client(&ctx, id, noise).await;
    let y = client(&ctx, other).await;
    settle().await;
    if id == other {
        registered(&ctx, &b, &sorted(&["BY", id])).await;
        ctx.check(x.closed() && !y.closed(), || "no takeover".to_string());
        return;
    }
    registered(&ctx, &b, &sorted(&["BY", id, other])).await;
    connack_ok(&ctx, x.received().first(), id, 0, 65535, 60);
    for c in [&x, &y] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    x.publish("t", b"x");
    y.publish("t", b"y");
    settle().await;
    for c in [&x, &y, &by] {
        for m in [b"x", b"y"] {
            let n = count(c, m);
            ctx.check(n == 1, || format!("{} got {} copies of a message", c.name(), n));
        }
    }
    x.close();
    settle().await;
    registered(&ctx, &b, &sorted(&["BY", other])).await;
    served(&ctx, &y, "y").await;
}
fn sorted<'a>(v: &[&'a str]) -> Vec<&'a str> {
    let mut v = v.to_vec();
    v.sort();
    v
}

/// What the CONNACK says about limits is what the client asked for and what holds
async fn negotiated(ctx: Rc<Ctx>) {
    let keep_alive = [1u16, 59, 255, 256, 257, 32768, 65535][mc::pick(7)];
    let b = Broker::start(Opts { keep_alive, ..Opts::default() }).await;
    let expiry = [None, Some(0u32), Some(1), Some(255), Some(256), Some(0x12345678), Some(u32::MAX)][mc::pick(7)];
    let recv = [None, Some(1u16), Some(255), Some(256), Some(0x1234), Some(65535)][mc::pick(6)];
    let id = ["X", ""][mc::pick(2)];
    let mut p = Vec::new();
    if let Some(e) = expiry {
        p.extend(p4(17, e));
    }
    if let Some(r) = recv {
        p.extend(p2(33, r));
    }
    let x = Client::open(&ctx, "X");
    let asked = [0, 10, 65535][mc::pick(3)];
    x.send(&wire::connect_with(id, CLEAN, asked, &p, &[]));
    settle().await;
    let id = connack_ok(&ctx, x.received().first(), id, expiry.unwrap_or(0), recv.unwrap_or(65535), keep_alive);
    registered(&ctx, &b, &[&id]).await;
    served(&ctx, &x, "x").await;
}

/// Many clients without an identifier, each gets one of its own
async fn assigned_many(ctx: Rc<Ctx>, n: usize) {
    let b = Broker::start(Opts::default()).await;
    let mut ids = Vec::new();
    let mut cs = Vec::new();
    for i in 0..n {
        let c = Client::open(&ctx, &format!("c{}", i));
        c.send(&wire::connect(""));
        settle().await;
        ids.push(connack_ok(&ctx, c.received().first(), "", 0, 65535, 60));
        cs.push(c);
        if i % 7 == 3 {
            // comes back with the identifier it was given
            let c = client(&ctx, &ids[i]).await;
            settle().await;
            ctx.check(cs[i].closed(), || "the assigned identifier is not taken over".to_string());
            cs[i] = c;
        }
    }
    let mut all: Vec<&str> = ids.iter().map(|s| &s[..]).collect();
    all.sort();
    all.dedup();
    ctx.check(all.len() == n, || format!("only {} different identifiers for {} clients", all.len(), n));
    registered(&ctx, &b, &all).await;
    for c in &cs {
        ctx.check(!c.closed(), || "a client lost its connection".to_string());
    }
}

pub fn b05() -> Vec<Scenario> {
    vec![
        scenario("b05-identifier", [0, 1], |c| identifier(c, false)).calm(),
        scenario("b05-identifier-noise", [0, 1], |c| identifier(c, true)).calm(),
        scenario("b05-negotiated", [0, 1], negotiated).calm(),
        scenario("b05-assigned-many", [0, 0], |c| assigned_many(c, 60)).calm(),
        scenario("b05-assigned-many-seed", [0, 0], |c| assigned_many(c, 60)).calm().seed(77),
    ]
}

// ---------------------------------------------------------------- time-outs

const LIMITS: &[u16] = &[1, 2, 3, 59, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 16384, 32767, 32768, 32769, 43690, 65280, 65534, 65535];

/// The configured time is the time that counts: just before it is fine, just after it is not
async fn limits(ctx: Rc<Ctx>, noise: bool) {
    let k = LIMITS[mc::pick(LIMITS.len())];
    let b = Broker::start(Opts { keep_alive: k, noise, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    let tasks = mc::subject_tasks().len();
    mc::calm(false);
    let limit = Duration::from_secs(k as u64);
    let x = if noise { Client::open_noise(&ctx, "X") } else { Client::open(&ctx, "X") };
    let eps = Duration::from_millis(2);
    settle().await;
    let mut left = limit - eps;
    if noise && mc::pick(2) == 1 {
        // the handshake takes its time as well
        mc::advance(limit / 4);
        left -= limit / 4;
        settle().await;
    }
    if noise {
        x.raw(&x.hs1());
        settle().await;
        let Some(m) = x.hs3_ready() else {
            ctx.fail("no answer to the handshake in time");
            return;
        };
        x.raw(&m);
        settle().await;
    }
    let c = x.encrypt(&wire::connect("X"));
    let cut = [0, 1, c.len() - 1][mc::pick(3)];
    x.raw(&c[..cut]);
    settle().await;
    mc::advance(left);
    settle().await;
    ctx.check(!x.closed(), || format!("closed before {} s", k));
    if mc::pick(2) == 1 {
        x.raw(&c[cut..]);
        settle().await;
        ctx.check(matches!(x.received().first(), Some(Pkt::ConnAck { reason: 0, .. })), || {
            format!("not accepted within {} s: {:?}", k, x.received())
        });
        for _ in 0..3 {
            mc::advance(limit);
            settle().await;
        }
        ctx.check(!x.closed(), || "an established connection is closed by a timer".to_string());
        registered(&ctx, &b, &["S", "X"]).await;
        served(&ctx, &x, "x").await;
    } else {
        // an encrypted connection has one limit for each of its stages
        mc::advance(eps * 2);
        settle().await;
        if noise {
            mc::advance(limit * 3);
            settle().await;
        }
        ctx.check(x.closed(), || format!("still open after {} s", k));
        registered(&ctx, &b, &["S"]).await;
        let now = mc::subject_tasks().len();
        ctx.check(now == tasks, || format!("{} tasks instead of {}", now, tasks));
    }
    served(&ctx, &s, "s").await;
}

pub fn b13() -> Vec<Scenario> {
    vec![
        scenario("b13-limits", [0, 2], |c| limits(c, false)).calm(),
        scenario("b13-limits-noise", [0, 2], |c| limits(c, true)).calm(),
    ]
}

// ---------------------------------------------------------------- clean starts

const NESTED: &[&str] = &["t", "t/u", "t/u/v", "t/#", "t/+", "t/u/#", "+", "+/u", "+/+/v", "#", "/", "t/", "//", "/t", "t//v", "$x", "$x/y"];
const NAMES: &[&str] = &["t", "t/u", "t/u/v", "/", "t/", "//", "/t", "t//v", "$x", "$x/y", "u", "t/w/v"];

/// Any three earlier subscriptions, made in one or several packets, any of them twice
async fn nested(ctx: Rc<Ctx>, n: usize) {
    let b = Broker::start(Opts::default()).await;
    let p = client(&ctx, "P").await;
    let fs: Vec<&str> = (0..n).map(|_| NESTED[mc::pick(NESTED.len())]).collect();
    let how = mc::pick(3);
    let c1 = client(&ctx, "C").await;
    let all: Vec<(&str, u8)> = fs.iter().map(|f| (*f, SUB)).collect();
    if how == 0 {
        for (i, f) in all.iter().enumerate() {
            c1.send(&wire::subscribe(i as u16 + 1, &[*f]));
        }
    } else {
        c1.send(&wire::subscribe(1, &all));
    }
    settle().await;
    if how == 1 {
        c1.close();
        settle().await;
    } else if how == 2 {
        c1.reset();
    }
    let c2 = client(&ctx, "C").await;
    settle().await;
    for t in NAMES {
        p.publish(t, t.as_bytes());
    }
    settle().await;
    let got = c2.messages();
    ctx.check(got.is_empty(), || {
        format!("after {:?} the new connection got {:?}", fs, got.iter().map(|m| String::from_utf8_lossy(m).to_string()).collect::<Vec<_>>())
    });
    // and its own subscription is there
    let g = c2.subscribe(9, &[(fs[0], SUB)]).await;
    grant(&ctx, &c2, g, 1);
    for t in NAMES {
        p.publish(t, t.as_bytes());
    }
    settle().await;
    let got = c2.messages().len();
    let want = NAMES.iter().filter(|t| matches(fs[0], t)).count();
    ctx.check(got == want, || format!("{} messages instead of {} for {:?}", got, want, fs[0]));
    registered(&ctx, &b, &["C", "P"]).await;
}
fn matches(filter: &str, topic: &str) -> bool {
    if topic.starts_with('$') && filter.starts_with(['+', '#']) {
        return false;
    }
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    fn go(f: &[&str], t: &[&str]) -> bool {
        match (f.first(), t.first()) {
            (Some(&"#"), _) => true,
            (None, None) => true,
            (Some(&"+"), Some(_)) => go(&f[1..], &t[1..]),
            (Some(a), Some(b)) if a == b => go(&f[1..], &t[1..]),
            _ => false,
        }
    }
    go(&f, &t)
}

/// Very many earlier subscriptions
async fn many(ctx: Rc<Ctx>) {
    let b = Broker::start(Opts { max_packet: 1 << 20, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    let n = [2usize, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 512, 1000, 1025][mc::pick(15)];
    let together = mc::pick(2) == 1;
    let how = mc::pick(3);
    let names: Vec<String> = (0..n).map(|i| format!("t/{}/{}", i % 10, i)).collect();
    let all: Vec<(&str, u8)> = names.iter().map(|f| (&f[..], SUB)).collect();
    let c1 = client(&ctx, "C").await;
    if together {
        let g = c1.subscribe(1, &all).await;
        grant(&ctx, &c1, g, n);
    } else {
        for (i, f) in all.iter().enumerate() {
            c1.send(&wire::subscribe(i as u16 + 1, &[*f]));
        }
    }
    settle().await;
    finish(&c1, how);
    if mc::pick(2) == 1 {
        settle().await;
    }
    let c2 = client(&ctx, "C").await;
    settle().await;
    for t in &names {
        p.publish(t, t.as_bytes());
    }
    settle().await;
    let got = c2.messages();
    ctx.check(got.is_empty(), || format!("after {} subscriptions the new connection got {} messages", n, got.len()));
    registered(&ctx, &b, &["C", "P"]).await;
    served(&ctx, &c2, "c2").await;
}

pub fn b16() -> Vec<Scenario> {
    vec![
        scenario("b16-nested", [0, 0], |c| nested(c, 2)).calm(),
        scenario("b16-nested-3", [crate::SKIP, 0], |c| nested(c, 3)).calm(),
        scenario("b16-many", [0, 0], many).calm().cfg(|c| {
            c.points = 0;
            c.sched = false;
            c.max_ops = u64::MAX;
        }),
    ]
}

// ---------------------------------------------------------------- sizes

/// The limit is what it was set to
async fn limit_values(ctx: Rc<Ctx>, noise: bool) {
    let max = [100usize, 127, 128, 129, 130, 131, 132, 255, 256, 257, 511, 512, 4096, 16382, 16383, 16384, 16385, 16386, 16387, 32768, 65519, 65535, 65536, 70000][mc::pick(24)];
    if noise && max > 65519 {
        return;
    }
    let b = Broker::start(Opts { noise, max_packet: max as u32, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    let x = any_client(&ctx, "X", noise).await;
    settle().await;
    let size = max - 2 + mc::pick(5);
    // the length field takes another byte: there are no such frames
    if [130, 16387].contains(&size) || noise && size > 65519 {
        return;
    }
    let packet = x.encrypt(&sized("t", size, 0x55));
    let n = packet.len();
    match mc::pick(4) {
        0 => {
            x.raw(&packet);
        }
        1 => {
            x.raw(&packet[..n - 1]);
            settle().await;
            x.raw(&packet[n - 1..]);
        }
        2 => {
            x.raw(&packet[..6]);
            settle().await;
            x.raw(&packet[6..]);
        }
        _ => {
            for c in packet.chunks(n / 5 + 1) {
                x.raw(c);
                settle().await;
            }
        }
    }
    settle().await;
    let fits = size <= max;
    let got: Vec<usize> = s.received().iter().filter_map(|p| p.payload().map(|b| b.len())).collect();
    let copies = s.messages().iter().filter(|m| m.iter().all(|b| *b == 0x55)).count();
    ctx.check(got.len() == fits as usize && copies == got.len(), || format!("{} bytes with limit {}: {:?}", size, max, got));
    ctx.check(x.closed() != fits, || format!("{} bytes with limit {}: closed {}", size, max, x.closed()));
    if fits {
        served(&ctx, &x, "x").await;
    } else {
        registered(&ctx, &b, &["S"]).await;
    }
    served(&ctx, &s, "s").await;
}

/// The limit a client announces is what counts, and counts for it alone
async fn announced_values(ctx: Rc<Ctx>, noise: bool) {
    let _b = Broker::start(Opts { noise, max_packet: 80_000, ..Opts::default() }).await;
    let max = [64u32, 127, 128, 129, 131, 255, 256, 257, 1024, 16383, 16384, 16386, 16388, 32768, 65535, 65536, 65537, 70000, 1 << 24, u32::MAX][mc::pick(20)];
    let p = client(&ctx, "P").await;
    let o = client(&ctx, "O").await;
    let s = if noise { Client::open_noise(&ctx, "S") } else { Client::open(&ctx, "S") };
    if noise {
        s.handshake().await;
    }
    s.send(&wire::connect_with("S", CLEAN, 60, &p4(39, max), &[]));
    settle().await;
    for c in [&s, &o] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    let around = (max as usize).min(70_000);
    let size = around - 2 + mc::pick(5);
    let size = if [130, 16387].contains(&size) { size - 1 } else { size };
    if noise && size > 65519 {
        return;
    }
    p.publish("t", b"before");
    p.send(&sized("t", size, 0x55));
    p.publish("t", b"after");
    settle().await;
    let fits = size <= max as usize;
    let n = |c: &Client| c.messages().iter().filter(|m| m.first() == Some(&0x55)).count();
    ctx.check(n(&s) == fits as usize, || format!("a message of {} bytes arrives {} times at a client that accepts {}", size, n(&s), max));
    ctx.check(n(&o) == 1, || format!("another client got {} copies", n(&o)));
    for m in [&b"before"[..], b"after"] {
        let n = count(&s, m);
        ctx.check(n == 1, || format!("a small message arrives {} times", n));
    }
    ctx.check(s.largest() <= max as usize, || format!("a packet of {} bytes", s.largest()));
    served(&ctx, &s, "s").await;
}

pub fn b09() -> Vec<Scenario> {
    let fast = |s: Scenario| {
        s.calm().cfg(|c| {
            c.points = 0;
            c.sched = false;
            c.max_ops = u64::MAX;
        })
    };
    vec![
        fast(scenario("b09-limit-values", [0, 0], |c| limit_values(c, false))),
        fast(scenario("b09-limit-values-noise", [0, 0], |c| limit_values(c, true))),
        fast(scenario("b09-announced-values", [0, 0], |c| announced_values(c, false))),
        fast(scenario("b09-announced-values-noise", [0, 0], |c| announced_values(c, true))),
    ]
}

// ---------------------------------------------------------------- delivery

/// Payloads of all lengths around the borders, unchanged
async fn lengths(ctx: Rc<Ctx>, from: bool, to: bool) {
    let _b = Broker::start(Opts { noise: from || to, max_packet: 80_000, ..Opts::default() }).await;
    let s = any_client(&ctx, "S", to).await;
    let p = any_client(&ctx, "P", from).await;
    let g = s.subscribe(1, &[("t/#", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    let base = [0usize, 110, 240, 500, 1000, 1480, 4080, 8180, 16360, 32750, 65490][mc::pick(11)];
    let off = mc::pick(40);
    let topic = ["t", "t/long/er"][mc::pick(2)];
    let n = base + off;
    let payload: Vec<u8> = (0..n).map(|i| (i * 31 + i / 251 + 5) as u8).collect();
    let one = wire::publish(topic, &payload);
    if (from || to) && one.len() > 65519 {
        return;
    }
    p.send(&one);
    p.publish("t", b"next");
    settle().await;
    let got = s.messages();
    ctx.check(got == vec![payload, b"next".to_vec()], || {
        format!("a message of {} bytes: {:?}", n, got.iter().map(|m| m.len()).collect::<Vec<_>>())
    });
}

/// Topics of many shapes and lengths, unchanged
async fn topics(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts { max_packet: 80_000, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    let g = s.subscribe(1, &[("#", SUB), ("$x/#", SUB)]).await;
    grant(&ctx, &s, g, 2);
    settle().await;
    let mut all: Vec<String> = ["t", "/", "//", "t/", "/t", " ", "a b", "ä", "\u{10ffff}/x", "\u{feff}", "T", "$x", "$x/y", "t/$x"].iter().map(|s| s.to_string()).collect();
    for n in [63, 64, 127, 128, 255, 256, 1000, 16380, 32767, 32768, 65535] {
        all.push("n".repeat(n));
        all.push("ab/".repeat(n / 3));
    }
    let t = &all[mc::pick(all.len())];
    let packet = wire::publish(t, b"content");
    p.send(&packet);
    settle().await;
    let want = vec![wire::single(packet.clone())];
    let got: Vec<Pkt> = s.received().into_iter().filter(|p| p.is_publish()).collect();
    ctx.check(got == want, || format!("topic {:?}: {:?}", &t[..t.len().min(30)], got.len()));
    // a subscription to exactly this topic
    let x = client(&ctx, "X").await;
    let g = x.subscribe(2, &[(t, SUB)]).await;
    grant(&ctx, &x, g, 1);
    p.send(&packet);
    settle().await;
    let n = x.messages().len();
    ctx.check(n == 1, || format!("{} copies for a subscription to the topic itself", n));
    let n = s.messages().len();
    ctx.check(n == 2, || format!("{} messages for the first subscriber", n));
}

/// Many subscribers and many publishers
async fn crowd(ctx: Rc<Ctx>) {
    let queue = [0, 3, 1 << 16][mc::pick(3)];
    let n = [1usize, 2, 8, 9, 16, 17, 33, 65, 100][mc::pick(9)];
    let _b = Broker::start(Opts { queue, noise: true, ..Opts::default() }).await;
    let mut cs = Vec::new();
    for i in 0..n {
        let c = any_client(&ctx, &format!("c{}", i), i % 5 == 4).await;
        let mine = format!("m/{}", i);
        let g = c.subscribe(1, &[(["t", "+", "#", "t/#"][i % 4], SUB), (&mine, SUB)]).await;
        grant(&ctx, &c, g, 2);
        cs.push(c);
    }
    let p = client(&ctx, "P").await;
    settle().await;
    for k in 0..3 {
        p.publish("t", format!("all {}", k).as_bytes());
    }
    for i in 0..n {
        cs[(i + 1) % n].publish(&format!("m/{}", i), format!("for {}", i).as_bytes());
    }
    settle().await;
    for (i, c) in cs.iter().enumerate() {
        for k in 0..3 {
            let got = count(c, format!("all {}", k).as_bytes());
            ctx.check(got == 1, || format!("c{} of {} got {} copies", i, n, got));
        }
        for j in 0..n {
            let want = (i == j || i % 4 == 2) as usize;
            let got = count(c, format!("for {}", j).as_bytes());
            ctx.check(got == want, || format!("c{} of {} got {} copies of a message for c{}", i, n, got, j));
        }
    }
}

/// User properties are forwarded as they are. Whether they are one string or two is not decided
/// here: the form that is malformed ends the connection
async fn user_properties(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts { noise: true, ..Opts::default() }).await;
    let p = any_client(&ctx, "P", mc::pick(2) == 1).await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    mc::calm(false);
    let before = s.raw_seen().len();
    let words = ["", "k", "key", "\u{e9}\u{feff}", " ", "a b"];
    let n = 1 + mc::pick(3);
    let two = mc::pick(2) == 1;
    let mut block = Vec::new();
    for _ in 0..n {
        block.extend(st(38, words[mc::pick(words.len())].as_bytes()));
        if two {
            block.extend(wire::string(words[mc::pick(3)]));
        }
    }
    let packet = wire::publish_with(0, "t", None, &block, b"payload");
    p.send(&packet);
    settle().await;
    s.pull();
    let got = s.raw_seen()[before..].to_vec();
    if got.is_empty() {
        ctx.check(p.closed(), || format!("the message {} is dropped", hex(&packet)));
    } else {
        ctx.check(got == packet, || format!("{} was sent and {} arrived", hex(&packet), hex(&got)));
    }
}

pub fn b01() -> Vec<Scenario> {
    let fast = |s: Scenario| {
        s.calm().cfg(|c| {
            c.points = 0;
            c.sched = false;
            c.max_ops = u64::MAX;
        })
    };
    vec![
        fast(scenario("b01-lengths", [0, 0], |c| lengths(c, false, false))),
        fast(scenario("b01-lengths-noise-in", [0, 0], |c| lengths(c, true, false))),
        fast(scenario("b01-lengths-noise-out", [0, 0], |c| lengths(c, false, true))),
        fast(scenario("b01-topics", [0, 0], topics)),
        fast(scenario("b01-crowd", [0, 0], crowd)),
        scenario("b01-user-properties", [0, 0], user_properties).calm(),
    ]
}

// ---------------------------------------------------------------- unsupported requests

/// Every flag with every property
async fn flags(ctx: Rc<Ctx>, noise: bool) {
    let _b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let x = any_client(&ctx, "X", noise).await;
    let y = client(&ctx, "XX").await;
    for c in [&s, &x, &y] {
        let g = c.subscribe(1, &[("t", SUB), ("own/#", SUB)]).await;
        grant(&ctx, c, g, 2);
    }
    settle().await;
    let flags = mc::pick(16) as u8;
    let qos = flags >> 1 & 3;
    if qos == 3 {
        return;
    }
    let good: Vec<Vec<u8>> = vec![vec![], vec![1, 1], st(3, b"c"), st(9, &[0xff]), [st(8, b"r"), vec![1, 0]].concat()];
    let bad: Vec<Vec<u8>> = vec![vec![], p4(2, 0), p4(2, 1), p4(2, u32::MAX), p2(35, 1), p2(35, 65535), vec![11, 1], vec![11, 0xff, 0x7f]];
    let g = mc::pick(good.len());
    let b1 = mc::pick(bad.len());
    let b2 = mc::pick(bad.len());
    // no property twice
    if b2 > 0 && bad[b1].first() == bad[b2].first() {
        return;
    }
    let block = match mc::pick(2) {
        0 => [&bad[b1][..], &good[g], &bad[b2]].concat(),
        _ => [&good[g][..], &bad[b2], &bad[b1]].concat(),
    };
    let topic = ["t", "own/x"][mc::pick(2)];
    let pid = if qos > 0 { Some(7) } else { None };
    x.publish("t", b"before");
    x.send(&wire::publish_with(flags, topic, pid, &block, b"request"));
    settle().await;
    let supported = flags == 0 && b1 == 0 && b2 == 0;
    // a duplicate of a message that is sent once is malformed as well
    let malformed = qos == 0 && flags & 8 != 0;
    let refusals = x.received().iter().filter(|p| matches!(p, Pkt::Disconnect { reason: 0x83, .. })).count();
    if supported {
        ctx.check(refusals == 0, || "a supported message is refused".to_string());
        ctx.check(!x.closed(), || "the connection is closed".to_string());
    } else if !malformed {
        ctx.check(refusals == 1, || format!("{} refusals for flags {} and properties {}", refusals, flags, hex(&block)));
    } else {
        ctx.check(refusals == 1 || x.closed(), || format!("flags {} are neither refused nor malformed", flags));
    }
    for c in [&s, &x, &y] {
        let n = count(c, b"request");
        ctx.check(n == supported as usize, || format!("{} got {} copies of a message with flags {} and properties {}", c.name(), n, flags, hex(&block)));
        let n = count(c, b"before");
        ctx.check(n == 1, || format!("{} got {} copies of the message before", c.name(), n));
        if c.name() != "X" {
            ctx.check(!c.received().iter().any(|p| matches!(p, Pkt::Disconnect { .. })), || format!("{} is told to disconnect", c.name()));
        }
    }
    served(&ctx, &s, "s").await;
}

/// Every packet that a broker does not act on
async fn others(ctx: Rc<Ctx>) {
    let _b = Broker::start(Opts::default()).await;
    let s = client(&ctx, "S").await;
    let x = client(&ctx, "X").await;
    for c in [&s, &x] {
        let g = c.subscribe(1, &[("t", SUB), ("own/#", SUB)]).await;
        grant(&ctx, c, g, 2);
    }
    settle().await;
    let mut menu: Vec<Vec<u8>> = Vec::new();
    for f in [&["t"][..], &["own/#"], &["t", "own/#"], &["#"], &["own/#", "t", "zz"], &["own/+"]] {
        menu.push(wire::unsubscribe(9, f));
    }
    for pid in [1u16, 2, 255, 256, 65535] {
        menu.push(wire::unsubscribe(pid, &["t"]));
        for id in [1u8, 127] {
            menu.push(wire::subscribe_with(pid, &[11, id], &[("t", SUB), ("q", SUB)]));
        }
    }
    menu.push(wire::pingreq());
    for r in [0x00, 0x18, 0x19] {
        menu.push(wire::frame(0xF0, &[r, 0]));
        menu.push(wire::frame(0xF0, &[r, 4, 21, 0, 1, b'm']));
    }
    let m = &menu[mc::pick(menu.len())];
    let k = 1 + mc::pick(3);
    for _ in 0..k {
        x.send(m);
    }
    settle().await;
    let refusals = x.received().iter().filter(|p| matches!(p, Pkt::Disconnect { reason: 0x83, .. })).count();
    ctx.check(refusals == k, || format!("{} refusals for {} of {}", refusals, k, hex(m)));
    ctx.check(s.received().len() == 2, || format!("another client got {:?}", s.received()));
    for t in ["t", "own/x", "own", "q", "zz"] {
        s.publish(t, t.as_bytes());
    }
    settle().await;
    if !x.closed() {
        let got: Vec<String> = x.messages().iter().map(|m| String::from_utf8_lossy(m).to_string()).collect();
        ctx.check(got == ["t", "own/x", "own"], || format!("after {} the client receives {:?}", hex(m), got));
    }
    served(&ctx, &s, "s").await;
}

pub fn b17() -> Vec<Scenario> {
    vec![
        scenario("b17-flags", [0, 0], |c| flags(c, false)).calm(),
        scenario("b17-flags-noise", [crate::SKIP, 0], |c| flags(c, true)).calm(),
        scenario("b17-others", [0, 1], others).calm(),
    ]
}

/// Any filter of up to `depth` levels, granted and effective on every topic of as many levels
async fn filters(ctx: Rc<Ctx>, depth: usize) {
    const LEVELS: &[&str] = &["a", "", "+", "#", "$share", "$shares", "$SYS", "\u{e9} x", "A"];
    const NAMES: &[&str] = &["a", "", "$share", "$shares", "$SYS", "\u{e9} x", "A", "b"];
    let n = 1 + mc::pick(depth);
    let levels: Vec<&str> = (0..n).map(|_| LEVELS[mc::pick(LEVELS.len())]).collect();
    let filter = levels.join("/");
    if filter.is_empty() || levels[..n - 1].contains(&"#") || levels[0] == "$share" {
        return;
    }
    let opts = [SUB, SUB | 4, SUB | 8, SUB | 12][mc::pick(4)];
    let _b = Broker::start(Opts { max_packet: 1 << 16, ..Opts::default() }).await;
    let x = client(&ctx, "X").await;
    let p = client(&ctx, "P").await;
    let g = x.subscribe(1, &[(&filter, opts)]).await;
    settle().await;
    ctx.check(g == Some(vec![0]), || format!("the filter {:?} with options {:#x} is answered with {:?}", filter, opts, g));
    let mut topics: Vec<String> = NAMES.iter().map(|n| n.to_string()).collect();
    let mut from = 0;
    for _ in 1..depth.min(3) {
        let to = topics.len();
        for i in from..to {
            for n in NAMES {
                let t = format!("{}/{}", topics[i], n);
                topics.push(t);
            }
        }
        from = to;
    }
    topics.retain(|t| !t.is_empty());
    for t in &topics {
        p.publish(t, t.as_bytes());
    }
    settle().await;
    let got: Vec<String> = x.messages().iter().map(|m| String::from_utf8_lossy(m).to_string()).collect();
    let want: Vec<&String> = topics.iter().filter(|t| matches(&filter, t)).collect();
    ctx.observe(&got);
    ctx.check(got.iter().eq(want.iter().copied()), || {
        let d = topics.iter().find(|t| got.contains(t) != matches(&filter, t));
        format!("the filter {:?} receives {} of {} messages, topic {:?} differs", filter, got.len(), want.len(), d)
    });
}

pub fn b04() -> Vec<Scenario> {
    vec![
        scenario("b04-filters", [0, 0], |c| filters(c, 3)).calm(),
        scenario("b04-filters-4", [crate::SKIP, 0], |c| filters(c, 4)).calm(),
    ]
}
