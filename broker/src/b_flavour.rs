//! Every way to connect, with everything that follows: what a client asks for in its CONNECT never
//! changes what it receives, what it is refused, and what is left of it

use crate::b_connect::{finish, first_packets, p2, p4, Want};
use crate::b_deliver::{clean, grant};
use crate::client::*;
use crate::explore::*;
use crate::wire::{self, Pkt, CLEAN, SUB};
use std::rc::Rc;
use std::time::Duration;
use tokio::mc;

/// CONNECT packets that are accepted
fn flavours(id: &str) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = first_packets(id)
        .into_iter()
        .filter(|(_, _, w)| matches!(w, Want::Accept(..)))
        .map(|(_, p, _)| p)
        .collect();
    let c = |keep: u16, p: &[Vec<u8>]| wire::connect_with(id, CLEAN, keep, &p.concat(), &[]);
    v.push(c(1, &[p4(39, 128)]));
    v.push(c(0, &[p4(17, 3600), p2(33, 1), p2(34, 1), p4(39, 200), vec![25, 1], vec![23, 0]]));
    v.push(c(0, &[vec![23, 0], vec![25, 0], p4(39, u32::MAX), p2(34, 65535), p2(33, 65535), p4(17, u32::MAX)]));
    v
}

async fn join(ctx: &Rc<Ctx>, name: &str, noise: bool, connect: &[u8]) -> Client {
    let c = if noise { Client::open_noise(ctx, name) } else { Client::open(ctx, name) };
    if noise && !c.handshake().await {
        ctx.fail("the handshake fails");
    }
    c.send(connect);
    match c.next().await {
        Some(Pkt::ConnAck { reason: 0, present: 0, .. }) => (),
        other => ctx.fail(format!("{} is not accepted: {:?}", name, other)),
    }
    c
}
fn pick_of(v: &[Vec<u8>]) -> &[u8] {
    &v[mc::pick(v.len())]
}
fn texts(c: &Client) -> Vec<String> {
    c.messages().iter().map(|m| String::from_utf8_lossy(m).to_string()).collect()
}

/// Both get all that is published, in order
async fn deliver(ctx: Rc<Ctx>, noise: bool) {
    let _b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let x = join(&ctx, "X", noise, pick_of(&flavours("X"))).await;
    let y = join(&ctx, "Y", false, pick_of(&flavours("Y"))).await;
    for c in [&s, &x, &y] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    mc::calm(false);
    let mut want = Vec::new();
    for i in 0..7 {
        for (c, n) in [(&s, "s"), (&x, "x"), (&y, "y")] {
            let m = format!("{}{}", n, i);
            c.publish("t", m.as_bytes());
            c.publish("nobody", b"lost");
            if i % 3 == 0 {
                settle().await;
            }
            want.push(m);
        }
    }
    settle().await;
    for c in [&s, &x, &y] {
        let got = texts(c);
        let mut all = got.clone();
        all.sort();
        let mut w = want.clone();
        w.sort();
        ctx.check(all == w, || format!("{} got {:?} of {:?}", c.name(), got, want));
        for n in ["s", "x", "y"] {
            let own: Vec<&String> = got.iter().filter(|m| m.starts_with(n)).collect();
            ctx.check(own.windows(2).all(|p| p[0] < p[1]), || format!("{} got {:?}", c.name(), own));
        }
        clean(&ctx, c);
    }
}

/// Unsupported requests are refused
async fn refuse(ctx: Rc<Ctx>, noise: bool) {
    let _b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let x = join(&ctx, "X", noise, pick_of(&flavours("X"))).await;
    for c in [&s, &x] {
        let g = c.subscribe(1, &[("t", SUB), ("own", SUB)]).await;
        grant(&ctx, c, g, 2);
    }
    settle().await;
    mc::calm(false);
    let menu = [
        wire::publish_with(2, "t", Some(1), &[], b"request"),
        wire::publish_with(4, "t", Some(1), &[], b"request"),
        wire::publish_with(1, "t", None, &[], b"request"),
        wire::publish_with(0, "t", None, &p2(35, 1), b"request"),
        wire::publish_with(0, "t", None, &p4(2, 1), b"request"),
        wire::subscribe_with(3, &[11, 1], &[("q", SUB)]),
        wire::unsubscribe(3, &["own"]),
        wire::pingreq(),
        wire::frame(0xF0, &[0x18, 4, 21, 0, 1, b'm']),
    ];
    let m = pick_of(&menu);
    let k = 1 + mc::pick(2);
    for _ in 0..k {
        x.send(m);
    }
    s.publish("q", b"q");
    s.publish("own", b"own");
    settle().await;
    let n = x.received().iter().filter(|p| matches!(p, Pkt::Disconnect { reason: 0x83, .. })).count();
    ctx.check(n == k, || format!("{} refusals for {} of {}", n, k, hex(m)));
    ctx.check(texts(&s) == ["own"], || format!("S got {:?}", texts(&s)));
    if !x.closed() {
        ctx.check(texts(&x) == ["own"], || format!("X got {:?}", texts(&x)));
    }
    clean(&ctx, &s);
}

/// A client leaves or is replaced, the next one knows nothing of it
async fn leave(ctx: Rc<Ctx>, noise: bool, replace: bool) {
    let b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    settle().await;
    let tasks = mc::subject_tasks().len();
    let all = flavours("X");
    let x = join(&ctx, "first", noise, pick_of(&all)).await;
    let g = x.subscribe(1, &[("t", SUB), ("+/#", SUB), ("own", SUB | 4)]).await;
    grant(&ctx, &x, g, 3);
    settle().await;
    let second = pick_of(&all);
    mc::calm(false);
    if !replace {
        let goodbyes = [
            vec![],
            wire::disconnect(),
            wire::frame(0xE0, &[4, 0]),
            wire::frame(0xE0, &[&[0u8, 5][..], &p4(17, 9)].concat()),
            wire::frame(0xE0, &[&[0u8, 5][..], &p4(17, u32::MAX)].concat()),
        ];
        let g = pick_of(&goodbyes);
        if !g.is_empty() {
            x.send(g);
            settle().await;
        }
        finish(&x, 1 + mc::pick(3));
        settle().await;
        ctx.check(x.closed(), || "the connection stays open".to_string());
        registered(&ctx, &b, &["S"]).await;
        let n = mc::subject_tasks().len();
        ctx.check(n == tasks, || format!("{} tasks instead of {}", n, tasks));
        // nobody has it
        s.publish("t", b"lost");
        settle().await;
    }
    let y = join(&ctx, "second", false, second).await;
    s.publish("t", b"t");
    s.publish("own", b"own");
    y.publish("own", b"own");
    settle().await;
    registered(&ctx, &b, &["S", "X"]).await;
    ctx.check(x.closed(), || "the older connection stays open".to_string());
    ctx.check(y.received().len() == 1, || format!("the newer connection received {:?}", y.received()));
    let g = y.subscribe(2, &[("u", SUB)]).await;
    grant(&ctx, &y, g, 1);
    for t in ["t", "u", "own", "a/b"] {
        s.publish(t, t.as_bytes());
    }
    settle().await;
    ctx.check(texts(&y) == ["u"], || format!("the newer connection got {:?}", texts(&y)));
    served(&ctx, &y, "y").await;
    y.close();
    settle().await;
    registered(&ctx, &b, &["S"]).await;
    let n = mc::subject_tasks().len();
    ctx.check(n == tasks, || format!("{} tasks instead of {}", n, tasks));
    served(&ctx, &s, "s").await;
}

/// Connected clients stay connected
async fn stay(ctx: Rc<Ctx>, noise: bool) {
    let keep_alive = [1u16, 60, 65535][mc::pick(3)];
    let b = Broker::start(Opts { noise, keep_alive, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let x = join(&ctx, "X", noise, pick_of(&flavours("X"))).await;
    settle().await;
    mc::calm(false);
    mc::advance(Duration::from_secs([2, 3601, 100_000][mc::pick(3)]));
    settle().await;
    registered(&ctx, &b, &["S", "X"]).await;
    ctx.check(!x.closed() && x.received().len() == 1, || "a connected client is disconnected".to_string());
    served(&ctx, &x, "x").await;
    served(&ctx, &s, "s").await;
}

pub fn b01() -> Vec<Scenario> {
    vec![
        scenario("b01-flavours", [0, 1], |c| deliver(c, false)).calm(),
        scenario("b01-flavours-noise", [0, 1], |c| deliver(c, true)).calm(),
    ]
}
pub fn b07() -> Vec<Scenario> {
    vec![
        scenario("b07-flavours", [0, 1], |c| leave(c, false, false)).calm(),
        scenario("b07-flavours-noise", [0, 1], |c| leave(c, true, false)).calm(),
    ]
}
pub fn b08() -> Vec<Scenario> {
    vec![
        scenario("b08-flavours", [0, 1], |c| leave(c, false, true)).calm(),
        scenario("b08-flavours-noise", [0, 1], |c| leave(c, true, true)).calm(),
    ]
}
pub fn b13() -> Vec<Scenario> {
    vec![
        scenario("b13-flavours", [0, 1], |c| stay(c, false)).calm(),
        scenario("b13-flavours-noise", [0, 1], |c| stay(c, true)).calm(),
    ]
}
pub fn b16() -> Vec<Scenario> {
    vec![
        scenario("b16-flavours", [0, 1], |c| leave(c, false, false)).calm(),
        scenario("b16-flavours-takeover", [0, 1], |c| leave(c, false, true)).calm(),
        scenario("b16-flavours-noise", [0, 1], |c| leave(c, true, false)).calm(),
    ]
}
pub fn b17() -> Vec<Scenario> {
    vec![
        scenario("b17-flavours", [0, 1], |c| refuse(c, false)).calm(),
        scenario("b17-flavours-noise", [0, 1], |c| refuse(c, true)).calm(),
    ]
}
