//! B21: a departed client leaves nothing behind. B22: what a connection sends is held within limits

use crate::b_connect::{finish, first_packets, p2, p4, Want};
use crate::b_deliver::grant;
use crate::client::*;
use crate::explore::*;
use crate::mem;
use crate::wire::{self, CLEAN, SUB};
use std::rc::Rc;
use std::time::Duration;
use tokio::mc;

const KEEP: u16 = 5;
/// Some pieces of queues, some tables
const SLACK: i64 = 40_000;

/// What one client does in its life, `i` makes its names new
#[derive(Clone, Copy, Debug, PartialEq)]
enum Life {
    /// Connects and goes
    Plain,
    /// The same identifier each time
    Same,
    /// The broker gives it an identifier
    Assigned,
    /// Subscribes to what others have subscribed to before
    OldFilters,
    /// Subscribes to filters nobody used before
    NewFilters,
    /// Filters with many levels
    Deep,
    /// Subscriptions the broker refuses
    Refused,
    /// Subscribes to the same again and again
    Again,
    /// Publishes to topics nobody subscribed to
    Publishes,
    /// Is taken over by a client of the same name, twice
    TakenOver,
    /// Sends requests that are not supported
    Unsupported,
    /// Any packet there is, one after the other
    AnyPacket,
    /// Uses properties, with content of its own, wherever the broker accepts them
    Properties,
    /// Accepts small packets only, larger ones are for it
    Small,
    /// Says goodbye
    Disconnects,
    /// Goes while messages wait for it
    Backlog,
    /// Is not accepted
    NotAccepted,
    /// Never completes its CONNECT
    TimesOut,
    /// Sends garbage
    Garbage,
    /// Encrypted
    Noise,
    /// The handshake fails or is cut off
    BadHandshake,
}
use Life::*;
const LIVES: &[Life] = &[
    Plain, Same, Assigned, OldFilters, NewFilters, Deep, Refused, Again, Publishes, TakenOver, Unsupported,
    AnyPacket, Properties, Small, Disconnects, Backlog,
    NotAccepted, TimesOut, Garbage, Noise, BadHandshake,
];

fn name(i: usize) -> String {
    format!("C{:07}", i)
}

/// `first`: the number of the first packet menu entry etc., so that all variants come up
async fn live(ctx: &Rc<Ctx>, p: &Client, life: Life, i: usize, end: usize) {
    let id = name(i);
    let x = match life {
        Noise | BadHandshake => Client::open_noise(ctx, &id),
        _ => Client::open(ctx, &id),
    };
    match life {
        NotAccepted => {
            let menu: Vec<Vec<u8>> = first_packets(&id).into_iter().filter(|p| !matches!(p.2, Want::Accept(..))).map(|p| p.1).collect();
            x.raw(&menu[i % menu.len()]);
            settle().await;
            return;
        }
        TimesOut => {
            let all = wire::connect(&id);
            x.raw(&all[..i % all.len()]);
            settle().await;
            mc::advance(Duration::from_secs(KEEP as u64 + 1));
            settle().await;
            return;
        }
        BadHandshake => {
            let mut m = x.hs1();
            match i % 4 {
                0 => m.truncate(m.len() - 1),
                1 => *m.last_mut().unwrap() ^= 1,
                2 => m.truncate(3),
                _ => m.extend(noise_frame(&[0; 40])),
            }
            x.raw(&m);
            settle().await;
            finish(&x, end);
            settle().await;
            return;
        }
        Same | OldFilters => connected(ctx, &x, "C").await,
        Assigned => connected(ctx, &x, "").await,
        Properties => {
            let own = wire::string(&id);
            let all = [&p4(0x11, 10)[..], &p2(0x21, 7), &p4(0x27, 1 << 20), &p2(0x22, 0), &[0x19, 1, 0x17, 0, 0x26], &own, &[0x26], &own].concat();
            x.send(&wire::connect_with(&id, CLEAN, 0, &all, &[]));
        }
        Small => {
            x.send(&wire::connect_with(&id, CLEAN, 0, &p4(0x27, 100), &[]));
            settle().await;
        }
        _ => connected(ctx, &x, &id).await,
    }
    match life {
        OldFilters => {
            for f in [&["a/b", "a/#"][..], &["+/b", "#", "a/b"]] {
                let f: Vec<(&str, u8)> = f.iter().map(|f| (*f, SUB)).collect();
                let g = x.subscribe(1, &f).await;
                grant(ctx, &x, g, f.len());
            }
        }
        NewFilters | Noise => {
            let f: Vec<String> = vec![id.clone(), format!("{}/#", id), format!("+/{}/b", id), format!("a/{}/{}", id, id), format!("{}/b/c", id)];
            let f: Vec<(&str, u8)> = f.iter().map(|f| (&f[..], SUB)).collect();
            let g = x.subscribe(1, &f).await;
            grant(ctx, &x, g, f.len());
            p.publish(&format!("{}/b", id), b"hello");
        }
        Deep => {
            let f = vec![&id[..]; 40].join("/");
            let up = vec![&id[..]; 20].join("/");
            let g = x.subscribe(1, &[(&f, SUB), (&up, SUB)]).await;
            grant(ctx, &x, g, 2);
        }
        Refused => {
            let share = format!("$share/{}/{}", id, id);
            let g = x.subscribe(1, &[(&share, SUB), (&id, SUB + 1), (&format!("{}/q", id), 0)]).await;
            ctx.check(g.map_or(false, |g| g.len() == 3 && g.iter().all(|r| *r >= 0x80)), || "not refused".to_string());
        }
        Again => {
            for o in [SUB, SUB | 4, SUB | 8, SUB] {
                let g = x.subscribe(1, &[(&id, o), (&id, SUB), ("a/b", o)]).await;
                grant(ctx, &x, g, 3);
            }
        }
        Publishes => {
            x.publish(&id, &vec![7; 300]);
            x.publish(&format!("a/{}/{}", id, id), b"nobody");
            x.publish(&format!("$SYS/{}", id), b"nobody");
        }
        TakenOver => {
            for _ in 0..2 {
                let y = Client::open(ctx, &id);
                y.send(&wire::connect(&id));
                y.send(&wire::subscribe(1, &[(&id, SUB), ("a/b", SUB)]));
                p.publish("a/b", b"x");
                settle().await;
                finish(&y, end);
            }
        }
        Unsupported => {
            x.send(&wire::pingreq());
            x.send(&wire::unsubscribe(1, &[&id]));
            x.send(&wire::subscribe_with(2, &[11, 1], &[(&id, SUB)]));
            x.send(&wire::publish_with(1, &id, None, &[], b"retained"));
            x.send(&wire::publish_with(0, &id, None, &p2(35, 9), b"alias"));
            x.send(&wire::publish_with(2, &id, Some(1), &p4(2, 9), b"qos 1"));
        }
        AnyPacket => {
            let menu = crate::b_load::unsupported();
            let n = menu.len();
            x.send(&menu[i / 2 % n].1);
            settle().await;
            if !x.closed() {
                x.send(&menu[i / 2 / n % n].1);
            }
        }
        Properties => {
            let own = wire::string(&id);
            x.send(&wire::subscribe_with(1, &[&[0x26][..], &own, &[0x26], &own].concat(), &[(&id, SUB), ("a/b", SUB | 4), ("a/+", SUB | 8)]));
            let all = [&[1, 1, 8][..], &own, &[9], &own, &[3], &own, &[0x26], &own].concat();
            x.send(&wire::publish_with(0, &id, None, &all, &vec![1; 100]));
            x.send(&wire::publish_with(0, "a/b", None, &all, b""));
            p.send(&wire::publish_with(0, &id, None, &all, b"from another"));
        }
        Small => {
            let g = x.subscribe(1, &[(&id, SUB), ("#", SUB)]).await;
            grant(ctx, &x, g, 2);
            p.publish(&id, &vec![1; 200]);
            x.publish(&id, &vec![1; 200]);
            p.publish(&id, b"small");
        }
        Disconnects => {
            let g = x.subscribe(1, &[(&id, SUB)]).await;
            grant(ctx, &x, g, 1);
            x.send(&wire::disconnect());
        }
        Backlog => {
            let g = x.subscribe(1, &[("a/b", SUB)]).await;
            grant(ctx, &x, g, 1);
            settle().await;
            x.pull();
            x.set_capacity(10);
            for _ in 0..5 {
                p.publish("a/b", &vec![1; 200]);
            }
        }
        Garbage => {
            x.publish(&id, b"good");
            x.raw(&[0x82, 5, 0, 1, 0, 0xff, 0xff]);
        }
        _ => (),
    }
    settle().await;
    finish(&x, end);
    drop(x);
    settle().await;
}

/// Many clients at once, so that the tables are as large as they ever need to be
async fn crowd(ctx: &Rc<Ctx>) {
    let mut all = Vec::new();
    for i in 0..12 {
        let id = format!("W{}", i);
        let c = client(ctx, &id).await;
        for f in [&id[..], "a/b", &format!("a/{}", id), &format!("new/one/{}", id), &format!("new/{}", id)] {
            c.send(&wire::subscribe(1, &[(f, SUB), (&format!("{}/#", f), SUB)]));
        }
        settle().await;
        all.push(c);
    }
    for c in &all {
        finish(c, 1);
    }
    settle().await;
}

/// The least the broker holds after any of `n` rounds. Queues are allocated in pieces, so that some
/// bytes come and go: what goes through them varies.
async fn least(ctx: &Rc<Ctx>, p: &Client, life: [Life; 2], from: usize, n: usize, ends: usize) -> i64 {
    let mut min = i64::MAX;
    for i in from..from + n {
        live(ctx, p, life[i % 2], i, 1 + i % ends).await;
        for _ in 0..i % 5 {
            p.send(&wire::publish("nobody", b""));
        }
        if i % 7 == 0 {
            p.send(&wire::subscribe(1, &[("odd", SUB)]));
        }
        settle().await;
        p.pull();
        min = min.min(mem::live());
    }
    min
}

/// `held` bytes, before and after each quarter of `n` events. What they leave behind makes it grow
/// in each quarter; or tables grow.
fn grows(held: &[i64], n: usize) -> bool {
    let quarter = 4 * (n / 4) as i64;
    held.windows(2).all(|w| w[1] - w[0] > quarter) || held[held.len() - 1] - held[0] > SLACK + 2 * n as i64
}

/// Many clients, one after the other
async fn history(ctx: Rc<Ctx>, pairs: bool, n: usize) {
    let b = Broker::start(Opts { noise: true, keep_alive: KEEP, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    let life = LIVES[mc::pick(LIVES.len())];
    let other = if pairs { LIVES[mc::pick(LIVES.len())] } else { life };
    if pairs && life == other {
        return;
    }
    let ends = 1 + 2 * mc::pick(2);
    let life = [life, other];
    settle().await;
    let tasks = mc::subject_tasks().len();
    let timers = mc::timers();
    least(&ctx, &p, life, 0, 40, ends).await;
    let mut held = Vec::new();
    let mut i = 40;
    for _ in 0..5 {
        held.push(least(&ctx, &p, life, i, 64, ends).await);
        least(&ctx, &p, life, i + 64, n / 4 - 64, ends).await;
        i += n / 4;
    }
    ctx.history(4 * i as u64);
    ctx.check(!grows(&held, n), || format!("clients that have gone ({:?}): every {} of them the broker holds {:?} bytes", life, n / 4, held));
    registered(&ctx, &b, &["P"]).await;
    let t = mc::subject_tasks().len();
    ctx.check(t == tasks, || format!("{} tasks instead of {}", t, tasks));
    let t = mc::timers();
    ctx.check(t == timers, || format!("{} timers instead of {}", t, timers));
    served(&ctx, &p, "p").await;
}

/// What a client does again and again while it stays
async fn stays(ctx: Rc<Ctx>, noise: bool, n: usize) {
    let b = Broker::start(Opts { noise: true, keep_alive: KEEP, ..Opts::default() }).await;
    let p = any_client(&ctx, "P", noise).await;
    let s = any_client(&ctx, "S", noise).await;
    let g = s.subscribe(1, &[("a/+", SUB), ("a/#", SUB)]).await;
    grant(&ctx, &s, g, 2);
    let what = mc::pick(9);
    let tasks = mc::subject_tasks().len();
    let round = |i: usize| {
        let (ctx, p, s) = (&ctx, &p, &s);
        async move {
            let id = name(i);
            match what {
                // for nobody, for others, for the client itself
                0 => drop(p.send(&wire::publish(&id, b"x"))),
                1 => drop(p.send(&wire::publish(&format!("a/{}", id), &vec![1; i % 50]))),
                2 => drop(s.send(&wire::publish(&format!("a/{}", id), b"x"))),
                // the same subscription
                3 => {
                    let g = s.subscribe(1 + (i % 60_000) as u16, &[("a/+", SUB | (i % 2) as u8 * 4), ("a/#", SUB)]).await;
                    grant(ctx, s, g, 2);
                }
                // refused
                4 => {
                    let share = format!("$share/{}/{}", id, id);
                    s.send(&wire::subscribe(1, &[(&share, SUB), (&id, SUB + 1), (&format!("{}/q", id), 0)]));
                }
                // properties
                5 => {
                    let s = wire::string(&id);
                    let props = [&[8][..], &s, &[3], &s].concat();
                    p.send(&wire::publish_with(0, &format!("a/{}", id), None, &props, b"x"));
                }
                // subscriptions with properties
                6 => {
                    let own = wire::string(&id);
                    s.send(&wire::subscribe_with(1, &[&[0x26][..], &own].concat(), &[("a/+", SUB), ("a/#", SUB)]));
                }
                // all the properties, to a client and to none
                7 => {
                    let own = wire::string(&id);
                    let all = [&[1, 1, 8][..], &own, &[9], &own, &[3], &own, &[0x26], &own].concat();
                    s.send(&wire::publish_with(0, &id, None, &all, b"x"));
                    p.send(&wire::publish_with(0, &format!("a/{}", id), None, &all, b"x"));
                }
                _ => drop(p.send(&wire::publish(&vec![&id[..]; 30].join("/"), b"deep"))),
            }
            settle().await;
            p.pull();
            s.pull();
            mem::live()
        }
    };
    let mut held = Vec::new();
    for i in 0..40 {
        round(i).await;
    }
    for k in 0..5 {
        let mut least = i64::MAX;
        for i in 0..n / 4 {
            for _ in 0..i % 5 {
                p.send(&wire::publish("nobody", b""));
            }
            let live = round(40 + k * (n / 4) + i).await;
            if i < 64 {
                least = least.min(live);
            }
        }
        held.push(least);
    }
    ctx.history(n as u64);
    ctx.check(!grows(&held, n), || format!("every {} requests the broker holds {:?} bytes", n / 4, held));
    registered(&ctx, &b, &["P", "S"]).await;
    let t = mc::subject_tasks().len();
    ctx.check(t == tasks, || format!("{} tasks instead of {}", t, tasks));
}

/// A client comes and goes at the same time as others; then everything is as before
async fn overlap(ctx: Rc<Ctx>, noise: bool) {
    let b = Broker::start(Opts { noise: true, keep_alive: KEEP, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("a/+", SUB)]).await;
    grant(&ctx, &s, g, 1);
    crowd(&ctx).await;
    let tasks = mc::subject_tasks().len();
    let story = mc::pick(3);
    let how = 1 + mc::pick(3);
    // what this makes the broker allocate for good
    together(&ctx, &p, noise, story, how).await;
    least(&ctx, &p, [NewFilters; 2], 0, 70, 1).await;
    let before = least(&ctx, &p, [NewFilters; 2], 70, 70, 1).await;
    s.pull();
    mc::calm(false);
    together(&ctx, &p, noise, story, how).await;
    mc::calm(true);
    registered(&ctx, &b, &["P", "S"]).await;
    let after = least(&ctx, &p, [NewFilters; 2], 140, 70, 1).await;
    ctx.check(after - before < 250, || format!("after a client that has gone the broker holds {} bytes more", after - before));
    let t = mc::subject_tasks().len();
    ctx.check(t == tasks, || format!("{} tasks instead of {}", t, tasks));
}

async fn together(ctx: &Rc<Ctx>, p: &Client, noise: bool, story: usize, how: usize) {
    let x = if noise { Client::open_noise(ctx, "X") } else { Client::open(ctx, "X") };
    if noise {
        x.handshake().await;
    }
    x.send(&wire::connect("X"));
    x.send(&wire::subscribe(1, &[("new/one", SUB), ("new/#", SUB), ("other", SUB)]));
    x.publish("new/one", b"1");
    p.publish("new/one", b"2");
    let mut extra = Vec::new();
    if story == 1 {
        let y = Client::open(ctx, "Y");
        y.send(&wire::connect("X"));
        y.send(&wire::subscribe(1, &[("new/two", SUB), ("new/one/x", SUB)]));
        finish(&y, 1);
        extra.push(y);
    }
    if story == 2 {
        settle().await;
    }
    finish(&x, how);
    p.publish("new/one", b"3");
    settle().await;
}

pub fn b21() -> Vec<Scenario> {
    let fast = |s: Scenario| {
        s.calm().cfg(|c| {
            c.points = 0;
            c.sched = false;
            c.selects = false;
            c.max_ops = u64::MAX;
            c.max_steps = u64::MAX;
        })
    };
    vec![
        fast(scenario("b21-history", [0, 0], |c| history(c, false, 2000))),
        fast(scenario("b21-history-long", [crate::SKIP, 0], |c| history(c, false, 30_000))),
        fast(scenario("b21-pairs", [0, 0], |c| history(c, true, 1200))),
        fast(scenario("b21-pairs-long", [crate::SKIP, 0], |c| history(c, true, 8000))),
        fast(scenario("b21-stays", [0, 0], |c| stays(c, false, 2000))),
        fast(scenario("b21-stays-noise", [0, 0], |c| stays(c, true, 2000))),
        fast(scenario("b21-stays-long", [crate::SKIP, 0], |c| stays(c, false, 30_000))),
        scenario("b21-overlap", [2, 3], |c| overlap(c, false)).calm().cfg(|c| c.max_steps = 100_000),
        scenario("b21-overlap-noise", [1, 2], |c| overlap(c, true)).calm().cfg(|c| c.max_steps = 100_000),
    ]
}

// ---------------------------------------------------------------- limits

/// A connection sends without an end, in pieces
async fn flood(ctx: Rc<Ctx>, noise: bool) {
    const MAX: u32 = 2048;
    let b = Broker::start(Opts { noise, keep_alive: 60, max_packet: MAX, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    settle().await;
    let stage = mc::pick(3);
    let kind = mc::pick(6);
    let x = if noise { Client::open_noise(&ctx, "X") } else { Client::open(&ctx, "X") };
    settle().await;
    mem::peak();
    let before = mem::live();
    if stage > 0 && noise {
        x.handshake().await;
    }
    if stage > 1 {
        let c = wire::connect("X");
        x.send(&c);
        settle().await;
    }
    // one packet that never ends, or many
    let unit: Vec<u8> = match kind {
        0 => wire::frame(0x30, &[&[0u8, 1, b't', 0][..], &[1; 200]].concat()),
        1 => vec![0x30, 0xff, 0xff, 0xff, 0x7f],
        2 => [&[0x82, 0xff, 0xff, 0x7f, 0, 1, 0][..], &[0; 9]].concat(),
        3 => vec![0; 64],
        4 => vec![0xff; 64],
        _ => [&[0x10, 0xff, 0x0f, 0, 4][..], b"MQTT\x05\x02\0\0\0\0\x01", &[b'a'; 90]].concat(),
    };
    let total = 300_000;
    let mut sent = 0;
    while sent < total && !x.closed() {
        let bytes = if noise && stage > 0 { x.encrypt(&unit) } else { unit.clone() };
        x.raw(&bytes);
        sent += unit.len();
        if noise || sent % 1024 < unit.len() {
            settle().await;
        }
        // the limit, the frame of a transport, and what a packet in parts needs; not what was sent
        let held = mem::peak() - before;
        let allowed = 4 * MAX as i64 + if noise { 4 * 65_600 } else { 0 } + 20_000;
        if !ctx.check(held < allowed, || format!("after {} bytes of a client the broker holds {} bytes more", sent, held)) {
            break;
        }
    }
    finish(&x, 1);
    drop(x);
    settle().await;
    registered(&ctx, &b, &["S"]).await;
    served(&ctx, &s, "s").await;
}

/// Announced lengths that never arrive
async fn announced(ctx: Rc<Ctx>, noise: bool) {
    const MAX: u32 = 2048;
    let b = Broker::start(Opts { noise, keep_alive: 60, max_packet: MAX, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    settle().await;
    let late = mc::pick(2) == 1;
    let x = if noise { Client::open_noise(&ctx, "X") } else { Client::open(&ctx, "X") };
    if late {
        connected(&ctx, &x, "X").await;
    }
    settle().await;
    mem::peak();
    let before = mem::live();
    if noise && mc::pick(2) == 0 {
        // the length of a frame
        let n = [0u32, 1, 65_535, 65_536, 1 << 20, 1 << 24, 1 << 28, u32::MAX >> 1, u32::MAX][mc::pick(9)];
        x.raw(&n.to_be_bytes());
        settle().await;
        if mc::pick(2) == 1 {
            x.raw(&[0; 100]);
        }
    } else {
        if noise && !late {
            x.handshake().await;
        }
        let first = [0x10u8, 0x30, 0x32, 0x82, 0xA2, 0x90, 0xC0, 0xE0, 0xF0][mc::pick(9)];
        let len: &[u8] = [&[0xffu8, 0xff, 0xff, 0x7f][..], &[0xff, 0xff, 0x7f], &[0xff, 0x7f], &[0x80, 0x10], &[0xff, 0xff, 0xff, 0xff]][mc::pick(5)];
        let tail: &[u8] = [&[][..], &[0xff, 0xff], &[0, 1, 0xff, 0xff, 0xff, 0x7f], &[0; 40], &[0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 0, 0xff, 0xff, 0xff, 0x7f]][mc::pick(5)];
        let all = [&[first][..], len, tail].concat();
        x.send(&all);
    }
    settle().await;
    let held = mem::peak() - before;
    let allowed = 4 * MAX as i64 + if noise { 4 * 65_600 } else { 0 } + 20_000;
    ctx.check(held < allowed, || format!("the broker holds {} bytes for what a client has announced", held));
    finish(&x, 1);
    drop(x);
    settle().await;
    registered(&ctx, &b, &["S"]).await;
    served(&ctx, &s, "s").await;
}

/// A publisher that is faster than the broker waits
async fn queue(ctx: Rc<Ctx>, noise: bool) {
    let queue = [0usize, 1, 5000, 20_000][mc::pick(4)];
    let size = [1usize, 100, 900][mc::pick(3)];
    let _b = Broker::start(Opts { noise, queue, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let x = any_client(&ctx, "X", noise).await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    mem::peak();
    let before = mem::live();
    // messages for nobody
    let n = 3000;
    for _ in 0..n {
        x.publish("nobody", &vec![1; size]);
    }
    x.publish("t", b"last");
    settle().await;
    let held = mem::peak() - before;
    let elements = (queue / 40).max(1) as i64;
    let allowed = elements * (size as i64 + 600) + 100_000 + if noise { 4 * 65_600 } else { 0 };
    ctx.check(held < allowed, || format!("with a queue of {} bytes, {} messages of {} bytes need {} bytes", queue, n, size, held));
    ctx.check(s.messages() == [b"last".to_vec()], || "the last message is lost".to_string());
    let c = wire::connect_with("Y", CLEAN, 0, &[], &[]);
    let y = Client::open(&ctx, "Y");
    y.send(&c);
    settle().await;
    served(&ctx, &y, "y").await;
}

pub fn b22() -> Vec<Scenario> {
    let fast = |s: Scenario| {
        s.calm().cfg(|c| {
            c.points = 0;
            c.max_ops = u64::MAX;
            c.max_steps = u64::MAX;
        })
    };
    vec![
        fast(scenario("b22-flood", [0, 0], |c| flood(c, false))),
        fast(scenario("b22-flood-noise", [0, 0], |c| flood(c, true))),
        fast(scenario("b22-announced", [0, 1], |c| announced(c, false))),
        fast(scenario("b22-announced-noise", [0, 1], |c| announced(c, true))),
        fast(scenario("b22-queue", [0, 0], |c| queue(c, false))),
        fast(scenario("b22-queue-noise", [0, 0], |c| queue(c, true))),
    ]
}
