//! Long histories and large numbers: one schedule each, far beyond every counter of 8 or 16 bits

use crate::b_connect::{connack_ok, finish, p2, p4};
use crate::b_deliver::grant;
use crate::client::*;
use crate::explore::*;
use crate::wire::{self, Pkt, NO_LOCAL, SUB};
use crate::SKIP;
use std::rc::Rc;
use tokio::mc;

/// One schedule, without a limit of length
fn long(s: Scenario) -> Scenario {
    s.calm().cfg(|c| {
        c.points = 0;
        c.sched = false;
        c.max_ops = u64::MAX;
        c.max_steps = u64::MAX;
    })
}
fn number(p: &Pkt) -> Option<u32> {
    match p.payload()? {
        [a, b, c, d, ..] => Some(u32::from_be_bytes([*a, *b, *c, *d])),
        _ => None,
    }
}
fn numbers(v: &[Pkt]) -> Vec<u32> {
    v.iter().filter_map(number).collect()
}
/// The first place where two lists are different
fn differ(got: &[u32], want: &[u32]) -> String {
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("{} messages instead of {}, at {} {:?} instead of {:?}", got.len(), want.len(), i, got.get(i), want.get(i))
}

const PAST: u32 = 66_000;

/// So many messages, in bursts
async fn messages(ctx: Rc<Ctx>, total: u32) {
    let (noise_in, noise_out) = [(false, false), (true, false), (false, true), (true, true)][mc::pick(4)];
    let burst = [1u32, 3000][mc::pick(2)];
    let queue = [0usize, 1 << 20][mc::pick(2)];
    let total = if burst == 1 { total / 8 } else { total };
    let _b = Broker::start(Opts { noise: true, queue, ..Opts::default() }).await;
    let p = any_client(&ctx, "P", noise_in).await;
    let s = any_client(&ctx, "S", noise_out).await;
    let o = client(&ctx, "O").await;
    let g = s.subscribe(1, &[("t/+", SUB), ("t/a", SUB), ("#", SUB)]).await;
    grant(&ctx, &s, g, 3);
    let g = o.subscribe(1, &[("u", SUB)]).await;
    grant(&ctx, &o, g, 1);
    settle().await;
    s.taken();
    o.taken();
    let mut n = 0u32;
    let mut other = 0;
    while n < total {
        let first = n;
        while n < total && n < first + burst {
            p.publish(["t/a", "t/b", "t"][(n % 3) as usize], &[&n.to_be_bytes()[..], &vec![n as u8; (n % 7) as usize]].concat());
            n += 1;
        }
        if n % 11 == 0 {
            p.publish("u", b"other");
            other += 1;
        }
        settle().await;
        let got = s.taken();
        let want: Vec<u32> = (first..n).collect();
        let nums: Vec<u32> = got.iter().filter(|p| p.payload() != Some(b"other")).filter_map(number).collect();
        if !ctx.check(nums == want, || format!("from message {}: {}", first, differ(&nums, &want))) {
            return;
        }
        for (g, n) in got.iter().filter(|p| p.payload() != Some(b"other")).zip(first..) {
            if g.payload().map(|p| p.len()) != Some(4 + (n % 7) as usize) {
                ctx.fail(format!("message {} is changed: {}", n, show(g)));
                return;
            }
        }
    }
    let got = o.taken();
    ctx.check(got.len() == other && got.iter().all(|p| p.payload() == Some(b"other")), || format!("the other subscriber got {} packets instead of {}", got.len(), other));
    served(&ctx, &s, "s").await;
    served(&ctx, &o, "o").await;
}

/// Two publishers, nothing is read meanwhile
async fn backlog(ctx: Rc<Ctx>, total: u32) {
    let queue = [0usize, 1000, 1 << 20][mc::pick(3)];
    let noise = mc::pick(2) == 1;
    let _b = Broker::start(Opts { noise: true, queue, ..Opts::default() }).await;
    let ps = [client(&ctx, "P").await, noise_client(&ctx, "Q").await];
    let s = any_client(&ctx, "S", noise).await;
    let w = client(&ctx, "W").await;
    for c in [&s, &w] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    s.taken();
    w.taken();
    s.set_capacity(3);
    for n in 0..total {
        ps[(n % 2) as usize].publish("t", &n.to_be_bytes());
        if n % 5000 == 0 {
            settle().await;
        }
    }
    settle().await;
    let split = |v: Vec<u32>| -> (Vec<u32>, Vec<u32>) { v.into_iter().partition(|n| n % 2 == 0) };
    let want = split((0..total).collect());
    let got = split(numbers(&w.taken()));
    ctx.check(got == want, || format!("meanwhile: {} / {}", differ(&got.0, &want.0), differ(&got.1, &want.1)));
    s.set_capacity(1 << 16);
    let mut all = Vec::new();
    loop {
        settle().await;
        let v = s.taken();
        if v.is_empty() && s.available() == 0 {
            break;
        }
        all.extend(numbers(&v));
    }
    let got = split(all);
    ctx.check(got == want, || format!("afterwards: {} / {}", differ(&got.0, &want.0), differ(&got.1, &want.1)));
    served(&ctx, &s, "s").await;
    served(&ctx, &ps[1], "q").await;
}

/// A client that does not want its own messages sends many, and has many subscriptions
async fn no_local(ctx: Rc<Ctx>, total: u32) {
    let filters = [1usize, 2, 31, 32, 33, 64, 127, 128, 255, 256, 300, 1000][mc::pick(12)];
    let together = mc::pick(2) == 1;
    let _b = Broker::start(Opts { max_packet: 1 << 20, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    let x = client(&ctx, "X").await;
    let names: Vec<String> = (0..filters).map(|i| if i == 0 { "t/#".to_string() } else { format!("t/{}", i) }).collect();
    let all: Vec<(&str, u8)> = names.iter().map(|f| (&f[..], SUB | NO_LOCAL)).collect();
    if together {
        let g = x.subscribe(1, &all).await;
        grant(&ctx, &x, g, filters);
    } else {
        for (i, f) in all.iter().enumerate() {
            let g = x.subscribe(i as u16 + 1, &[*f]).await;
            grant(&ctx, &x, g, 1);
        }
    }
    settle().await;
    x.taken();
    let mut n = 0;
    while n < total {
        let mut want = Vec::new();
        for _ in 0..2000 {
            let t = format!("t/{}", n as usize % filters);
            if n % 97 == 13 {
                p.publish(&t, &n.to_be_bytes());
                want.push(n);
            } else {
                x.publish(&t, &n.to_be_bytes());
            }
            n += 1;
        }
        settle().await;
        let got = numbers(&x.taken());
        if !ctx.check(got == want, || format!("{} subscriptions, up to message {}: {}", filters, n, differ(&got, &want))) {
            return;
        }
    }
}

/// Every packet identifier
async fn identifiers(ctx: Rc<Ctx>) {
    let noise = mc::pick(2) == 1;
    let part = mc::pick(8) as u16;
    let _b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let x = any_client(&ctx, "X", noise).await;
    settle().await;
    x.taken();
    let menu: [(&str, u8, bool); 6] = [("t", SUB, true), ("u/+", SUB | NO_LOCAL, true), ("q", 0x21, false), ("$share/g/t", SUB, false), ("r", 0, false), ("#", SUB, true)];
    let mut pid = part * 8192;
    loop {
        let mut want = Vec::new();
        for _ in 0..1024 {
            if pid > 0 {
                let n = 1 + pid as usize % 3;
                let list: Vec<_> = (0..n).map(|i| menu[(pid as usize / 3 + i * 5) % 6]).collect();
                x.send(&wire::subscribe(pid, &list.iter().map(|l| (l.0, l.1)).collect::<Vec<_>>()));
                want.push((pid, list.iter().map(|l| l.2).collect::<Vec<bool>>()));
            }
            pid = pid.wrapping_add(1);
        }
        settle().await;
        let got: Vec<(u16, Vec<bool>)> = x
            .taken()
            .iter()
            .filter_map(|p| match p {
                Pkt::SubAck { pid, reasons, .. } => Some((*pid, reasons.iter().map(|r| *r == 0).collect())),
                _ => None,
            })
            .collect();
        if !ctx.check(got == want, || {
            let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            format!("acknowledged {:?} instead of {:?}", got.get(i), want.get(i))
        }) {
            return;
        }
        if pid % 8192 == 0 {
            return;
        }
    }
}

/// Long lists of filters, some of them refused, some of them twice
async fn lists(ctx: Rc<Ctx>) {
    let sizes = [4usize, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 4000];
    let n = sizes[mc::pick(sizes.len())];
    // no, all, every third, only the first, only the last is refused
    let pattern = mc::pick(5);
    let twice = mc::pick(2) == 1;
    let _b = Broker::start(Opts { max_packet: 1 << 20, ..Opts::default() }).await;
    let x = client(&ctx, "X").await;
    let p = client(&ctx, "P").await;
    let refused = |i: usize| match pattern {
        0 => false,
        1 => true,
        2 => i % 3 == 1,
        3 => i == 0,
        _ => i == n - 1,
    };
    let names: Vec<String> = (0..n).map(|i| format!("t/{}", if twice && !refused(i) { i / 2 * 2 } else { i })).collect();
    let list: Vec<(&str, u8)> = (0..n).map(|i| (&names[i][..], if refused(i) { [0x21, 0x22, 0x00, 0x10][i % 4] } else { SUB })).collect();
    let got = x.subscribe(77, &list).await.unwrap_or_default();
    let codes: Vec<bool> = got.iter().map(|r| *r < 3).collect();
    let want: Vec<bool> = (0..n).map(|i| !refused(i)).collect();
    ctx.check(codes == want, || format!("{} filters, pattern {}: {} codes, {} of them in the wrong place", n, pattern, codes.len(), codes.iter().zip(&want).filter(|(a, b)| a != b).count()));
    settle().await;
    x.taken();
    for i in 0..n as u32 {
        p.publish(&format!("t/{}", i), &i.to_be_bytes());
    }
    settle().await;
    let got = numbers(&x.taken());
    let mut want: Vec<u32> = (0..n).filter(|i| !refused(*i)).map(|i| names[i][2..].parse().unwrap()).collect();
    want.sort();
    want.dedup();
    ctx.check(got == want, || format!("{} filters, pattern {}: {}", n, pattern, differ(&got, &want)));
}

/// Very many connections, one after the other or at the same time
async fn connections(ctx: Rc<Ctx>, total: usize) {
    let noise = mc::pick(2) == 1;
    let stay = mc::pick(2) == 1;
    let given = mc::pick(2) == 1;
    let total = if noise { total / 4 } else { total };
    let b = Broker::start(Opts { noise: true, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    let tasks = mc::subject_tasks().len();
    let mut ids = std::collections::HashSet::new();
    let mut open = Vec::new();
    for i in 0..total {
        let id = if given { format!("c{}", i) } else { String::new() };
        let c = if noise { Client::open_noise(&ctx, &id) } else { Client::open(&ctx, &id) };
        if noise && !ctx.check(c.handshake().await, || format!("connection {} fails", i)) {
            return;
        }
        let expiry = (i as u32).wrapping_mul(65_537);
        let recv = 1 + (i % 65_535) as u16;
        c.send(&wire::connect_with(&id, 2, i as u16, &[p4(17, expiry), p2(33, recv)].concat(), &[]));
        settle().await;
        let first = c.taken();
        let id = connack_ok(&ctx, first.first(), &id, expiry, recv, 60);
        if ctx.failed() {
            ctx.fail(format!("connection {}", i));
            return;
        }
        if !ctx.check(ids.insert(id.clone()), || format!("the identifier {} was given twice", id)) {
            return;
        }
        if i % 50 == 0 {
            c.publish("t", &(i as u32).to_be_bytes());
        }
        if stay {
            open.push(c);
        } else {
            settle().await;
            finish(&c, 1 + i % 3);
        }
    }
    settle().await;
    let want = 1 + open.len();
    let n = b.registered().await.len();
    ctx.check(n == want, || format!("{} clients are registered instead of {}", n, want));
    let left = mc::subject_tasks().len();
    ctx.check(left == tasks + open.len(), || format!("{} tasks are left of {} connections", left - tasks, open.len()));
    let got = numbers(&s.taken());
    let want: Vec<u32> = (0..total as u32).step_by(50).collect();
    ctx.check(got == want, || differ(&got, &want));
    for c in open.iter().step_by(29) {
        ctx.check(!c.closed(), || "a connection is closed".to_string());
    }
    if let Some(c) = open.last() {
        served(&ctx, c, "last").await;
        served(&ctx, &open[0], "first").await;
    }
    served(&ctx, &s, "s").await;
}

/// One identifier moves from connection to connection
async fn takeovers(ctx: Rc<Ctx>, total: usize) {
    let kind = mc::pick(3);
    let total = if kind == 0 { total } else { total / 4 };
    let b = Broker::start(Opts { noise: true, ..Opts::default() }).await;
    let p = client(&ctx, "P").await;
    let mut old = client(&ctx, "X").await;
    let tasks = mc::subject_tasks().len();
    for i in 0..total {
        let mine = format!("t/{}", i);
        let g = old.subscribe(1, &[(&mine, SUB)]).await;
        grant(&ctx, &old, g, 1);
        old.taken();
        p.publish(&mine, &(i as u32).to_be_bytes());
        if i > 0 {
            p.publish(&format!("t/{}", i - 1), b"late");
            p.publish(&format!("t/{}", i / 2), b"late");
        }
        settle().await;
        let got = old.taken();
        if !ctx.check(numbers(&got) == [i as u32] && got.len() == 1, || format!("generation {} got {:?}", i, got)) {
            return;
        }
        let new = any_client(&ctx, "X", kind == 1 || kind == 2 && i % 2 == 0).await;
        settle().await;
        if !ctx.check(old.closed() && !new.closed(), || format!("takeover {}: older closed {}, newer closed {}", i, old.closed(), new.closed())) {
            return;
        }
        old = new;
    }
    let left = mc::subject_tasks().len();
    ctx.check(left == tasks, || format!("{} tasks instead of {}", left, tasks));
    old.taken();
    for i in 0..total {
        p.publish(&format!("t/{}", i), b"late");
    }
    settle().await;
    let got = old.taken().len();
    ctx.check(got == 0, || format!("{} messages because of earlier subscriptions", got));
    registered(&ctx, &b, &["P", "X"]).await;
    served(&ctx, &old, "x").await;
}

/// A long stream in pieces of one size
async fn stream(ctx: Rc<Ctx>, noise: bool) {
    let max = [64u32, 1000, 1024, 5000][mc::pick(4)];
    let piece = [1usize, 2, 3, 7, 64, 100, 511, 999, 1000, 1001, 1023, 1024, 1025, 4096, 65_536][mc::pick(15)];
    let _b = Broker::start(Opts { noise: true, max_packet: max, queue: 0, ..Opts::default() }).await;
    let x = any_client(&ctx, "X", noise).await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    s.taken();
    let mut all = Vec::new();
    let mut sizes = Vec::new();
    let mut n = 0u32;
    while all.len() < 150_000 {
        let len = match n % 9 {
            0 => max as usize,
            1 => max as usize - 1,
            2 => 9,
            k => 9 + (n as usize * 37 + k as usize) % (max as usize - 12),
        };
        // 2 or 3 bytes of header, 2+1 of topic, 1 of properties
        let head = if len - 2 < 128 { 6 } else { 7 };
        let mut body = n.to_be_bytes().to_vec();
        body.resize((len - head).max(4), n as u8);
        let p = wire::publish("t", &body);
        if p.len() > max as usize {
            n += 1;
            continue;
        }
        sizes.push((n, body.len()));
        all.extend(x.encrypt(&p));
        n += 1;
    }
    for c in all.chunks(piece) {
        x.raw(c);
        settle().await;
    }
    let got: Vec<(u32, usize)> = s.taken().iter().filter_map(|p| Some((number(p)?, p.payload()?.len()))).collect();
    ctx.check(got == sizes, || {
        let i = got.iter().zip(&sizes).take_while(|(a, b)| a == b).count();
        format!("pieces of {} bytes, limit {}: message {} is {:?} instead of {:?}", piece, max, i, got.get(i), sizes.get(i))
    });
    ctx.check(!x.closed(), || format!("pieces of {} bytes, limit {}: disconnected", piece, max));
}

/// Many messages of an encrypted publisher next to as many plain ones
async fn channels(ctx: Rc<Ctx>, total: u32) {
    let strict = mc::pick(2) == 1;
    let _b = Broker::start(Opts { noise: true, strict, ..Opts::default() }).await;
    let pp = client(&ctx, "PP").await;
    let np = noise_client(&ctx, "NP").await;
    let ps = client(&ctx, "PS").await;
    let ns = noise_client(&ctx, "NS").await;
    for c in [&pp, &np, &ps, &ns] {
        let g = c.subscribe(1, &[("t/#", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    let mut n = 0;
    while n < total {
        let first = n;
        for c in [&pp, &np, &ps, &ns] {
            c.taken();
        }
        for _ in 0..1000 {
            let c = if n % 5 < 3 { &np } else { &pp };
            c.publish(&format!("t/{}", n % 300), &n.to_be_bytes());
            n += 1;
        }
        settle().await;
        for c in [&pp, &np, &ps, &ns] {
            let mut got = numbers(&c.taken());
            got.sort();
            let want: Vec<u32> = (first..n).filter(|n| !strict || c.noise || n % 5 >= 3).collect();
            if !ctx.check(got == want, || format!("{}: {}", c.name(), differ(&got, &want))) {
                return;
            }
        }
    }
}

/// Shutdown with very many connections
async fn shutdown(ctx: Rc<Ctx>) {
    let n = [4usize, 10, 32, 33, 64, 65, 128, 129, 256, 257, 400][mc::pick(11)];
    let mix = mc::pick(3);
    let b = Broker::start(Opts { noise: true, queue: 0, keep_alive: 50_000, ..Opts::default() }).await;
    let mut cs = Vec::new();
    for i in 0..n {
        let id = format!("c{}", i);
        let c = match (mix, i % 6) {
            (0, _) => client(&ctx, &id).await,
            (1, 0) | (1, 3) => noise_client(&ctx, &id).await,
            (1, 1) => Client::open(&ctx, &id),
            (1, 2) => Client::open_noise(&ctx, &id),
            (1, 4) => {
                let c = Client::open_noise(&ctx, &id);
                c.handshake().await;
                c
            }
            (2, k) if k < 2 => Client::open(&ctx, &id),
            (2, 2) => Client::open_noise(&ctx, &id),
            _ => client(&ctx, &id).await,
        };
        cs.push(c);
    }
    settle().await;
    b.server.shutdown().await;
    settle().await;
    let left = mc::subject_tasks();
    ctx.check(left.is_empty(), || format!("{} connections: {} tasks are left", n, left.len()));
    for c in &cs {
        ctx.check(c.closed(), || format!("{} connections: one is open after the shutdown", n));
    }
}

/// One refused request after the other
async fn refusals(ctx: Rc<Ctx>, total: usize) {
    let noise = mc::pick(2) == 1;
    let _b = Broker::start(Opts { noise, ..Opts::default() }).await;
    let x = any_client(&ctx, "X", noise).await;
    let s = client(&ctx, "S").await;
    for c in [&x, &s] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    let menu = crate::b_load::unsupported();
    let mut n = 0;
    while n < total {
        x.taken();
        s.taken();
        let k = 500.min(total - n);
        for i in 0..k {
            x.send(&menu[(n + i) % menu.len()].1);
        }
        x.publish("t", &(n as u32).to_be_bytes());
        settle().await;
        let got = x.taken();
        let r = got.iter().filter(|p| matches!(p, Pkt::Disconnect { reason: 0x83, .. })).count();
        let ok = r == k && got.len() == k + 1 && numbers(&got) == [n as u32];
        if !ctx.check(ok, || format!("after {} requests: {} refusals of {}, {} packets", n, r, k, got.len())) {
            return;
        }
        let got = s.taken();
        if !ctx.check(got.len() == 1 && numbers(&got) == [n as u32], || format!("after {} requests: the other client got {} packets", n, got.len())) {
            return;
        }
        n += k;
    }
}

/// Messages of all sizes around the limit a client announced
async fn announced(ctx: Rc<Ctx>) {
    let noise = mc::pick(2) == 1;
    let limit = [20u32, 127, 128, 300][mc::pick(4)];
    let _b = Broker::start(Opts { noise, max_packet: 5000, ..Opts::default() }).await;
    let x = if noise { Client::open_noise(&ctx, "X") } else { Client::open(&ctx, "X") };
    if noise {
        x.handshake().await;
    }
    // the CONNACK has to fit
    let limit = limit.max(64);
    x.send(&wire::connect_with("X", 2, 60, &p4(39, limit), &[]));
    settle().await;
    ctx.check(matches!(x.received().first(), Some(Pkt::ConnAck { reason: 0, .. })), || format!("not connected with limit {}", limit));
    let p = client(&ctx, "P").await;
    let s = client(&ctx, "S").await;
    for c in [&x, &s] {
        let g = c.subscribe(1, &[("t", SUB)]).await;
        grant(&ctx, c, g, 1);
    }
    settle().await;
    x.taken();
    s.taken();
    for round in 0..200u32 {
        let mut want = Vec::new();
        let mut all = Vec::new();
        for k in 0..50u32 {
            let n = round * 50 + k;
            let mut body = n.to_be_bytes().to_vec();
            body.resize(4 + (n as usize * 31) % (limit as usize * 2), 1);
            let packet = wire::publish("t", &body);
            if packet.len() <= limit as usize {
                want.push(n);
            }
            all.push(n);
            p.send(&packet);
        }
        settle().await;
        let got = numbers(&x.taken());
        let others = numbers(&s.taken());
        if !ctx.check(got == want, || format!("limit {}: {}", limit, differ(&got, &want)))
            || !ctx.check(others == all, || format!("without limit: {}", differ(&others, &all)))
        {
            return;
        }
    }
    ctx.check(x.largest() <= limit as usize, || format!("a packet of {} bytes, the limit is {}", x.largest(), limit));
    served(&ctx, &x, "x").await;
}

/// Hostile connections one after the other
async fn attacks(ctx: Rc<Ctx>, total: usize) {
    let b = Broker::start(Opts { noise: true, queue: 0, ..Opts::default() }).await;
    let s = client(&ctx, "S").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    let tasks = mc::subject_tasks().len();
    let how = mc::pick(4);
    for i in 0..total {
        let id = ["X", "S2"][i % 2];
        let c = if i % 4 == 3 { Client::open_noise(&ctx, id) } else { Client::open(&ctx, id) };
        match i % 11 {
            0 => c.raw(&[0xff; 9]),
            1 => c.raw(&wire::publish("t", b"no")),
            2 => c.raw(&wire::connect(id)[..i % 7]),
            3 => c.raw(&wire::connect_with(id, 0xC2, 1, &[], &[0, 1, b'u', 0, 1, b'p'])),
            4 => c.raw(&[wire::connect(id), vec![0x3f, 0xff, 0xff, 0xff, 0xff]].concat()),
            5 => c.raw(&[wire::connect(id), wire::connect(id)].concat()),
            6 => c.raw(&[wire::connect(id), wire::subscribe(1, &[("u", SUB)]), wire::subscribe(0, &[])].concat()),
            7 => c.raw(&[wire::connect(id), vec![0x30, 0xff, 0x7f]].concat()),
            8 => c.raw(&[wire::connect(id), vec![0x82, 0x80, 0x80, 0x80, 0x80, 1]].concat()),
            9 => c.raw(&wire::disconnect()),
            _ => 0,
        };
        if how & 1 == 0 {
            settle().await;
        }
        finish(&c, 1 + (how >> 1));
        if i % 100 == 0 {
            settle().await;
            s.taken();
            s.publish("t", &(i as u32).to_be_bytes());
            settle().await;
            let got = s.taken();
            if !ctx.check(got.len() == 1 && numbers(&got) == [i as u32], || format!("after {} connections: {:?}", i, got)) {
                return;
            }
        }
    }
    settle().await;
    registered(&ctx, &b, &["S"]).await;
    let left = mc::subject_tasks().len();
    ctx.check(left == tasks, || format!("{} tasks are left over", left as i64 - tasks as i64));
    let n = client(&ctx, "N").await;
    served(&ctx, &n, "n").await;
    served(&ctx, &s, "s").await;
}

pub fn b01() -> Vec<Scenario> {
    vec![long(scenario("b01-long", [0, 0], |c| messages(c, PAST))), long(scenario("b01-longer", [SKIP, 0], |c| messages(c, 1_200_000)))]
}
pub fn b02() -> Vec<Scenario> {
    vec![long(scenario("b02-long", [0, 0], |c| backlog(c, PAST))), long(scenario("b02-longer", [SKIP, 0], |c| backlog(c, 200_000)))]
}
pub fn b03() -> Vec<Scenario> {
    vec![long(scenario("b03-long", [0, 0], |c| no_local(c, PAST))), long(scenario("b03-longer", [SKIP, 0], |c| no_local(c, 600_000)))]
}
pub fn b04() -> Vec<Scenario> {
    vec![long(scenario("b04-identifiers", [0, 0], identifiers)), long(scenario("b04-lists", [0, 0], lists))]
}
pub fn b05() -> Vec<Scenario> {
    vec![long(scenario("b05-long", [0, 0], |c| connections(c, 1000))), long(scenario("b05-longer", [SKIP, 0], |c| connections(c, 20_000)))]
}
pub fn b06() -> Vec<Scenario> {
    vec![long(scenario("b06-long", [0, 0], |c| attacks(c, 4000))), long(scenario("b06-longer", [SKIP, 0], |c| attacks(c, 70_000)))]
}
pub fn b07() -> Vec<Scenario> {
    vec![long(scenario("b07-long", [0, 0], |c| connections(c, 1000)))]
}
pub fn b08() -> Vec<Scenario> {
    vec![long(scenario("b08-long", [0, 0], |c| takeovers(c, 1000))), long(scenario("b08-longer", [SKIP, 0], |c| takeovers(c, 20_000)))]
}
pub fn b09() -> Vec<Scenario> {
    vec![long(scenario("b09-long", [0, 0], announced))]
}
pub fn b10() -> Vec<Scenario> {
    vec![long(scenario("b10-long", [0, 0], |c| stream(c, false))), long(scenario("b10-long-noise", [0, 0], |c| stream(c, true)))]
}
pub fn b11() -> Vec<Scenario> {
    vec![long(scenario("b11-long", [0, 0], |c| channels(c, PAST)))]
}
pub fn b12() -> Vec<Scenario> {
    vec![long(scenario("b12-long", [0, 0], |c| messages(c, PAST)))]
}
pub fn b14() -> Vec<Scenario> {
    vec![long(scenario("b14-long", [0, 0], shutdown))]
}
pub fn b15() -> Vec<Scenario> {
    vec![long(scenario("b15-long", [0, 0], |c| backlog(c, 20_000)))]
}
pub fn b16() -> Vec<Scenario> {
    vec![long(scenario("b16-long", [0, 0], |c| takeovers(c, 1000)))]
}
pub fn b17() -> Vec<Scenario> {
    vec![long(scenario("b17-long", [0, 0], |c| refusals(c, PAST as usize)))]
}
