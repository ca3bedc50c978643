//! Starting brokers: one after the other, in vain, and several at a time

use crate::b_deliver::grant;
use crate::b_session::down;
use crate::client::*;
use crate::explore::*;
use crate::wire::{self, Pkt, SUB};
use apiformes_server_lib::MqttServer;
use std::rc::Rc;
use tokio::mc;
use tokio::net::{listening, TcpListener};

/// Nothing is left of a broker at these ports, except what the scenario itself has opened
fn nothing(ctx: &Rc<Ctx>, shift: u16, open: [bool; 2], when: &str) {
    let left = mc::subject_tasks();
    ctx.check(left.is_empty(), || format!("{}: tasks are left: {:?}", when, left.iter().map(|t| &t.name[..]).collect::<Vec<_>>()));
    unused(ctx, shift, open, when);
}
fn unused(ctx: &Rc<Ctx>, shift: u16, open: [bool; 2], when: &str) {
    for (a, mine) in [mqtt_addr(), noise_addr()].into_iter().zip(open) {
        let a = shifted(a, shift);
        ctx.check(mine || !listening(a), || format!("{}: {} is still open", when, a));
    }
}

/// Some of the addresses are in use
async fn occupied(ctx: Rc<Ctx>) {
    let (mqtt, noise) = [(true, false), (false, true), (true, true), (false, false)][mc::pick(4)];
    let which = mc::pick(4);
    let taken = [which & 1 != 0, which & 2 != 0];
    let early = mc::pick(3);
    let queue = [0, 1 << 16][mc::pick(2)];
    let opts = || Opts { mqtt, noise, queue, keep_alive: 50000, ..Opts::default() };
    let mut mine = Vec::new();
    for (a, t) in [mqtt_addr(), noise_addr()].into_iter().zip(taken) {
        if t {
            match TcpListener::bind(a).await {
                Ok(l) => mine.push(l),
                Err(e) => return ctx.fail(format!("{}", e)),
            }
        }
    }
    let conflict = mqtt && taken[0] || noise && taken[1];
    mc::calm(false);
    // somebody connects as soon as possible
    let ctx2 = ctx.clone();
    let t = mc::spawn("early", async move {
        let mut all = Vec::new();
        for on_noise in [false, true] {
            if early == 0 || taken[on_noise as usize] {
                continue;
            }
            if let Some(c) = Client::open_at(&ctx2, "E", on_noise, 0) {
                if early == 2 {
                    c.raw(&if on_noise { c.hs1() } else { wire::connect("E") });
                }
                all.push(c);
            }
        }
        all
    });
    let r = MqttServer::new(opts().config()).await;
    ctx.check(r.is_err() == conflict, || format!("starting {} although mqtt {:?} noise {:?}, in use {:?}", if conflict { "succeeds" } else { "fails" }, mqtt, noise, taken));
    if let Ok(server) = r {
        let b = Broker { server };
        settle().await;
        ctx.check(listening(mqtt_addr()) == (mqtt || taken[0]), || "the listener for plain connections".to_string());
        ctx.check(listening(noise_addr()) == (noise || taken[1]), || "the listener for encrypted connections".to_string());
        work(&ctx, mqtt, noise, 0, "first").await;
        let cs = t.await.unwrap_or_default();
        drop(mine);
        return down(&ctx, b, &cs).await;
    }
    settle().await;
    if let Ok(cs) = t.await {
        settle().await;
        for c in cs {
            ctx.check(c.closed(), || "a connection is still open after the broker failed to start".to_string());
        }
    }
    nothing(&ctx, 0, taken, "the broker failed to start");
    // as soon as they are free it does
    drop(mine);
    let server = match MqttServer::new(opts().config()).await {
        Ok(s) => s,
        Err(e) => return ctx.fail(format!("the broker does not start later: {:?}", e)),
    };
    let b = Broker { server };
    work(&ctx, mqtt, noise, 0, "later").await;
    down(&ctx, b, &[]).await;
}

/// The broker is of use
async fn work(ctx: &Rc<Ctx>, mqtt: bool, noise: bool, shift: u16, tag: &str) {
    for (n, on) in [(false, mqtt), (true, noise)] {
        if !on {
            continue;
        }
        match Client::open_at(ctx, &format!("{}-{}", tag, n), n, shift) {
            Some(c) => {
                connected(ctx, &c, &format!("{}-{}", tag, n)).await;
                served(ctx, &c, &format!("{}-{}", tag, n)).await;
                c.close();
                settle().await;
            }
            None => ctx.fail(format!("no connection to the {} listener", if n { "encrypted" } else { "plain" })),
        }
    }
}

/// Brokers one after the other
async fn again(ctx: Rc<Ctx>, rounds: usize) {
    let mut first = true;
    for round in 0..rounds {
        let (mqtt, noise) = [(true, true), (true, false), (false, true)][if round == 1 { mc::pick(3) } else { 0 }];
        let queue = [1 << 16, 0][round % 2];
        let b = match MqttServer::new(Opts { mqtt, noise, queue, keep_alive: 50000 + round as u16, ..Opts::default() }.config()).await {
            Ok(server) => Broker { server },
            Err(e) => return ctx.fail(format!("the broker does not start again: {:?}", e)),
        };
        registered(&ctx, &b, &[]).await;
        let mut cs = Vec::new();
        for (n, on) in [(false, mqtt), (true, noise)] {
            if !on {
                continue;
            }
            // the same identifiers every time
            let id = if n { "N" } else { "M" };
            let c = any_client(&ctx, id, n).await;
            ctx.check(
                c.received().iter().any(|p| matches!(p, Pkt::ConnAck { .. })),
                || format!("{} is not accepted in round {}", id, round),
            );
            // what it had subscribed to before is forgotten
            c.publish("t", b"old");
            settle().await;
            ctx.check(c.messages().is_empty(), || format!("{} gets a message because of a subscription made at a broker that was shut down", id));
            cs.push(c);
        }
        for c in &cs {
            let g = c.subscribe(1, &[("t", SUB)]).await;
            grant(&ctx, c, g, 1);
        }
        settle().await;
        mc::calm(false);
        cs[0].publish("t", &[round as u8]);
        if first && mc::pick(2) == 1 {
            settle().await;
            for c in &cs {
                ctx.check(c.messages() == [[round as u8]], || format!("{} received {:?} in round {}", c.name(), c.messages(), round));
            }
        }
        first = false;
        // somebody is always about to connect
        let half = Client::open_at(&ctx, "H", !mqtt, 0);
        if let Some(h) = &half {
            h.raw(&if mqtt { wire::connect("H") } else { h.hs1() });
        }
        cs.extend(half);
        b.server.shutdown().await;
        if mc::pick(2) == 1 {
            settle().await;
        }
        for a in [mqtt_addr(), noise_addr()] {
            ctx.check(!listening(a), || format!("{} is still open after shutdown", a));
        }
        if round + 1 == rounds {
            settle().await;
            for c in &cs {
                ctx.check(c.closed(), || format!("the connection of {} is still open", c.name()));
            }
            nothing(&ctx, 0, [false; 2], "at the end");
        }
        mc::calm(true);
    }
}

/// Two want the same addresses
async fn race(ctx: Rc<Ctx>) {
    let kinds = [(true, false), (false, true), (true, true)];
    let k = [kinds[mc::pick(3)], kinds[mc::pick(3)]];
    mc::calm(false);
    let starts: Vec<_> = k
        .iter()
        .map(|(mqtt, noise)| {
            let cfg = Opts { mqtt: *mqtt, noise: *noise, keep_alive: 50000, ..Opts::default() }.config();
            mc::spawn("start", async move { MqttServer::new(cfg).await })
        })
        .collect();
    let mut up = Vec::new();
    for (s, k) in starts.into_iter().zip(k) {
        if let Ok(Ok(server)) = s.await {
            up.push((Broker { server }, k));
        }
    }
    settle().await;
    let both = k[0].0 && k[1].0 || k[0].1 && k[1].1;
    ctx.check(up.len() == if both { 1 } else { 2 }, || format!("{} brokers started for {:?}", up.len(), k));
    for (i, (_, k)) in up.iter().enumerate() {
        work(&ctx, k.0, k.1, 0, &format!("w{}", i)).await;
    }
    let (m, n) = (up.iter().any(|u| u.1 .0), up.iter().any(|u| u.1 .1));
    ctx.check(listening(mqtt_addr()) == m && listening(noise_addr()) == n, || "a listener is left of the broker that did not start".to_string());
    for (b, _) in up {
        b.server.shutdown().await;
    }
    settle().await;
    nothing(&ctx, 0, [false; 2], "after shutdown");
}

pub fn b18() -> Vec<Scenario> {
    vec![
        scenario("b18-occupied", [2, 4], occupied).calm(),
        scenario("b18-again", [1, 3], |c| again(c, 3)).calm(),
        scenario("b18-race", [2, 4], race).calm(),
    ]
}

// ---------------------------------------------------------------- several at a time

/// Two brokers with different limits
async fn two(ctx: Rc<Ctx>) {
    let opts = [
        Opts { noise: true, keep_alive: 10, max_packet: 300, strict: true, queue: 0, shift: 0, ..Opts::default() },
        Opts { noise: true, keep_alive: 1000, max_packet: 600, strict: false, queue: 1 << 16, shift: 100, ..Opts::default() },
    ];
    let swap = mc::pick(2);
    let mut bs: Vec<Option<Broker>> = vec![None, None];
    for i in [swap, 1 - swap] {
        match MqttServer::new(opts[i].config()).await {
            Ok(server) => bs[i] = Some(Broker { server }),
            Err(e) => return ctx.fail(format!("broker {} does not start: {:?}", i, e)),
        }
    }
    // the same identifiers and the same subscriptions
    let (mut m, mut n) = (Vec::new(), Vec::new());
    for i in 0..2 {
        for (noise, v, id) in [(false, &mut m, "M"), (true, &mut n, "N")] {
            match Client::open_at(&ctx, &format!("{}{}", id, i), noise, opts[i].shift) {
                Some(c) => {
                    match c.connect(id).await {
                        Some(Pkt::ConnAck { reason: 0, props, .. }) => {
                            let k = props.iter().find(|p| p.0 == 19).map(|p| p.1.clone());
                            let want = wire::Val::Two(opts[i].keep_alive);
                            ctx.check(k == Some(want.clone()), || format!("broker {} announces {:?} instead of {:?}", i, k, want));
                        }
                        other => return ctx.fail(format!("{} is not accepted by broker {}: {:?}", id, i, other)),
                    }
                    v.push(c);
                }
                None => return ctx.fail(format!("no connection to broker {}", i)),
            }
        }
        let g = m[i].subscribe(1, &[("t/#", SUB)]).await;
        grant(&ctx, &m[i], g, 1);
    }
    // only at one of them
    let only = mc::pick(2);
    let g = n[only].subscribe(2, &[("t/x", SUB)]).await;
    grant(&ctx, &n[only], g, 1);
    settle().await;
    mc::calm(false);
    for i in 0..2 {
        n[i].publish("t/x", format!("n{}", i).as_bytes());
        m[i].publish("t/x", format!("m{}", i).as_bytes());
    }
    settle().await;
    for i in 0..2 {
        let mut got: Vec<String> = m[i].messages().iter().map(|m| String::from_utf8_lossy(m).to_string()).collect();
        got.sort();
        let mut want = vec![format!("m{}", i)];
        if !opts[i].strict {
            want.push(format!("n{}", i));
        }
        ctx.check(got == want, || format!("M of broker {} received {:?} instead of {:?}", i, got, want));
        let mut got: Vec<String> = n[i].messages().iter().map(|m| String::from_utf8_lossy(m).to_string()).collect();
        got.sort();
        let want = if i == only { vec![format!("m{}", i), format!("n{}", i)] } else { vec![] };
        ctx.check(got == want, || format!("N of broker {} received {:?} instead of {:?}", i, got, want));
        registered(&ctx, bs[i].as_ref().unwrap(), &["M", "N"]).await;
    }
    // the limits of one are not those of the other
    for c in [&m, &n] {
        for i in 0..2 {
            c[i].publish("u", &[b'x'; 400]);
        }
        settle().await;
        ctx.check(c[0].closed() && !c[1].closed(), || "a packet of 400 bytes: one broker allows 300, the other 600".to_string());
    }
    registered(&ctx, bs[0].as_ref().unwrap(), &[]).await;
    registered(&ctx, bs[1].as_ref().unwrap(), &["M", "N"]).await;
    // one is shut down
    let first = mc::pick(2);
    if let Some(b) = bs[first].take() {
        b.server.shutdown().await;
    }
    settle().await;
    unused(&ctx, opts[first].shift, [false; 2], "after shutdown");
    let other = 1 - first;
    for c in [&m[first], &n[first]] {
        ctx.check(c.closed(), || format!("{} is connected after shutdown", c.name()));
    }
    if other == 1 {
        served(&ctx, &m[1], "m").await;
        served(&ctx, &n[1], "n").await;
    }
    work(&ctx, true, true, opts[other].shift, "rest").await;
    if let Some(b) = bs[other].take() {
        b.server.shutdown().await;
    }
    settle().await;
    for i in 0..2 {
        unused(&ctx, opts[i].shift, [false; 2], "at the end");
    }
    nothing(&ctx, 0, [false; 2], "at the end");
}

pub fn b19() -> Vec<Scenario> {
    vec![scenario("b19-two", [1, 3], two).calm()]
}
