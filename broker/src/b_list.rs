//! B20: the list of connected clients is exact, at every moment

use crate::b_connect::{finish, first_packets, Want};
use crate::b_deliver::grant;
use crate::client::*;
use crate::explore::*;
use crate::wire::{self, Pkt, SUB};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;
use tokio::mc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Must {
    /// Listed
    In,
    /// Not listed
    Out,
    /// Anything goes
    Either,
}
use Must::*;

/// What is known of each identifier
struct Known {
    ctx: Rc<Ctx>,
    ids: Vec<(String, Cell<Must>)>,
    reads: Cell<u64>,
    stop: Cell<bool>,
}
impl Known {
    fn new(ctx: &Rc<Ctx>, ids: &[(&str, Must)]) -> Rc<Known> {
        Rc::new(Known {
            ctx: ctx.clone(),
            ids: ids.iter().map(|(n, m)| (n.to_string(), Cell::new(*m))).collect(),
            reads: Cell::new(0),
            stop: Cell::new(false),
        })
    }
    fn set(&self, id: &str, m: Must) {
        self.ids.iter().find(|(n, _)| n == id).unwrap().1.set(m);
    }
    fn states(&self) -> Vec<Must> {
        self.ids.iter().map(|(_, m)| m.get()).collect()
    }
    /// Reads the list once
    async fn read(&self, b: &Broker) {
        let before = self.states();
        let list = b.server.clients().await;
        let after = self.states();
        let mut times: BTreeMap<&str, usize> = BTreeMap::new();
        for c in &list {
            *times.entry(c).or_default() += 1;
        }
        self.ctx.observe(&times);
        self.reads.set(self.reads.get() + 1);
        for (i, (id, _)) in self.ids.iter().enumerate() {
            let n = times.remove(&id[..]).unwrap_or(0);
            self.ctx.check(n <= 1, || format!("{:?} is listed {} times", id, n));
            // it held before and after, so all the time
            if before[i] == In && after[i] == In {
                self.ctx.check(n == 1, || format!("{:?} is connected and not listed", id));
            }
            if before[i] == Out && after[i] == Out {
                self.ctx.check(n == 0, || format!("{:?} is not connected and listed", id));
            }
        }
        self.ctx.check(times.is_empty(), || format!("{:?} are listed", times.keys().collect::<Vec<_>>()));
    }
    /// Reads it over and over
    fn watch(self: &Rc<Self>, b: &Rc<Broker>, n: usize) -> tokio::task::JoinHandle<()> {
        let (k, b) = (self.clone(), b.clone());
        mc::spawn("watch", async move {
            for _ in 0..n {
                if k.stop.get() {
                    break;
                }
                k.read(&b).await;
                tokio::task::yield_now().await;
            }
        })
    }
}

fn open(ctx: &Rc<Ctx>, name: &str, noise: bool) -> Client {
    if noise {
        Client::open_noise(ctx, name)
    } else {
        Client::open(ctx, name)
    }
}

/// A client connects, is taken over, leaves
async fn life(ctx: Rc<Ctx>, noise: bool, reads: usize) {
    let b = Rc::new(Broker::start(Opts { noise, queue: 0, ..Opts::default() }).await);
    let k = Known::new(&ctx, &[("S", In), ("X", Out)]);
    let s = client(&ctx, "S").await;
    let x = open(&ctx, "x", noise);
    let y = open(&ctx, "y", false);
    if noise {
        x.handshake().await;
    }
    settle().await;
    mc::calm(false);
    let w = k.watch(&b, reads);
    let story = mc::pick(6);
    let (k2, x2, y2, s2, ctx2) = (k.clone(), x.clone(), y.clone(), s.clone(), ctx.clone());
    let t = mc::spawn("story", async move {
        k2.set("X", Either);
        x2.send(&wire::connect("X"));
        let ack = x2.next().await;
        ctx2.check(matches!(ack, Some(Pkt::ConnAck { reason: 0, .. })), || "X is not accepted".to_string());
        k2.set("X", In);
        match story {
            0 => return,
            1 => {
                k2.set("X", Either);
                x2.close();
            }
            2 => {
                k2.set("X", Either);
                x2.reset();
            }
            3 | 4 => {
                // taken over, which it does not notice
                y2.send(&wire::connect("X"));
                let ack = y2.next().await;
                ctx2.check(matches!(ack, Some(Pkt::ConnAck { reason: 0, .. })), || "X is not accepted again".to_string());
                if story == 4 {
                    x2.close();
                    s2.publish("t", b"t");
                }
                y2.subscribe(1, &[("t", SUB)]).await;
            }
            _ => {
                // a failed takeover
                y2.send(&wire::connect_with("X", 0, 60, &[], &[]));
                y2.next().await;
                x2.subscribe(1, &[("t", SUB)]).await;
            }
        }
    });
    let _ = t.await;
    let _ = w.await;
    settle().await;
    k.set("X", if matches!(story, 1 | 2) { Out } else { In });
    k.read(&b).await;
    s.close();
    settle().await;
    k.set("S", Out);
    k.read(&b).await;
}

/// Several clients come and go at the same time
async fn several(ctx: Rc<Ctx>, reads: usize) {
    let b = Rc::new(Broker::start(Opts::default()).await);
    let k = Known::new(&ctx, &[("S", In), ("A", In), ("B", Out), ("C", In)]);
    let _s = client(&ctx, "S").await;
    let a = client(&ctx, "A").await;
    let c = client(&ctx, "C").await;
    let bb = Client::open(&ctx, "b");
    let c2 = Client::open(&ctx, "c2");
    settle().await;
    mc::calm(false);
    let w = k.watch(&b, reads);
    let how = mc::pick(3);
    k.set("A", Either);
    finish(&a, 1 + how);
    let (k2, ctx2) = (k.clone(), ctx.clone());
    let t1 = mc::spawn("b", async move {
        k2.set("B", Either);
        connected(&ctx2, &bb, "B").await;
        k2.set("B", In);
        bb
    });
    let ctx2 = ctx.clone();
    let t2 = mc::spawn("c", async move {
        connected(&ctx2, &c2, "C").await;
        c2
    });
    let bb = t1.await.unwrap();
    let c2 = t2.await.unwrap();
    let _ = w.await;
    settle().await;
    k.set("A", Out);
    k.read(&b).await;
    ctx.check(c.closed() && !c2.closed() && !bb.closed(), || "the wrong connections are open".to_string());
    // A comes back, C goes
    let ctx2 = ctx.clone();
    let k2 = k.clone();
    let w = k.watch(&b, reads);
    let t = mc::spawn("again", async move {
        k2.set("A", Either);
        let a = client(&ctx2, "A").await;
        k2.set("A", In);
        k2.set("C", Either);
        c2.close();
        a
    });
    let _a = t.await;
    let _ = w.await;
    settle().await;
    k.set("C", Out);
    k.read(&b).await;
}

/// Connections that are never accepted are never listed
async fn refused(ctx: Rc<Ctx>, noise: bool) {
    let b = Rc::new(Broker::start(Opts { noise, keep_alive: 5, ..Opts::default() }).await);
    let taken = mc::pick(2) == 1;
    let k = Known::new(&ctx, &[("S", In), ("X", if taken { In } else { Out })]);
    let s = client(&ctx, "S").await;
    let old = if taken { Some(client(&ctx, "X").await) } else { None };
    settle().await;
    mc::calm(false);
    let menu: Vec<Vec<u8>> = first_packets("X").into_iter().filter(|(_, _, w)| !matches!(w, Want::Accept(..))).map(|p| p.1).collect();
    let which = mc::pick(menu.len() + 2);
    let x = open(&ctx, "x", noise);
    if noise {
        x.handshake().await;
    }
    let w = k.watch(&b, 4);
    match which.checked_sub(2) {
        Some(i) => {
            x.send(&menu[i]);
        }
        // cut off, or never complete
        None => {
            let all = x.encrypt(&wire::connect("X"));
            x.raw(&all[..all.len() - 1]);
            if which == 0 {
                x.close();
            } else {
                settle().await;
                mc::advance(std::time::Duration::from_secs(6));
            }
        }
    }
    let _ = w.await;
    settle().await;
    k.read(&b).await;
    ctx.check(x.closed(), || "the connection stays open".to_string());
    if let Some(o) = &old {
        served(&ctx, o, "old").await;
    }
    served(&ctx, &s, "s").await;
    k.read(&b).await;
}

/// Identifiers that the broker assigns are listed as the client is told
async fn assigned(ctx: Rc<Ctx>) {
    let b = Rc::new(Broker::start(Opts::default()).await);
    let mut told = Vec::new();
    let mut cs = Vec::new();
    mc::calm(false);
    for i in 0..3 {
        let c = Client::open(&ctx, &format!("c{}", i));
        c.send(&wire::connect(""));
        match c.next().await {
            Some(Pkt::ConnAck { reason: 0, props, .. }) => match props.iter().find(|p| p.0 == 18) {
                Some((_, wire::Val::Str(s))) => told.push(String::from_utf8_lossy(s).to_string()),
                other => ctx.fail(format!("no identifier is assigned: {:?}", other)),
            },
            other => ctx.fail(format!("not accepted: {:?}", other)),
        }
        cs.push(c);
        let ids: Vec<(&str, Must)> = told.iter().map(|t| (&t[..], In)).collect();
        Known::new(&ctx, &ids).read(&b).await;
    }
    let gone = mc::pick(3);
    finish(&cs[gone], 1 + mc::pick(3));
    settle().await;
    let ids: Vec<(&str, Must)> = told.iter().enumerate().map(|(i, t)| (&t[..], if i == gone { Out } else { In })).collect();
    Known::new(&ctx, &ids).read(&b).await;
}

/// The list and the configuration are those of this broker, and readers do not disturb it
async fn readers(ctx: Rc<Ctx>) {
    let b = Rc::new(Broker::start(Opts { keep_alive: 77, max_packet: 999, queue: 12345, ..Opts::default() }).await);
    let k = Known::new(&ctx, &[("S", In), ("P", In)]);
    let s = client(&ctx, "S").await;
    let p = client(&ctx, "P").await;
    let g = s.subscribe(1, &[("t", SUB)]).await;
    grant(&ctx, &s, g, 1);
    settle().await;
    mc::calm(false);
    let ws: Vec<_> = (0..2).map(|_| k.watch(&b, 3)).collect();
    p.publish("t", b"1");
    p.publish("t", b"2");
    for w in ws {
        let _ = w.await;
    }
    settle().await;
    ctx.check(s.messages() == [b"1".to_vec(), b"2".to_vec()], || format!("S got {:?}", s.messages()));
    let c = b.server.config();
    ctx.check(
        c.keep_alive == 77 && c.max_packet_size == 999 && c.dispatcher_queue_size == 12345 && c.mqtt_socketaddr == Some(mqtt_addr()),
        || "the configuration is another one".to_string(),
    );
    ctx.check(k.reads.get() == 6, || "the list is not read".to_string());
}

/// A reader that gives up half way does not block the broker
async fn abandoned(ctx: Rc<Ctx>) {
    let b = Rc::new(Broker::start(Opts::default()).await);
    let s = client(&ctx, "S").await;
    let x = Client::open(&ctx, "x");
    settle().await;
    mc::calm(false);
    x.send(&wire::connect("X"));
    let b2 = b.clone();
    let w = mc::spawn("watch", async move {
        for _ in 0..4 {
            let mut f = Box::pin(b2.server.clients());
            // polled once, then dropped
            std::future::poll_fn(|cx| {
                let _ = std::future::Future::poll(f.as_mut(), cx);
                std::task::Poll::Ready(())
            })
            .await;
            drop(f);
            tokio::task::yield_now().await;
        }
    });
    let _ = w.await;
    settle().await;
    registered(&ctx, &b, &["S", "X"]).await;
    served(&ctx, &x, "x").await;
    x.close();
    settle().await;
    registered(&ctx, &b, &["S"]).await;
    served(&ctx, &s, "s").await;
}

pub fn b20() -> Vec<Scenario> {
    vec![
        scenario("b20-life", [3, 4], |c| life(c, false, 8)).calm(),
        scenario("b20-life-noise", [2, 3], |c| life(c, true, 8)).calm(),
        scenario("b20-life-long", [2, 3], |c| life(c, false, 40)).calm(),
        scenario("b20-several", [2, 4], |c| several(c, 10)).calm(),
        scenario("b20-refused", [2, 3], |c| refused(c, false)).calm(),
        scenario("b20-refused-noise", [1, 3], |c| refused(c, true)).calm(),
        scenario("b20-assigned", [2, 4], assigned).calm(),
        scenario("b20-readers", [3, 5], readers).calm(),
        scenario("b20-abandoned", [3, 5], abandoned).calm(),
    ]
}
