//! Scripted clients and the broker they talk to

use crate::explore::Ctx;
use crate::wire::{self, Pkt};
#[cfg(feature = "noise")]
use apiformes_server_lib::Permeability;
use apiformes_server_lib::{MqttServer, MqttServerConfig};
use std::cell::{Cell, RefCell};
use std::net::SocketAddr;
use std::rc::Rc;
use tokio::mc;
use tokio::net::Peer;

pub const PRIVATE: [u8; 32] = [
    205, 100, 157, 80, 236, 140, 109, 150, 91, 254, 27, 10, 200, 89, 193, 158, 49, 238, 24, 134,
    137, 225, 220, 169, 32, 209, 239, 35, 2, 254, 0, 166,
];
pub const PUBLIC: [u8; 32] = [
    180, 132, 40, 246, 52, 36, 9, 93, 224, 18, 51, 123, 188, 226, 131, 145, 196, 93, 24, 112, 227,
    133, 8, 199, 229, 139, 2, 248, 5, 115, 136, 37,
];
pub const PATTERN: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";

pub fn mqtt_addr() -> SocketAddr {
    "127.0.0.1:1883".parse().unwrap()
}
pub fn noise_addr() -> SocketAddr {
    "127.0.0.1:8883".parse().unwrap()
}

pub fn shifted(mut a: SocketAddr, shift: u16) -> SocketAddr {
    a.set_port(a.port() + shift);
    a
}

pub struct Opts {
    pub keep_alive: u16,
    pub queue: usize,
    pub max_packet: u32,
    pub noise: bool,
    pub mqtt: bool,
    pub strict: bool,
    /// Added to the ports
    pub shift: u16,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            keep_alive: 60,
            queue: 1 << 16,
            max_packet: 1024,
            noise: false,
            mqtt: true,
            strict: false,
            shift: 0,
        }
    }
}

pub struct Broker {
    pub server: MqttServer,
}

impl Opts {
    pub fn config(&self) -> MqttServerConfig {
        let o = self;
        MqttServerConfig {
            mqtt_socketaddr: o.mqtt.then(|| shifted(mqtt_addr(), o.shift)),
            keep_alive: o.keep_alive,
            dispatcher_queue_size: o.queue,
            max_packet_size: o.max_packet,
            #[cfg(feature = "noise")]
            noise_socketaddr: o.noise.then(|| shifted(noise_addr(), o.shift)),
            #[cfg(feature = "noise")]
            channel_permeability: if o.strict {
                Permeability::Strict
            } else {
                Permeability::Permissive
            },
            #[cfg(feature = "noise")]
            private_key: PRIVATE,
        }
    }
}

impl Broker {
    pub async fn start(o: Opts) -> Broker {
        let server = match MqttServer::new(o.config()).await {
            Ok(s) => s,
            Err(e) => panic!("the broker does not start: {:?}", e),
        };
        Broker { server }
    }
    pub async fn registered(&self) -> Vec<String> {
        let mut v: Vec<String> = self.server.clients().await.iter().map(|s| s.to_string()).collect();
        v.sort();
        v
    }
}

enum Crypto {
    Plain,
    Handshake(Box<snow::HandshakeState>),
    Transport(Box<snow::TransportState>),
    Broken,
}

/// In a build without the encrypted transport this execution cannot go on, and is not counted
pub fn not_plain() {
    if cfg!(not(feature = "noise")) {
        panic!("{}", crate::explore::NOT_HERE);
    }
}

fn initiator() -> Crypto {
    let hs = snow::Builder::new(PATTERN.parse().unwrap())
        .local_private_key(&[7; 32])
        .remote_public_key(&PUBLIC)
        .build_initiator()
        .unwrap();
    Crypto::Handshake(Box::new(hs))
}

struct Inner {
    peer: Peer,
    name: String,
    crypto: Crypto,
    /// Bytes not yet understood
    buf: Vec<u8>,
    /// Everything that arrived
    seen: Vec<u8>,
    /// Size of the largest packet
    largest: usize,
    pkts: Vec<Pkt>,
    /// Time stamps of `pkts`
    when: Vec<u64>,
}

/// A client connection. Clones share it.
#[derive(Clone)]
pub struct Client {
    inner: Rc<RefCell<Inner>>,
    ctx: Rc<Ctx>,
    /// The next packet `next` returns
    cursor: Rc<Cell<usize>>,
    pub noise: bool,
}

impl Client {
    fn make(ctx: &Rc<Ctx>, name: &str, peer: Peer, crypto: Crypto) -> Client {
        let noise = !matches!(crypto, Crypto::Plain);
        ctx.note(|| format!("{} opens a connection", name));
        Client {
            inner: Rc::new(RefCell::new(Inner {
                peer,
                name: name.to_string(),
                crypto,
                buf: Vec::new(),
                seen: Vec::new(),
                largest: 0,
                pkts: Vec::new(),
                when: Vec::new(),
            })),
            ctx: ctx.clone(),
            cursor: Rc::new(Cell::new(0)),
            noise,
        }
    }
    /// Opens a plain connection
    pub fn open(ctx: &Rc<Ctx>, name: &str) -> Client {
        Client::make(ctx, name, Peer::connect(mqtt_addr()).unwrap(), Crypto::Plain)
    }
    /// Opens a connection to a broker whose ports are shifted
    pub fn open_at(ctx: &Rc<Ctx>, name: &str, noise: bool, shift: u16) -> Option<Client> {
        let addr = shifted(if noise { noise_addr() } else { mqtt_addr() }, shift);
        if noise {
            not_plain();
        }
        let peer = Peer::connect(addr).ok()?;
        Some(Client::make(ctx, name, peer, if noise { initiator() } else { Crypto::Plain }))
    }
    pub fn open_cap(ctx: &Rc<Ctx>, name: &str, cap: usize) -> Client {
        Client::make(ctx, name, Peer::connect_with(mqtt_addr(), cap).unwrap(), Crypto::Plain)
    }
    /// Opens a connection to the encrypted listener, without a handshake
    pub fn open_noise(ctx: &Rc<Ctx>, name: &str) -> Client {
        not_plain();
        Client::make(ctx, name, Peer::connect(noise_addr()).unwrap(), initiator())
    }
    pub fn open_noise_cap(ctx: &Rc<Ctx>, name: &str, cap: usize) -> Client {
        let c = Client::open_noise(ctx, name);
        c.inner.borrow().peer.set_capacity(cap);
        c
    }
    pub fn try_open(ctx: &Rc<Ctx>, name: &str) -> Option<Client> {
        Peer::connect(mqtt_addr())
            .ok()
            .map(|p| Client::make(ctx, name, p, Crypto::Plain))
    }
    pub fn name(&self) -> String {
        self.inner.borrow().name.clone()
    }
    /// First handshake message
    pub fn hs1(&self) -> Vec<u8> {
        let mut g = self.inner.borrow_mut();
        let mut out = vec![0u8; 200];
        match &mut g.crypto {
            Crypto::Handshake(h) => {
                let n = h.write_message(&[], &mut out).unwrap();
                out.truncate(n);
                noise_frame(&out)
            }
            _ => panic!("no handshake"),
        }
    }
    /// Answers the second handshake message with the third
    pub fn hs3(&self, second: &[u8]) -> Option<Vec<u8>> {
        let mut g = self.inner.borrow_mut();
        let mut out = vec![0u8; 200];
        match std::mem::replace(&mut g.crypto, Crypto::Broken) {
            Crypto::Handshake(mut h) => {
                h.read_message(second, &mut []).ok()?;
                let n = h.write_message(&[], &mut out).ok()?;
                out.truncate(n);
                g.crypto = Crypto::Transport(Box::new(h.into_transport_mode().ok()?));
                Some(noise_frame(&out))
            }
            _ => None,
        }
    }
    /// The complete noise handshake
    pub async fn handshake(&self) -> bool {
        self.raw(&self.hs1());
        let second = loop {
            self.pull_raw();
            let f = take_noise_frame(&mut self.inner.borrow_mut().buf);
            if let Some(f) = f {
                break f;
            }
            if self.finished() {
                return false;
            }
            self.wait_readable().await;
        };
        match self.hs3(&second) {
            Some(m) => {
                self.raw(&m);
                true
            }
            None => false,
        }
    }
    /// The third handshake message if the second one is there
    pub fn hs3_ready(&self) -> Option<Vec<u8>> {
        self.pull_raw();
        let f = take_noise_frame(&mut self.inner.borrow_mut().buf)?;
        self.hs3(&f)
    }
    /// Completes a handshake whose first message was sent
    pub async fn handshake_done(&self) -> bool {
        match self.hs3_ready() {
            Some(m) => {
                self.raw(&m);
                settle().await;
                true
            }
            None => false,
        }
    }
    /// A fresh first handshake message, not related to the state of this connection
    pub fn noise_sample(&self) -> Vec<u8> {
        let mut hs = snow::Builder::new(PATTERN.parse().unwrap())
            .local_private_key(&[9; 32])
            .remote_public_key(&PUBLIC)
            .build_initiator()
            .unwrap();
        let mut out = vec![0u8; 200];
        let n = hs.write_message(&[], &mut out).unwrap();
        noise_frame(&out[..n])
    }
    pub fn encrypt(&self, packet: &[u8]) -> Vec<u8> {
        let mut g = self.inner.borrow_mut();
        match &mut g.crypto {
            Crypto::Plain => packet.to_vec(),
            Crypto::Transport(t) => {
                let mut out = vec![0u8; packet.len() + 16];
                let n = t.write_message(packet, &mut out).unwrap();
                out.truncate(n);
                noise_frame(&out)
            }
            _ => panic!("no encryption yet"),
        }
    }
    /// Sends a packet
    pub fn send(&self, packet: &[u8]) -> u64 {
        let bytes = self.encrypt(packet);
        self.raw(&bytes)
    }
    /// Sends bytes as they are; returns the time
    pub fn raw(&self, bytes: &[u8]) -> u64 {
        let g = self.inner.borrow();
        self.ctx.note(|| format!("{} sends {}", g.name, hex(bytes)));
        g.peer.send(bytes);
        self.ctx.tick()
    }
    fn pull_raw(&self) {
        let mut g = self.inner.borrow_mut();
        let new = g.peer.take(usize::MAX);
        g.buf.extend(new);
    }
    /// Reads what has arrived
    pub fn pull(&self) {
        self.pull_max(usize::MAX)
    }
    pub fn pull_max(&self, max: usize) {
        let mut g = self.inner.borrow_mut();
        let new = g.peer.take(max);
        let g = &mut *g;
        g.seen.extend(&new);
        g.buf.extend(new);
        loop {
            let before = g.buf.len();
            let p = match &mut g.crypto {
                Crypto::Plain => match wire::next(&mut g.buf) {
                    Some(p) => p,
                    None => break,
                },
                Crypto::Transport(t) => match take_noise_frame(&mut g.buf) {
                    Some(f) => {
                        let mut out = vec![0u8; f.len()];
                        match t.read_message(&f, &mut out) {
                            Ok(n) => {
                                g.largest = g.largest.max(n);
                                out.truncate(n);
                                wire::single(out)
                            }
                            Err(_) => Pkt::Malformed(f),
                        }
                    }
                    None => break,
                },
                _ => break,
            };
            if let Crypto::Plain = g.crypto {
                g.largest = g.largest.max(before - g.buf.len());
            }
            let t = self.ctx.tick();
            let name = &g.name;
            self.ctx.note(|| format!("{} receives {}", name, show(&p)));
            g.pkts.push(p);
            g.when.push(t);
        }
    }
    pub async fn wait_readable(&self) {
        // the connection is not borrowed while waiting
        std::future::poll_fn(|cx| {
            let g = self.inner.borrow();
            let mut f = Box::pin(g.peer.readable());
            std::future::Future::poll(f.as_mut(), cx)
        })
        .await
    }
    /// The next packet, or `None` when the connection ended
    pub async fn next(&self) -> Option<Pkt> {
        loop {
            self.pull();
            let i = self.cursor.get();
            if let Some(p) = self.inner.borrow().pkts.get(i) {
                self.cursor.set(i + 1);
                return Some(p.clone());
            }
            if self.finished() {
                return None;
            }
            self.wait_readable().await;
        }
    }
    /// Skips to the next packet that fits
    pub async fn until(&self, f: impl Fn(&Pkt) -> bool) -> Option<Pkt> {
        loop {
            match self.next().await {
                Some(p) if f(&p) => return Some(p),
                Some(_) => (),
                None => return None,
            }
        }
    }
    /// Everything received so far
    pub fn received(&self) -> Vec<Pkt> {
        self.pull();
        self.inner.borrow().pkts.clone()
    }
    /// Takes the packets received so far and forgets them
    pub fn taken(&self) -> Vec<Pkt> {
        self.pull();
        let mut g = self.inner.borrow_mut();
        self.cursor.set(0);
        g.when.clear();
        g.seen.clear();
        std::mem::take(&mut g.pkts)
    }
    pub fn received_at(&self) -> Vec<(u64, Pkt)> {
        self.pull();
        let g = self.inner.borrow();
        g.when.iter().copied().zip(g.pkts.iter().cloned()).collect()
    }
    /// Payloads of the messages received so far
    pub fn messages(&self) -> Vec<Vec<u8>> {
        self.received().iter().filter_map(|p| p.payload().map(|b| b.to_vec())).collect()
    }
    /// Size of the largest packet received
    pub fn largest(&self) -> usize {
        self.pull();
        self.inner.borrow().largest
    }
    /// All bytes received since the handshake
    pub fn raw_seen(&self) -> Vec<u8> {
        self.pull();
        self.inner.borrow().seen.clone()
    }
    /// Bytes that do not form a packet
    pub fn leftover(&self) -> usize {
        self.inner.borrow().buf.len()
    }
    pub fn finished(&self) -> bool {
        self.inner.borrow().peer.finished()
    }
    /// The broker has closed its socket
    pub fn closed(&self) -> bool {
        self.inner.borrow().peer.closed()
    }
    pub fn unread(&self) -> usize {
        self.inner.borrow().peer.unread()
    }
    pub fn available(&self) -> usize {
        self.inner.borrow().peer.available()
    }
    pub fn set_capacity(&self, cap: usize) {
        self.inner.borrow().peer.set_capacity(cap)
    }
    pub fn close(&self) {
        self.pull();
        let mut g = self.inner.borrow_mut();
        self.ctx.note(|| format!("{} closes its connection", g.name));
        g.peer.close();
    }
    pub fn reset(&self) {
        self.pull();
        let mut g = self.inner.borrow_mut();
        self.ctx.note(|| format!("{} resets its connection", g.name));
        g.peer.reset();
    }
    pub fn half_close(&self) {
        let g = self.inner.borrow();
        self.ctx.note(|| format!("{} stops sending", g.name));
        g.peer.shutdown();
    }
    /// Sends CONNECT and waits for the answer
    pub async fn connect(&self, id: &str) -> Option<Pkt> {
        if self.noise && !self.handshake().await {
            return None;
        }
        self.send(&wire::connect(id));
        self.next().await
    }
    /// Subscribes and waits for the acknowledgement
    pub async fn subscribe(&self, pid: u16, filters: &[(&str, u8)]) -> Option<Vec<u8>> {
        self.send(&wire::subscribe(pid, filters));
        match self.until(|p| matches!(p, Pkt::SubAck { .. })).await {
            Some(Pkt::SubAck { reasons, .. }) => Some(reasons),
            _ => None,
        }
    }
    pub fn publish(&self, topic: &str, payload: &[u8]) -> u64 {
        self.send(&wire::publish(topic, payload))
    }
}

/// A connected client
pub async fn client(ctx: &Rc<Ctx>, id: &str) -> Client {
    let c = Client::open(ctx, id);
    connected(ctx, &c, id).await;
    c
}
pub async fn noise_client(ctx: &Rc<Ctx>, id: &str) -> Client {
    let c = Client::open_noise(ctx, id);
    connected(ctx, &c, id).await;
    c
}
pub async fn any_client(ctx: &Rc<Ctx>, id: &str, noise: bool) -> Client {
    if noise {
        noise_client(ctx, id).await
    } else {
        client(ctx, id).await
    }
}
pub async fn connected(ctx: &Rc<Ctx>, c: &Client, id: &str) {
    match c.connect(id).await {
        Some(Pkt::ConnAck { reason: 0, .. }) => (),
        other => ctx.fail(format!("client {} is not accepted: {:?}", id, other)),
    }
}

pub fn noise_frame(m: &[u8]) -> Vec<u8> {
    let mut v = (m.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(m);
    v
}
pub fn take_noise_frame(buf: &mut Vec<u8>) -> Option<Vec<u8>> {
    if buf.len() < 4 {
        return None;
    }
    let n = u32::from_be_bytes([buf[0], buf[1], buf[2], buf[3]]) as usize;
    if buf.len() < 4 + n {
        return None;
    }
    let f: Vec<u8> = buf.drain(..4 + n).collect();
    Some(f[4..].to_vec())
}
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(64).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 64 {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}
pub fn show(p: &Pkt) -> String {
    match p {
        Pkt::Publish { flags, topic, props, payload } => format!(
            "PUBLISH flags {} topic {:?} payload {:?} props {:?}",
            flags,
            topic,
            String::from_utf8_lossy(&payload[..payload.len().min(40)]),
            props
        ),
        p => {
            let s = format!("{:?}", p);
            s.chars().take(300).collect()
        }
    }
}

/// Lets everything run until nothing moves any more
pub async fn settle() {
    mc::settle().await
}

/// The client can subscribe, publish, and gets its message
pub async fn served(ctx: &Rc<Ctx>, c: &Client, tag: &str) {
    let t = format!("srv/{}", tag);
    let before = c.received().len();
    c.send(&wire::subscribe(999, &[(&t, wire::SUB)]));
    settle().await;
    let ack = c.received()[before..]
        .iter()
        .any(|p| matches!(p, Pkt::SubAck { pid: 999, reasons, .. } if reasons == &[0]));
    ctx.check(ack, || format!("{} is not served any more: no acknowledgement", c.name()));
    let payload = format!("probe {}", tag);
    c.publish(&t, payload.as_bytes());
    settle().await;
    let n = c.messages().iter().filter(|m| &m[..] == payload.as_bytes()).count();
    ctx.check(n == 1, || format!("{} is not served any more: its own message arrived {} times", c.name(), n));
    ctx.check(!c.closed(), || format!("{} is disconnected", c.name()));
}

/// Registered clients are exactly these
pub async fn registered(ctx: &Rc<Ctx>, b: &Broker, want: &[&str]) {
    let got = b.registered().await;
    let mut want: Vec<String> = want.iter().map(|s| s.to_string()).collect();
    want.sort();
    ctx.check(got == want, || format!("registered clients are {:?} instead of {:?}", got, want));
}
