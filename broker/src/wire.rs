//! MQTT 5 as the client side of the scenarios speaks it; independent of the codec under test

pub fn varint(mut n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    loop {
        let mut b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            b |= 128;
        }
        v.push(b);
        if n == 0 {
            return v;
        }
    }
}
pub fn string(s: &str) -> Vec<u8> {
    binary(s.as_bytes())
}
pub fn binary(s: &[u8]) -> Vec<u8> {
    let mut v = (s.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(s);
    v
}
pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![first];
    v.extend(varint(body.len()));
    v.extend_from_slice(body);
    v
}
pub fn props(p: &[u8]) -> Vec<u8> {
    let mut v = varint(p.len());
    v.extend_from_slice(p);
    v
}

pub const CLEAN: u8 = 2;

pub fn connect_with(id: &str, flags: u8, keep_alive: u16, p: &[u8], tail: &[u8]) -> Vec<u8> {
    let mut b = string("MQTT");
    b.push(5);
    b.push(flags);
    b.extend(keep_alive.to_be_bytes());
    b.extend(props(p));
    b.extend(string(id));
    b.extend_from_slice(tail);
    frame(0x10, &b)
}
pub fn connect(id: &str) -> Vec<u8> {
    connect_with(id, CLEAN, 60, &[], &[])
}
pub fn publish_with(flags: u8, topic: &str, pid: Option<u16>, p: &[u8], payload: &[u8]) -> Vec<u8> {
    let mut b = string(topic);
    if let Some(pid) = pid {
        b.extend(pid.to_be_bytes());
    }
    b.extend(props(p));
    b.extend_from_slice(payload);
    frame(0x30 | flags, &b)
}
pub fn publish(topic: &str, payload: &[u8]) -> Vec<u8> {
    publish_with(0, topic, None, &[], payload)
}
/// A subscription that the broker supports: QoS 0, retained messages not sent
pub const SUB: u8 = 0x20;
pub const NO_LOCAL: u8 = 0x04;
pub const RAP: u8 = 0x08;

pub fn subscribe_with(pid: u16, p: &[u8], filters: &[(&str, u8)]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    b.extend(props(p));
    for (f, o) in filters {
        b.extend(string(f));
        b.push(*o);
    }
    frame(0x82, &b)
}
pub fn subscribe(pid: u16, filters: &[(&str, u8)]) -> Vec<u8> {
    subscribe_with(pid, &[], filters)
}
pub fn unsubscribe(pid: u16, filters: &[&str]) -> Vec<u8> {
    let mut b = pid.to_be_bytes().to_vec();
    b.extend(props(&[]));
    for f in filters {
        b.extend(string(f));
    }
    frame(0xA2, &b)
}
pub fn pingreq() -> Vec<u8> {
    frame(0xC0, &[])
}
pub fn disconnect() -> Vec<u8> {
    frame(0xE0, &[0, 0])
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Byte(u8),
    Two(u16),
    Four(u32),
    Var(u32),
    Str(Vec<u8>),
    Bin(Vec<u8>),
}
pub type Props = Vec<(u8, Val)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Pkt {
    ConnAck { present: u8, reason: u8, props: Props },
    Publish { flags: u8, topic: String, props: Props, payload: Vec<u8> },
    SubAck { pid: u16, props: Props, reasons: Vec<u8> },
    Disconnect { reason: u8, props: Props },
    Other(u8, Vec<u8>),
    Malformed(Vec<u8>),
}

impl Pkt {
    pub fn is_publish(&self) -> bool {
        matches!(self, Pkt::Publish { .. })
    }
    pub fn payload(&self) -> Option<&[u8]> {
        match self {
            Pkt::Publish { payload, .. } => Some(payload),
            _ => None,
        }
    }
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|b| b[0])
    }
    fn u16(&mut self) -> Option<u16> {
        self.take(2).map(|b| u16::from_be_bytes([b[0], b[1]]))
    }
    fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn bin(&mut self) -> Option<Vec<u8>> {
        let n = self.u16()? as usize;
        self.take(n).map(|b| b.to_vec())
    }
    fn var(&mut self) -> Option<u32> {
        let mut n = 0u32;
        for i in 0..4 {
            let b = self.u8()?;
            n |= ((b & 127) as u32) << (7 * i);
            if b & 128 == 0 {
                return if i > 0 && b == 0 { None } else { Some(n) };
            }
        }
        None
    }
    fn props(&mut self) -> Option<Props> {
        let n = self.var()? as usize;
        let mut r = Rd(self.take(n)?);
        let mut out = Vec::new();
        while !r.0.is_empty() {
            let id = r.u8()?;
            let v = match id {
                1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => Val::Byte(r.u8()?),
                19 | 33 | 34 | 35 => Val::Two(r.u16()?),
                2 | 17 | 24 | 39 => Val::Four(r.u32()?),
                11 => Val::Var(r.var()?),
                9 | 22 => Val::Bin(r.bin()?),
                3 | 8 | 18 | 21 | 26 | 28 | 31 | 38 => Val::Str(r.bin()?),
                _ => return None,
            };
            out.push((id, v));
        }
        out.sort_by_key(|(id, _)| *id);
        Some(out)
    }
}

fn body(first: u8, b: &[u8]) -> Option<Pkt> {
    let mut r = Rd(b);
    Some(match first >> 4 {
        2 if first & 15 == 0 => {
            let present = r.u8()?;
            let reason = r.u8()?;
            let props = r.props()?;
            if !r.0.is_empty() {
                return None;
            }
            Pkt::ConnAck { present, reason, props }
        }
        3 => {
            let topic = String::from_utf8(r.bin()?).ok()?;
            if first & 6 != 0 {
                r.u16()?;
            }
            let props = r.props()?;
            Pkt::Publish { flags: first & 15, topic, props, payload: r.0.to_vec() }
        }
        9 if first & 15 == 0 => {
            let pid = r.u16()?;
            let props = r.props()?;
            Pkt::SubAck { pid, props, reasons: r.0.to_vec() }
        }
        14 if first & 15 == 0 => {
            let reason = if r.0.is_empty() { 0 } else { r.u8()? };
            let props = if r.0.is_empty() { Vec::new() } else { r.props()? };
            if !r.0.is_empty() {
                return None;
            }
            Pkt::Disconnect { reason, props }
        }
        _ => Pkt::Other(first, b.to_vec()),
    })
}

/// Takes the first packet out of a stream
pub fn next(buf: &mut Vec<u8>) -> Option<Pkt> {
    if buf.len() < 2 {
        return None;
    }
    let mut len = 0usize;
    let mut i = 1;
    loop {
        if i > 4 {
            return Some(Pkt::Malformed(std::mem::take(buf)));
        }
        let b = *buf.get(i)?;
        len |= ((b & 127) as usize) << (7 * (i - 1));
        i += 1;
        if b & 128 == 0 {
            break;
        }
    }
    if buf.len() < i + len {
        return None;
    }
    let f: Vec<u8> = buf.drain(..i + len).collect();
    Some(body(f[0], &f[i..]).unwrap_or(Pkt::Malformed(f)))
}

/// Expects exactly one packet
pub fn single(mut buf: Vec<u8>) -> Pkt {
    match next(&mut buf) {
        Some(p) if buf.is_empty() => p,
        _ => Pkt::Malformed(buf),
    }
}
