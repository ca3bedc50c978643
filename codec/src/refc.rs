//! The reference: what MQTT 5 (OASIS standard, section numbers in comments) says about the bytes
//! of a packet. Written from the standard, shares no code with the implementation.

use std::fmt;

/// A property value
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    Bool(bool),
    Byte(u8),
    U16(u16),
    /// four byte and variable byte integers
    U32(u32),
    Str(Vec<u8>),
    Bin(Vec<u8>),
    Pair(Vec<u8>, Vec<u8>),
}
pub type Props = Vec<(u8, V)>;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct W {
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
    pub topic: Vec<u8>,
    pub payload: Vec<u8>,
}

/// The content of a packet
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum P {
    Connect {
        clean: bool,
        keep: u16,
        props: Props,
        id: Vec<u8>,
        will: Option<W>,
        user: Option<Vec<u8>>,
        pass: Option<Vec<u8>>,
    },
    ConnAck {
        present: bool,
        code: u8,
        props: Props,
    },
    Publish {
        dup: bool,
        qos: u8,
        retain: bool,
        topic: Vec<u8>,
        pid: Option<u16>,
        props: Props,
        payload: Vec<u8>,
    },
    /// PUBACK 4, PUBREC 5, PUBREL 6, PUBCOMP 7
    Ack { ty: u8, id: u16, code: u8, props: Props },
    Subscribe { id: u16, props: Props, topics: Vec<(Vec<u8>, u8)> },
    /// SUBACK 9, UNSUBACK 11
    Codes { ty: u8, id: u16, props: Props, codes: Vec<u8> },
    Unsubscribe { id: u16, props: Props, topics: Vec<Vec<u8>> },
    /// PINGREQ 12, PINGRESP 13
    Ping { ty: u8 },
    /// DISCONNECT 14, AUTH 15
    Reason { ty: u8, code: u8, props: Props },
}

fn txt(b: &[u8]) -> String {
    if b.len() > 40 {
        format!("{}..({} bytes)", String::from_utf8_lossy(&b[..12]).escape_debug(), b.len())
    } else {
        format!("{}", String::from_utf8_lossy(b).escape_debug())
    }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::Bool(b) => write!(f, "{}", b),
            V::Byte(b) => write!(f, "{}u8", b),
            V::U16(b) => write!(f, "{}u16", b),
            V::U32(b) => write!(f, "{}", b),
            V::Str(s) => write!(f, "\"{}\"", txt(s)),
            V::Bin(s) => write!(f, "b\"{}\"", txt(s)),
            V::Pair(a, b) => write!(f, "(\"{}\",\"{}\")", txt(a), txt(b)),
        }
    }
}
struct Pr<'a>(&'a Props);
impl fmt::Debug for Pr<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{{")?;
        for (k, v) in self.0 {
            write!(f, "{:#04x}:{:?} ", k, v)?;
        }
        write!(f, "}}")
    }
}
impl fmt::Debug for W {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(
            f,
            "Will[qos {} retain {} props {:?} topic \"{}\" payload \"{}\"]",
            self.qos,
            self.retain,
            Pr(&self.props),
            txt(&self.topic),
            txt(&self.payload)
        )
    }
}
impl fmt::Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            P::Connect { clean, keep, props, id, will, user, pass } => write!(
                f,
                "CONNECT[clean {} keep-alive {} props {:?} id \"{}\" will {:?} user {:?} password {:?}]",
                clean,
                keep,
                Pr(props),
                txt(id),
                will,
                user.as_ref().map(|u| txt(u)),
                pass.as_ref().map(|u| txt(u))
            ),
            P::ConnAck { present, code, props } => {
                write!(f, "CONNACK[present {} code {:#x} props {:?}]", present, code, Pr(props))
            }
            P::Publish { dup, qos, retain, topic, pid, props, payload } => write!(
                f,
                "PUBLISH[dup {} qos {} retain {} topic \"{}\" id {:?} props {:?} payload \"{}\"]",
                dup,
                qos,
                retain,
                txt(topic),
                pid,
                Pr(props),
                txt(payload)
            ),
            P::Ack { ty, id, code, props } => write!(
                f,
                "{}[id {} code {:#x} props {:?}]",
                ["PUBACK", "PUBREC", "PUBREL", "PUBCOMP"][*ty as usize - 4],
                id,
                code,
                Pr(props)
            ),
            P::Subscribe { id, props, topics } => write!(
                f,
                "SUBSCRIBE[id {} props {:?} filters {:?}]",
                id,
                Pr(props),
                topics.iter().map(|(t, o)| format!("{} {:#x}", txt(t), o)).collect::<Vec<_>>()
            ),
            P::Codes { ty, id, props, codes } => write!(
                f,
                "{}[id {} props {:?} codes {:x?}]",
                if *ty == 9 { "SUBACK" } else { "UNSUBACK" },
                id,
                Pr(props),
                codes
            ),
            P::Unsubscribe { id, props, topics } => write!(
                f,
                "UNSUBSCRIBE[id {} props {:?} filters {:?}]",
                id,
                Pr(props),
                topics.iter().map(|t| txt(t)).collect::<Vec<_>>()
            ),
            P::Ping { ty } => write!(f, "{}", if *ty == 12 { "PINGREQ" } else { "PINGRESP" }),
            P::Reason { ty, code, props } => write!(
                f,
                "{}[code {:#x} props {:?}]",
                if *ty == 14 { "DISCONNECT" } else { "AUTH" },
                code,
                Pr(props)
            ),
        }
    }
}

impl P {
    /// Properties of different keys have no order
    pub fn normal(mut self) -> P {
        match &mut self {
            P::Connect { props, will, .. } => {
                props.sort_by_key(|p| p.0);
                if let Some(w) = will {
                    w.props.sort_by_key(|p| p.0);
                }
            }
            P::ConnAck { props, .. }
            | P::Publish { props, .. }
            | P::Ack { props, .. }
            | P::Subscribe { props, .. }
            | P::Codes { props, .. }
            | P::Unsubscribe { props, .. }
            | P::Reason { props, .. } => props.sort_by_key(|p| p.0),
            P::Ping { .. } => (),
        }
        self
    }
    pub fn ty(&self) -> u8 {
        match self {
            P::Connect { .. } => 1,
            P::ConnAck { .. } => 2,
            P::Publish { .. } => 3,
            P::Ack { ty, .. } | P::Codes { ty, .. } | P::Ping { ty } | P::Reason { ty, .. } => *ty,
            P::Subscribe { .. } => 8,
            P::Unsubscribe { .. } => 10,
        }
    }
}

// ---------------------------------------------------------------- tables

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Bool,
    Byte,
    U16,
    U32,
    Var,
    Str,
    Bin,
    Pair,
}
pub const KINDS: [Kind; 8] =
    [Kind::Bool, Kind::Byte, Kind::U16, Kind::U32, Kind::Var, Kind::Str, Kind::Bin, Kind::Pair];

/// How the implementation represents the User Property: known finding, see there
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum UserProp {
    Pair,
    Single,
}

pub const WILL: u8 = 0;
/// All places where properties can be: the packet types and the will
pub const OWNERS: [u8; 14] = [WILL, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15];
pub const USER: u8 = 0x26;
pub const SUBID: u8 = 0x0b;
/// 2.2.2.2, 3.3.2.3.8: may it occur more than once?
pub fn repeatable(owner: u8, id: u8) -> bool {
    id == USER || id == SUBID && owner == 3
}
pub const ALL_PROPS: [u8; 27] = [
    0x01, 0x02, 0x03, 0x08, 0x09, 0x0b, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1c, 0x1f, 0x21, 0x22,
    0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a,
];

/// Table 2-4: type and owners
pub fn prop_info(id: u32, up: UserProp) -> Option<(Kind, &'static [u8])> {
    use Kind::*;
    Some(match id {
        0x01 => (Byte, &[3, WILL]),
        0x02 => (U32, &[3, WILL]),
        0x03 => (Str, &[3, WILL]),
        0x08 => (Str, &[3, WILL]),
        0x09 => (Bin, &[3, WILL]),
        0x0b => (Var, &[3, 8]),
        0x11 => (U32, &[1, 2, 14]),
        0x12 => (Str, &[2]),
        0x13 => (U16, &[2]),
        0x15 => (Str, &[1, 2, 15]),
        0x16 => (Bin, &[1, 2, 15]),
        0x17 => (Bool, &[1]),
        0x18 => (U32, &[WILL]),
        0x19 => (Bool, &[1]),
        0x1a => (Str, &[2]),
        0x1c => (Str, &[2, 14]),
        0x1f => (Str, &[2, 4, 5, 6, 7, 9, 11, 14, 15]),
        0x21 => (U16, &[1, 2]),
        0x22 => (U16, &[1, 2]),
        0x23 => (U16, &[3]),
        0x24 => (Byte, &[2]),
        0x25 => (Byte, &[2]),
        0x26 => (if up == UserProp::Pair { Pair } else { Str }, &OWNERS),
        0x27 => (U32, &[1, 2]),
        0x28 => (Bool, &[2]),
        0x29 => (Bool, &[2]),
        0x2a => (Bool, &[2]),
        _ => return None,
    })
}
pub fn allowed(owner: u8, id: u8) -> bool {
    prop_info(id as u32, UserProp::Single).map(|(_, o)| o.contains(&owner)).unwrap_or(false)
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Legal {
    Yes,
    No,
    /// the standard contradicts itself
    Unclear,
}
/// The reason codes of a packet type (tables in 3.2.2.2, 3.4.2.1, ... 3.15.2.1)
pub fn code_legal(ty: u8, c: u8) -> Legal {
    let yes = match ty {
        2 => matches!(c, 0 | 0x80..=0x8a | 0x8c | 0x90 | 0x95 | 0x97 | 0x99..=0x9d | 0x9f),
        4 | 5 => matches!(c, 0 | 0x10 | 0x80 | 0x83 | 0x87 | 0x90 | 0x91 | 0x97 | 0x99),
        6 | 7 => matches!(c, 0 | 0x92),
        9 => matches!(c, 0..=2 | 0x80 | 0x83 | 0x87 | 0x8f | 0x91 | 0x97 | 0x9e | 0xa1 | 0xa2),
        11 => matches!(c, 0 | 0x11 | 0x80 | 0x83 | 0x87 | 0x8f | 0x91),
        14 if c == 0x8c => return Legal::Unclear, // in 2.4, not in 3.14.2.1
        14 => matches!(c, 0 | 4 | 0x80..=0x83 | 0x87 | 0x89 | 0x8b | 0x8d..=0x90 | 0x93..=0xa2),
        15 => matches!(c, 0 | 0x18 | 0x19),
        _ => false,
    };
    if yes {
        Legal::Yes
    } else {
        Legal::No
    }
}

/// 4.7.1: `#` only as the last level, `+` only as a whole level
pub fn filter_legal(s: &str) -> bool {
    let levels: Vec<&str> = s.split('/').collect();
    for (i, l) in levels.iter().enumerate() {
        if l.contains('#') && (*l != "#" || i + 1 != levels.len()) {
            return false;
        }
        if l.contains('+') && *l != "+" {
            return false;
        }
    }
    true
}
/// 3.3.2.1
pub fn name_legal(s: &str) -> bool {
    !s.contains(['#', '+'])
}

/// 1.5.4 Err: malformed, Ok(false): allowed to be rejected
pub fn string_legal(b: &[u8]) -> Result<bool, ()> {
    if b.len() > 65535 {
        return Err(());
    }
    let s = std::str::from_utf8(b).map_err(|_| ())?;
    let mut fine = true;
    for c in s.chars() {
        let u = c as u32;
        if u <= 0x1f || (0x7f..=0x9f).contains(&u) {
            return Err(());
        }
        // non-characters
        if (0xfdd0..=0xfdef).contains(&u) || u & 0xfffe == 0xfffe {
            fine = false;
        }
    }
    Ok(fine)
}

// ---------------------------------------------------------------- writing

pub fn put_varint(o: &mut Vec<u8>, mut n: u32) {
    loop {
        let d = (n % 128) as u8;
        n /= 128;
        if n == 0 {
            o.push(d);
            return;
        }
        o.push(d + 128);
    }
}
pub fn put_u16(o: &mut Vec<u8>, n: u16) {
    o.push((n >> 8) as u8);
    o.push(n as u8);
}
pub fn put_str(o: &mut Vec<u8>, s: &[u8]) {
    put_u16(o, s.len() as u16);
    o.extend_from_slice(s);
}
pub fn put_value(o: &mut Vec<u8>, id: u8, v: &V) {
    match v {
        V::Bool(b) => o.push(*b as u8),
        V::Byte(b) => o.push(*b),
        V::U16(b) => put_u16(o, *b),
        V::U32(b) if id == SUBID => put_varint(o, *b),
        V::U32(b) => o.extend_from_slice(&b.to_be_bytes()),
        V::Str(s) | V::Bin(s) => put_str(o, s),
        V::Pair(a, b) => {
            put_str(o, a);
            put_str(o, b);
        }
    }
}
pub fn put_props(o: &mut Vec<u8>, p: &Props) {
    let mut t = Vec::new();
    for (id, v) in p {
        t.push(*id);
        put_value(&mut t, *id, v);
    }
    put_varint(o, t.len() as u32);
    o.extend_from_slice(&t);
}
/// The first byte and the body
pub fn parts(p: &P) -> (u8, Vec<u8>) {
    let mut o = Vec::new();
    let mut first = p.ty() << 4;
    match p {
        P::Connect { clean, keep, props, id, will, user, pass } => {
            put_str(&mut o, b"MQTT");
            o.push(5);
            let mut fl = 0u8;
            if *clean {
                fl += 2;
            }
            if let Some(w) = will {
                fl += 4 + 8 * w.qos;
                if w.retain {
                    fl += 32;
                }
            }
            if pass.is_some() {
                fl += 64;
            }
            if user.is_some() {
                fl += 128;
            }
            o.push(fl);
            put_u16(&mut o, *keep);
            put_props(&mut o, props);
            put_str(&mut o, id);
            if let Some(w) = will {
                put_props(&mut o, &w.props);
                put_str(&mut o, &w.topic);
                put_str(&mut o, &w.payload);
            }
            if let Some(u) = user {
                put_str(&mut o, u);
            }
            if let Some(u) = pass {
                put_str(&mut o, u);
            }
        }
        P::ConnAck { present, code, props } => {
            o.push(*present as u8);
            o.push(*code);
            put_props(&mut o, props);
        }
        P::Publish { dup, qos, retain, topic, pid, props, payload } => {
            first += *retain as u8 + 2 * qos + 8 * *dup as u8;
            put_str(&mut o, topic);
            if let Some(i) = pid {
                put_u16(&mut o, *i);
            }
            put_props(&mut o, props);
            o.extend_from_slice(payload);
        }
        P::Ack { ty, id, code, props } => {
            if *ty == 6 {
                first += 2;
            }
            put_u16(&mut o, *id);
            o.push(*code);
            put_props(&mut o, props);
        }
        P::Subscribe { id, props, topics } => {
            first += 2;
            put_u16(&mut o, *id);
            put_props(&mut o, props);
            for (t, op) in topics {
                put_str(&mut o, t);
                o.push(*op);
            }
        }
        P::Codes { id, props, codes, .. } => {
            put_u16(&mut o, *id);
            put_props(&mut o, props);
            o.extend_from_slice(codes);
        }
        P::Unsubscribe { id, props, topics } => {
            first += 2;
            put_u16(&mut o, *id);
            put_props(&mut o, props);
            for t in topics {
                put_str(&mut o, t);
            }
        }
        P::Ping { .. } => (),
        P::Reason { code, props, .. } => {
            o.push(*code);
            put_props(&mut o, props);
        }
    }
    (first, o)
}
pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut f = vec![first];
    put_varint(&mut f, body.len() as u32);
    f.extend_from_slice(body);
    f
}
pub fn encode(p: &P) -> Vec<u8> {
    let (f, b) = parts(p);
    frame(f, &b)
}

// ---------------------------------------------------------------- reading

/// The verdict on a byte string
#[derive(Debug, PartialEq, Eq)]
pub enum D {
    /// the fixed header or the rest of the frame is not there yet
    More,
    /// as More, and it is already clear that no continuation is well formed
    MoreOrBad,
    Bad(&'static str),
    Ok(P, usize),
    /// may be accepted with this content, or rejected, for the stated reason
    Either(Option<P>, usize, &'static str),
}

struct R<'a> {
    b: &'a [u8],
    i: usize,
    unsure: Option<&'static str>,
    opaque: bool,
    up: UserProp,
}
type Rs<T> = Result<T, &'static str>;
impl<'a> R<'a> {
    fn left(&self) -> usize {
        self.b.len() - self.i
    }
    fn unsure(&mut self, why: &'static str) {
        self.unsure = self.unsure.or(Some(why));
    }
    fn take(&mut self, n: usize) -> Rs<&'a [u8]> {
        if self.left() < n {
            return Err("a field ends beyond its container");
        }
        self.i += n;
        Ok(&self.b[self.i - n..self.i])
    }
    fn u8(&mut self) -> Rs<u8> {
        Ok(self.take(1)?[0])
    }
    fn u16(&mut self) -> Rs<u16> {
        let b = self.take(2)?;
        Ok(b[0] as u16 * 256 + b[1] as u16)
    }
    fn u32(&mut self) -> Rs<u32> {
        let b = self.take(4)?;
        Ok(u32::from_be_bytes([b[0], b[1], b[2], b[3]]))
    }
    fn varint(&mut self) -> Rs<u32> {
        let mut v = 0u32;
        for k in 0..4 {
            let b = self.u8()?;
            v += (b as u32 % 128) * 128u32.pow(k);
            if b < 128 {
                if b == 0 && k > 0 {
                    return Err("variable byte integer not minimal");
                }
                return Ok(v);
            }
        }
        Err("variable byte integer longer than four bytes")
    }
    fn bin(&mut self) -> Rs<Vec<u8>> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn string(&mut self) -> Rs<Vec<u8>> {
        let s = self.bin()?;
        match string_legal(&s) {
            Err(()) => Err("bad UTF-8 string"),
            Ok(fine) => {
                if !fine {
                    self.unsure("string with a non-character");
                }
                Ok(s)
            }
        }
    }
    fn pid(&mut self) -> Rs<u16> {
        let i = self.u16()?;
        if i == 0 {
            self.unsure("packet identifier 0");
        }
        Ok(i)
    }
    fn code(&mut self, ty: u8) -> Rs<u8> {
        let c = self.u8()?;
        match code_legal(ty, c) {
            Legal::Yes => Ok(c),
            Legal::No => Err("no such reason code"),
            Legal::Unclear => {
                self.unsure("reason code the standard is not clear about");
                Ok(c)
            }
        }
    }
    fn props(&mut self, owner: u8) -> Rs<Props> {
        let n = self.varint()? as usize;
        let sub = self.take(n)?;
        let mut r = R { b: sub, i: 0, unsure: self.unsure, opaque: self.opaque, up: self.up };
        let mut out: Props = Vec::new();
        while r.left() > 0 {
            let id = r.varint()?;
            let (kind, owners) = prop_info(id, self.up).ok_or("no such property")?;
            if !owners.contains(&owner) {
                return Err("property not allowed here");
            }
            let id = id as u8;
            if !repeatable(owner, id) && out.iter().any(|p| p.0 == id) {
                return Err("property twice");
            }
            let v = match kind {
                Kind::Bool => match r.u8()? {
                    0 => V::Bool(false),
                    1 => V::Bool(true),
                    _ => {
                        r.unsure("truth value that is neither 0 nor 1");
                        r.opaque = true;
                        V::Bool(true)
                    }
                },
                Kind::Byte => {
                    let b = r.u8()?;
                    if b > 1 {
                        r.unsure("truth value that is neither 0 nor 1");
                    }
                    V::Byte(b)
                }
                Kind::U16 => {
                    let b = r.u16()?;
                    if b == 0 && (id == 0x21 || id == 0x23) {
                        r.unsure("zero where it is a protocol error");
                    }
                    V::U16(b)
                }
                Kind::U32 => {
                    let b = r.u32()?;
                    if b == 0 && id == 0x27 {
                        r.unsure("zero where it is a protocol error");
                    }
                    V::U32(b)
                }
                Kind::Var => {
                    let b = r.varint()?;
                    if b == 0 {
                        r.unsure("zero where it is a protocol error");
                    }
                    V::U32(b)
                }
                Kind::Str => {
                    let s = r.string()?;
                    if id == 0x08 && s.iter().any(|c| b"#+".contains(c)) {
                        r.unsure("wildcard in the response topic");
                    }
                    if id == 0x08 && s.is_empty() {
                        r.unsure("empty topic");
                    }
                    V::Str(s)
                }
                Kind::Bin => V::Bin(r.bin()?),
                Kind::Pair => V::Pair(r.string()?, r.string()?),
            };
            out.push((id, v));
        }
        if out.iter().any(|p| p.0 == 0x16) && !out.iter().any(|p| p.0 == 0x15) {
            r.unsure("authentication data without method");
        }
        self.unsure = r.unsure;
        self.opaque = r.opaque;
        Ok(out)
    }
    fn topic_filter(&mut self) -> Rs<Vec<u8>> {
        let s = self.string()?;
        let t = std::str::from_utf8(&s).unwrap();
        if !filter_legal(t) {
            return Err("bad topic filter");
        }
        if t.is_empty() {
            self.unsure("empty topic");
        }
        if t.starts_with("$share") {
            self.unsure("shared subscription");
        }
        Ok(s)
    }
}

/// Remaining length: Ok(Some((length, bytes used))), Ok(None): not there yet
pub fn fixed_header(b: &[u8]) -> Result<Option<(usize, usize)>, &'static str> {
    let mut v = 0usize;
    for k in 0..4 {
        match b.get(1 + k) {
            None => return Ok(None),
            Some(x) => {
                v += (*x as usize % 128) << (7 * k);
                if *x < 128 {
                    if *x == 0 && k > 0 {
                        return Err("remaining length not minimal");
                    }
                    return Ok(Some((v, 2 + k)));
                }
            }
        }
    }
    Err("remaining length longer than four bytes")
}

pub fn flags_legal(first: u8) -> bool {
    let (ty, fl) = (first >> 4, first & 15);
    match ty {
        0 => false,
        3 => fl & 6 != 6,
        6 | 8 | 10 => fl == 2,
        _ => fl == 0,
    }
}

pub fn decode(b: &[u8], up: UserProp) -> D {
    if b.is_empty() {
        return D::More;
    }
    let flags_ok = flags_legal(b[0]);
    let (n, h) = match fixed_header(b) {
        Err(_) if b.len() < 6 && b[1..].iter().all(|x| *x >= 128) => return D::MoreOrBad,
        Err(e) => return D::Bad(e),
        Ok(None) if flags_ok => return D::More,
        Ok(None) => return D::MoreOrBad,
        Ok(Some(x)) => x,
    };
    if b.len() < h + n {
        return if flags_ok { D::More } else { D::MoreOrBad };
    }
    if !flags_ok {
        return D::Bad("packet type or flags");
    }
    let mut r = R { b: &b[h..h + n], i: 0, unsure: None, opaque: false, up };
    match body(b[0], &mut r) {
        Err(e) => D::Bad(e),
        Ok(_) if r.left() > 0 => D::Bad("bytes after the last field"),
        Ok(p) => match r.unsure {
            None => D::Ok(p.normal(), h + n),
            Some(w) if r.opaque => D::Either(None, h + n, w),
            Some(w) => D::Either(Some(p.normal()), h + n, w),
        },
    }
}

fn body(first: u8, r: &mut R) -> Rs<P> {
    let ty = first >> 4;
    Ok(match ty {
        1 => {
            if r.string()? != b"MQTT" {
                return Err("protocol name");
            }
            if r.u8()? != 5 {
                return Err("protocol version");
            }
            let fl = r.u8()?;
            if fl & 1 != 0 {
                return Err("reserved connect flag");
            }
            if fl & 0x18 == 0x18 {
                return Err("will QoS 3");
            }
            if fl & 4 == 0 && fl & 0x38 != 0 {
                return Err("will flags without will");
            }
            let keep = r.u16()?;
            let props = r.props(1)?;
            let id = r.string()?;
            let will = if fl & 4 != 0 {
                let props = r.props(WILL)?;
                let topic = r.string()?;
                if topic.is_empty() || topic.iter().any(|c| b"#+".contains(c)) {
                    r.unsure("will topic that is no topic name");
                }
                let payload = r.bin()?;
                Some(W { qos: (fl >> 3) & 3, retain: fl & 0x20 != 0, props, topic, payload })
            } else {
                None
            };
            let user = if fl & 0x80 != 0 { Some(r.string()?) } else { None };
            let pass = if fl & 0x40 != 0 { Some(r.bin()?) } else { None };
            P::Connect { clean: fl & 2 != 0, keep, props, id, will, user, pass }
        }
        2 => {
            let fl = r.u8()?;
            if fl > 1 {
                return Err("reserved connack flags");
            }
            let code = r.code(2)?;
            if fl == 1 && code != 0 {
                r.unsure("session present in a refusal");
            }
            P::ConnAck { present: fl == 1, code, props: r.props(2)? }
        }
        3 => {
            let (dup, qos, retain) = (first & 8 != 0, (first >> 1) & 3, first & 1 != 0);
            if dup && qos == 0 {
                r.unsure("DUP with QoS 0");
            }
            let topic = r.string()?;
            if !name_legal(std::str::from_utf8(&topic).unwrap()) {
                return Err("wildcard in a topic name");
            }
            let pid = if qos > 0 { Some(r.pid()?) } else { None };
            let props = r.props(3)?;
            if topic.is_empty() && !props.iter().any(|p| p.0 == 0x23) {
                r.unsure("empty topic");
            }
            let n = r.left();
            P::Publish { dup, qos, retain, topic, pid, props, payload: r.take(n)?.to_vec() }
        }
        4..=7 => {
            let id = r.pid()?;
            let (mut code, mut props) = (0, Vec::new());
            if r.left() > 0 {
                code = r.code(ty)?;
            }
            if r.left() > 0 {
                props = r.props(ty)?;
            }
            P::Ack { ty, id, code, props }
        }
        8 => {
            let id = r.pid()?;
            let props = r.props(8)?;
            let mut topics = Vec::new();
            while r.left() > 0 {
                let t = r.topic_filter()?;
                let o = r.u8()?;
                if o & 0xc0 != 0 || o & 3 == 3 || o & 0x30 == 0x30 {
                    return Err("subscription options");
                }
                topics.push((t, o));
            }
            if topics.is_empty() {
                return Err("empty list");
            }
            P::Subscribe { id, props, topics }
        }
        9 | 11 => {
            let id = r.pid()?;
            let props = r.props(ty)?;
            let mut codes = Vec::new();
            while r.left() > 0 {
                codes.push(r.code(ty)?);
            }
            if codes.is_empty() {
                return Err("empty list");
            }
            P::Codes { ty, id, props, codes }
        }
        10 => {
            let id = r.pid()?;
            let props = r.props(10)?;
            let mut topics = Vec::new();
            while r.left() > 0 {
                topics.push(r.topic_filter()?);
            }
            if topics.is_empty() {
                return Err("empty list");
            }
            P::Unsubscribe { id, props, topics }
        }
        12 | 13 => P::Ping { ty },
        _ => {
            let (mut code, mut props) = (0, Vec::new());
            if ty == 15 && r.left() == 1 {
                r.unsure("AUTH with a reason code and no property length");
            }
            if r.left() > 0 {
                code = r.code(ty)?;
            }
            if r.left() > 0 {
                props = r.props(ty)?;
            }
            P::Reason { ty, code, props }
        }
    })
}
