//! The inputs: families of well-formed packets, and of byte strings around them

use crate::enumr::Ch;
use crate::refc::*;
use std::sync::OnceLock;

pub fn fill(n: usize) -> Vec<u8> {
    (0..n).map(|i| b'a' + ((i * 7 + i / 251) % 26) as u8).collect()
}
pub fn fill_bin(n: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 37 + i / 256 + 128) % 256) as u8).collect()
}

static UP: OnceLock<UserProp> = OnceLock::new();
/// How the implementation wants its user properties
pub fn up() -> UserProp {
    *UP.get_or_init(|| {
        let mut f = vec![0xe0, 0, 0];
        f.extend_from_slice(&[5, 0x26, 0, 0, 0, 0]);
        f[1] = 7;
        let pair = crate::imp::decode(&f).res.is_ok();
        if pair {
            UserProp::Pair
        } else {
            UserProp::Single
        }
    })
}
pub fn kind(id: u8) -> Kind {
    prop_info(id as u32, up()).unwrap().0
}
fn user(a: &[u8], b: &[u8]) -> V {
    match up() {
        UserProp::Pair => V::Pair(a.to_vec(), b.to_vec()),
        UserProp::Single => V::Str([a, b].concat()),
    }
}

/// A value of a property, well formed
pub fn small(id: u8) -> V {
    match kind(id) {
        Kind::Bool => V::Bool(true),
        Kind::Byte => V::Byte(1),
        Kind::U16 => V::U16(0x0102 + id as u16),
        Kind::U32 => V::U32(0x01020304 + id as u32),
        Kind::Var => V::U32(5 + id as u32),
        Kind::Str => V::Str(vec![b'a' + id % 26, b'x']),
        Kind::Bin => V::Bin(vec![0, id, 255]),
        Kind::Pair => user(b"k", b"v"),
    }
}
pub const LENGTHS: [usize; 20] = [
    0, 1, 2, 3, 126, 127, 128, 129, 254, 255, 256, 257, 16382, 16383, 16384, 16385, 32767, 32768, 65534, 65535,
];
/// The values of a property that matter, all well formed
pub fn values(id: u8, long: bool) -> Vec<V> {
    let lens: Vec<usize> = LENGTHS.iter().cloned().filter(|l| long || *l < 300).collect();
    match kind(id) {
        Kind::Bool => vec![V::Bool(false), V::Bool(true)],
        Kind::Byte => vec![V::Byte(0), V::Byte(1)],
        Kind::U16 => {
            let mut v: Vec<V> = [1, 2, 127, 128, 255, 256, 0x7fff, 0x8000, 0xff00, 65535].map(V::U16).to_vec();
            if id != 0x21 && id != 0x23 {
                v.push(V::U16(0));
            }
            v
        }
        Kind::U32 => {
            let mut v: Vec<V> =
                [1, 127, 128, 255, 256, 65535, 65536, 0xffffff, 0x1000000, 0x01020304, 0x7fffffff, 0x80000000, u32::MAX]
                    .map(V::U32)
                    .to_vec();
            if id != 0x27 {
                v.push(V::U32(0));
            }
            v
        }
        Kind::Var => [1, 127, 128, 255, 256, 16383, 16384, 2097151, 2097152, 268435455].map(V::U32).to_vec(),
        Kind::Str => {
            let mut v: Vec<V> =
                lens.iter().filter(|l| **l > 0 || id != 0x08).map(|l| V::Str(fill(*l))).collect();
            v.push(V::Str("é\u{feff}\u{10000} ~".as_bytes().to_vec()));
            v
        }
        Kind::Bin => lens.iter().map(|l| V::Bin(fill_bin(*l))).collect(),
        Kind::Pair => {
            let mut v = Vec::new();
            for l in &lens {
                v.push(V::Pair(fill(*l), b"v".to_vec()));
                v.push(V::Pair(b"k".to_vec(), fill(*l)));
            }
            v
        }
    }
}
/// The properties MQTT 5 allows there
pub fn allowed_props(owner: u8) -> Vec<u8> {
    ALL_PROPS.iter().cloned().filter(|p| allowed(owner, *p)).collect()
}

/// The smallest packet of a type, or of the packet that carries the owner
pub fn minimal(owner: u8) -> P {
    match owner {
        WILL => P::Connect {
            clean: false,
            keep: 0,
            props: vec![],
            id: b"c".to_vec(),
            will: Some(W { qos: 0, retain: false, props: vec![], topic: b"w".to_vec(), payload: b"p".to_vec() }),
            user: None,
            pass: None,
        },
        1 => P::Connect {
            clean: false,
            keep: 0,
            props: vec![],
            id: b"c".to_vec(),
            will: None,
            user: None,
            pass: None,
        },
        2 => P::ConnAck { present: false, code: 0, props: vec![] },
        3 => P::Publish {
            dup: false,
            qos: 0,
            retain: false,
            topic: b"t".to_vec(),
            pid: None,
            props: vec![],
            payload: b"p".to_vec(),
        },
        4..=7 => P::Ack { ty: owner, id: 7, code: 0, props: vec![] },
        8 => P::Subscribe { id: 7, props: vec![], topics: vec![(b"t".to_vec(), 0)] },
        9 | 11 => P::Codes { ty: owner, id: 7, props: vec![], codes: vec![0] },
        10 => P::Unsubscribe { id: 7, props: vec![], topics: vec![b"t".to_vec()] },
        12 | 13 => P::Ping { ty: owner },
        _ => P::Reason { ty: owner, code: 0, props: vec![] },
    }
}
pub fn with_props(mut p: P, owner: u8, t: Props) -> P {
    match &mut p {
        P::Connect { will: Some(w), .. } if owner == WILL => w.props = t,
        P::Connect { props, .. }
        | P::ConnAck { props, .. }
        | P::Publish { props, .. }
        | P::Ack { props, .. }
        | P::Subscribe { props, .. }
        | P::Codes { props, .. }
        | P::Unsubscribe { props, .. }
        | P::Reason { props, .. } => *props = t,
        P::Ping { .. } => (),
    }
    p
}
/// Authentication data needs a method
fn complete(mut t: Props) -> Props {
    if t.iter().any(|p| p.0 == 0x16) && !t.iter().any(|p| p.0 == 0x15) {
        t.push((0x15, V::Str(b"m".to_vec())));
    }
    t
}
fn tables(owner: u8) -> Vec<Props> {
    let all = allowed_props(owner);
    let mut v = vec![vec![]];
    v.push(vec![(USER, user(b"a", b"b"))]);
    v.push(complete(all.iter().map(|i| (*i, small(*i))).collect()));
    v
}
pub const FILTERS: [&str; 12] =
    ["t", "/", "#", "+", "+/#", "a/b", "a//b", "/a", "a/+/c", "$SYS/#", "é/\u{10000}", "a/b/c/d/e/f"];
pub const NAMES: [&str; 7] = ["t", "/", "a/b", "a//", "$SYS/x", "é/\u{10000}", "a b"];
const IDS: [u16; 5] = [1, 255, 256, 0x1234, 65535];

pub fn legal_codes(ty: u8) -> Vec<u8> {
    (0..=255).filter(|c| code_legal(ty, *c) == Legal::Yes).collect()
}
pub fn legal_options() -> Vec<u8> {
    (0..64u8).filter(|o| o & 3 != 3 && o & 0x30 != 0x30).collect()
}

pub type PGen = Box<dyn Fn(&mut Ch) -> P + Send + Sync>;
pub type BGen = Box<dyn Fn(&mut Ch) -> Vec<u8> + Send + Sync>;
fn pg(f: impl Fn(&mut Ch) -> P + Send + Sync + 'static) -> PGen {
    Box::new(f)
}
fn bg(f: impl Fn(&mut Ch) -> Vec<u8> + Send + Sync + 'static) -> BGen {
    Box::new(f)
}

/// Families of well-formed packets: name, tier
pub fn packets() -> Vec<(String, u8, PGen)> {
    let mut v: Vec<(String, u8, PGen)> = Vec::new();
    let mut add = |n: &str, t: u8, g: PGen| v.push((n.to_string(), t, g));

    let (tc, tw) = (tables(1), tables(WILL));
    add("connect", 0, pg(move |ch| {
        let wills = ch.pick(8);
        let will = if wills < 2 {
            None
        } else {
            let props = tw[ch.pick(tw.len())].clone();
            let (t, p) = ch.of(&[("w", &b""[..]), ("a/b", b"x"), ("é", b"\x00\xff\x80")]);
            Some(W { qos: (wills as u8 - 2) % 3, retain: wills >= 5, props, topic: t.into(), payload: p.to_vec() })
        };
        let user = ch.of(&[None, Some(""), Some("user"), Some("é")]).map(|s| s.as_bytes().to_vec());
        let pass = ch.of(&[None, Some(&b""[..]), Some(&b"pw"[..]), Some(&b"\x00\xff"[..])]).map(|s| s.to_vec());
        P::Connect {
            clean: wills % 2 == 1 && will.is_none() || will.is_some() && ch.flag(),
            keep: ch.of(&[0, 1, 255, 256, 65535]),
            props: tc[ch.pick(tc.len())].clone(),
            id: ch.of(&["", "c", "é\u{10000}", "client-1"]).into(),
            will,
            user,
            pass,
        }
    }));
    let t = tables(2);
    let codes = legal_codes(2);
    add("connack", 0, pg(move |ch| {
        let code = ch.of(&codes);
        P::ConnAck { present: code == 0 && ch.flag(), code, props: t[ch.pick(t.len())].clone() }
    }));
    let t = tables(3);
    add("publish", 0, pg(move |ch| {
        let qos = ch.pick(3) as u8;
        P::Publish {
            dup: qos > 0 && ch.flag(),
            qos,
            retain: ch.flag(),
            pid: if qos > 0 { Some(ch.of(&IDS)) } else { None },
            topic: ch.of(&NAMES).into(),
            props: t[ch.pick(t.len())].clone(),
            payload: ch.of(&[&b""[..], b"x", b"\x00\xff\x80payload"]).to_vec(),
        }
    }));
    add("acks", 0, pg(|ch| {
        let ty = 4 + ch.pick(4) as u8;
        let t = tables(ty);
        P::Ack { ty, id: ch.of(&IDS), code: ch.of(&legal_codes(ty)), props: t[ch.pick(t.len())].clone() }
    }));
    let opts = legal_options();
    add("subscribe", 0, pg(move |ch| {
        let n = 1 + ch.pick(3);
        let t = tables(8);
        let topics = (0..n)
            .map(|i| {
                let f = if i == 0 || n == 2 { ch.of(&FILTERS) } else { ch.of(&["a/+", "#"]) };
                let o = if n == 3 { ch.of(&[0, 0x2d]) } else { ch.of(&opts) };
                (f.as_bytes().to_vec(), o)
            })
            .collect();
        if n == 2 {
            P::Subscribe { id: 7, props: vec![], topics }
        } else {
            P::Subscribe { id: ch.of(&IDS), props: t[ch.pick(t.len())].clone(), topics }
        }
    }));
    add("code-lists", 0, pg(|ch| {
        let ty = ch.of(&[9, 11]);
        let n = 1 + ch.pick(3);
        let legal = legal_codes(ty);
        let codes = (0..n).map(|_| ch.of(&legal)).collect();
        let t = tables(ty);
        P::Codes { ty, id: ch.of(&IDS), props: t[ch.pick(t.len())].clone(), codes }
    }));
    add("unsubscribe", 0, pg(|ch| {
        let n = 1 + ch.pick(3);
        let t = tables(10);
        let topics = (0..n).map(|_| ch.of(&FILTERS).as_bytes().to_vec()).collect();
        P::Unsubscribe { id: ch.of(&IDS), props: t[ch.pick(t.len())].clone(), topics }
    }));
    add("pings", 0, pg(|ch| P::Ping { ty: ch.of(&[12, 13]) }));
    add("reasons", 0, pg(|ch| {
        let ty = ch.of(&[14, 15]);
        let t = tables(ty);
        P::Reason { ty, code: ch.of(&legal_codes(ty)), props: t[ch.pick(t.len())].clone() }
    }));
    add("one-property", 0, pg(|ch| {
        let owner = ch.of(&OWNERS);
        let id = ch.of(&allowed_props(owner));
        let vs = values(id, true);
        let v = vs[ch.pick(vs.len())].clone();
        with_props(minimal(owner), owner, complete(vec![(id, v)]))
    }));
    add("two-properties", 0, pg(|ch| {
        let owner = ch.of(&OWNERS);
        let all = allowed_props(owner);
        let (a, b) = (ch.of(&all), ch.of(&all));
        if a == b && !repeatable(owner, a) {
            return with_props(minimal(owner), owner, vec![]);
        }
        let (va, vb) = (values(a, false), values(b, false));
        let t = vec![(a, va[ch.pick(va.len())].clone()), (b, vb[ch.pick(vb.len())].clone())];
        with_props(minimal(owner), owner, complete(t))
    }));
    add("property-sets", 0, pg(|ch| {
        let owner = ch.of(&OWNERS);
        let all = allowed_props(owner);
        // CONNACK has 17
        let set = ch.pick(1 << (all.len() / 2)) + (ch.pick(1 << (all.len() - all.len() / 2)) << (all.len() / 2));
        let t = all.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, p)| (*p, small(*p))).collect();
        with_props(minimal(owner), owner, complete(t))
    }));
    add("user-properties", 0, pg(|ch| {
        let owner = ch.of(&OWNERS);
        let n = ch.pick(5);
        let mut t: Props = (0..n).map(|_| (USER, ch.of(&[("", ""), ("a", ""), ("b", "xy")]))).map(|(k, (a, b))| (k, user(a.as_bytes(), b.as_bytes()))).collect();
        if let Some(p) = allowed_props(owner).first() {
            if *p != USER && ch.flag() {
                t.insert(ch.pick(n + 1), (*p, small(*p)));
            }
        }
        with_props(minimal(owner), owner, t)
    }));
    // what strings and binary data may consist of: every word of such letters, in every field
    add("words", 0, pg(|ch| {
        const LETTERS: [&str; 20] = [
            "a", "A", "0", " ", "/", "$", ".", "%", "\\", "\"", "_", "\u{a0}", "\u{e9}", "\u{301}", "\u{200b}", "\u{2028}",
            "\u{fffd}", "\u{feff}", "\u{e000}", "\u{10fffd}",
        ];
        let n = 1 + ch.pick(3);
        let s: String = (0..n).map(|_| ch.of(&LETTERS)).collect();
        worded(ch, s.into_bytes())
    }));
    add("binary-words", 0, pg(|ch| {
        let n = ch.pick(5);
        let s: Vec<u8> = (0..n).map(|_| ch.of(&[0u8, 1, 10, 0x20, b'a', 0x7f, 0x80, 0xbb, 0xbf, 0xef, 0xff])).collect();
        match ch.pick(4) {
            0 => long_bin(0, s),
            1 => long_bin(1, s),
            2 => long_bin(2, s),
            _ => {
                let (o, id) = ch.of(&[(1u8, 0x16u8), (2, 0x16), (3, 0x09), (15, 0x16), (WILL, 0x09)]);
                with_props(minimal(o), o, complete(vec![(id, V::Bin(s))]))
            }
        }
    }));
    add("lengths", 0, pg(|ch| {
        let which = ch.pick(12);
        let a = ch.of(&LENGTHS);
        let b = if which >= 8 { ch.of(&LENGTHS[..16]) } else { 1 };
        long(which, a, b)
    }));
    // every remaining length up to 600 and around the boundaries, for every packet type
    add("remaining-lengths", 0, pg(|ch| {
        let owner = ch.of(&OWNERS);
        let k = ch.pick(640);
        let n = if k < 600 { k } else if k < 620 { 16384 - 30 + k - 600 } else { 16384 - 10 + k - 620 };
        with_props(minimal(owner), owner, vec![(USER, user(b"", &fill(n)))])
    }));
    add("property-lengths", 0, pg(|ch| {
        let owner = ch.of(&OWNERS);
        let k = ch.pick(60);
        let base = ch.of(&[128usize, 16384]);
        let n = base + k - 30;
        // two properties share the length
        let t = vec![(USER, user(b"", &fill(n / 2))), (USER, user(b"", &fill(n - n / 2)))];
        with_props(minimal(owner), owner, t)
    }));
    add("long-lists", 0, pg(|ch| {
        let which = ch.pick(4);
        let k = ch.pick(50);
        let n = if k < 20 { 1 + k } else if k < 30 { 120 + k - 20 } else { 16370 + k - 30 };
        match which {
            0 => P::Codes { ty: 9, id: 7, props: vec![], codes: (0..n).map(|i| [0, 1, 2, 0x80][i % 4]).collect() },
            1 => P::Codes { ty: 11, id: 7, props: vec![], codes: (0..n).map(|i| [0, 0x11, 0x80][i % 3]).collect() },
            2 => P::Subscribe { id: 7, props: vec![], topics: (0..n / 4 + 1).map(|i| (fill(1 + i % 3), (i % 3) as u8)).collect() },
            _ => P::Unsubscribe { id: 7, props: vec![], topics: (0..n / 4 + 1).map(|i| fill(1 + i % 3)).collect() },
        }
    }));
    add("payload-lengths", 0, pg(|ch| {
        let k = ch.pick(400);
        let qos = ch.of(&[0u8, 1]);
        let n = match k {
            0..=299 => k,
            300..=349 => 16384 - 25 + k - 300,
            350..=379 => 65536 - 15 + k - 350,
            _ => 2097152 - 16 + k - 380,
        };
        P::Publish {
            dup: false,
            qos,
            retain: true,
            topic: b"t".to_vec(),
            pid: if qos > 0 { Some(1) } else { None },
            props: vec![],
            payload: fill_bin(n),
        }
    }));
    add("property-table-2M", 1, pg(|ch| {
        let owner = ch.of(&OWNERS);
        let d = ch.pick(30);
        // 32 full strings make 32 * 65538 = 2097216 bytes; end around 2097152
        let mut t: Props = (0..31).map(|_| (USER, user(b"", &fill(65535 - 2 * (up() == UserProp::Pair) as usize)))).collect();
        t.push((USER, user(b"", &fill(65535 - 64 - 15 + d - 2 * (up() == UserProp::Pair) as usize))));
        with_props(minimal(owner), owner, t)
    }));
    v
}

fn long_bin(which: usize, s: Vec<u8>) -> P {
    if which == 2 {
        return P::Publish { dup: false, qos: 0, retain: false, topic: b"t".to_vec(), pid: None, props: vec![], payload: s };
    }
    let mut c = minimal(WILL);
    if let P::Connect { will, pass, .. } = &mut c {
        match which {
            0 => *pass = Some(s),
            _ => will.as_mut().unwrap().payload = s,
        }
    }
    c
}
/// A packet with this string somewhere
fn worded(ch: &mut Ch, s: Vec<u8>) -> P {
    let which = ch.pick(7);
    let mut c = minimal(if which == 2 { WILL } else { 1 });
    match which {
        0..=2 => {
            if let P::Connect { id, will, user, .. } = &mut c {
                match which {
                    0 => *id = s,
                    1 => *user = Some(s),
                    _ => will.as_mut().unwrap().topic = s,
                }
            }
            c
        }
        3 => P::Publish { dup: false, qos: 0, retain: false, topic: s, pid: None, props: vec![], payload: b"p".to_vec() },
        4 => P::Subscribe { id: 7, props: vec![], topics: vec![(s, 1), (b"b".to_vec(), 2)] },
        5 => P::Unsubscribe { id: 7, props: vec![], topics: vec![b"b".to_vec(), s] },
        _ => {
            let texts: Vec<(u8, u8)> = OWNERS
                .iter()
                .flat_map(|o| allowed_props(*o).into_iter().map(move |p| (*o, p)))
                .filter(|(_, p)| matches!(kind(*p), Kind::Str | Kind::Pair))
                .collect();
            let (o, p) = texts[ch.pick(texts.len())];
            let v = match kind(p) {
                Kind::Pair if ch.flag() => V::Pair(s, b"v".to_vec()),
                Kind::Pair => V::Pair(b"k".to_vec(), s),
                _ => V::Str(s),
            };
            with_props(minimal(o), o, complete(vec![(p, v)]))
        }
    }
}

/// Packets with long fields
fn long(which: usize, a: usize, b: usize) -> P {
    let mut c = minimal(if matches!(which, 1 | 2 | 8) { WILL } else { 1 });
    match which {
        0..=4 | 8 | 9 => {
            if let P::Connect { id, will, user, pass, .. } = &mut c {
                match which {
                    0 => *id = fill(a),
                    1 => will.as_mut().unwrap().topic = fill(a.max(1)),
                    2 => will.as_mut().unwrap().payload = fill_bin(a),
                    3 => *user = Some(fill(a)),
                    4 => *pass = Some(fill_bin(a)),
                    8 => {
                        will.as_mut().unwrap().topic = fill(a.max(1));
                        will.as_mut().unwrap().payload = fill_bin(b);
                        *user = Some(fill(b));
                    }
                    _ => {
                        *id = fill(a);
                        *user = Some(fill(b));
                        *pass = Some(fill_bin(a));
                    }
                }
            }
            c
        }
        5 => P::Publish { dup: false, qos: 1, retain: false, topic: fill(a.max(1)), pid: Some(9), props: vec![], payload: b"p".to_vec() },
        6 => P::Subscribe { id: 7, props: vec![], topics: vec![(fill(a.max(1)), 1), (b"b".to_vec(), 2)] },
        7 => P::Unsubscribe { id: 7, props: vec![], topics: vec![fill(a.max(1)), b"b".to_vec()] },
        10 => P::Publish { dup: true, qos: 2, retain: true, topic: fill(a.max(1)), pid: Some(9), props: vec![(0x03, V::Str(fill(b)))], payload: fill_bin(b) },
        _ => P::Subscribe { id: 7, props: vec![], topics: vec![(fill(a.max(1)), 1), (fill(b.max(1)), 2)] },
    }
}

/// A moderate set of packets that between them contain every field
pub fn bases() -> Vec<P> {
    let mut v = Vec::new();
    for o in OWNERS {
        v.push(minimal(o));
        for p in allowed_props(o) {
            v.push(with_props(minimal(o), o, complete(vec![(p, small(p))])));
        }
        v.push(with_props(minimal(o), o, vec![(USER, user(b"a", b"")), (USER, user(b"b", b"c"))]));
    }
    v.push(P::Ping { ty: 12 });
    v.push(P::Ping { ty: 13 });
    for (u, p) in [(true, false), (false, true), (true, true)] {
        v.push(P::Connect {
            clean: true,
            keep: 60,
            props: vec![(0x11, V::U32(30)), (0x21, V::U16(10))],
            id: b"cl".to_vec(),
            will: if p { Some(W { qos: 2, retain: true, props: vec![(0x18, V::U32(5))], topic: b"w/t".to_vec(), payload: b"bye".to_vec() }) } else { None },
            user: if u { Some(b"us".to_vec()) } else { None },
            pass: if p { Some(b"pw".to_vec()) } else { None },
        });
    }
    for q in 0..3u8 {
        v.push(P::Publish {
            dup: q > 0,
            qos: q,
            retain: q == 1,
            topic: "a/é".into(),
            pid: if q > 0 { Some(0x102) } else { None },
            props: vec![(0x01, V::Byte(1)), (0x23, V::U16(3))],
            payload: vec![1, 2, 0xff],
        });
    }
    v.push(P::Subscribe { id: 0x102, props: vec![(SUBID, V::U32(300))], topics: vec![(b"a/#".to_vec(), 1), (b"+/b".to_vec(), 0x2e)] });
    v.push(P::Unsubscribe { id: 0x102, props: vec![], topics: vec![b"a/#".to_vec(), b"+".to_vec(), b"c".to_vec()] });
    v.push(P::Codes { ty: 9, id: 0x102, props: vec![(0x1f, V::Str(b"r".to_vec()))], codes: vec![0, 1, 2, 0x80] });
    v.push(P::Codes { ty: 11, id: 0x102, props: vec![(0x1f, V::Str(b"r".to_vec()))], codes: vec![0, 0x11, 0x80] });
    v
}
static BASES: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
/// Their encodings
pub fn base_frames() -> &'static [Vec<u8>] {
    BASES.get_or_init(|| {
        let mut v: Vec<Vec<u8>> = bases().iter().map(encode).collect();
        // short forms
        for f in [&[0xe0u8, 0][..], &[0xe0, 1, 0], &[0xf0, 0], &[0x40, 2, 0, 1], &[0x50, 3, 0, 1, 0], &[0x62, 2, 0, 1], &[0x70, 3, 0, 1, 0], b"\x30\x08\0\x01t\x04\x0b\x01\x0b\x02"] {
            v.push(f.to_vec());
        }
        v
    })
}

const SYMBOLS: [u8; 20] =
    [0, 1, 2, 3, 4, 5, 6, b'#', b'+', b'/', b'a', 0x26, 0x1f, 0x0b, 0x7f, 0x80, 0x81, 0xc3, 0xa9, 0xff];

fn refix(f: &[u8], body: Vec<u8>) -> Vec<u8> {
    frame(f[0], &body)
}

/// Families of byte strings: name, tier. `deep` families are for judges that are cheap.
pub fn frames() -> Vec<(String, u8, BGen)> {
    let mut v: Vec<(String, u8, BGen)> = Vec::new();
    // the well-formed ones, also with the properties the other way round
    for (n, t, g) in packets() {
        v.push((format!("wellformed-{}", n), t, bg(move |ch| encode(&g(ch)))));
    }
    let mut add = |n: String, t: u8, g: BGen| v.push((n, t, g));
    add("wellformed-reversed-properties".into(), 0, bg(|ch| {
        let owner = ch.of(&OWNERS);
        let all = allowed_props(owner);
        let (a, b, c) = (ch.of(&all), ch.of(&all), ch.of(&all));
        let mut t: Props = Vec::new();
        for p in [a, b, c] {
            if p == USER || !t.iter().any(|x| x.0 == p) {
                t.push((p, small(p)));
            }
        }
        t = complete(t);
        t.reverse();
        encode(&with_props(minimal(owner), owner, t))
    }));

    // ---- trees of bytes
    add("bytes-short".into(), 0, bg(|ch| {
        let n = ch.pick(3);
        (0..n).map(|_| ch.pick(256) as u8).collect()
    }));
    add("bytes-complete-2".into(), 0, bg(|ch| {
        // every frame with up to two bytes after a one-byte remaining length
        let f = ch.pick(256) as u8;
        let n = ch.pick(3);
        let mut b = vec![f, n as u8];
        for _ in 0..n {
            b.push(ch.pick(256) as u8);
        }
        b
    }));
    add("bytes-complete-3".into(), 1, bg(|ch| {
        let f = ch.of(&FIRST);
        let mut b = vec![f, 3];
        for _ in 0..3 {
            b.push(ch.pick(256) as u8);
        }
        b
    }));
    for (n, k, tier) in [(3usize, 20usize, 0u8), (4, 20, 0), (5, 14, 0), (6, 9, 0), (7, 7, 0), (5, 20, 1), (6, 14, 1), (7, 10, 1), (8, 7, 1)] {
        add(format!("bytes-complete-{}-of-{}", n, k), tier, bg(move |ch| {
            let f = ch.of(&FIRST);
            let mut b = vec![f, n as u8];
            let set = symbols(f, k);
            for _ in 0..n {
                b.push(ch.of(&set));
            }
            b
        }));
    }
    add("bytes-header".into(), 0, bg(|ch| {
        // remaining lengths of every shape, with little behind them
        let f = ch.of(&FIRST);
        let n = ch.pick(6);
        let mut b = vec![f];
        for _ in 0..n {
            b.push(ch.of(&[0, 1, 2, 3, 0x7f, 0x80, 0x81, 0x82, 0xff]));
        }
        b
    }));

    // ---- single fields over all their values
    add("first-byte".into(), 0, bg(|ch| {
        let bodies = base_frames();
        let b = &bodies[ch.pick(bodies.len())];
        let mut f = b.clone();
        f[0] = ch.pick(256) as u8;
        f
    }));
    add("connect-flags".into(), 0, bg(|ch| {
        // all flag bytes, and all combinations of the sections they announce
        let fl = ch.pick(256) as u8;
        let sections = if ch.flag() { fl } else { (ch.pick(8) as u8) << 5 };
        let (w, u, p) = if sections == fl { (fl & 4 != 0, fl & 0x80 != 0, fl & 0x40 != 0) } else { (sections & 0x20 != 0, sections & 0x80 != 0, sections & 0x40 != 0) };
        let mut o = Vec::new();
        put_str(&mut o, b"MQTT");
        o.push(5);
        o.push(fl);
        put_u16(&mut o, 60);
        put_props(&mut o, &vec![]);
        put_str(&mut o, ch.of(&["", "c"]).as_bytes());
        if w {
            put_props(&mut o, &vec![]);
            put_str(&mut o, b"w");
            put_str(&mut o, b"pp");
        }
        if u {
            put_str(&mut o, b"u");
        }
        if p {
            put_str(&mut o, b"s");
        }
        frame(0x10, &o)
    }));
    add("connect-protocol".into(), 0, bg(|ch| {
        let name = ch.of(&[&b"MQTT"[..], b"MQT", b"MQTTT", b"mqtt", b"MQTt", b"MQIsdp", b"", b"\0MQTT", b"NQTT", b"MQTT\xff"]);
        let version = ch.pick(256) as u8;
        let mut o = Vec::new();
        put_str(&mut o, name);
        o.push(version);
        o.push(2);
        put_u16(&mut o, 60);
        put_props(&mut o, &vec![]);
        put_str(&mut o, b"c");
        frame(0x10, &o)
    }));
    add("connack-bytes".into(), 0, bg(|ch| {
        let (a, b) = (ch.pick(256) as u8, ch.pick(256) as u8);
        vec![0x20, 3, a, b, 0]
    }));
    add("ack-codes".into(), 0, bg(|ch| {
        let ty = 4 + ch.pick(4) as u8;
        let c = ch.pick(256) as u8;
        let id = ch.of(&[0u16, 1, 256, 65535]);
        let mut o = Vec::new();
        put_u16(&mut o, id);
        o.push(c);
        if ch.flag() {
            put_props(&mut o, &vec![(0x1f, V::Str(b"why".to_vec()))]);
        } else {
            o.push(0);
        }
        frame(ty << 4 | if ty == 6 { 2 } else { 0 }, &o)
    }));
    add("reason-codes".into(), 0, bg(|ch| {
        let ty = ch.of(&[14u8, 15]);
        let c = ch.pick(256) as u8;
        let mut o = vec![c];
        put_props(&mut o, &if ch.flag() { vec![(0x1f, V::Str(b"why".to_vec()))] } else { vec![] });
        frame(ty << 4, &o)
    }));
    add("code-list-bytes".into(), 0, bg(|ch| {
        let ty = ch.of(&[9u8, 11]);
        let n = ch.pick(4);
        let mut o = vec![0, 7, 0];
        if n > 0 {
            let at = ch.pick(n);
            let c = ch.pick(256) as u8;
            for i in 0..n {
                o.push(if i == at { c } else { ch.of(&[0, 0x80, 3]) });
            }
        }
        frame(ty << 4, &o)
    }));
    add("option-bytes".into(), 0, bg(|ch| {
        let n = ch.pick(4);
        let mut o = vec![0, 7, 0];
        if n > 0 {
            let at = ch.pick(n);
            let c = ch.pick(256) as u8;
            for i in 0..n {
                put_str(&mut o, ch.of(&["a", "b/#", "a#"]).as_bytes());
                o.push(if i == at { c } else { ch.of(&[0, 0x2d]) });
            }
        }
        frame(0x82, &o)
    }));
    add("publish-flags".into(), 0, bg(|ch| {
        // all flags, with and without identifier, every identifier boundary
        let f = 0x30 + ch.pick(16) as u8;
        let mut o = Vec::new();
        put_str(&mut o, ch.of(&["", "t", "a/b", "t#"]).as_bytes());
        if ch.flag() {
            put_u16(&mut o, ch.of(&[0, 1, 255, 256, 65535]));
        }
        let k = ch.pick(3);
        if k > 0 {
            put_props(&mut o, &if k == 2 { vec![(0x23, V::U16(1))] } else { vec![] });
        }
        o.extend_from_slice(ch.of(&[&b""[..], b"\0", b"\0x", b"\x03\x26\x00\x00"]));
        frame(f, &o)
    }));

    // ---- strings
    add("utf8-every-character".into(), 0, bg(|ch| {
        let c = ch.pick(0x1100) as u32 * 256 + ch.pick(256) as u32;
        // surrogates are written down as such
        let mut enc = Vec::new();
        match char::from_u32(c) {
            Some(c) => enc.extend_from_slice(c.to_string().as_bytes()),
            None => enc.extend_from_slice(&[0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]),
        }
        if c == b'#' as u32 || c == b'+' as u32 {
            enc.push(b'x');
        }
        // alone, first, last, in between, and in other fields
        let form = ch.pick(6);
        let s = match form {
            0 => enc,
            1 => [&enc[..], b"b"].concat(),
            2 => [b"a", &enc[..]].concat(),
            _ => [b"a", &enc[..], b"b"].concat(),
        };
        string_in(form.saturating_sub(3), &s)
    }));
    add("utf8-special-characters".into(), 0, bg(|ch| {
        // where a receiver may be tempted to drop, to fold or to stop
        let c = ch.of(&[
            "\u{feff}", "\u{fffe}", "\u{fffd}", "\u{200b}", "\u{200e}", "\u{2028}", "\u{a0}", "\u{ad}", "\u{301}", "\u{e000}",
            "\u{10ffff}", "\u{fdd0}", " ", "$", "/", "A", "%", "\\",
        ]);
        let d = ch.of(&["", "a", " ", "\u{feff}"]);
        let w = ch.pick(STRING_PLACES);
        let s = match ch.pick(3) {
            0 => [c, d, "a"].concat(),
            1 => ["a", d, c].concat(),
            _ => [c, d, c].concat(),
        };
        string_in(w, s.as_bytes())
    }));
    add("utf8-two-bytes".into(), 0, bg(|ch| {
        let s = [ch.pick(256) as u8, ch.pick(256) as u8];
        let w = ch.pick(STRING_PLACES);
        string_in(w, &s)
    }));
    add("utf8-three-bytes".into(), 0, bg(|ch| {
        let s = [ch.of(&UTF8), ch.of(&UTF8), ch.of(&UTF8)];
        let w = ch.pick(STRING_PLACES);
        string_in(w, &s)
    }));
    add("utf8-four-bytes".into(), 0, bg(|ch| {
        let s = [ch.of(&UTF8), ch.of(&UTF8), ch.of(&UTF8), ch.of(&UTF8)];
        let w = ch.of(&[0, 3]);
        string_in(w, &s)
    }));
    add("string-lengths".into(), 0, bg(|ch| {
        // the length field of a string against its bytes
        let w = ch.pick(STRING_PLACES);
        let n = ch.pick(6);
        let said = ch.of(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 255, 256, 65535]);
        string_said(w, &fill(n), said)
    }));

    // ---- properties
    add("property-of-any-owner".into(), 0, bg(|ch| {
        let owner = ch.of(&OWNERS);
        let id = ch.of(&ALL_PROPS);
        let vs = values(id, false);
        let v = vs[ch.pick(vs.len())].clone();
        encode(&with_props(minimal(owner), owner, vec![(id, v)]))
    }));
    add("property-values".into(), 0, bg(|ch| {
        // one-byte values completely, two-byte values completely
        let owner = ch.of(&OWNERS);
        let id = ch.of(&allowed_props(owner));
        let v = match kind(id) {
            Kind::Bool | Kind::Byte => V::Byte(ch.pick(256) as u8),
            Kind::U16 => V::U16(ch.pick(65536) as u16),
            Kind::U32 => V::U32(ch.of(&[0, 1, 255, 256, 65536, 0x01020304, u32::MAX])),
            Kind::Var => V::U32(ch.pick(20000) as u32),
            _ => small(id),
        };
        encode(&with_props(minimal(owner), owner, vec![(id, v)]))
    }));
    add("property-pairs-of-any-owner".into(), 0, bg(|ch| {
        let owner = ch.of(&OWNERS);
        let t = vec![pick_prop(ch), pick_prop(ch)];
        encode(&with_props(minimal(owner), owner, t))
    }));
    add("property-triples-of-any-owner".into(), 0, bg(|ch| {
        let owner = ch.of(&OWNERS);
        let t = (0..3).map(|_| { let i = ch.of(&ALL_PROPS); (i, small(i)) }).collect();
        encode(&with_props(minimal(owner), owner, t))
    }));
    add("property-identifiers".into(), 0, bg(|ch| {
        // every identifier byte, also in non-minimal form, before values of every shape
        let owner = ch.of(&OWNERS);
        let id = ch.pick(256) as u8;
        let wide = ch.pick(3);
        let mut t = match wide {
            0 => vec![id],
            1 => vec![id | 0x80, 0],
            _ => vec![id | 0x80, 1],
        };
        t.extend_from_slice(ch.of(&[&b""[..], b"\0", b"\x01", b"\0\x01", b"\0\0\0\x01", b"\0\x01a", b"\0\x01a\0\x01b", b"\0\0"]));
        raw_props(owner, &t, t.len())
    }));
    add("property-table-length".into(), 0, bg(|ch| {
        // the announced length of the table against the table
        let owner = ch.of(&OWNERS);
        let k = ch.pick(3);
        let all = allowed_props(owner);
        let mut t = Vec::new();
        for _ in 0..k {
            let i = ch.of(&all);
            t.push(i);
            put_value(&mut t, i, &small(i));
        }
        let n = ch.pick(t.len() + 8);
        raw_props(owner, &t, n)
    }));
    add("property-table-length-bytes".into(), 0, bg(|ch| {
        // the length of the table in every (also malformed) variable-length form
        let owner = ch.of(&OWNERS);
        let n = 1 + ch.pick(5);
        let l: Vec<u8> = (0..n).map(|_| ch.of(&[0, 1, 2, 3, 4, 0x7f, 0x80, 0x81, 0x84, 0xff])).collect();
        let tail = ch.of(&[&b""[..], b"\x26\0\x01a"]);
        raw_table(owner, &[&l[..], tail].concat())
    }));
    add("subscription-identifier-bytes".into(), 0, bg(|ch| {
        let owner = ch.of(&[3u8, 8]);
        let n = 1 + ch.pick(5);
        let mut t = vec![SUBID];
        for _ in 0..n {
            t.push(ch.of(&[0, 1, 0x0b, 0x7f, 0x80, 0x81, 0xff]));
        }
        let k = ch.pick(t.len() + 2);
        raw_props(owner, &t, k)
    }));

    add("short-forms".into(), 0, bg(|ch| {
        let first = ch.of(&[0x40u8, 0x50, 0x62, 0x70, 0xe0, 0xf0]);
        let mut b = Vec::new();
        if first < 0xe0 {
            b.extend_from_slice(ch.of(&[&b""[..], b"\0", b"\0\0", b"\0\x01", b"\x01\0", b"\xff\xff"]));
        }
        if ch.flag() {
            b.push(ch.pick(256) as u8);
            b.extend_from_slice(ch.of(&[&b""[..], b"\0", b"\x01", b"\x80", b"\0\0", b"\x80\0", b"\x03\x1f\0\0", b"\x04\x1f\0\x01r"]));
        }
        frame(first, &b)
    }));
    for (depth, tier) in [(3usize, 0u8), (4, 1)] {
        add(format!("subscription-identifiers-{}", depth), tier, bg(move |ch| {
            let owner = ch.of(&[3u8, 8]);
            let n = ch.pick(depth + 1);
            let mut t = Vec::new();
            for _ in 0..n {
                t.extend_from_slice(ch.of(&[&b"\x0b\x01"[..], b"\x0b\x02", b"\x0b\0", b"\x0b\x80\x01", b"\x01\x01", b"\x26\0\x01a", b"\x26\0\x01a\0\x01b"]));
            }
            let k = ch.pick(t.len() + 2);
            raw_props(owner, &t, k)
        }));
    }

    // ---- mutations of the bases
    let subst = |two: bool| {
        bg(move |ch: &mut Ch| {
            let all = base_frames();
            let mut f = all[ch.pick(all.len())].clone();
            let i = ch.pick(f.len());
            f[i] = if two { ch.of(&SYMBOLS) } else { ch.pick(256) as u8 };
            if two {
                let j = ch.pick(f.len());
                f[j] = ch.of(&SYMBOLS);
            }
            f
        })
    };
    add("mutation-one-byte".into(), 0, subst(false));
    add("mutation-two-bytes".into(), 0, subst(true));
    add("mutation-insert".into(), 0, bg(|ch| {
        let all = base_frames();
        let f = &all[ch.pick(all.len())];
        let mut b = f[2..].to_vec();
        let i = ch.pick(b.len() + 1);
        b.insert(i, ch.pick(256) as u8);
        refix(f, b)
    }));
    add("mutation-delete".into(), 0, bg(|ch| {
        // remove any range
        let all = base_frames();
        let f = &all[ch.pick(all.len())];
        let b = f[2..].to_vec();
        let i = ch.pick(b.len() + 1);
        let j = i + ch.pick(b.len() + 1 - i);
        refix(f, [&b[..i], &b[j..]].concat())
    }));
    add("mutation-repeat".into(), 0, bg(|ch| {
        // repeat any range
        let all = base_frames();
        let f = &all[ch.pick(all.len())];
        let b = f[2..].to_vec();
        let i = ch.pick(b.len() + 1);
        let j = i + ch.pick(b.len() + 1 - i);
        refix(f, [&b[..j], &b[i..]].concat())
    }));
    add("mutation-length".into(), 0, bg(|ch| {
        // another remaining length before the same bytes, in every form
        let all = base_frames();
        let f = &all[ch.pick(all.len())];
        let n = ch.pick(f.len() + 6);
        let form = ch.pick(4);
        let mut g = vec![f[0]];
        match form {
            0 => put_varint(&mut g, n as u32),
            1 => g.extend_from_slice(&[n as u8 | 0x80, 0]),
            2 => g.extend_from_slice(&[n as u8 | 0x80, 0x80, 0]),
            _ => g.extend_from_slice(&[n as u8 | 0x80, 0x80, 0x80, 0x80, 0]),
        }
        g.extend_from_slice(&f[2..]);
        g
    }));
    add("mutation-three-bytes".into(), 1, bg(|ch| {
        let all = base_frames();
        let mut f = all[ch.pick(all.len())].clone();
        let i = ch.pick(f.len());
        f[i] = ch.of(&SYMBOLS[..12]);
        let j = ch.pick(i + 1);
        f[j] = ch.of(&SYMBOLS[..12]);
        let k = ch.pick(j + 1);
        f[k] = ch.of(&SYMBOLS[..12]);
        f
    }));
    add("mutation-insert-and-change".into(), 1, bg(|ch| {
        let all = base_frames();
        let f = &all[ch.pick(all.len())];
        let mut b = f[2..].to_vec();
        let i = ch.pick(b.len() + 1);
        b.insert(i, ch.of(&SYMBOLS));
        let j = ch.pick(b.len());
        b[j] = ch.of(&SYMBOLS);
        refix(f, b)
    }));
    v
}

/// All first bytes that are not malformed
pub const FIRST: [u8; 26] = [
    0x10, 0x20, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x40, 0x50, 0x62, 0x70, 0x82,
    0x90, 0xa2, 0xb0, 0xc0, 0xd0, 0xe0, 0xf0,
];
/// Bytes that mean something in that packet type, the most telling first
fn symbols(first: u8, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = match first >> 4 {
        3 => vec![0, 1, b'a', 2, 3, b'#', 0x23, 0x0b, 5, 4, b'+', b'/', 0x80, 0xff],
        4 | 5 => vec![0, 1, 0x10, 0x80, 4, 0x1f, b'a', 3, 0x26, 2],
        6 | 7 => vec![0, 1, 0x92, 4, 0x1f, b'a', 3, 0x26, 2, 0x80],
        8 => vec![0, 1, b'a', 2, 0x0b, b'#', b'+', b'/', 3, 0x2c, 0x40, 0x30, 0x80, 5],
        9 => vec![0, 1, 2, 0x80, 0x1f, 4, b'a', 3, 0x26, 0x9e],
        10 => vec![0, 1, b'a', 2, b'#', b'/', b'+', 3, 0x26, 4],
        11 => vec![0, 1, 0x11, 0x80, 0x1f, 4, b'a', 3, 0x26, 2],
        14 => vec![0, 4, 0x80, 0x1f, 1, b'a', 3, 0x26, 0x11, 5, 2, 0x1c, 0x82],
        15 => vec![0, 0x18, 0x15, 1, b'a', 4, 0x19, 0x16, 0x1f, 3, 0x26, 2],
        2 => vec![0, 1, 0x80, 2, 0x24, 0x13, 3, 0x25, 4, 0x1f, b'a'],
        _ => vec![0, 1, 4, b'M', b'Q', b'T', 5, 2],
    };
    for s in SYMBOLS {
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v.truncate(n);
    v
}

const UTF8: [u8; 28] = [
    0x00, 0x1f, 0x20, b'a', b'/', 0x7e, 0x7f, 0x80, 0x85, 0x8f, 0x90, 0x9f, 0xa0, 0xbd, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf,
    0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf3, 0xf4, 0xf5, 0xff,
];
pub const STRING_PLACES: usize = 8;
/// A frame with these bytes where a string belongs
fn string_in(place: usize, s: &[u8]) -> Vec<u8> {
    string_said(place, s, s.len())
}
fn string_said(place: usize, s: &[u8], said: usize) -> Vec<u8> {
    let mut field = Vec::new();
    put_u16(&mut field, said as u16);
    field.extend_from_slice(s);
    let head = |fl: u8| {
        let mut o = Vec::new();
        put_str(&mut o, b"MQTT");
        o.extend_from_slice(&[5, fl, 0, 0, 0]);
        o
    };
    match place {
        // client identifier
        0 => frame(0x10, &[&head(2)[..], &field].concat()),
        // topic name
        1 => frame(0x30, &[&field[..], b"\0x"].concat()),
        // topic filter
        2 => frame(0x82, &[&b"\0\x07\0"[..], &field, b"\0"].concat()),
        // reason string
        3 => frame(0xe0, &[&[0, field.len() as u8 + 1, 0x1f][..], &field].concat()),
        // user name
        4 => frame(0x10, &[&head(0x82)[..], b"\0\x01c", &field].concat()),
        // will topic
        5 => frame(0x10, &[&head(6)[..], b"\0\x01c", b"\0", &field, b"\0\x01p"].concat()),
        // filter of an UNSUBSCRIBE
        6 => frame(0xa2, &[&b"\0\x07\0"[..], &field].concat()),
        // password: binary
        _ => frame(0x10, &[&head(0x42)[..], b"\0\x01c", &field].concat()),
    }
}
/// A frame whose property table is these bytes, announced with that length
fn raw_props(owner: u8, table: &[u8], said: usize) -> Vec<u8> {
    let mut t = Vec::new();
    put_varint(&mut t, said as u32);
    t.extend_from_slice(table);
    raw_table(owner, &t)
}
/// A frame with these bytes in the place of length and properties
fn raw_table(owner: u8, t: &[u8]) -> Vec<u8> {
    // an empty table is the one byte 0; find it by a marker table
    let (f, plain) = parts(&minimal(owner));
    let marked = parts(&with_props(minimal(owner), owner, vec![(USER, user(b"", b"zz"))])).1;
    let at = plain.iter().zip(&marked).position(|(a, b)| a != b).unwrap_or(plain.len() - 1);
    frame(f, &[&plain[..at], t, &plain[at + 1..]].concat())
}
fn pick_prop(ch: &mut Ch) -> (u8, V) {
    let id = ch.of(&ALL_PROPS);
    let vs = values(id, false);
    let v = match kind(id) {
        Kind::Bool | Kind::Byte => vs[ch.pick(2)].clone(),
        Kind::Str | Kind::Bin | Kind::Pair => [small(id), vs[vs.len() - 1].clone()][ch.pick(2)].clone(),
        _ => vs[[0, vs.len() - 1][ch.pick(2)]].clone(),
    };
    (id, v)
}
