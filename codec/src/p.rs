//! The properties P01 to P10

use crate::enumr::*;
use crate::gen::{self, *};
use crate::imp::{self, B};
use crate::refc::{self, *};
use apiformes_packet::connect::{Connect, Will};
use apiformes_packet::packet::Packet;
use apiformes_packet::props::{MqttPropValue, PropOwner, Properties, Property};
use apiformes_packet::publish::Publish;
use apiformes_packet::subscribe::{Subscribe, SubscriptionOptions};
use apiformes_packet::topic::MqttTopic;
use apiformes_packet::unsubscribe::Unsubscribe;
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::sync::Arc;

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(80) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 80 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
fn at(b: &[u8], what: impl std::fmt::Display) -> String {
    format!("{} [frame {}]", what, hex(b))
}

type Judge = fn(&[u8], &mut Local) -> Result<(), String>;
fn on_frames(skip_long: bool, judge: Judge) -> Vec<Family> {
    frames()
        .into_iter()
        .filter(|(n, _, _)| !skip_long || !LONG.iter().any(|l| n.ends_with(l)))
        .map(|(n, t, g)| {
            family(n, t, move |ch, l| {
                let b = g(ch);
                if !ch.mine() {
                    return Ok(());
                }
                judge(&b, l)
            })
        })
        .collect()
}
/// Families of long frames
const LONG: [&str; 5] = ["-lengths", "remaining-lengths", "property-lengths", "long-lists", "table-2M"];

// ------------------------------------------------------------ P01

fn j01(b: &[u8], l: &mut Local) -> Result<(), String> {
    let n = b.len();
    let o = imp::decode(b);
    l.calls += 1;
    match &o.res {
        Ok(p) => {
            l.accepted += 1;
            l.outcome(&(p.frame_len(), b[0]));
        }
        Err(e) if imp::is_more(e) => l.waiting += 1,
        Err(e) => {
            l.rejected += 1;
            l.outcome(&format!("{:?}", e));
        }
    }
    // two and three segments
    if n <= 12 {
        for i in 1..n {
            imp::decode_seg(&[&b[..i], &b[i..]]);
            l.calls += 1;
        }
    } else {
        for i in [1, 2, 3, 4, 5, n / 2, n - 2, n - 1] {
            imp::decode_seg(&[&b[..i], &b[i..]]);
            l.calls += 1;
        }
    }
    if n > 3 && n < 4096 {
        let ones: Vec<&[u8]> = b.chunks(1).collect();
        imp::decode_seg(&ones);
        l.calls += 1;
    }
    Ok(())
}
pub fn p01() -> Vec<Family> {
    let mut v = on_frames(false, j01);
    // these need no reference, so they can go deeper
    for (n, k, tier) in [(4usize, 32usize, 0u8), (5, 16, 0), (4, 64, 1), (6, 16, 1)] {
        v.push(family(format!("any-bytes-{}-of-{}", n, k), tier, move |ch, l| {
            let f = ch.of(&FIRST);
            let mut b = vec![f, n as u8];
            for _ in 0..n {
                let i = ch.pick(k);
                b.push(if k == 64 { (i * 4 + i / 16) as u8 } else { ANY[i] });
            }
            if !ch.mine() {
                return Ok(());
            }
            l.calls += 1;
            match imp::decode(&b).res {
                Ok(_) => l.accepted += 1,
                Err(e) if imp::is_more(&e) => l.waiting += 1,
                Err(_) => l.rejected += 1,
            }
            Ok(())
        }));
    }
    // strict prefixes, too, must not panic
    v.push(family("prefixes", 0, |ch, l| {
        let all = base_frames();
        let f = &all[ch.pick(all.len())];
        let n = ch.pick(f.len());
        let i = ch.pick(n + 1);
        let v = ch.pick(256) as u8;
        if !ch.mine() {
            return Ok(());
        }
        let mut b = f[..n].to_vec();
        if i < n {
            b[i] = v;
        }
        j01(&b, l)
    }));
    v
}
const ANY: [u8; 32] = [
    0, 1, 2, 3, 4, 5, 0x80, 0xff, 0x0b, 0x26, 0x1f, b'a', b'#', 0x81, 0x7f, b'/', b'+', 6, 7, 8, 0x10, 0x11, 0x15, 0x16, 0x23, 0x21,
    0x24, 0xc3, 0xa9, 0xf0, 0x92, 0x40,
];

// ------------------------------------------------------------ P02

/// The fields a short form leaves out count in frame_len, they are there when it is encoded
fn full_len(first: u8, remaining: usize, total: usize) -> usize {
    match (first >> 4, remaining) {
        (4..=7, 0..=3) => 6,
        (14 | 15, 0..=1) => 4,
        _ => total,
    }
}
fn j02(b: &[u8], l: &mut Local) -> Result<(), String> {
    let o = imp::decode(b);
    l.calls += 1;
    let (n, h) = match fixed_header(b) {
        Ok(Some(x)) => x,
        _ => {
            l.rejected += 1;
            return match o.res {
                Ok(_) => Err(at(b, "a packet without a complete fixed header")),
                Err(_) => Ok(()),
            };
        }
    };
    if b.len() < h + n {
        l.waiting += 1;
        return match o.res {
            Ok(_) => Err(at(b, "a packet from an incomplete frame")),
            Err(_) => Ok(()),
        };
    }
    let total = h + n;
    let me = match &o.res {
        Ok(p) => {
            l.accepted += 1;
            if o.used != total {
                return Err(at(b, format!("{} bytes consumed, the frame announces {}", o.used, total)));
            }
            if p.frame_len() != full_len(b[0], n, total) {
                return Err(at(b, format!("the packet reports {} bytes, the frame has {}", p.frame_len(), total)));
            }
            let c = imp::content(p).map_err(|e| at(b, e))?;
            l.outcome(&c);
            Some(c)
        }
        Err(_) => {
            l.rejected += 1;
            None
        }
    };
    // whatever follows
    let mut g = b[..total].to_vec();
    for tail in TAILS.iter().copied().chain([&b[..total.min(300)]]) {
        g.truncate(total);
        g.extend_from_slice(tail);
        l.calls += 1;
        match (&me, imp::decode(&g)) {
            (None, o) => {
                if o.res.is_ok() {
                    return Err(at(&g, format!("a packet from a malformed frame of {} bytes that is followed by others", total)));
                }
            }
            (Some(c), o) => match &o.res {
                Err(e) => return Err(at(&g, format!("{:?} because of the bytes that follow a frame of {} bytes", e, total))),
                Ok(p) => {
                    if o.used != total || p.frame_len() != full_len(b[0], n, total) {
                        return Err(at(
                            &g,
                            format!("{} bytes consumed, {} reported, the frame announces {}", o.used, p.frame_len(), total),
                        ));
                    }
                    if &imp::content(p)? != c {
                        return Err(at(&g, format!("the bytes after the frame change the packet {:?}", c)));
                    }
                }
            },
        }
    }
    Ok(())
}
const TAILS: [&[u8]; 8] = [
    b"\0",
    b"\xff\xff\xff",
    b"\0\0\0\0\0\0\0\0",
    b"\xc0\0",
    b"\x26\0\x01a",
    b"\0\x01t\0",
    b"\0\x01a\0\x01b\0\x01c",
    b"\x30\x04\0\x01a\0",
];
pub fn p02() -> Vec<Family> {
    let mut v = on_frames(false, j02);
    // streams: any three frames after each other
    for (k, tier) in [(2usize, 0u8), (3, 1)] {
        v.push(family(format!("streams-of-{}", k), tier, move |ch, l| {
            let all = base_frames();
            let mut stream = Vec::new();
            let mut want = Vec::new();
            for i in 0..k {
                let j = ch.pick(all.len());
                if i == 2 && j % 4 != 0 {
                    continue;
                }
                if let D::Ok(p, n) = refc::decode(&all[j], up()) {
                    stream.extend_from_slice(&all[j]);
                    want.push((p, n));
                }
            }
            if !ch.mine() {
                return Ok(());
            }
            // by consumption
            let mut b = &stream[..];
            let mut from = 0;
            for (p, n) in &want {
                l.calls += 2;
                // by announced length, of every start
                let o = imp::decode(&stream[from..]);
                let got = Packet::from_bytes(&mut b).map_err(|e| at(&stream, format!("{:?} in a stream of frames", e)))?;
                if &imp::content(&got)? != p || stream.len() - b.len() != from + n {
                    return Err(at(&stream, format!("the stream is not split at {}: {:?}", from + n, p)));
                }
                match o.res {
                    Ok(q) if q.frame_len() == full_len(stream[from], *n - 2, *n) && &imp::content(&q)? == p => (),
                    _ => return Err(at(&stream, format!("the stream is not split at {}: {:?}", from + n, p))),
                }
                from += n;
                l.accepted += 1;
            }
            if b.has_remaining() {
                return Err(at(&stream, "bytes left over"));
            }
            Ok(())
        }));
    }
    v
}

// ------------------------------------------------------------ P03

fn j03(b: &[u8], l: &mut Local) -> Result<(), String> {
    let o = imp::decode(b);
    l.calls += 1;
    let more = matches!(&o.res, Err(e) if imp::is_more(e));
    match refc::decode(b, up()) {
        D::More | D::MoreOrBad => {
            l.waiting += 1;
            if o.res.is_ok() {
                return Err(at(b, "a packet from an incomplete frame"));
            }
            return Ok(());
        }
        D::Bad(e) => {
            l.rejected += 1;
            // a malformed remaining length announces nothing
            if more && matches!(fixed_header(b), Ok(Some(_))) {
                return Err(at(b, format!("asks for more bytes although the frame is complete ({})", e)));
            }
            return Ok(());
        }
        D::Either(_, _, why) => {
            l.unclear += 1;
            if more {
                return Err(at(b, format!("asks for more bytes although the frame is complete ({})", why)));
            }
            return Ok(());
        }
        D::Ok(..) => (),
    }
    l.accepted += 1;
    if more {
        return Err(at(b, "asks for more bytes although the frame is complete"));
    }
    let (n, h) = fixed_header(b).unwrap().unwrap();
    let total = h + n;
    let cuts: Vec<usize> = if total <= 300 {
        (0..total).collect()
    } else {
        (0..80).chain((1..12).map(|k| total * k / 12)).chain(total - 40..total).collect()
    };
    l.outcome(&(b[0], total));
    for k in cuts {
        l.calls += 1;
        match imp::decode(&b[..k]).res {
            Ok(_) => return Err(at(&b[..k], format!("a packet from the first {} of {} bytes", k, total))),
            Err(e) if imp::is_more(&e) => (),
            Err(e) => {
                return Err(at(&b[..k], format!("{:?} for the first {} of the {} bytes of a well-formed frame", e, k, total)))
            }
        }
    }
    Ok(())
}
pub fn p03() -> Vec<Family> {
    on_frames(false, j03)
}

// ------------------------------------------------------------ P04

fn j04(p: P, l: &mut Local) -> Result<(), String> {
    l.calls += 1;
    let q = imp::build(&p).map_err(|e| format!("{} in {:?}", e, p))?;
    let p = p.normal();
    if imp::content(&q)? != p {
        return Err(format!("built {:?}, the accessors say {:?}", p, imp::content(&q)?));
    }
    let b = imp::encode(&q).map_err(|e| format!("{}: {:?}", e, p))?;
    match refc::decode(&b, up()) {
        D::Ok(r, n) if r == p && n == b.len() => (),
        D::Ok(r, n) => {
            return Err(at(&b, format!("{:?} is encoded as {} of {} bytes, which say {:?}", p, n, b.len(), r)))
        }
        d => return Err(at(&b, format!("the encoding of {:?} is not well formed: {:?}", p, short(&d)))),
    }
    // into a slice of exactly that length
    if b.len() < 4096 {
        let mut place = vec![0u8; b.len()];
        let mut s = &mut place[..];
        q.to_bytes(&mut s);
        // the order of properties may differ between two encodings
        if !s.is_empty() || refc::decode(&place, up()) != refc::decode(&b, up()) {
            return Err(at(&b, format!("two encodings of {:?} differ", p)));
        }
        // in two pieces, cut anywhere, and behind something else
        let step = 1 + b.len() / 32;
        for k in (1..b.len()).step_by(step) {
            let mut place = vec![0u8; b.len()];
            let (x, y) = place.split_at_mut(k);
            let mut s = x.chain_mut(y);
            q.to_bytes(&mut s);
            if s.has_remaining_mut() || refc::decode(&place, up()) != refc::decode(&b, up()) {
                return Err(at(&b, format!("the encoding of {:?} into two pieces differs, the first has {} bytes", p, k)));
            }
        }
        let mut behind = BytesMut::from(&b"front"[..]);
        q.to_bytes(&mut behind);
        if &behind[..5] != b"front" || refc::decode(&behind[5..], up()) != refc::decode(&b, up()) {
            return Err(at(&b, format!("the encoding of {:?} behind other bytes differs", p)));
        }
    }
    let o = imp::decode(&b);
    match o.res {
        Err(e) => return Err(at(&b, format!("the encoding of {:?} is rejected: {:?}", p, e))),
        Ok(r) => {
            if o.used != b.len() || r.frame_len() != b.len() {
                return Err(at(&b, format!("of the encoding of {:?} {} bytes are read", p, o.used)));
            }
            if imp::content(&r)? != p {
                return Err(at(&b, format!("{:?} comes back as {:?}", p, imp::content(&r)?)));
            }
        }
    }
    l.accepted += 1;
    l.outcome(&p);
    Ok(())
}
fn short(d: &D) -> String {
    match d {
        D::Bad(e) => e.to_string(),
        D::Either(_, _, e) => e.to_string(),
        D::More | D::MoreOrBad => "it is shorter than it announces".into(),
        D::Ok(..) => "?".into(),
    }
}
pub fn p04() -> Vec<Family> {
    packets()
        .into_iter()
        .map(|(n, t, g)| {
            family(n, t, move |ch, l| {
                let p = g(ch);
                if !ch.mine() {
                    return Ok(());
                }
                j04(p, l)
            })
        })
        .collect()
}

// ------------------------------------------------------------ P05

fn j05(b: &[u8], l: &mut Local) -> Result<(), String> {
    let o = imp::decode(b);
    l.calls += 1;
    let got = match &o.res {
        Ok(p) => Some(imp::content(p).map_err(|e| at(b, e))?),
        Err(_) => None,
    };
    match (refc::decode(b, up()), got) {
        (D::More | D::MoreOrBad, None) => l.waiting += 1,
        (D::More | D::MoreOrBad, Some(_)) => return Err(at(b, "accepts an incomplete frame")),
        (D::Bad(_), None) => l.rejected += 1,
        (D::Bad(why), Some(p)) => return Err(at(b, format!("accepts a malformed frame ({}) as {:?}", why, p))),
        (D::Ok(p, _), None) => {
            return Err(at(b, format!("rejects a well-formed frame that says {:?}: {:?}", p, o.res.err().unwrap())))
        }
        (D::Ok(p, n), Some(q)) => {
            l.accepted += 1;
            if p != q {
                return Err(at(b, format!("reads {:?}, the bytes say {:?}", q, p)));
            }
            if o.used != n {
                return Err(at(b, format!("reads {} bytes, the frame has {}", o.used, n)));
            }
            l.outcome(&p);
        }
        (D::Either(p, _, why), q) => {
            l.unclear += 1;
            if let (Some(p), Some(q)) = (p, q) {
                if p != q {
                    return Err(at(b, format!("reads {:?}, the bytes say {:?} ({})", q, p, why)));
                }
            }
        }
    }
    Ok(())
}
pub fn p05() -> Vec<Family> {
    on_frames(false, j05)
}

// ------------------------------------------------------------ P06

/// A value of a type
fn of_kind(k: Kind, which: usize) -> MqttPropValue {
    match k {
        Kind::Bool => MqttPropValue::new_bool(which == 0),
        Kind::Byte => MqttPropValue::new_u8(1 - which as u8),
        Kind::U16 => MqttPropValue::new_u16(500 + which as u16),
        Kind::U32 => MqttPropValue::new_u32(70000 + which as u32),
        Kind::Var => MqttPropValue::new_varint(300 + which as u32).ok().unwrap(),
        Kind::Str => MqttPropValue::new_string(Arc::from(["one", "x"][which])).ok().unwrap(),
        Kind::Bin => MqttPropValue::new_data(&[&b"\0\xff"[..], b""][which][..]).ok().unwrap(),
        Kind::Pair => MqttPropValue::new_string_pair(Arc::from("k"), Arc::from(["v", ""][which])).ok().unwrap(),
    }
}
/// What adding such a value does to a table
fn model_add(t: &mut Props, owner: u8, id: u8, k: Kind, v: &MqttPropValue) -> bool {
    if !allowed(owner, id) || gen::kind(id) != k {
        return false;
    }
    let v = imp::value(v).unwrap();
    match t.iter_mut().find(|p| p.0 == id && !refc::repeatable(owner, id)) {
        Some(p) => p.1 = v,
        None => t.push((id, v)),
    }
    true
}
fn sorted(t: &Props) -> Props {
    let mut t = t.clone();
    t.sort_by_key(|p| p.0);
    t
}
/// The properties of a packet under construction, by its accessors and by its encoding
fn see(b: &B, want: &Props, what: &str) -> Result<(), String> {
    let have = b.props()?;
    if have != sorted(want) {
        return Err(format!("{}: the properties are {:?}, should be {:?}", what, have, sorted(want)));
    }
    let e = imp::encode(&b.build()).map_err(|e| format!("{}: {}", what, e))?;
    let full = match refc::decode(&e, up()) {
        D::Ok(p, n) | D::Either(Some(p), n, _) if n == e.len() => p,
        d => return Err(at(&e, format!("{}: the encoding is {}", what, short(&d)))),
    };
    let encoded = match &full {
        P::Connect { will: Some(w), .. } if matches!(b, B::Will(_)) => w.props.clone(),
        P::Connect { props, .. }
        | P::ConnAck { props, .. }
        | P::Publish { props, .. }
        | P::Ack { props, .. }
        | P::Subscribe { props, .. }
        | P::Codes { props, .. }
        | P::Unsubscribe { props, .. }
        | P::Reason { props, .. } => props.clone(),
        P::Ping { .. } => vec![],
    };
    if encoded != sorted(want) {
        return Err(at(&e, format!("{}: the encoding says {:?}, should be {:?}", what, encoded, sorted(want))));
    }
    Ok(())
}
fn owner_flag(o: u8) -> PropOwner {
    match o {
        0 => PropOwner::WILL,
        1 => PropOwner::CONNECT,
        2 => PropOwner::CONNACK,
        3 => PropOwner::PUBLISH,
        4 => PropOwner::PUBACK,
        5 => PropOwner::PUBREC,
        6 => PropOwner::PUBREL,
        7 => PropOwner::PUBCOMP,
        8 => PropOwner::SUBSCRIBE,
        9 => PropOwner::SUBACK,
        10 => PropOwner::UNSUBSCRIBE,
        11 => PropOwner::UNSUBACK,
        14 => PropOwner::DISCONNECT,
        _ => PropOwner::AUTH,
    }
}
pub fn p06() -> Vec<Family> {
    let mut v = Vec::new();
    // a call of add_prop for every owner, property and type, after a prefix of allowed ones
    for (depth, tier) in [(0usize, 0u8), (1, 0), (2, 1)] {
        v.push(family(format!("builder-after-{}", depth), tier, move |ch, l| {
            let owner = ch.of(&OWNERS);
            let mut b = B::new(owner);
            let mut want: Props = Vec::new();
            let ok = allowed_props(owner);
            let mut story = String::new();
            for _ in 0..depth {
                let id = ch.of(&ok);
                let w = ch.pick(2);
                if ch.skip {
                    continue;
                }
                let val = of_kind(gen::kind(id), w);
                model_add(&mut want, owner, id, gen::kind(id), &val);
                story += &format!("{:#x} ", id);
                b.add_prop(imp::prop(id), val).map_err(|_| format!("owner {}: property {:#x} is refused", owner, id))?;
            }
            let id = ch.of(&ALL_PROPS);
            let k = ch.of(&KINDS);
            let w = ch.pick(2);
            if !ch.mine() {
                return Ok(());
            }
            if id == USER && k == Kind::Pair && up() == UserProp::Single {
                return Ok(()); // known finding
            }
            l.calls += 1;
            let val = of_kind(k, w);
            let ok = model_add(&mut want, owner, id, k, &val);
            let what = format!("owner {} with [{}], then property {:#x} with a {:?}", owner, story, id, k);
            match (b.add_prop(imp::prop(id), val), ok) {
                (Ok(()), false) => return Err(format!("{}: accepted", what)),
                (Err(_), true) => return Err(format!("{}: refused", what)),
                (Ok(()), true) => l.accepted += 1,
                (Err(_), false) => l.rejected += 1,
            }
            l.outcome(&(owner, &want));
            see(&b, &want, &what)
        }));
    }
    // sequences of calls, allowed and refused
    for (depth, tier) in [(4usize, 0u8), (6, 1)] {
        v.push(family(format!("builder-sequences-{}", depth), tier, move |ch, l| {
            let owner = ch.of(&OWNERS);
            let ok = allowed_props(owner);
            let wrong = ALL_PROPS.iter().cloned().find(|p| !ok.contains(p));
            // calls: two of each that may be repeated, two values of the first and the last property, refused ones
            let mut calls: Vec<(u8, Kind, usize)> = vec![(USER, gen::kind(USER), 0), (USER, gen::kind(USER), 1)];
            let ones: Vec<u8> = ok.iter().cloned().filter(|p| !refc::repeatable(owner, *p)).collect();
            let sub = if owner == 3 { Some(&SUBID) } else { None };
            for p in [ones.first(), ones.last(), sub].into_iter().flatten() {
                if !calls.iter().any(|c| c.0 == *p) {
                    calls.push((*p, gen::kind(*p), 0));
                    calls.push((*p, gen::kind(*p), 1));
                }
            }
            calls.push((ok[0], if gen::kind(ok[0]) == Kind::U16 { Kind::U32 } else { Kind::U16 }, 0));
            if let Some(w) = wrong {
                calls.push((w, gen::kind(w), 0));
            }
            let n = ch.pick(depth + 1);
            let seq: Vec<(u8, Kind, usize)> = (0..n).map(|_| calls[ch.pick(calls.len())]).collect();
            if !ch.mine() {
                return Ok(());
            }
            let mut b = B::new(owner);
            let mut want = Vec::new();
            for (i, (id, k, w)) in seq.iter().enumerate() {
                l.calls += 1;
                let val = of_kind(*k, *w);
                let ok = model_add(&mut want, owner, *id, *k, &val);
                if b.add_prop(imp::prop(*id), val).is_ok() != ok {
                    return Err(format!("owner {}: call {} of {:x?}: accepted {}", owner, i, seq, !ok));
                }
            }
            l.accepted += 1;
            l.outcome(&(owner, &want));
            see(&b, &want, &format!("owner {} after {:x?}", owner, seq))
        }));
    }
    // tables on their own: valid for an owner if all properties are
    v.push(family("tables", 0, |ch, l| {
        let n = 1 + ch.pick(3);
        let ids: Vec<u8> = (0..n).map(|_| ch.of(&ALL_PROPS)).collect();
        if !ch.mine() {
            return Ok(());
        }
        if (0..n).any(|i| ids[i] != USER && ids[..i].contains(&ids[i])) {
            return Ok(());
        }
        let mut t = Properties::new();
        for id in &ids {
            t.insert(imp::prop(*id), of_kind(gen::kind(*id), 0)).map_err(|_| format!("a table refuses {:#x} in {:x?}", id, ids))?;
        }
        for o in OWNERS {
            l.calls += 1;
            if t.is_valid_for(owner_flag(o)) != ids.iter().all(|i| allowed(o, *i)) {
                return Err(format!("is_valid_for(owner {}) is wrong for {:x?}", o, ids));
            }
        }
        l.accepted += 1;
        Ok(())
    }));
    // the decoder
    for f in on_frames(false, j05).into_iter().filter(|f| f.name.contains("propert") && !f.name.contains("length")) {
        v.push(f);
    }
    v
}

// ------------------------------------------------------------ P07

/// A packet under construction next to what it should contain
struct Pair7 {
    b: B,
    m: P,
    /// whether the packet identifier of a PUBLISH survived a time at QoS 0 is not specified
    pid_open: bool,
}
enum Call {
    Done,
    Refused,
}
fn expect(r: bool, want: bool, what: &str) -> Result<Call, String> {
    match (r, want) {
        (true, true) => Ok(Call::Done),
        (false, false) => Ok(Call::Refused),
        (true, false) => Err(format!("{} was accepted", what)),
        (false, true) => Err(format!("{} was refused", what)),
    }
}
const BAD: &str = "a\u{1}b";
fn long_string() -> String {
    "x".repeat(65536)
}
const OPS: [(u8, usize); 13] =
    [(1, 22), (3, 17), (8, 9), (10, 6), (2, 8), (9, 6), (11, 6), (4, 6), (5, 6), (6, 6), (7, 6), (14, 4), (15, 4)];

fn do_prop(x: &mut Pair7, owner: u8, which: usize) -> Result<Call, String> {
    // 0: a value, 1: another, 2: of the wrong type, 3: not for this packet, 4, 5: user properties
    let id = *allowed_props(owner).iter().find(|p| !refc::repeatable(owner, **p)).unwrap_or(&USER);
    let wrong = *ALL_PROPS.iter().find(|p| !allowed(owner, **p)).unwrap();
    let (id, k) = match which {
        0 | 1 => (id, gen::kind(id)),
        2 => (id, if gen::kind(id) == Kind::Bin { Kind::Str } else { Kind::Bin }),
        3 => (wrong, gen::kind(wrong)),
        _ => (USER, gen::kind(USER)),
    };
    let v = of_kind(k, which % 2);
    let props = match &mut x.m {
        P::Connect { props, .. }
        | P::ConnAck { props, .. }
        | P::Publish { props, .. }
        | P::Ack { props, .. }
        | P::Subscribe { props, .. }
        | P::Codes { props, .. }
        | P::Unsubscribe { props, .. }
        | P::Reason { props, .. } => props,
        P::Ping { .. } => unreachable!(),
    };
    let want = model_add(props, owner, id, k, &v);
    expect(x.b.add_prop(imp::prop(id), v).is_ok(), want, "add_prop")
}

fn op7(x: &mut Pair7, ty: u8, op: usize) -> Result<Call, String> {
    let done = Ok(Call::Done);
    if ty != 1 && ty != 3 && op < 4 {
        return do_prop(x, ty, op);
    }
    match (&mut x.b, &mut x.m) {
        (B::Connect(c), P::Connect { clean, keep, will, user, pass, .. }) => match op {
            0..=3 => do_prop(x, 1, op),
            4 => {
                c.set_clean_start();
                *clean = true;
                done
            }
            5 | 6 => {
                *keep = [0, 0x1234][op - 5];
                c.set_keep_alive(*keep);
                done
            }
            7 | 8 | 9 => {
                let mut w = Will::new(Arc::from(["w", "long/will", "v"][op - 7]), &[&b"p"[..], b"", b"\0\xff"][op - 7][..]).ok().unwrap();
                let mut m = W {
                    qos: will.as_ref().map(|w| w.qos).unwrap_or(0),
                    retain: will.as_ref().map(|w| w.retain).unwrap_or(false),
                    props: vec![],
                    topic: ["w", "long/will", "v"][op - 7].into(),
                    payload: [&b"p"[..], b"", b"\0\xff"][op - 7].to_vec(),
                };
                if op == 9 {
                    // a will that was worked on before
                    let bad = w.set_topic(Arc::from(BAD)).is_ok()
                        || w.set_payload(&vec![0u8; 65536][..]).is_ok()
                        || w.add_prop(Property::TopicAlias, MqttPropValue::new_u16(1)).is_ok()
                        || w.add_prop(Property::WillDelayInterval, MqttPropValue::new_u16(1)).is_ok();
                    let good = w.set_topic(Arc::from("u/v")).is_ok()
                        && w.set_payload(&b"12"[..]).is_ok()
                        && w.add_prop(Property::WillDelayInterval, MqttPropValue::new_u32(9)).is_ok()
                        && w.add_prop(Property::WillDelayInterval, MqttPropValue::new_u32(10)).is_ok();
                    if bad || !good {
                        return Err("a setter of the will gives the wrong answer".into());
                    }
                    m.topic = b"u/v".to_vec();
                    m.payload = b"12".to_vec();
                    m.props = vec![(0x18, V::U32(10))];
                }
                c.set_will(w);
                *will = Some(m);
                done
            }
            10..=12 => {
                let q = op as u8 - 10;
                let r = c.set_will_qos(imp::qos(q)).is_ok();
                if let Some(w) = will {
                    w.qos = q;
                }
                expect(r, will.is_some(), "set_will_qos")
            }
            13 => {
                let r = c.set_will_retain().is_ok();
                if let Some(w) = will {
                    w.retain = true;
                }
                expect(r, will.is_some(), "set_will_retain")
            }
            14 | 15 => {
                let s = ["", "user"][op - 14];
                *user = Some(s.into());
                expect(c.set_username(Arc::from(s)).is_ok(), true, "set_username")
            }
            16 => expect(c.set_username(Arc::from(BAD)).is_ok(), false, "set_username of a bad string"),
            17 => expect(c.set_username(Arc::from(long_string())).is_ok(), false, "set_username of a long string"),
            18 | 19 => {
                let s = [&b""[..], b"\0\xffpw"][op - 18];
                *pass = Some(s.to_vec());
                expect(c.set_password(s).is_ok(), true, "set_password")
            }
            20 => expect(c.set_password(&vec![7u8; 65536][..]).is_ok(), false, "set_password of a long one"),
            _ => expect(Connect::new(Arc::from(BAD)).is_ok(), false, "Connect::new of a bad string"),
        },
        (B::Publish(c), P::Publish { dup, qos, retain, pid, payload, .. }) => match op {
            0..=3 => do_prop(x, 3, op),
            4 => {
                c.set_dup();
                *dup = true;
                done
            }
            5 => {
                c.set_retain();
                *retain = true;
                done
            }
            6..=8 => {
                let q = op as u8 - 6;
                c.set_qos(imp::qos(q));
                if q == 0 && pid.is_some() {
                    x.pid_open = true;
                }
                *qos = q;
                done
            }
            9..=11 => {
                let i = [1, 0x102, 65535][op - 9];
                let r = c.set_packet_identifier(i).is_ok();
                if *qos > 0 {
                    *pid = Some(i);
                    x.pid_open = false;
                }
                expect(r, *qos > 0, "set_packet_identifier")
            }
            12 | 13 => {
                let s = [&b""[..], b"\0\xffpayload"][op - 12];
                c.set_payload(s);
                *payload = s.to_vec();
                done
            }
            14 => {
                c.set_payload_bytes(Bytes::from_static(b"other"));
                *payload = b"other".to_vec();
                done
            }
            15 => expect(Publish::new(Arc::from("a/#"), Bytes::new()).is_ok(), false, "Publish::new of a wildcard"),
            _ => expect(Publish::new(Arc::from(BAD), Bytes::new()).is_ok(), false, "Publish::new of a bad string"),
        },
        (B::Subscribe(c), P::Subscribe { topics, .. }) => {
            let (f, o) = [("a", 0u8), ("b/#", 0x2d), ("a#", 0), ("a", 3), ("a", 0x30)][op - 4];
            let want = op < 6;
            let r = c.add_topic(Arc::from(f), SubscriptionOptions::from_bits(o).unwrap()).is_ok();
            if want {
                topics.push((f.into(), o));
            }
            expect(r, want, "add_topic")
        }
        (B::Unsubscribe(c), P::Unsubscribe { topics, .. }) => {
            let f = ["a/+", "b+"][op - 4];
            if op == 4 {
                topics.push(f.into());
            }
            expect(c.add_topic(Arc::from(f)).is_ok(), op == 4, "add_topic")
        }
        (B::ConnAck(c), P::ConnAck { present, code, .. }) => {
            match op {
                4 => {
                    c.set_session_present();
                    *present = true;
                }
                _ => {
                    *code = [0, 0x80, 0x9f][op - 5];
                    c.set_reason_code(imp::connack_code(*code));
                }
            }
            done
        }
        (B::SubAck(c), P::Codes { codes, .. }) => {
            let k = [0, 0x80][op - 4];
            c.add_reason_code(imp::suback_code(k));
            codes.push(k);
            done
        }
        (B::UnsubAck(c), P::Codes { codes, .. }) => {
            let k = [0, 0x11][op - 4];
            c.add_reason_code(imp::unsuback_code(k));
            codes.push(k);
            done
        }
        (B::PubAck(c), P::Ack { code, .. }) => {
            *code = [0, 0x10][op - 4];
            c.set_reason_code(imp::puback_code(*code));
            done
        }
        (B::PubRec(c), P::Ack { code, .. }) => {
            *code = [0, 0x99][op - 4];
            c.set_reason_code(imp::puback_code(*code));
            done
        }
        (B::PubRel(c), P::Ack { code, .. }) => {
            *code = [0, 0x92][op - 4];
            c.set_reason_code(imp::pubrel_code(*code));
            done
        }
        (B::PubComp(c), P::Ack { code, .. }) => {
            *code = [0, 0x92][op - 4];
            c.set_reason_code(imp::pubrel_code(*code));
            done
        }
        _ => unreachable!(),
    }
}
/// An empty packet of the type
fn start7(ty: u8) -> Pair7 {
    use apiformes_packet::suback::SubAck;
    use apiformes_packet::unsuback::UnsubAck;
    let mut m = minimal(ty);
    let b = match ty {
        8 => {
            m = P::Subscribe { id: 7, props: vec![], topics: vec![] };
            B::Subscribe(Subscribe::new(7))
        }
        9 => {
            m = P::Codes { ty: 9, id: 7, props: vec![], codes: vec![] };
            B::SubAck(SubAck::new(7))
        }
        10 => {
            m = P::Unsubscribe { id: 7, props: vec![], topics: vec![] };
            B::Unsubscribe(Unsubscribe::new(7))
        }
        11 => {
            m = P::Codes { ty: 11, id: 7, props: vec![], codes: vec![] };
            B::UnsubAck(UnsubAck::new(7))
        }
        _ => B::new(ty),
    };
    Pair7 { b, m, pid_open: false }
}
fn end7(x: &Pair7, l: &mut Local) -> Result<(), String> {
    let mut want = x.m.clone().normal();
    let q = x.b.build();
    let have = imp::content(&q)?;
    let mut ready = true;
    if let (P::Publish { qos, pid, .. }, P::Publish { pid: got, .. }) = (&mut want, &have) {
        if *qos == 0 && got.is_none() {
            *pid = None;
        }
        if x.pid_open && got.is_none() {
            *pid = None;
        }
        ready = *qos == 0 || pid.is_some();
    }
    match &want {
        P::Subscribe { topics, .. } if topics.is_empty() => ready = false,
        P::Unsubscribe { topics, .. } if topics.is_empty() => ready = false,
        P::Codes { codes, .. } if codes.is_empty() => ready = false,
        _ => (),
    }
    if have != want {
        return Err(format!("the packet is {:?}, should be {:?}", have, want));
    }
    if let P::Publish { qos: 0, pid, .. } = &mut want {
        *pid = None;
    }
    if !ready {
        l.unclear += 1;
        return Ok(());
    }
    let e = imp::encode(&q)?;
    match refc::decode(&e, up()) {
        D::Ok(p, n) | D::Either(Some(p), n, _) if p == want && n == e.len() => (),
        D::Ok(p, _) | D::Either(Some(p), ..) => return Err(at(&e, format!("is encoded as {:?}, should be {:?}", p, want))),
        d => return Err(at(&e, format!("{:?} has an encoding that is not well formed: {}", want, short(&d)))),
    }
    let o = imp::decode(&e);
    match o.res {
        Ok(p) if imp::content(&p)? == want && o.used == e.len() => (),
        Ok(p) => return Err(at(&e, format!("comes back as {:?}, should be {:?}", imp::content(&p)?, want))),
        Err(er) => return Err(at(&e, format!("{:?} cannot be decoded again: {:?}", want, er))),
    }
    l.accepted += 1;
    l.outcome(&want);
    Ok(())
}
pub fn p07() -> Vec<Family> {
    let mut v = Vec::new();
    for (ty, ops) in OPS {
        for (depth, tier) in match ty {
            1 => [(4usize, 0u8), (5, 1)],
            3 => [(5, 0), (6, 1)],
            2 | 8 => [(5, 0), (6, 1)],
            _ => [(6, 0), (7, 1)],
        } {
            v.push(family(format!("calls-{}-depth-{}", ty, depth), tier, move |ch, l| {
                let n = ch.pick(depth + 1);
                let seq: Vec<usize> = (0..n).map(|_| ch.pick(ops + 2)).collect();
                if !ch.mine() {
                    return Ok(());
                }
                let mut x = start7(ty);
                for op in &seq {
                    l.calls += 1;
                    match if *op < ops { op7(&mut x, ty, *op) } else { do_prop(&mut x, ty, 4 + op - ops) } {
                        Ok(Call::Done) => (),
                        Ok(Call::Refused) => l.rejected += 1,
                        Err(e) => return Err(format!("packet type {} calls {:?}: {}", ty, seq, e)),
                    }
                }
                end7(&x, l).map_err(|e| format!("packet type {} after calls {:?}: {}", ty, seq, e))
            }));
        }
    }
    // every value of a setter, after another value
    v.push(family("values-of-numbers", 0, |ch, l| {
        let which = ch.pick(3);
        let n = ch.pick(65536) as u16;
        if !ch.mine() {
            return Ok(());
        }
        l.calls += 1;
        let mut x = start7(if which == 0 { 1 } else { 3 });
        match (&mut x.b, &mut x.m) {
            (B::Connect(c), P::Connect { keep, .. }) => {
                c.set_keep_alive(!n);
                c.set_keep_alive(n);
                *keep = n;
            }
            (B::Publish(c), P::Publish { qos, pid, .. }) => {
                *qos = which as u8;
                c.set_qos(imp::qos(*qos));
                let other = if n == 9 { 10 } else { 9 };
                expect(c.set_packet_identifier(other).is_ok(), true, "set_packet_identifier")?;
                *pid = Some(other);
                // 2.2.1 an identifier is not 0
                match (n, c.set_packet_identifier(n).is_ok()) {
                    (0, false) => l.rejected += 1,
                    (_, r) => {
                        expect(r, true, "set_packet_identifier")?;
                        *pid = Some(n);
                    }
                }
            }
            _ => unreachable!(),
        }
        end7(&x, l).map_err(|e| format!("value {}: {}", n, e))
    }));
    // every word replaces every other
    v.push(family("values-of-strings", 0, |ch, l| {
        let which = ch.pick(2);
        let words = ["", "a", "A", "b", "a ", " a", "\u{feff}a", "/", "a/", "$a", "é", "e\u{301}", "\u{10fffd}", "0", "long enough"];
        let (s, t) = (ch.of(&words), ch.of(&words));
        if !ch.mine() {
            return Ok(());
        }
        l.calls += 1;
        let mut x = start7(1);
        if let (B::Connect(c), P::Connect { will, user, .. }) = (&mut x.b, &mut x.m) {
            if which == 0 {
                expect(c.set_username(Arc::from(s)).is_ok() && c.set_username(Arc::from(t)).is_ok(), true, "set_username")?;
                *user = Some(t.into());
            } else {
                let mut m = "w";
                let mut w = Will::new(Arc::from(m), &b"p"[..]).ok().unwrap();
                for n in [s, t] {
                    // an empty topic may be refused
                    if w.set_topic(Arc::from(n)).is_ok() {
                        m = n;
                    } else {
                        expect(false, !n.is_empty(), "set_topic")?;
                    }
                }
                c.set_will(w);
                *will = Some(W { qos: 0, retain: false, props: vec![], topic: m.into(), payload: b"p".to_vec() });
            }
        }
        end7(&x, l).map_err(|e| format!("{:?}, then {:?}: {}", s, t, e))
    }));
    // data handed over in up to three pieces, one of which may be empty
    v.push(family("values-in-pieces", 0, |ch, l| {
        let which = ch.pick(6);
        let lens = [0usize, 1, 2, 127, 128, 300, 16384, 32768, 65534, 65535, 65536];
        let n = [ch.of(&lens), ch.of(&lens), ch.of(&lens)];
        if !ch.mine() {
            return Ok(());
        }
        let all = gen::fill_bin(n.iter().sum());
        let total = all.len();
        let (a, rest) = all.split_at(n[0]);
        let (b, c) = rest.split_at(n[1]);
        let pieces = || a.chain(b).chain(c);
        let what = format!("{} + {} + {} bytes", n[0], n[1], n[2]);
        let mut x = start7(if which == 0 { 3 } else { 1 });
        l.calls += 1;
        let fits = which == 0 || total <= 65535;
        let verdict = match (&mut x.b, &mut x.m) {
            (B::Publish(p), P::Publish { payload, .. }) => {
                p.set_payload(pieces());
                *payload = all.clone();
                Ok(Call::Done)
            }
            (B::Connect(p), P::Connect { will, pass, props, .. }) => {
                let data = |v: &mut Vec<(u8, V)>, id: u8| v.push((id, V::Bin(all.clone())));
                match which {
                    1 => {
                        if fits {
                            *pass = Some(all.clone());
                        }
                        expect(p.set_password(pieces()).is_ok(), fits, "set_password")
                    }
                    2..=4 => {
                        let mut m = W { qos: 0, retain: false, props: vec![], topic: b"w".to_vec(), payload: b"old".to_vec() };
                        let mut w = Will::new(Arc::from("w"), &b"old"[..]).ok().unwrap();
                        let r = match which {
                            2 => match Will::new(Arc::from("w"), pieces()) {
                                Ok(n) => {
                                    w = n;
                                    true
                                }
                                Err(_) => false,
                            },
                            3 => w.set_payload(pieces()).is_ok(),
                            _ => match MqttPropValue::new_data(pieces()) {
                                Ok(v) => {
                                    data(&mut m.props, 0x09);
                                    w.add_prop(Property::CorrelationData, v).is_ok()
                                }
                                Err(_) => false,
                            },
                        };
                        if r && which != 4 {
                            m.payload = all.clone();
                        }
                        p.set_will(w);
                        *will = Some(m);
                        expect(r, fits, "a setter of the will")
                    }
                    _ => match MqttPropValue::new_data(pieces()) {
                        Ok(v) => {
                            data(props, 0x16);
                            let m = MqttPropValue::new_string(Arc::from("m")).ok().unwrap();
                            props.push((0x15, V::Str(b"m".to_vec())));
                            expect(p.add_prop(Property::AuthenticationData, v).is_ok() && p.add_prop(Property::AuthenticationMethod, m).is_ok(), fits, "add_prop")
                        }
                        Err(_) => expect(false, fits, "new_data"),
                    },
                }
            }
            _ => unreachable!(),
        };
        match verdict {
            Ok(Call::Done) => (),
            Ok(Call::Refused) => l.rejected += 1,
            Err(e) => return Err(format!("{} in {}", e, what)),
        }
        end7(&x, l).map_err(|e| format!("after {}: {}", what, e.chars().take(300).collect::<String>()))
    }));
    v
}

// ------------------------------------------------------------ P08

fn j08(s: &str, l: &mut Local) -> Result<(), String> {
    let fine = match string_legal(s.as_bytes()) {
        Err(()) => Some(false),
        Ok(true) => None,
        Ok(false) => return Ok(()),
    };
    let filter = fine.unwrap_or_else(|| filter_legal(s));
    let name = fine.unwrap_or_else(|| name_legal(s));
    // an empty topic is not allowed by the standard, or only with an alias
    if s.is_empty() {
        l.unclear += 1;
        return Ok(());
    }
    let share = s.starts_with("$share");
    let t: Arc<str> = Arc::from(s);
    l.calls += 9;
    let bad = |what: &str, got: bool| Err(format!("{} {} {:?}", what, if got { "accepts" } else { "refuses" }, s));
    let got = Publish::new(t.clone(), Bytes::new()).is_ok();
    if got != name {
        return bad("Publish::new", got);
    }
    let got = imp::decode(&frame(0x30, &{
        let mut o = Vec::new();
        put_str(&mut o, s.as_bytes());
        o.push(0);
        o
    }))
    .res
    .is_ok();
    if got != name {
        return bad("the decoder of PUBLISH", got);
    }
    if !share {
        let got = Subscribe::new(1).add_topic(t.clone(), SubscriptionOptions::empty()).is_ok();
        if got != filter {
            return bad("Subscribe::add_topic", got);
        }
        let got = Unsubscribe::new(1).add_topic(t.clone()).is_ok();
        if got != filter {
            return bad("Unsubscribe::add_topic", got);
        }
        let mut o = vec![0, 1, 0];
        put_str(&mut o, s.as_bytes());
        let got = imp::decode(&frame(0xa2, &o)).res.is_ok();
        if got != filter {
            return bad("the decoder of UNSUBSCRIBE", got);
        }
        o.push(1);
        let got = imp::decode(&frame(0x82, &o)).res.is_ok();
        if got != filter {
            return bad("the decoder of SUBSCRIBE", got);
        }
        match MqttTopic::new(t.clone()) {
            Ok(x) => {
                if !filter {
                    return bad("MqttTopic::new", true);
                }
                if x.is_wildcard() != s.contains(['#', '+']) {
                    return Err(format!("is_wildcard is wrong for {:?}", s));
                }
                if x.is_system() != s.starts_with('$') {
                    return Err(format!("is_system is wrong for {:?}", s));
                }
                if x.inner().as_ref() != s {
                    return Err(format!("the topic {:?} is changed", s));
                }
            }
            Err(_) if filter => return bad("MqttTopic::new", false),
            Err(_) => (),
        }
    }
    if filter {
        l.accepted += 1;
    } else {
        l.rejected += 1;
    }
    l.outcome(&(filter, name, s.len()));
    Ok(())
}
pub fn p08() -> Vec<Family> {
    let mut v = Vec::new();
    // all strings over a small alphabet
    for (name, tier, set, max) in [
        ("strings-of-8", 0u8, &["a", "/", "+", "#", "$", "é", " ", "\u{10000}"][..], 6usize),
        ("strings-of-4", 0, &["a", "/", "+", "#"][..], 9),
        ("strings-of-3", 0, &["/", "+", "#"][..], 11),
        ("strings-with-control", 0, &["a", "/", "+", "#", "\u{1}", "\u{7f}", "\u{feff}"][..], 5),
        ("strings-of-8-deep", 1, &["a", "/", "+", "#", "$", "é", "b", "\u{10000}"][..], 8),
        ("strings-of-4-deep", 1, &["a", "/", "+", "#"][..], 12),
    ] {
        let set: Vec<&'static str> = set.to_vec();
        v.push(family(name, tier, move |ch, l| {
            let n = ch.pick(max + 1);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(set[ch.pick(set.len())]);
            }
            if !ch.mine() {
                return Ok(());
            }
            j08(&s, l)
        }));
    }
    // every character before, in and after a wildcard, and alone
    v.push(family("every-character", 0, |ch, l| {
        let c = ch.pick(0x1100) as u32 * 256 + ch.pick(256) as u32;
        let form = ch.pick(7);
        if !ch.mine() {
            return Ok(());
        }
        let c = match char::from_u32(c) {
            Some(c) => c,
            None => return Ok(()),
        };
        let s = match form {
            0 => format!("{}", c),
            1 => format!("{}#", c),
            2 => format!("{}+", c),
            3 => format!("+{}", c),
            4 => format!("a/{}", c),
            5 => format!("{}/#", c),
            _ => format!("+/{}/+", c),
        };
        j08(&s, l)
    }));
    // long topics
    v.push(family("long", 0, |ch, l| {
        let n = ch.of(&[126usize, 127, 128, 255, 256, 16383, 16384, 32768, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 70000]);
        let head = ch.of(&["", "#", "+", "+/", "a"]);
        let tail = ch.of(&["", "/#", "#", "/+", "+", "/"]);
        if !ch.mine() {
            return Ok(());
        }
        let s = format!("{}{}{}", head, String::from_utf8(fill(n - head.len() - tail.len())).unwrap(), tail);
        j08_long(&s, l)
    }));
    v.push(family("deep", 0, |ch, l| {
        // many levels, one of them special
        let n = 1 + ch.pick(64);
        let at = ch.pick(n);
        let what = ch.of(&["+", "#", "a+", "#b", "", "x"]);
        if !ch.mine() {
            return Ok(());
        }
        let s: Vec<&str> = (0..n).map(|i| if i == at { what } else { "l" }).collect();
        j08(&s.join("/"), l)
    }));
    v
}
fn j08_long(s: &str, l: &mut Local) -> Result<(), String> {
    if s.len() <= 65535 {
        return j08(s, l).map_err(|e| e.chars().take(200).collect());
    }
    l.calls += 3;
    let t: Arc<str> = Arc::from(s);
    if Publish::new(t.clone(), Bytes::new()).is_ok()
        || Subscribe::new(1).add_topic(t.clone(), SubscriptionOptions::empty()).is_ok()
        || Unsubscribe::new(1).add_topic(t).is_ok()
    {
        return Err(format!("a topic of {} bytes is accepted", s.len()));
    }
    l.rejected += 1;
    Ok(())
}

// ------------------------------------------------------------ P09

fn kind_of(o: &imp::Out) -> Result<(usize, Result<P, std::mem::Discriminant<apiformes_packet::error::DataParseError>>), String> {
    Ok((
        o.used,
        match &o.res {
            Ok(p) => Ok(imp::content(p)?),
            Err(e) => Err(std::mem::discriminant(e)),
        },
    ))
}
fn same(b: &[u8], cuts: &[usize], l: &mut Local) -> Result<(), String> {
    let one = kind_of(&imp::decode(b))?;
    let mut segs: Vec<&[u8]> = Vec::new();
    let mut from = 0;
    for c in cuts {
        segs.push(&b[from..*c]);
        from = *c;
    }
    segs.push(&b[from..]);
    let many = kind_of(&imp::decode_seg(&segs))?;
    l.calls += 1;
    if many != one {
        return Err(at(
            b,
            format!("cut at {:?} the result is {:?} after {} bytes, in one piece {:?} after {} bytes", cuts, many.1, many.0, one.1, one.0),
        ));
    }
    // two pieces also as a chain of slices and of Bytes
    if cuts.len() == 1 {
        let mut c = (&b[..cuts[0]]).chain(&b[cuts[0]..]);
        let res = Packet::from_bytes(&mut c);
        let o = imp::Out { used: b.len() - c.remaining(), res };
        let mut c = Bytes::copy_from_slice(&b[..cuts[0]]).chain(Bytes::copy_from_slice(&b[cuts[0]..]));
        let res = Packet::from_bytes(&mut c);
        let p = imp::Out { used: b.len() - c.remaining(), res };
        l.calls += 2;
        if kind_of(&o)? != one || kind_of(&p)? != one {
            return Err(at(b, format!("a chain cut at {:?} gives another result than one piece", cuts)));
        }
    }
    match one.1 {
        Ok(_) => l.accepted += 1,
        Err(_) => l.rejected += 1,
    }
    Ok(())
}
pub fn p09() -> Vec<Family> {
    let mut v = Vec::new();
    // all ways to cut into up to four segments
    for k in 1..4usize {
        v.push(family(format!("cuts-{}", k), 0, move |ch, l| {
            let all = base_frames();
            let f = &all[ch.pick(all.len())];
            let mut cuts = Vec::new();
            let mut from = 0;
            for _ in 0..k {
                if from + 1 > f.len() {
                    return Ok(());
                }
                from = from + 1 + ch.pick(f.len() - from);
                cuts.push(from);
            }
            if !ch.mine() || from == f.len() {
                return Ok(());
            }
            same(f, &cuts, l)
        }));
    }
    // malformed and incomplete ones
    v.push(family("cuts-of-changed-frames", 0, |ch, l| {
        let all = base_frames();
        let mut f = all[ch.pick(all.len())].clone();
        let i = ch.pick(f.len());
        f[i] = ch.of(&[0, 1, 5, 0x7f, 0x80, 0xff, b'#']);
        if f.len() < 2 {
            return Ok(());
        }
        let c = 1 + ch.pick(f.len() - 1);
        if !ch.mine() {
            return Ok(());
        }
        same(&f, &[c], l)
    }));
    v.push(family("cuts-of-truncated-frames", 0, |ch, l| {
        let all = base_frames();
        let f = &all[ch.pick(all.len())];
        let n = 2 + ch.pick(f.len() - 1);
        let n = n.min(f.len());
        let c = 1 + ch.pick(n - 1);
        let d = c + ch.pick(n - c);
        if !ch.mine() {
            return Ok(());
        }
        if d == c {
            same(&f[..n], &[c], l)
        } else {
            same(&f[..n], &[c, d], l)
        }
    }));
    v.push(family("cuts-of-frames-with-a-tail", 0, |ch, l| {
        let all = base_frames();
        let mut f = all[ch.pick(all.len())].clone();
        let n = f.len();
        f.extend_from_slice(ch.of(&TAILS));
        let c = 1 + ch.pick(n);
        let d = c + ch.pick(f.len() - c);
        if !ch.mine() {
            return Ok(());
        }
        if d == c {
            same(&f, &[c], l)
        } else {
            same(&f, &[c, d], l)
        }
    }));
    v.push(family("single-bytes", 0, |ch, l| {
        let all = base_frames();
        let f = &all[ch.pick(all.len())];
        let size = 1 + ch.pick(8);
        if !ch.mine() {
            return Ok(());
        }
        same(f, &(1..).map(|i| i * size).take_while(|c| *c < f.len()).collect::<Vec<_>>(), l)
    }));
    // cuts through the length fields of long frames
    for (n, t, g) in packets().into_iter().filter(|p| LONG.iter().any(|x| p.0.ends_with(x)) && !p.0.contains("2M")) {
        v.push(family(format!("cuts-{}", n), t, move |ch, l| {
            let p = g(ch);
            let k = ch.pick(16);
            if !ch.mine() {
                return Ok(());
            }
            let b = encode(&p);
            let c = if k < 10 { 1 + k } else { b.len() * (k - 9) / 7 };
            if c == 0 || c >= b.len() {
                return Ok(());
            }
            same(&b, &[c], l)
        }));
    }
    for (k, tier, set) in [(2usize, 1u8, 20usize)] {
        v.push(family(format!("cuts-{}-of-changed-frames", k), tier, move |ch, l| {
            let all = base_frames();
            let mut f = all[ch.pick(all.len())].clone();
            let i = ch.pick(f.len());
            f[i] = ch.pick(set) as u8 * 13;
            let c = 1 + ch.pick(f.len() - 1);
            let d = c + ch.pick(f.len() - c);
            if !ch.mine() || c == d {
                return Ok(());
            }
            same(&f, &[c, d], l)
        }));
    }
    v
}

// ------------------------------------------------------------ P10

thread_local! {
    static WORK: std::cell::RefCell<Option<(Subscribe, Vec<u8>)>> = const { std::cell::RefCell::new(None) };
}
/// A value as subscription identifier, written and read
fn j10(i: u32) -> Result<(), String> {
    if i > 268_435_455 {
        return match MqttPropValue::new_varint(i) {
            Ok(_) => Err(format!("{} is accepted", i)),
            Err(_) => Ok(()),
        };
    }
    WORK.with(|w| {
        let mut w = w.borrow_mut();
        let (s, buf) = w.get_or_insert_with(|| {
            let mut s = Subscribe::new(7);
            s.add_topic(Arc::from("t"), SubscriptionOptions::empty()).ok().unwrap();
            (s, Vec::with_capacity(64))
        });
        let v = MqttPropValue::new_varint(i).map_err(|_| format!("{} is refused", i))?;
        if v.into_u32() != Some(i) {
            return Err(format!("{} becomes {:?}", i, v.into_u32()));
        }
        s.add_prop(Property::SubscriptionIdentifier, v).map_err(|_| format!("{} is refused", i))?;
        let p = s.clone().build();
        buf.clear();
        p.to_bytes(buf);
        let mut want = Vec::with_capacity(4);
        put_varint(&mut want, i);
        let n = want.len();
        // 82 RL 00 07 (1+n) 0b <n> 00 01 't' 00
        let ok = buf.len() == 6 + n + 4
            && buf[1] as usize == 4 + n + 4
            && buf[4] as usize == 1 + n
            && buf[6..6 + n] == want[..]
            && p.frame_len() == buf.len();
        if !ok {
            return Err(at(buf, format!("{} is not written as {:02x?}", i, want)));
        }
        match Packet::from_bytes(&mut &buf[..]) {
            Ok(Packet::Subscribe(s)) => match s.get_prop(Property::SubscriptionIdentifier) {
                Some([v]) if v.into_u32() == Some(i) => Ok(()),
                _ => Err(at(buf, format!("{} is read as another value", i))),
            },
            _ if i == 0 => Ok(()), // may be rejected
            _ => Err(at(buf, format!("{} cannot be read", i))),
        }
    })
}
pub fn p10() -> Vec<Family> {
    let mut v = Vec::new();
    let block = |name: &str, tier: u8, from: u32, blocks: usize| {
        family(name, tier, move |ch, l| {
            let a = ch.pick(blocks.div_ceil(64));
            let b = ch.pick(64);
            let k = (a * 64 + b) as u32;
            if !ch.mine() || k >= blocks as u32 {
                return Ok(());
            }
            for i in from + k * 4096..from + (k + 1) * 4096 {
                j10(i)?;
            }
            l.calls += 4096;
            l.accepted += 4096;
            Ok(())
        })
    };
    // every value of one to three bytes, and the four-byte values next to the boundaries
    v.push(block("values-to-2097151", 0, 0, 512));
    v.push(block("values-from-2097152", 0, 2097152, 64));
    v.push(block("values-to-268435455", 0, 268435456 - 64 * 4096, 64));
    // all the values with few set or few unset bits
    v.push(family("values-by-bits", 0, |ch, l| {
        let mut i = 0u32;
        for _ in 0..4 {
            i |= 1u32.checked_shl(ch.pick(33) as u32).unwrap_or(0);
        }
        if ch.flag() {
            i = !i;
        }
        if !ch.mine() {
            return Ok(());
        }
        l.calls += 1;
        if i > 268_435_455 {
            l.rejected += 1;
        } else {
            l.accepted += 1;
        }
        j10(i)
    }));
    v.push(block("all-values", 0, 0, 65536));
    v.push(family("values-above", 0, |ch, l| {
        let a = ch.pick(3840);
        let b = ch.pick(256);
        if !ch.mine() {
            return Ok(());
        }
        let from = 0x1000_0000u32 + (a as u32 * 256 + b as u32) * 4096;
        for i in from..=from + 4095 {
            j10(i)?;
        }
        l.calls += 4096;
        l.rejected += 4096;
        Ok(())
    }));
    // byte sequences in the three places of a variable byte integer
    v.push(family("subscription-identifier-2-bytes", 0, |ch, l| {
        let s = [ch.pick(256) as u8, ch.pick(256) as u8];
        let n = 1 + ch.pick(3);
        if !ch.mine() {
            return Ok(());
        }
        let mut o = vec![0, 7, n as u8, SUBID];
        o.extend_from_slice(&s);
        o.extend_from_slice(b"\0\x01t\0");
        j05(&frame(0x82, &o), l)
    }));
    v.push(family("subscription-identifier-5-bytes", 0, |ch, l| {
        let n = 1 + ch.pick(5);
        let s: Vec<u8> = (0..n).map(|_| ch.of(&VB)).collect();
        let said = ch.pick(n + 2);
        if !ch.mine() {
            return Ok(());
        }
        let mut o = vec![0, 7, 1 + said as u8, SUBID];
        o.extend_from_slice(&s);
        o.extend_from_slice(b"\0\x01t\0");
        j05(&frame(0x82, &o), l)
    }));
    v.push(family("remaining-length-5-bytes", 0, |ch, l| {
        let f = ch.of(&FIRST);
        let n = 1 + ch.pick(5);
        let mut b = vec![f];
        for _ in 0..n {
            b.push(ch.of(&VB));
        }
        let k = ch.of(&[0usize, 1, 8]);
        if !ch.mine() {
            return Ok(());
        }
        b.extend_from_slice(&[0, 1, b't', 0, 0, 0, 0, 0][..k]);
        length_judge(&b, l)
    }));
    v.push(family("remaining-length-2-bytes", 0, |ch, l| {
        let f = ch.of(&FIRST);
        let mut b = vec![f, ch.pick(256) as u8, ch.pick(256) as u8];
        if !ch.mine() {
            return Ok(());
        }
        b.resize(300, 0);
        length_judge(&b, l)
    }));
    v.push(family("property-length-5-bytes", 0, |ch, l| {
        let n = 1 + ch.pick(5);
        let s: Vec<u8> = (0..n).map(|_| ch.of(&VB)).collect();
        let k = ch.of(&[0usize, 1, 4, 140]);
        let which = ch.pick(3);
        if !ch.mine() {
            return Ok(());
        }
        let mut t = s.clone();
        t.extend(std::iter::repeat(&b"\x26\0\x01a"[..]).flatten().take(k));
        let b = match which {
            0 => frame(0xe0, &[&[0][..], &t].concat()),
            1 => frame(0x30, &[&b"\0\x01t"[..], &t].concat()),
            _ => frame(0x40, &[&b"\0\x07\0"[..], &t].concat()),
        };
        j05(&b, l)
    }));
    v.push(family("property-identifier-5-bytes", 0, |ch, l| {
        let n = 1 + ch.pick(5);
        let s: Vec<u8> = (0..n).map(|_| ch.of(&[0u8, 1, 0x1f, 0x7f, 0x80, 0x81, 0x9f, 0xff])).collect();
        let k = ch.of(&[0usize, 1, 3]);
        if !ch.mine() {
            return Ok(());
        }
        let mut t = vec![(n + k) as u8];
        t.extend_from_slice(&s);
        t.extend_from_slice(&b"\0\x01a"[..k]);
        j05(&frame(0xe0, &[&[0][..], &t].concat()), l)
    }));
    // the remaining length and the property length as they are written and read
    for (n, t, g) in packets().into_iter().filter(|p| ["remaining-lengths", "property-lengths", "payload-lengths", "long-lists", "property-table-2M"].contains(&&p.0[..])) {
        v.push(family(n, t, move |ch, l| {
            let p = g(ch);
            if !ch.mine() {
                return Ok(());
            }
            j04(p, l)
        }));
    }
    v.push(family("payload-to-20000", 1, |ch, l| {
        let a = ch.pick(200);
        let n = a * 100 + ch.pick(100);
        if !ch.mine() {
            return Ok(());
        }
        j04(P::Publish { dup: false, qos: 0, retain: false, topic: b"t".to_vec(), pid: None, props: vec![], payload: fill_bin(n) }, l)
    }));
    v.push(family("data-to-65535", 1, |ch, l| {
        let a = ch.pick(256);
        let n = a * 256 + ch.pick(256);
        if !ch.mine() {
            return Ok(());
        }
        j04(with_props(minimal(3), 3, vec![(0x09, V::Bin(fill_bin(n)))]), l)
    }));
    v.push(family("largest-frame", 1, |ch, l| {
        let d = ch.pick(2);
        if !ch.mine() {
            return Ok(());
        }
        // remaining length 268435455 and one less
        let n = 268_435_455 - 4 - d;
        let p = Publish::new(Arc::from("t"), Bytes::from(vec![7u8; n])).ok().unwrap().build();
        let mut b = Vec::with_capacity(n + 16);
        p.to_bytes(&mut b);
        l.calls += 1;
        if b.len() != n + 9 || p.frame_len() != n + 9 || b[1..5] != [0xff - d as u8, 0xff, 0xff, 0x7f] {
            return Err(format!("a frame of {} bytes is not written as it should", n + 9));
        }
        match Packet::from_bytes(&mut &b[..]) {
            Ok(q) if q.frame_len() == n + 9 => Ok(()),
            _ => Err(format!("a frame of {} bytes cannot be read", n + 9)),
        }
    }));
    v
}
const VB: [u8; 14] = [0, 1, 2, 4, 8, 0x7e, 0x7f, 0x80, 0x81, 0x84, 0x88, 0x8c, 0xfe, 0xff];
/// Malformed remaining lengths are rejected, well-formed ones are taken by their value
fn length_judge(b: &[u8], l: &mut Local) -> Result<(), String> {
    match fixed_header(b) {
        Err(_) if b.len() < 6 && b[1..].iter().all(|x| *x >= 128) => {
            l.waiting += 1;
            return match imp::decode(b).res {
                Ok(_) => Err(at(b, "a packet without a complete fixed header")),
                Err(_) => Ok(()),
            };
        }
        Err(e) => {
            l.rejected += 1;
            return match imp::decode(b).res {
                Ok(_) => Err(at(b, format!("accepted: {}", e))),
                Err(er) if imp::is_more(&er) => Err(at(b, format!("asks for more: {}", e))),
                Err(_) => Ok(()),
            };
        }
        Ok(_) => (),
    }
    j05(b, l)
}

// ------------------------------------------------------------ P11

/// Counts the calls
struct Counted<'a> {
    b: &'a [u8],
    calls: std::cell::Cell<usize>,
}
impl bytes::Buf for Counted<'_> {
    fn remaining(&self) -> usize {
        self.calls.set(self.calls.get() + 1);
        self.b.len()
    }
    fn chunk(&self) -> &[u8] {
        self.calls.set(self.calls.get() + 1);
        self.b
    }
    fn advance(&mut self, n: usize) {
        self.calls.set(self.calls.get() + 1);
        self.b = &self.b[n..];
    }
}

/// What decoding costs is in proportion to the bytes that are there, whatever they announce
fn j11(b: &[u8], l: &mut Local) -> Result<(), String> {
    let mut buf = Counted { b, calls: Default::default() };
    let (r, u) = crate::mem::measure(|| Packet::from_bytes(&mut buf));
    l.calls += 1;
    match &r {
        Ok(_) => l.accepted += 1,
        Err(e) if imp::is_more(e) => l.waiting += 1,
        Err(_) => l.rejected += 1,
    }
    l.outcome(&(u.peak, u.total));
    drop(r);
    let calls = buf.calls.get();
    let n = b.len();
    if u.peak > 4096 + 96 * n {
        return Err(at(&b[..n.min(60)], format!("{} bytes are allocated at a time for a buffer of {} bytes", u.peak, n)));
    }
    if u.total > 8192 + 192 * n {
        return Err(at(&b[..n.min(60)], format!("{} bytes are allocated for a buffer of {} bytes", u.total, n)));
    }
    if calls > 512 + 32 * n {
        return Err(at(&b[..n.min(60)], format!("the buffer of {} bytes is asked {} times", n, calls)));
    }
    Ok(())
}
/// Elements of every list that a packet can have
fn unit11(which: usize) -> (u8, Vec<u8>, Vec<u8>, bool) {
    // first byte, what is before the elements, an element, whether they are properties
    match which {
        0 => (0x82, vec![0, 7, 0], vec![0, 1, b't', 0], false),
        1 => (0xa2, vec![0, 7, 0], vec![0, 1, b't'], false),
        2 => (0x90, vec![0, 7, 0], vec![0], false),
        3 => (0xb0, vec![0, 7, 0], vec![0], false),
        4 => (0x30, vec![0, 1, b't'], vec![0x0b, 1], true),
        5 => (0x30, vec![0, 1, b't'], vec![0x26, 0, 1, b'u', 0, 1, b'v'], true),
        6 => (0x30, vec![0, 1, b't'], vec![0x26, 0, 1, b'u'], true),
        7 => (0x82, vec![0, 7], vec![0x26, 0, 1, b'u'], true),
        8 => (0x20, vec![0, 0], vec![0x26, 0, 1, b'u'], true),
        9 => (0xe0, vec![0], vec![0x26, 0, 1, b'u'], true),
        10 => (0x10, b"\0\x04MQTT\x05\x02\0\0".to_vec(), vec![0x26, 0, 1, b'u'], true),
        // not in order
        11 => (0x30, vec![0, 1, b't'], vec![0x01, 1], true),
        12 => (0x30, vec![0, 1, b't', 0], vec![b'x'], false),
        _ => (0x82, vec![0, 7, 0], vec![0, 3, b'a', b'/', b'#', 0x2c], false),
    }
}
const UNITS11: usize = 14;
pub fn p11() -> Vec<Family> {
    let mut v = on_frames(false, j11);
    v.push(family("many-elements", 0, |ch, l| {
        let (first, head, unit, props) = unit11(ch.pick(UNITS11));
        let n = ch.of(&[0usize, 1, 2, 3, 5, 10, 30, 100, 300, 1000, 3000, 10_000, 30_000, 65_535, 65_536, 200_000]);
        let tail = ch.pick(4);
        // the announced length is right, too large or too small by one
        let off = ch.pick(3);
        if !ch.mine() {
            return Ok(());
        }
        let mut b = head;
        let list = unit.repeat(n);
        if props {
            put_varint(&mut b, (list.len() + off).saturating_sub(1) as u32);
        }
        b.extend(list);
        b.extend(&[&[][..], &[0], &[0, 1, b'x'], &[0xff, 0xff]][tail][..]);
        let mut f = vec![first];
        put_varint(&mut f, if props { b.len() } else { (b.len() + off).saturating_sub(1) } as u32);
        f.extend(b);
        j11(&f, l)
    }));
    // lengths of all sizes, with little behind them
    const LEN: [u32; 12] = [0, 1, 2, 127, 128, 16_383, 16_384, 65_535, 2_097_151, 2_097_152, 134_217_728, 268_435_455];
    v.push(family("announced", 0, |ch, l| {
        let f = ch.of(&FIRST);
        let len = ch.of(&LEN);
        let inner = ch.of(&LEN);
        let short = ch.of(&[0u16, 1, 2, 255, 0x7fff, 0xffff]);
        let shape = ch.pick(6);
        let fill = ch.of(&[0usize, 1, 5, 40, 300]);
        let byte = ch.of(&[0u8, 1, b'a', 0x26, 0x80, 0xff]);
        if !ch.mine() {
            return Ok(());
        }
        let mut body = Vec::new();
        match shape {
            0 => put_varint(&mut body, inner),
            1 => {
                put_u16(&mut body, 7);
                put_varint(&mut body, inner);
            }
            2 => {
                put_u16(&mut body, short);
                body.push(b't');
                put_varint(&mut body, inner);
            }
            3 => {
                body.extend(b"\0\x04MQTT\x05\xc6\0\0");
                put_varint(&mut body, inner);
                put_u16(&mut body, short);
            }
            4 => {
                put_u16(&mut body, 1);
                body.push(b't');
                put_varint(&mut body, inner);
                body.push(9);
                put_u16(&mut body, short);
            }
            _ => {
                put_u16(&mut body, 7);
                body.push(0);
                put_u16(&mut body, short);
            }
        }
        body.extend(vec![byte; fill]);
        let mut b = vec![f];
        put_varint(&mut b, len);
        b.extend(&body);
        j11(&b, l)?;
        // the same in a frame that is complete
        j11(&frame(f, &body), l)
    }));
    // all the prefixes, at some of which the frame is tried again
    v.push(family("prefixes-of-long-frames", 0, |ch, l| {
        let (first, head, unit, props) = unit11(ch.pick(UNITS11));
        let n = ch.of(&[10usize, 100, 1000]);
        let k = ch.pick(512);
        let mut b = head;
        let list = unit.repeat(n);
        if props {
            put_varint(&mut b, list.len() as u32);
        }
        b.extend(list);
        let f = frame(first, &b);
        if !ch.mine() {
            return Ok(());
        }
        let cut = if f.len() <= 512 { k } else { k * f.len() / 512 };
        if cut > f.len() {
            return Ok(());
        }
        j11(&f[..cut], l)
    }));
    v
}
