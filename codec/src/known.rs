//! Inputs with a fixed answer that the general families leave open, and the list of those the
//! implementation is known to get wrong (known-findings.txt)

use crate::imp::{self, B};
use crate::p::hex;
use crate::refc::{self, *};
use std::path::Path;

pub struct Known {
    lines: Vec<(String, String)>,
}
impl Known {
    /// Lines `known: property=<id> input=<name> <text>`
    pub fn load(root: &Path) -> Known {
        let text = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
        let mut lines = Vec::new();
        for l in text.lines() {
            if let Some(l) = l.strip_prefix("known: ") {
                let mut w = l.split_whitespace();
                if let (Some(p), Some(i)) = (
                    w.next().and_then(|p| p.strip_prefix("property=")),
                    w.next().and_then(|p| p.strip_prefix("input=")),
                ) {
                    lines.push((p.to_string(), i.to_string()));
                }
            }
        }
        Known { lines }
    }
    pub fn listed(&self, prop: &str, name: &str) -> bool {
        self.lines.iter().any(|(p, n)| p == prop && n == name)
    }
}

fn frame(f: &[u8], want: P) -> (String, Result<(), String>) {
    let name = hex(f);
    let r = match imp::decode(f).res {
        Err(e) => Err(format!("the well-formed frame {} that says {:?} is rejected: {:?}", name, want, e)),
        Ok(p) => match imp::content(&p) {
            Ok(c) if c == want => Ok(()),
            Ok(c) => Err(format!("the frame {} says {:?} and is read as {:?}", name, want, c)),
            Err(e) => Err(e),
        },
    };
    (name, r)
}

/// The inputs of a property: name, and what is wrong
pub fn inputs(prop: &str) -> Vec<(String, Result<(), String>)> {
    let mut v = Vec::new();
    let ack = |ty, code| P::Ack { ty, id: 1, code, props: vec![] };
    let reason = |ty, code| P::Reason { ty, code, props: vec![] };
    let pair = || vec![(USER, V::Pair(b"k".to_vec(), b"v".to_vec()))];
    match prop {
        "P05" => {
            // 3.4.2.1, 3.5.2.1, 3.6.2.1, 3.7.2.1: reason code and properties may be left out
            for (first, ty) in [(0x40u8, 4u8), (0x50, 5), (0x62, 6), (0x70, 7)] {
                v.push(frame(&[first, 2, 0, 1], ack(ty, 0)));
                v.push(frame(&[first, 3, 0, 1, 0], ack(ty, 0)));
                let c = if ty < 6 { 0x80 } else { 0x92 };
                v.push(frame(&[first, 3, 0, 1, c], ack(ty, c)));
            }
            // 3.14.2.1, 3.15.2.1
            v.push(frame(&[0xe0, 0], reason(14, 0)));
            v.push(frame(&[0xe0, 1, 0], reason(14, 0)));
            v.push(frame(&[0xe0, 1, 4], reason(14, 4)));
            v.push(frame(&[0xf0, 0], reason(15, 0)));
            // 3.1.2.11.8 and others: the user property is a pair of strings
            v.push(frame(b"\xe0\x09\0\x07\x26\0\x01k\0\x01v", P::Reason { ty: 14, code: 0, props: pair() }));
            // 3.3.2.3.8: a PUBLISH carries one subscription identifier per matching subscription
            v.push(frame(
                b"\x30\x08\0\x01t\x04\x0b\x01\x0b\x02",
                P::Publish {
                    dup: false,
                    qos: 0,
                    retain: false,
                    topic: b"t".to_vec(),
                    pid: None,
                    props: vec![(SUBID, V::U32(1)), (SUBID, V::U32(2))],
                    payload: vec![],
                },
            ));
        }
        "P04" => {
            // the layout of a user property
            let mut b = B::new(14);
            let val = imp::make_value(USER, &V::Pair(b"k".to_vec(), b"v".to_vec())).ok().unwrap();
            let single = imp::make_value(USER, &V::Str(b"kv".to_vec())).ok().unwrap();
            let r = if b.add_prop(imp::prop(USER), val).is_ok() || b.add_prop(imp::prop(USER), single).is_ok() {
                match imp::encode(&b.build()) {
                    Ok(e) => match refc::decode(&e, UserProp::Pair) {
                        D::Ok(..) => Ok(()),
                        _ => Err(format!("a DISCONNECT with a user property is encoded as {}", hex(&e))),
                    },
                    Err(e) => Err(e),
                }
            } else {
                Err("a user property is refused".into())
            };
            v.push(("disconnect-with-user-property".into(), r));
        }
        "P06" => {
            for o in OWNERS {
                let mut b = B::new(o);
                let val = imp::make_value(USER, &V::Pair(b"k".to_vec(), b"v".to_vec())).ok().unwrap();
                let r = match b.add_prop(imp::prop(USER), val) {
                    Ok(()) => Ok(()),
                    Err(_) => Err(format!("owner {} refuses a user property that is a pair of strings", o)),
                };
                v.push((format!("owner-{}-user-property-pair", o), r));
            }
            let mut b = B::new(3);
            for i in 1..3 {
                let _ = b.add_prop(imp::prop(SUBID), imp::make_value(SUBID, &V::U32(i)).ok().unwrap());
            }
            let r = match b.props() {
                Ok(p) if p == vec![(SUBID, V::U32(1)), (SUBID, V::U32(2))] => Ok(()),
                Ok(p) => Err(format!("a PUBLISH given two subscription identifiers has {:?}", p)),
                Err(e) => Err(e),
            };
            v.push(("publish-two-subscription-identifiers".into(), r));
        }
        _ => (),
    }
    v
}
