KIND = "packet"
PRELUDE = '''use apiformes_packet::prelude::*;
use bytes::{Buf, Bytes, BytesMut};
use std::sync::Arc;
#[allow(dead_code)]
fn s(x: &str) -> Arc<str> {
    Arc::from(x)
}
#[allow(dead_code)]
fn bytes(p: &Packet) -> BytesMut {
    let mut b = BytesMut::new();
    p.to_bytes(&mut b);
    b
}
#[allow(dead_code)]
fn parse(b: &[u8]) -> Result<Packet, DataParseError> {
    let mut b = b;
    Packet::from_bytes(&mut b)
}
#[allow(dead_code)]
fn left(b: &Bytes) -> usize {
    b.remaining()
}
'''
BUGS = [
 dict(id="p01-qos1-short", property="P01",
  edits=[("packet/src/publish.rs", "_ => Some(MqttTwoBytesInt::deserialize(&mut buf)?),", "_ => Some(MqttTwoBytesInt::unchecked_deserialize(&mut buf)?),")],
  needs="a PUBLISH with QoS 1 or 2 whose topic leaves fewer than two bytes of the frame",
  breaks="the packet identifier is read without looking whether it is there, the decoder panics",
  demo='''#[test]
fn demo() {
    assert!(parse(&[0x32, 4, 0, 1, b'a', 0]).is_err());
    assert!(parse(&[0x34, 3, 0, 1, b'a']).is_err());
    assert!(parse(&[0x34, 6, 0, 1, b'a', 0, 1, 0]).is_ok());
}
'''),
 dict(id="p10-above-the-largest", property="P10",
  edits=[("packet/src/data.rs", "        if i > 0xfffffff {", "        // four bytes carry 28 bits\n        if i & (1 << 28) != 0 {")],
  needs="a value that does not fit into 28 bits, but has bit 28 clear",
  breaks="a value that has no encoding of four bytes is accepted and encoded in five",
  demo="""#[test]
fn demo() {
    assert!(MqttPropValue::new_varint(0xfffffff).is_ok());
    for i in 28..32 {
        assert!(MqttPropValue::new_varint(1 << i).is_err(), "{}", i);
    }
}
"""),
 dict(id="p05-reserved-option-bits", property="P05",
  edits=[("packet/src/subscribe.rs", "        let flags = SubscriptionOptions::from_bits(raw_flags.inner())\n            .ok_or(DataParseError::BadConnectMessage)?;", "        let flags = SubscriptionOptions::from_bits_truncate(raw_flags.inner());")],
  needs="a SUBSCRIBE with one of the two reserved bits of the subscription options set",
  breaks="malformed subscription options are accepted, the reserved bits ignored",
  demo="""#[test]
fn demo() {
    for o in 0..=255u8 {
        let ok = parse(&[0x82, 7, 0, 1, 0, 0, 1, b't', o]).is_ok();
        assert_eq!(ok, o & 0xc0 == 0 && o & 3 != 3 && o & 0x30 != 0x30, "{:x}", o);
    }
}
"""),
 dict(id="p04-replaced-property", property="P07",
  edits=[("packet/src/props.rs", "            self.size += value.size();\n            let old = self.props.insert(key, vec![value]);\n            if let Some(v) = old.as_ref() {\n                self.size -= v[0].size();\n            } else {\n                self.size += key.size();\n            }",
   "            let size = value.size();\n            let old = self.props.insert(key, vec![value]);\n            if old.is_none() {\n                self.size += key.size() + size;\n            }")],
  needs="a property set twice with values of different lengths",
  breaks="the table keeps the length of the first value",
  demo='''#[test]
fn demo() {
    let mut p = ConnAck::new();
    for t in ["long text", "x", "yyy"] {
        p.add_prop(Property::ReasonString, MqttPropValue::new_string(s(t)).unwrap()).unwrap();
    }
    let p = p.build();
    let b = bytes(&p);
    assert_eq!(b.len(), p.frame_len());
    match parse(&b) {
        Ok(Packet::ConnAck(a)) => assert_eq!(a.get_prop(Property::ReasonString).unwrap()[0].into_str(), Some("yyy")),
        _ => panic!("does not decode"),
    }
}
'''),
 dict(id="p07-will-qos", property="P07",
  edits=[("packet/src/connect.rs", "            self.flags -= ConnectFlags::WILL_QOS1 | ConnectFlags::WILL_QOS2;\n            self.flags |= qos.into();", "            self.flags -= ConnectFlags::WILL_QOS1;\n            self.flags |= qos.into();")],
  needs="set_will_qos with QoS 2, and then with a lower one",
  breaks="the bit of QoS 2 stays, the CONNECT has an illegal QoS",
  demo='''#[test]
fn demo() {
    for (a, b) in [(QoS::QoS2, QoS::QoS1), (QoS::QoS2, QoS::QoS0), (QoS::QoS1, QoS::QoS2)] {
        let mut c = Connect::new(s("c")).unwrap();
        c.set_will(Will::new(s("t"), &b"x"[..]).unwrap());
        c.set_will_qos(a).unwrap();
        c.set_will_qos(b).unwrap();
        let want = match b { QoS::QoS0 => 0, QoS::QoS1 => 8, QoS::QoS2 => 16 };
        assert_eq!(c.flags().bits() & 0x18, want);
        assert!(parse(&bytes(&c.build())).is_ok());
    }
}
'''),
 dict(id="p08-leading-plus", property="P08",
  edits=[("packet/src/topic.rs", '        self.inner().chars().any(|c| "#+".contains(c))', '        let topic = self.inner();\n        // a wildcard fills its level\n        topic.ends_with(\'#\') || topic.ends_with(\'+\') || topic.contains("/+/")')],
  needs="a topic name whose only wildcard is a leading + with further levels",
  breaks="a PUBLISH to +/a is taken for a PUBLISH to a topic name",
  demo='''#[test]
fn demo() {
    for t in ["+/a", "+/a/b", "a/+/b", "+", "#", "a/+", "a/#", "+/+"] {
        assert!(Publish::new(s(t), Bytes::new()).is_err(), "{}", t);
    }
    assert!(Publish::new(s("a/b"), Bytes::new()).is_ok());
}
'''),
 dict(id="p09-split-binary", property="P09",
  edits=[("packet/src/data.rs", "        let bytes = buf.copy_to_bytes(len);\n        MqttBinaryData::new(bytes)", "        if buf.chunk().len() < len {\n            return Err(DataParseError::BadMqttBinaryData);\n        }\n        let bytes = Bytes::copy_from_slice(&buf.chunk()[..len]);\n        buf.advance(len);\n        MqttBinaryData::new(bytes)")],
  needs="a buffer of several segments, with the cut inside binary data",
  breaks="binary data that spans two segments is rejected",
  demo='''#[test]
fn demo() {
    let mut p = Publish::new(s("t"), Bytes::new()).unwrap();
    p.add_prop(Property::CorrelationData, MqttPropValue::new_data(&b"abcdef"[..]).unwrap()).unwrap();
    let b = bytes(&p.build()).freeze();
    for i in 0..b.len() {
        let mut two = b.slice(..i).chain(b.slice(i..));
        assert!(Packet::from_bytes(&mut two).is_ok(), "cut at {}", i);
        assert!(!two.has_remaining());
    }
}
'''),
 dict(id="p03-partial-length", property="P03",
  edits=[("packet/src/data.rs", "            if remaining == 0 {\n                return Err(DataParseError::InsufficientBuffer {\n                    needed: 1,\n                    available: 0,\n                });\n            }",
   "            if remaining == 0 {\n                return Err(match multiplier {\n                    0 | 7 => DataParseError::InsufficientBuffer {\n                        needed: 1,\n                        available: 0,\n                    },\n                    _ => DataParseError::BadMqttVariableBytesInt,\n                });\n            }")],
  needs="a frame of at least 16 KiB of which only the first two bytes of the remaining length are there",
  breaks="an incomplete frame is an error instead of a reason to wait",
  demo='''#[test]
fn demo() {
    let p = Publish::new(s("t"), Bytes::from(vec![0; 20000])).unwrap().build();
    let b = bytes(&p);
    for i in 0..b.len() {
        match parse(&b[..i]) {
            Err(DataParseError::InsufficientBuffer { .. }) => (),
            Err(e) => panic!("{:?} after {} bytes", e, i),
            Ok(_) => panic!("a packet after {} bytes", i),
        }
    }
}
'''),
 dict(id="p06-will-delay", property="P06",
  edits=[("packet/src/props.rs", "                (PropOwner::WILL, MqttPropValueType::FourBytesInt, false)", "                (PropOwner::WILL | PropOwner::CONNECT, MqttPropValueType::FourBytesInt, false)")],
  needs="a will delay interval among the properties of the CONNECT itself",
  breaks="a property of the will is accepted as one of the connection",
  demo='''#[test]
fn demo() {
    let mut c = Connect::new(s("c")).unwrap();
    assert!(c.add_prop(Property::WillDelayInterval, MqttPropValue::new_u32(1)).is_err());
    assert!(parse(b"\\x10\\x13\\0\\x04MQTT\\x05\\x02\\0\\0\\x05\\x18\\0\\0\\0\\x01\\0\\x01c").is_err());
    assert!(parse(b"\\x10\\x13\\0\\x04MQTT\\x05\\x02\\0\\0\\x05\\x11\\0\\0\\0\\x01\\0\\x01c").is_ok());
}
'''),
 dict(id="p02-repeated-filter", property="P02",
  edits=[("packet/src/unsubscribe.rs", "            topics.push(topic);\n        }\n        if topics.is_empty()", "            // nothing is unsubscribed twice\n            if topics.last().map_or(true, |t: &MqttTopic| t.inner() != topic.inner()) {\n                topics.push(topic);\n            }\n        }\n        if topics.is_empty()")],
  needs="an UNSUBSCRIBE that lists the same filter twice in a row",
  breaks="one of the two is dropped, so that the packet reports fewer bytes than its frame has",
  demo="""#[test]
fn demo() {
    for list in [&["a"][..], &["a", "b"], &["a", "a"], &["a", "b", "a"]] {
        let mut u = Unsubscribe::new(7);
        for t in list {
            u.add_topic(s(t)).unwrap();
        }
        let b = bytes(&u.build());
        let p = parse(&b).unwrap();
        assert_eq!(p.frame_len(), b.len(), "{:?}", list);
    }
}
"""),
 dict(id="p04-empty-username", property="P04",
  edits=[("packet/src/connect.rs", "        if let Some(username) = self.username.as_ref() {\n            username.serialize(buf);", "        if let Some(username) = self.username.as_ref().filter(|u| !u.inner().is_empty()) {\n            username.serialize(buf);")],
  needs="a CONNECT whose user name is the empty string",
  breaks="the flag announces a user name, but the field is left out",
  demo="""#[test]
fn demo() {
    for name in ["", "u"] {
        let mut c = Connect::new(s("id")).unwrap();
        c.set_clean_start();
        c.set_username(s(name)).unwrap();
        let p = c.build();
        let b = bytes(&p);
        assert_eq!(b.len(), p.frame_len());
        match parse(&b) {
            Ok(Packet::Connect(c)) => assert_eq!(c.username().map(|u| u.to_string()), Some(name.to_string())),
            _ => panic!("does not decode"),
        }
    }
}
"""),
]
