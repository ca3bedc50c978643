KIND = "server"
PRELUDE = '''#![allow(dead_code)]
use apiformes_server_lib::*;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::time::Duration;
/// a broker on a free port, in a thread of its own
fn broker(max_packet_size: u32, queue: usize) -> SocketAddr {
    broker_with(max_packet_size, queue, 5)
}
fn broker_with(max_packet_size: u32, queue: usize, keep_alive: u16) -> SocketAddr {
    start(max_packet_size, queue, keep_alive).0
}
/// the thread of the broker sleeps for so many milliseconds on demand
fn stalled_broker(max_packet_size: u32, queue: usize) -> (SocketAddr, tokio::sync::mpsc::UnboundedSender<u64>) {
    start(max_packet_size, queue, 5)
}
fn start(max_packet_size: u32, queue: usize, keep_alive: u16) -> (SocketAddr, tokio::sync::mpsc::UnboundedSender<u64>) {
    let (stall, mut stalls) = tokio::sync::mpsc::unbounded_channel();
    let addr = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async move {
            let _server = MqttServer::new(MqttServerConfig {
                mqtt_socketaddr: Some(addr),
                keep_alive,
                dispatcher_queue_size: queue,
                max_packet_size,
            })
            .await
            .ok()
            .expect("the broker starts");
            while let Some(ms) = stalls.recv().await {
                std::thread::sleep(Duration::from_millis(ms));
            }
            std::future::pending::<()>().await
        })
    });
    for _ in 0..200 {
        if TcpStream::connect(addr).is_ok() {
            return (addr, stall);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    panic!("no broker")
}
fn exact(s: &mut TcpStream, n: usize) -> Option<Vec<u8>> {
    let mut b = vec![0; n];
    s.read_exact(&mut b).ok().map(|_| b)
}
/// the next frame within the time, without its remaining length
fn frame(s: &mut TcpStream, ms: u64) -> Option<(u8, Vec<u8>)> {
    s.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
    let ty = exact(s, 1)?[0];
    let (mut n, mut k) = (0usize, 0);
    loop {
        let b = exact(s, 1)?[0] as usize;
        n += (b & 127) << k;
        k += 7;
        if b < 128 {
            return Some((ty, exact(s, n)?));
        }
    }
}
fn dial(addr: SocketAddr) -> TcpStream {
    let s = TcpStream::connect(addr).unwrap();
    s.set_nodelay(true).unwrap();
    s
}
fn client(addr: SocketAddr, id: &str) -> TcpStream {
    let mut s = dial(addr);
    let mut b = vec![0x10, 13 + id.len() as u8, 0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 0, 0, 0, id.len() as u8];
    b.extend_from_slice(id.as_bytes());
    s.write_all(&b).unwrap();
    let (ty, body) = frame(&mut s, 5000).expect("CONNACK");
    assert_eq!((ty, body[1]), (0x20, 0));
    s
}
/// subscribes, the answer is the reason code
fn subscribe(s: &mut TcpStream, filter: &str, options: u8) -> u8 {
    let mut b = vec![0x82, 6 + filter.len() as u8, 0, 9, 0, 0, filter.len() as u8];
    b.extend_from_slice(filter.as_bytes());
    b.push(options);
    s.write_all(&b).unwrap();
    let (ty, body) = frame(s, 5000).expect("SUBACK");
    assert_eq!(ty, 0x90);
    body[3]
}
fn message(topic: &str, payload: &[u8]) -> Vec<u8> {
    let mut b = vec![0x30, (3 + topic.len() + payload.len()) as u8, 0, topic.len() as u8];
    b.extend_from_slice(topic.as_bytes());
    b.push(0);
    b.extend_from_slice(payload);
    b
}
const DO_NOT_SEND: u8 = 0x20;
const NO_LOCAL: u8 = 4;
'''
BUGS = [
 dict(id="b01-no-local-stops", property="B01",
  edits=[("server-lib/src/dispatcher.rs", "            if &target == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {\n                continue;", "            if &target == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {\n                break;")],
  needs="a publisher with a no-local subscription to its own topic, and other subscribers that come after it in the table",
  breaks="the subscribers that come after the publisher do not get the message",
  demo='''#[test]
fn demo() {
    let addr = broker(1000, 10000);
    let mut p = client(addr, "p");
    assert_eq!(subscribe(&mut p, "t", DO_NOT_SEND | NO_LOCAL), 0);
    let mut others: Vec<TcpStream> = (0..6).map(|i| client(addr, &format!("s{}", i))).collect();
    for s in &mut others {
        assert_eq!(subscribe(s, "t", DO_NOT_SEND), 0);
    }
    for i in 0..15u8 {
        p.write_all(&message("t", &[i])).unwrap();
        for s in &mut others {
            let (ty, b) = frame(s, 3000).expect("every subscriber gets the message");
            assert_eq!((ty, b[b.len() - 1]), (0x30, i));
        }
    }
}
'''),
 dict(id="b10-cancelled-read", property="B10",
  edits=[("server-lib/src/clients/mqttclient.rs", "                    self.tcp_reader\n                        .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);", "                    let mut bytes = std::mem::take(&mut self.bytes);\n                    self.tcp_reader\n                        .set_limit(self.max_packet_size as u64 - bytes.remaining() as u64);"),
         ("server-lib/src/clients/mqttclient.rs", "                    if self.tcp_reader.read_buf(&mut self.bytes).await? == 0 {\n                        return Err(ServerError::Misc(\"Client disconnected\".to_owned()));\n                    }\n", "                    if self.tcp_reader.read_buf(&mut bytes).await? == 0 {\n                        return Err(ServerError::Misc(\"Client disconnected\".to_owned()));\n                    }\n                    self.bytes = bytes;\n")],
  needs="a message for a client arrives while a packet of that client has only been received in part",
  breaks="the first part of the packet is lost when the read is cancelled",
  demo='''#[test]
fn demo() {
    let addr = broker(1000, 10000);
    let mut a = client(addr, "a");
    let mut b = client(addr, "b");
    assert_eq!(subscribe(&mut a, "x", DO_NOT_SEND), 0);
    assert_eq!(subscribe(&mut b, "y", DO_NOT_SEND), 0);
    let m = message("y", b"hello");
    a.write_all(&m[..4]).unwrap();
    std::thread::sleep(Duration::from_millis(300));
    b.write_all(&message("x", b"1")).unwrap();
    assert!(frame(&mut a, 3000).is_some());
    a.write_all(&m[4..]).unwrap();
    assert!(frame(&mut b, 3000).is_some(), "the packet sent in two parts is delivered");
}
'''),
 dict(id="b15-full-queue", property="B15",
  edits=[("server-lib/src/clients/clientworker.rs", "                self.incoming.send(p).await.", "                self.incoming.try_send(p).")],
  needs="a client that sends faster than the dispatcher queue is emptied",
  breaks="a full queue disconnects the client and its messages are lost",
  demo='''#[test]
fn demo() {
    let addr = broker(1000, 1);
    let mut a = client(addr, "a");
    let mut b = client(addr, "b");
    assert_eq!(subscribe(&mut b, "t", DO_NOT_SEND), 0);
    let mut all = Vec::new();
    for i in 0..200u8 {
        all.extend_from_slice(&message("t", &[i]));
    }
    a.write_all(&all).unwrap();
    for i in 0..200u8 {
        let (_, m) = frame(&mut b, 3000).expect("no message is lost");
        assert_eq!(m[m.len() - 1], i);
    }
}
'''),
 dict(id="b09-oversize-in-parts", property="B09",
  edits=[("server-lib/src/clients/mqttclient.rs", "                        .set_limit(self.max_packet_size as u64 - self.bytes.remaining() as u64);", "                        .set_limit(self.max_packet_size as u64);")],
  needs="a packet above the maximum size that arrives in parts, the first of which is below it",
  breaks="packets above the maximum packet size are accepted",
  demo='''#[test]
fn demo() {
    let addr = broker(100, 10000);
    let mut a = client(addr, "a");
    let mut b = client(addr, "b");
    assert_eq!(subscribe(&mut b, "t", DO_NOT_SEND), 0);
    let big = message("t", &[7; 110]);
    a.write_all(&big[..70]).unwrap();
    std::thread::sleep(Duration::from_millis(300));
    let _ = a.write_all(&big[70..]);
    assert!(frame(&mut a, 2000).is_none());
    a.set_read_timeout(Some(Duration::from_millis(2000))).unwrap();
    let closed = match a.read(&mut [0; 1]) {
        Ok(n) => n == 0,
        Err(e) => e.kind() == std::io::ErrorKind::ConnectionReset,
    };
    assert!(closed, "a packet of {} bytes is accepted", big.len());
}
'''),
 dict(id="b17-retained", property="B17",
  edits=[("server-lib/src/dispatcher.rs", "            .intersects(PublishFlags::DUP | PublishFlags::RETAIN)", "            .contains(PublishFlags::DUP | PublishFlags::RETAIN)")],
  needs="a PUBLISH with only one of the flags RETAIN and DUP",
  breaks="a retained message is treated as an ordinary one instead of being refused",
  demo='''#[test]
fn demo() {
    let addr = broker(1000, 10000);
    let mut a = client(addr, "a");
    let mut b = client(addr, "b");
    assert_eq!(subscribe(&mut b, "t", DO_NOT_SEND), 0);
    let mut m = message("t", b"x");
    m[0] |= 1;
    a.write_all(&m).unwrap();
    match frame(&mut a, 3000) {
        Some((ty, _)) => assert_eq!(ty, 0xe0),
        None => panic!("a retained message is not refused"),
    }
    assert!(frame(&mut b, 500).is_none());
}
'''),
 dict(id="b04-qos-code-twice", property="B04",
  edits=[("server-lib/src/dispatcher.rs", "            let qos: QoS = (*options).try_into()?;\n            let mut flags = SubscriptionFlags::empty();\n            match qos {\n                QoS::QoS0 => (),\n                _ => {\n                    suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);\n                    continue;\n                }\n            }",
   "            let qos: QoS = (*options).try_into()?;\n            let mut flags = SubscriptionFlags::empty();\n            if qos != QoS::QoS0 {\n                suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);\n            }"),
   ("server-lib/src/dispatcher.rs", "                _ => {\n                    suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);\n                    continue;\n                }\n            }\n            if options.contains(SubscriptionOptions::NO_LOCAL) {", "                _ if qos == QoS::QoS0 => {\n                    suback.add_reason_code(SubAckReasonCode::ImplementationSpecificError);\n                    continue;\n                }\n                _ => continue,\n            }\n            if qos != QoS::QoS0 {\n                continue;\n            }\n            if options.contains(SubscriptionOptions::NO_LOCAL) {")],
  needs="a shared subscription with QoS above 0",
  breaks="one filter gets two reason codes, the codes behind it are shifted",
  demo='''#[test]
fn demo() {
    let addr = broker(1000, 10000);
    let mut a = client(addr, "a");
    let mut b = vec![0x82, 19, 0, 9, 0];
    for (f, o) in [("$share/g", DO_NOT_SEND | 1), ("t", DO_NOT_SEND)] {
        b.extend_from_slice(&[0, f.len() as u8]);
        b.extend_from_slice(f.as_bytes());
        b.push(o);
    }
    b[1] = b.len() as u8 - 2;
    a.write_all(&b).unwrap();
    let (ty, body) = frame(&mut a, 3000).expect("SUBACK");
    assert_eq!((ty, body.len()), (0x90, 5));
    assert!(body[3] >= 0x80 && body[4] == 0);
}
'''),
 dict(id="b05-ping-first", property="B05",
  edits=[("server-lib/src/clients/clientworker.rs", "        match self.conn.recv().await? {\n            Packet::Connect(c) => self.process_connect(c).await,\n            _ => Err(ServerError::FirstPacketNotConnect),\n        }",
    "        loop {\n            match self.conn.recv().await? {\n                Packet::Connect(c) => return self.process_connect(c).await,\n                Packet::PingReq(_) => continue,\n                _ => return Err(ServerError::FirstPacketNotConnect),\n            }\n        }")],
  needs="a client whose first packet is a PINGREQ, followed by a CONNECT",
  breaks="a connection that does not begin with CONNECT is served",
  demo='''#[test]
fn demo() {
    let addr = broker(1000, 10000);
    let mut a = dial(addr);
    a.write_all(&[0xc0, 0, 0x10, 14, 0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 0, 0, 0, 1, b'a']).unwrap();
    assert!(frame(&mut a, 3000).is_none(), "served");
    client(addr, "b");
}
'''),

 dict(id="b02-late-suback", property="B02",
  edits=[("server-lib/src/dispatcher.rs", "        if c.send(suback.build()).is_err() {\n            error!(clientid = client.as_ref(), \"Internal Error: tx closed\");\n        }\n        Ok(())",
    "        // the dispatcher need not wait for the answer\n        let (c, suback) = (c.clone(), suback.build());\n        tokio::spawn(async move {\n            if c.send(suback).is_err() {\n                error!(clientid = &*c.clientid(), \"Internal Error: tx closed\");\n            }\n        });\n        Ok(())"),
   ("server-lib/src/clients/client.rs", "    pub fn encrypted(&self) -> bool {", "    pub fn clientid(&self) -> Arc<str> {\n        self.clientid.clone()\n    }\n\n    pub fn encrypted(&self) -> bool {")],
  needs="a matching message is already waiting in the queue when the subscription is processed",
  breaks="messages are delivered before the acknowledgement of the subscription they are due to",
  demo='''#[test]
fn demo() {
    let addr = broker(1000, 100000);
    let mut a = client(addr, "a");
    let mut all = vec![0x82, 7, 0, 9, 0, 0, 1, b't', DO_NOT_SEND];
    for i in 0..5u8 {
        all.extend_from_slice(&message("t", &[i]));
    }
    a.write_all(&all).unwrap();
    assert_eq!(frame(&mut a, 3000).expect("SUBACK").0, 0x90);
    for i in 0..5u8 {
        let (ty, m) = frame(&mut a, 3000).expect("PUBLISH");
        assert_eq!((ty, m[m.len() - 1]), (0x30, i));
    }
}
'''),
 dict(id="b03-flags-carried-over", property="B03",
  edits=[("server-lib/src/dispatcher.rs", "        for (topic, options) in sub.topics_iter() {\n            let qos: QoS = (*options).try_into()?;\n            let mut flags = SubscriptionFlags::empty();", "        let mut flags = SubscriptionFlags::empty();\n        for (topic, options) in sub.topics_iter() {\n            let qos: QoS = (*options).try_into()?;")],
  needs="one SUBSCRIBE with a no-local filter and then one without",
  breaks="the later filters of the SUBSCRIBE become no-local as well",
  demo='''#[test]
fn demo() {
    let addr = broker(1000, 10000);
    let mut a = client(addr, "a");
    a.write_all(&[0x82, 11, 0, 9, 0, 0, 1, b't', DO_NOT_SEND | NO_LOCAL, 0, 1, b'u', DO_NOT_SEND]).unwrap();
    assert_eq!(frame(&mut a, 3000).expect("SUBACK").0, 0x90);
    a.write_all(&message("t", b"1")).unwrap();
    a.write_all(&message("u", b"2")).unwrap();
    let (ty, m) = frame(&mut a, 3000).expect("its own message");
    assert_eq!((ty, m[m.len() - 1]), (0x30, b'2'));
}
'''),
 dict(id="b06-payload-format", property="B06",
  edits=[("server-lib/src/dispatcher.rs", "                Property::PayloadFormatIndicator => response\n                    .add_prop(Property::PayloadFormatIndicator, v.clone())\n                    .unwrap(),", "                Property::PayloadFormatIndicator => {\n                    if v.into_u8() == Some(1) {\n                        let text = String::from_utf8(publish.payload().to_vec()).unwrap();\n                        trace!(\"text message {}\", text);\n                    }\n                    response\n                        .add_prop(Property::PayloadFormatIndicator, v.clone())\n                        .unwrap()\n                }")],
  needs="a message that claims to be text and is not UTF-8",
  breaks="the dispatcher dies and nobody is served any more",
  demo='''#[test]
fn demo() {
    let addr = broker(1000, 10000);
    let mut a = client(addr, "a");
    let mut b = client(addr, "b");
    assert_eq!(subscribe(&mut b, "t", DO_NOT_SEND), 0);
    a.write_all(&[0x30, 8, 0, 1, b'x', 2, 1, 1, 0xff, 0xfe]).unwrap();
    std::thread::sleep(Duration::from_millis(200));
    let mut c = client(addr, "c");
    c.write_all(&message("t", b"1")).unwrap();
    assert!(frame(&mut b, 3000).is_some(), "the broker no longer delivers");
}
'''),
 dict(id="b07-malformed-ignored", property="B07",
  edits=[("server-lib/src/clients/mqttclient.rs", "                Err(e) => return Err(e.into()),\n            }\n        }\n    }", "                Err(DataParseError::BadConnectMessage) => {\n                    return Err(DataParseError::BadConnectMessage.into())\n                }\n                Err(e) => {\n                    warn!(\"Discarding what {:?} sent, {:?}\", self.saddr, e);\n                    self.bytes.clear();\n                }\n            }\n        }\n    }")],
  needs="a malformed packet on an established connection",
  breaks="the connection lives on after a protocol error",
  demo='''#[test]
fn demo() {
    let addr = broker(1000, 10000);
    for bad in [&[0x00u8, 0][..], &[0x30, 4, 0, 1, 0xff, 0], &[0x30, 0xff, 0xff, 0xff, 0xff, 1]] {
        let mut a = client(addr, "a");
        a.write_all(bad).unwrap();
        a.set_read_timeout(Some(Duration::from_millis(2000))).unwrap();
        let mut b = [0; 100];
        let closed = loop {
            match a.read(&mut b) {
                Ok(0) => break true,
                Ok(_) => (),
                Err(e) => break e.kind() == std::io::ErrorKind::ConnectionReset,
            }
        };
        assert!(closed, "{:?}", bad);
    }
}
'''),
 dict(id="b08-lost-takeover", property="B08",
  edits=[("server-lib/src/clients/client.rs", "        self.killme.notify_one();", "        self.killme.notify_waiters();")],
  needs="the second connection is registered before the task of the first has run for the first time",
  breaks="the signal is lost, and the older connection stays open",
  demo='''#[test]
fn demo() {
    let (addr, stall) = stalled_broker(1000, 10000);
    for round in 0..20 {
        let mut a = dial(addr);
        let mut b = dial(addr);
        std::thread::sleep(Duration::from_millis(30));
        stall.send(150).unwrap();
        std::thread::sleep(Duration::from_millis(30));
        let connect = [0x10, 14, 0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 0, 0, 0, 1, b'x'];
        a.write_all(&connect).unwrap();
        b.write_all(&connect).unwrap();
        std::thread::sleep(Duration::from_millis(400));
        let open = [a, b]
            .iter_mut()
            .map(|s| {
                s.set_read_timeout(Some(Duration::from_millis(50))).unwrap();
                loop {
                    match s.read(&mut [0; 100]) {
                        Ok(0) => return false,
                        Ok(_) => (),
                        Err(e) => return e.kind() != std::io::ErrorKind::ConnectionReset,
                    }
                }
            })
            .filter(|open| *open)
            .count();
        assert_eq!(open, 1, "round {}: connections of one identifier", round);
    }
}
'''),
 dict(id="b13-truncated-keep-alive", property="B13",
  edits=[("server-lib/src/clients/mqttclient.rs", "    let keep_alive = client.cfg().keep_alive as u64;", "    let keep_alive = client.cfg().keep_alive as u8 as u64;")],
  needs="a keep-alive of 256 seconds or more in the configuration",
  breaks="connections are closed before the configured time is over, with 256 at once",
  demo='''#[test]
fn demo() {
    let addr = broker_with(1000, 10000, 257);
    let mut a = dial(addr);
    std::thread::sleep(Duration::from_millis(2500));
    let _ = a.write_all(&[0x10, 14, 0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 0, 0, 0, 1, b'a']);
    assert!(frame(&mut a, 3000).is_some(), "closed although the time is not over");
}
'''),
 dict(id="b14-flush", property="B14",
  edits=[("server-lib/src/clients/clientworker.rs", "            _ = self.listen_forever() => (),\n        }\n        self.internals.clientid", "            _ = self.listen_forever() => (),\n        }\n        // what was accepted for this client is still sent\n        while let Ok(packet) = self.outgoing.try_recv() {\n            if self.conn.send(&packet).await.is_err() {\n                break;\n            }\n        }\n        self.internals.clientid")],
  needs="shutdown while a client does not read, and more is waiting for it than its socket takes",
  breaks="shutdown does not end",
  demo='''#[test]
fn demo() {
    let addr = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
    let (stop, stopped) = tokio::sync::oneshot::channel::<()>();
    let t = std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async move {
            let server = MqttServer::new(MqttServerConfig {
                mqtt_socketaddr: Some(addr),
                keep_alive: 5,
                dispatcher_queue_size: 10000,
                max_packet_size: 200000,
            })
            .await
            .ok()
            .expect("the broker starts");
            let _ = stopped.await;
            tokio::time::timeout(Duration::from_secs(10), server.shutdown()).await.is_ok()
        })
    });
    while TcpStream::connect(addr).is_err() {
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut b = client(addr, "b");
    assert_eq!(subscribe(&mut b, "t", DO_NOT_SEND), 0);
    let mut a = client(addr, "a");
    let mut m = vec![0x30, 0xa4, 0x8d, 0x06, 0, 1, b't', 0];
    m.extend(vec![7; 100000]);
    for _ in 0..200 {
        a.write_all(&m).unwrap();
    }
    assert_eq!(subscribe(&mut a, "u", DO_NOT_SEND), 0);
    std::thread::sleep(Duration::from_millis(300));
    stop.send(()).unwrap();
    assert!(t.join().unwrap(), "shutdown does not end");
}
'''),
 dict(id="b16-bounded-index", property="B16",
  edits=[("server-lib/src/topics.rs", "            Entry::Occupied(mut e) => {\n                e.get_mut().insert(topic);\n            }\n            Entry::Vacant(e) => {\n                let s = e.insert(HashSet::new());\n                s.insert(topic);\n            }", "            Entry::Occupied(mut e) => {\n                // a filter below another one is removed along with it\n                let parent = topic.rfind('/').map(|i| &topic[..i]);\n                if !parent.map_or(false, |p| e.get().contains(p)) {\n                    e.get_mut().insert(topic);\n                }\n            }\n            Entry::Vacant(e) => {\n                let s = e.insert(HashSet::new());\n                s.insert(topic);\n            }")],
  needs="a client that subscribes to a filter and then to one directly below it, leaves and connects again",
  breaks="the second subscription outlives the connection",
  demo='''#[test]
fn demo() {
    let addr = broker(1000, 10000);
    let mut p = client(addr, "p");
    let mut a = client(addr, "a");
    assert_eq!(subscribe(&mut a, "t", DO_NOT_SEND), 0);
    assert_eq!(subscribe(&mut a, "t/u", DO_NOT_SEND), 0);
    drop(a);
    std::thread::sleep(Duration::from_millis(300));
    let mut a = client(addr, "a");
    assert_eq!(subscribe(&mut a, "x", DO_NOT_SEND), 0);
    p.write_all(&message("t/u", b"1")).unwrap();
    assert!(frame(&mut a, 700).is_none(), "a message because of a subscription of an earlier connection");
}
'''),
 dict(id="b18-warm-table", property="B18",
  edits=[("server-lib/src/lib.rs", "        let topics = Arc::new(TopicsTable::new());", "        // the table of an address grows to the size that its clients need, it is not thrown away\n        // when the broker is started again\n        static TABLES: std::sync::Mutex<Vec<(std::net::SocketAddr, Arc<TopicsTable>)>> =\n            std::sync::Mutex::new(Vec::new());\n        let topics = match cfg.mqtt_socketaddr {\n            Some(saddr) if saddr.port() != 0 => {\n                let mut tables = TABLES.lock().unwrap();\n                match tables.iter().find(|(a, _)| *a == saddr) {\n                    Some((_, table)) => table.clone(),\n                    None => {\n                        let table = Arc::new(TopicsTable::new());\n                        tables.push((saddr, table.clone()));\n                        table\n                    }\n                }\n            }\n            _ => Arc::new(TopicsTable::new()),\n        };")],
  needs="a broker that is shut down while a client has subscriptions, another one on the same address in the same process, and a client with the same identifier there",
  breaks="the new broker knows subscriptions of the old one",
  demo="""async fn up(addr: SocketAddr) -> MqttServer {
    MqttServer::new(MqttServerConfig { mqtt_socketaddr: Some(addr), keep_alive: 5, dispatcher_queue_size: 10000, max_packet_size: 1000 })
        .await
        .ok()
        .expect("the broker starts")
}
#[test]
fn demo() {
    let addr = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
    let (tell, mut next) = tokio::sync::mpsc::unbounded_channel::<()>();
    let (told, done) = std::sync::mpsc::channel::<()>();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async move {
            let first = up(addr).await;
            told.send(()).unwrap();
            next.recv().await;
            first.shutdown().await;
            let _second = up(addr).await;
            told.send(()).unwrap();
            next.recv().await;
        })
    });
    done.recv().unwrap();
    let mut a = client(addr, "a");
    assert_eq!(subscribe(&mut a, "t", DO_NOT_SEND), 0);
    tell.send(()).unwrap();
    done.recv().unwrap();
    drop(a);
    let mut a = client(addr, "a");
    let mut p = client(addr, "p");
    assert_eq!(subscribe(&mut a, "x", DO_NOT_SEND), 0);
    p.write_all(&message("t", b"1")).unwrap();
    assert!(frame(&mut a, 700).is_none(), "a message because of a subscription at the broker before");
}
"""),
 dict(id="b19-first-keep-alive", property="B19",
  edits=[("server-lib/src/clients/mqttclient.rs", "    let keep_alive = client.cfg().keep_alive as u64;\n", "    static KEEP_ALIVE: std::sync::OnceLock<u64> = std::sync::OnceLock::new();\n    let keep_alive = *KEEP_ALIVE.get_or_init(|| client.cfg().keep_alive as u64);\n")],
  needs="two brokers in one process with different keep-alive times, and a connection to the second one that is slow to present itself",
  breaks="the time of the first broker applies to the connections of the second one",
  demo="""#[test]
fn demo() {
    let first = broker_with(1000, 10000, 1);
    let _c = client(first, "c");
    let second = broker_with(1000, 10000, 4);
    let mut s = TcpStream::connect(second).unwrap();
    std::thread::sleep(Duration::from_millis(2000));
    let _ = s.write_all(b"\\x10\\x0e\\0\\x04MQTT\\x05\\x02\\0\\0\\0\\0\\x01a");
    assert_eq!(frame(&mut s, 1500).map(|f| f.0), Some(0x20), "the connection is closed before its time");
}
"""),
 dict(id="b23-conditions-joined", property="B23",
  edits=[("server-lib/src/dispatcher.rs", "            if &target == client && info.flags.contains(SubscriptionFlags::NO_LOCAL) {\n                continue;\n            }\n", ""),
   ("server-lib/src/dispatcher.rs", "                if strict_encryption && !c.encrypted() {\n", "                if (strict_encryption && !c.encrypted())\n                    || (&target == client && info.flags.contains(SubscriptionFlags::NO_LOCAL))\n                {\n")],
  needs="a broker that is built without the encrypted transport, and a no-local subscription of a publisher",
  breaks="the publisher gets its own message",
  demo="""#[test]
fn demo() {
    let addr = broker(1000, 10000);
    let mut p = client(addr, "p");
    assert_eq!(subscribe(&mut p, "t", DO_NOT_SEND | NO_LOCAL), 0);
    p.write_all(&message("t", b"1")).unwrap();
    assert!(frame(&mut p, 700).is_none(), "its own message");
}
"""),
]
