KIND = "noise"
PRELUDE = open(HERE + "/plants/server.py").read().split("PRELUDE = '''")[1].split("'''")[0]
PRELUDE = PRELUDE[:PRELUDE.index("/// a broker on a free port")] + r'''
/// a broker with both listeners, in a thread of its own
fn broker(strict: bool, queue: usize) -> (SocketAddr, SocketAddr, Vec<u8>) {
    let (l1, l2) = (TcpListener::bind("127.0.0.1:0").unwrap(), TcpListener::bind("127.0.0.1:0").unwrap());
    let (plain, noise) = (l1.local_addr().unwrap(), l2.local_addr().unwrap());
    drop((l1, l2));
    let keys = snow::Builder::new("Noise_XK_25519_ChaChaPoly_BLAKE2s".parse().unwrap()).generate_keypair().unwrap();
    let mut private_key = [0; 32];
    private_key.copy_from_slice(&keys.private);
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async move {
            let _server = MqttServer::new(MqttServerConfig {
                mqtt_socketaddr: Some(plain),
                keep_alive: 5,
                dispatcher_queue_size: queue,
                max_packet_size: 10000,
                noise_socketaddr: Some(noise),
                channel_permeability: if strict { Permeability::Strict } else { Permeability::Permissive },
                private_key,
            })
            .await
            .ok()
            .expect("the broker starts");
            std::future::pending::<()>().await
        })
    });
    for _ in 0..200 {
        if TcpStream::connect(plain).is_ok() && TcpStream::connect(noise).is_ok() {
            return (plain, noise, keys.public);
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    panic!("no broker")
}
struct Noise {
    s: TcpStream,
    t: snow::TransportState,
}
fn put(s: &mut TcpStream, m: &[u8]) {
    let mut b = (m.len() as u32).to_be_bytes().to_vec();
    b.extend_from_slice(m);
    let _ = s.write_all(&b);
}
fn get(s: &mut TcpStream, ms: u64) -> Option<Vec<u8>> {
    s.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
    let n = exact(s, 4)?;
    exact(s, u32::from_be_bytes([n[0], n[1], n[2], n[3]]) as usize)
}
impl Noise {
    fn client(addr: SocketAddr, key: &[u8], id: &str) -> Noise {
        let builder = snow::Builder::new("Noise_XK_25519_ChaChaPoly_BLAKE2s".parse().unwrap());
        let mine = builder.generate_keypair().unwrap();
        let mut h = builder.local_private_key(&mine.private).remote_public_key(key).build_initiator().unwrap();
        let mut s = dial(addr);
        let mut b = [0; 300];
        let n = h.write_message(&[], &mut b).unwrap();
        put(&mut s, &b[..n]);
        h.read_message(&get(&mut s, 5000).unwrap(), &mut []).unwrap();
        let n = h.write_message(&[], &mut b).unwrap();
        put(&mut s, &b[..n]);
        let mut c = Noise { s, t: h.into_transport_mode().unwrap() };
        let mut b = vec![0x10, 13 + id.len() as u8, 0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 0, 0, 0, id.len() as u8];
        b.extend_from_slice(id.as_bytes());
        c.send(&b);
        assert_eq!(c.frame(5000).expect("CONNACK")[0], 0x20);
        c
    }
    fn seal(&mut self, m: &[u8]) -> Vec<u8> {
        let mut b = vec![0; m.len() + 16];
        let n = self.t.write_message(m, &mut b).unwrap();
        b.truncate(n);
        b
    }
    fn send(&mut self, m: &[u8]) {
        let b = self.seal(m);
        put(&mut self.s, &b);
    }
    fn frame(&mut self, ms: u64) -> Option<Vec<u8>> {
        let f = get(&mut self.s, ms)?;
        let mut b = vec![0; f.len()];
        let n = self.t.read_message(&f, &mut b).unwrap();
        b.truncate(n);
        Some(b)
    }
    fn subscribe(&mut self, filter: &str, options: u8) -> u8 {
        let mut b = vec![0x82, 6 + filter.len() as u8, 0, 9, 0, 0, filter.len() as u8];
        b.extend_from_slice(filter.as_bytes());
        b.push(options);
        self.send(&b);
        let f = self.frame(5000).expect("SUBACK");
        assert_eq!(f[0], 0x90);
        f[5]
    }
}
''' + PRELUDE[PRELUDE.index("fn exact("):]
BUGS = [
 dict(id="b11-publisher-gone", property="B11",
  edits=[("server-lib/src/dispatcher.rs", "                        \"Client Prematurely shutdown before its publish request could be processed\"\n                    );\n                    return Ok(());", "                        \"Client shut down before its publish request could be processed\"\n                    );\n                    false")],
  needs="an encrypted publisher is unregistered while some of its messages are still in the queue",
  breaks="its messages are taken for unencrypted ones, and reach plain connections",
  demo='''#[test]
fn demo() {
    let (plain, noise, key) = broker(true, 1000000);
    let mut b = client(plain, "b");
    assert_eq!(subscribe(&mut b, "t", DO_NOT_SEND), 0);
    for round in 0..20 {
        let mut a = Noise::client(noise, &key, "a");
        let mut all = Vec::new();
        for i in 0..200u8 {
            let m = a.seal(&message("t", &[i]));
            all.extend_from_slice(&(m.len() as u32).to_be_bytes());
            all.extend_from_slice(&m);
        }
        a.s.write_all(&all).unwrap();
        a.s.shutdown(std::net::Shutdown::Write).unwrap();
        assert!(frame(&mut b, 150).is_none(), "round {}: an encrypted message on a plain connection", round);
    }
}
'''),
 dict(id="b12-bad-frame-skipped", property="B12",
  edits=[("server-lib/src/clients/noiseclient.rs", "        let frame = self\n            .stream\n            .next()\n            .await\n            .ok_or_else(|| ServerError::Misc(\"Client disconnected\".to_owned()))??;\n        //TODO when you implement noise protocol by hand... make sure to make this happen in place\n        let mut message = vec![0; frame.remaining()];\n        let size = self.crypto.read_message(&frame[..], &mut message)?;",
   "        let (message, size) = loop {\n            let frame = self\n                .stream\n                .next()\n                .await\n                .ok_or_else(|| ServerError::Misc(\"Client disconnected\".to_owned()))??;\n            //TODO when you implement noise protocol by hand... make sure to make this happen in place\n            let mut message = vec![0; frame.remaining()];\n            match self.crypto.read_message(&frame[..], &mut message) {\n                Ok(size) => break (message, size),\n                Err(e) => warn!(\"Discarding a frame, {:?}\", e),\n            }\n        };")],
  needs="a tampered frame followed by an intact one",
  breaks="a connection survives a frame that was tampered with",
  demo='''#[test]
fn demo() {
    let (plain, noise, key) = broker(false, 10000);
    let mut b = client(plain, "b");
    assert_eq!(subscribe(&mut b, "t", DO_NOT_SEND), 0);
    let mut a = Noise::client(noise, &key, "a");
    a.send(&message("t", b"1"));
    assert!(frame(&mut b, 3000).is_some());
    let good = a.seal(&message("t", b"2"));
    let mut bad = good.clone();
    bad[3] ^= 1;
    put(&mut a.s, &bad);
    put(&mut a.s, &good);
    assert!(frame(&mut b, 700).is_none(), "the connection goes on after a tampered frame");
    assert!(get(&mut a.s, 3000).is_none());
    a.s.set_read_timeout(Some(Duration::from_millis(50))).unwrap();
    let closed = match a.s.read(&mut [0; 10]) {
        Ok(n) => n == 0,
        Err(e) => e.kind() == std::io::ErrorKind::ConnectionReset,
    };
    assert!(closed);
}
'''),
 dict(id="b11-own-identifier", property="B11",
  edits=[("server-lib/src/dispatcher.rs", "                if strict_encryption && !c.encrypted() {", "                if strict_encryption && &target != client && !c.encrypted() {")],
  needs="the encrypted connection of a publisher is taken over by a plain one with the same identifier between the two looks at the table of clients",
  breaks="an encrypted message is delivered to the plain connection that took over",
  demo='''#[test]
fn demo() {
    // cannot be told apart from outside without control of the schedule
}
'''),
]
BUGS.pop()
