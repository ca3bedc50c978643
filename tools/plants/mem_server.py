KIND = "server"
import os
_ns = {"HERE": HERE}
exec(open(os.path.join(HERE, "plants", "server.py")).read(), _ns)
PRELUDE = _ns["PRELUDE"]
MEM = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
/// counts the bytes that are in use
struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        PEAK.fetch_max(LIVE.fetch_add(l.size() as isize, SeqCst) + l.size() as isize, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;
'''
BUGS = [
 dict(id="b22-announced-frame", property="B22",
  edits=[("server-lib/src/clients/mqttclient.rs", "                Err(DataParseError::InsufficientBuffer {\n                    needed: _,\n                    available: _,\n                }) => {", "                Err(DataParseError::InsufficientBuffer {\n                    needed,\n                    available: _,\n                }) => {\n                    // the rest of the packet is read in one go\n                    self.bytes.reserve(needed);")],
  needs="a connection that announces a packet much longer than the maximum and sends nothing of it",
  breaks="the broker reserves memory for the announced length",
  demo=MEM + '''#[test]
fn demo() {
    let addr = broker(1000, 10000);
    let mut a = client(addr, "a");
    let before = LIVE.load(SeqCst);
    PEAK.store(before, SeqCst);
    a.write_all(b"\\x30\\xff\\xff\\xff\\x7f\\0").unwrap();
    std::thread::sleep(Duration::from_millis(500));
    let more = PEAK.load(SeqCst) - before;
    assert!(more < 1_000_000, "{} bytes", more);
}
'''),
 dict(id="b22-queue-aside", property="B22",
  edits=[("server-lib/src/clients/clientworker.rs", "                self.incoming.send(p).await.\n                    map_err(|_| ServerError::Misc(\"Error sending incoming packet to processing queue\".to_owned()))?;", "                // the client may receive while there is no room for its packet\n                let incoming = self.incoming.clone();\n                tokio::spawn(async move {\n                    if incoming.send(p).await.is_err() {\n                        error!(\"Error sending incoming packet to processing queue\");\n                    }\n                });")],
  needs="a publisher that is faster than the dispatcher for longer than the queue can take",
  breaks="the messages wait outside of the queue and without limit",
  demo=MEM + '''#[test]
fn demo() {
    let queue = 1;
    let (live, done) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let addr = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async move {
            let server = MqttServer::new(MqttServerConfig { mqtt_socketaddr: Some(addr), keep_alive: 5, dispatcher_queue_size: queue, max_packet_size: 10000 })
                .await
                .ok()
                .expect("the broker starts");
            // each message is slow, for there are subscriptions to look at
            for i in 0..30000 {
                server
                    .get_topics()
                    .subscribe(std::sync::Arc::from(format!("nobody{}", i)), std::sync::Arc::from("t"), apiformes_packet::prelude::QoS::QoS0, std::iter::empty().collect())
                    .await;
            }
            live.send(addr).unwrap();
            std::future::pending::<()>().await
        })
    });
    let addr = done.recv().unwrap();
    let mut a = client(addr, "a");
    let before = LIVE.load(SeqCst);
    let mut m = vec![0x30, 0x83, 0x3e, 0, 1, b't', 0];
    m.resize(3 + 0x3e * 128 + 3, b'x');
    a.set_write_timeout(Some(Duration::from_millis(3000))).unwrap();
    for _ in 0..3000 {
        if a.write_all(&m).is_err() {
            break;
        }
    }
    let more = PEAK.load(SeqCst) - before;
    assert!(more < 6_000_000, "{} bytes", more);
}
'''),
 dict(id="b21-warned-once", property="B21",
  edits=[("server-lib/src/dispatcher.rs", "pub struct Dispatcher {\n", "pub struct Dispatcher {\n    /// those that were told already, a warning for each packet is of no use\n    warned: std::collections::HashSet<Arc<str>>,\n"),
   ("server-lib/src/dispatcher.rs", "        Dispatcher {\n            topics,\n", "        Dispatcher {\n            warned: Default::default(),\n            topics,\n"),
   ("server-lib/src/dispatcher.rs", "                    warn!(clientid = client.as_ref(), \"Received unknown user property\")\n", "                    if self.warned.insert(client.clone()) {\n                        warn!(clientid = client.as_ref(), \"Received unknown user property\")\n                    }\n")],
  needs="many clients, each of them subscribes with a user property and leaves",
  breaks="the identifiers of all clients that ever subscribed with a user property are kept",
  demo=MEM + '''#[test]
fn demo() {
    let addr = broker(70000, 100000);
    let visit = |i: usize| {
        let id = format!("{}{}", "x".repeat(100), i);
        let mut a = client(addr, &id);
        a.write_all(b"\\x82\\x0b\\0\\x01\\x04\\x26\\0\\x01a\\0\\x01t\\x20").unwrap();
        assert_eq!(frame(&mut a, 5000).map(|f| f.0), Some(0x90));
    };
    (0..20).for_each(visit);
    std::thread::sleep(Duration::from_millis(300));
    let before = LIVE.load(SeqCst);
    (20..1020).for_each(visit);
    std::thread::sleep(Duration::from_millis(500));
    let more = LIVE.load(SeqCst) - before;
    assert!(more < 40_000, "{} bytes", more);
}
'''),
 dict(id="b21-timer-left", property="B21",
  edits=[("server-lib/src/clients/mqttclient.rs", "    let state = tokio::select! {\n", "    let timeout = tokio::spawn(sleep(Duration::new(keep_alive, 0)));\n    let state = tokio::select! {\n"),
   ("server-lib/src/clients/mqttclient.rs", "        _ = sleep(Duration::new(keep_alive, 0)) => ConnectState", "        _ = timeout => ConnectState")],
  needs="many connections within a long keep-alive time",
  breaks="the timer of the CONNECT of each connection goes on until its time is over, though the client has connected or gone",
  demo=MEM + '''#[test]
fn demo() {
    let (addr, _) = start(1000, 100000, 600);
    let visit = |i: usize| drop(client(addr, &format!("a{}", i % 7)));
    (0..20).for_each(visit);
    std::thread::sleep(Duration::from_millis(300));
    let before = LIVE.load(SeqCst);
    (0..1500).for_each(visit);
    std::thread::sleep(Duration::from_millis(500));
    let more = LIVE.load(SeqCst) - before;
    assert!(more < 50_000, "{} bytes", more);
}
'''),
 dict(id="b20-busy-list", property="B20",
  edits=[("server-lib/src/lib.rs", "        self.clients.read().await.keys().cloned().collect()", "        // a look at the list does not have to wait\n        self.clients\n            .try_read()\n            .map(|clients| clients.keys().cloned().collect())\n            .unwrap_or_default()")],
  needs="a reader of the list while the table is being changed, for instance while a client with many subscriptions is taken over",
  breaks="the list is empty although clients are connected",
  demo='''#[test]
fn demo() {
    let (tell, told) = std::sync::mpsc::channel();
    let stop = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let stopped = stop.clone();
    let broker = std::thread::spawn(move || {
        let addr = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async move {
            let server = MqttServer::new(MqttServerConfig { mqtt_socketaddr: Some(addr), keep_alive: 5, dispatcher_queue_size: 100000, max_packet_size: 70000 })
                .await
                .ok()
                .expect("the broker starts");
            tell.send(addr).unwrap();
            let (mut seen, mut gaps) = (false, 0);
            while !stopped.load(std::sync::atomic::Ordering::SeqCst) {
                let there = server.clients().await.iter().any(|c| &**c == "stays");
                seen |= there;
                gaps += (seen && !there) as usize;
                tokio::task::yield_now().await;
            }
            gaps
        })
    });
    let addr = told.recv().unwrap();
    let _stays = client(addr, "stays");
    for _ in 0..5 {
        let mut a = client(addr, "a");
        let mut b = vec![0x82];
        let mut body = vec![0, 1, 0];
        for i in 0..6000 {
            body.extend(&[0, 4]);
            body.extend(format!("{:04}", i).as_bytes());
            body.push(DO_NOT_SEND);
        }
        b.extend(&[(body.len() % 128) as u8 | 128, (body.len() / 128 % 128) as u8 | 128, (body.len() / 16384) as u8]);
        b.extend(&body);
        a.write_all(&b).unwrap();
        assert_eq!(frame(&mut a, 5000).map(|f| f.0), Some(0x90));
        let _a = client(addr, "a");
        std::thread::sleep(Duration::from_millis(100));
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    let gaps = broker.join().unwrap();
    assert_eq!(gaps, 0, "a client that is connected all the time was not in the list");
}
'''),
]
