KIND = "table"
PRELUDE = '''#![allow(dead_code)]
use apiformes_packet::prelude::QoS;
use apiformes_server_lib::mc::*;
use futures::executor::block_on;
use std::sync::Arc;
fn s(x: &str) -> Arc<str> {
    Arc::from(x)
}
fn sub(t: &TopicsTable, c: &str, f: &str) {
    block_on(t.subscribe(s(c), s(f), QoS::QoS0, SubscriptionFlags::empty()))
}
fn has(t: &TopicsTable, c: &str, topic: &str) -> bool {
    block_on(t.get_all_subscribed(topic)).contains_key(c)
}
'''
BUGS = [
 dict(id="t01-plus-empty-level", property="T01",
  edits=[("server-lib/src/topics.rs", "        let starting_point = match sections.next().unwrap() {\n            \"\" => \"/\",\n            x => x,\n        };\n        std::iter::once(starting_point).chain(sections)",
    "        let starting_point = match sections.next().unwrap() {\n            \"\" => \"/\",\n            x => x,\n        };\n        std::iter::once(starting_point).chain(sections.filter(|x| !x.is_empty()))")],
  needs="a topic or filter with an empty level that is not the first",
  breaks="empty levels are skipped: a//b is the same as a/b, and a/+ does not match a/",
  demo='''#[test]
fn demo() {
    let t = TopicsTable::new();
    sub(&t, "c", "a/b");
    sub(&t, "d", "a/+");
    assert!(has(&t, "c", "a/b"));
    assert!(!has(&t, "c", "a//b"));
    assert!(has(&t, "d", "a/"));
    assert!(!has(&t, "d", "a"));
}
'''),
 dict(id="t02-index-dropped", property="T02",
  edits=[("server-lib/src/topics.rs", "            set.remove(topic);\n            cleanup = set.is_empty();", "            cleanup = set.remove(topic) && set.len() <= 1;")],
  needs="a client with two subscriptions gives up one, and later everything",
  breaks="the remaining subscription is forgotten by the index and outlives the client",
  demo='''#[test]
fn demo() {
    let t = TopicsTable::new();
    sub(&t, "c", "a");
    sub(&t, "c", "b");
    block_on(t.unsubscribe(s("c"), "a"));
    assert!(!has(&t, "c", "a") && has(&t, "c", "b"));
    block_on(t.unsubscribe_all(s("c")));
    assert!(!has(&t, "c", "b"));
}
'''),
 dict(id="t03-unsubscribe-order", property="T03",
  edits=[("server-lib/src/topics.rs", "        self.reverse_index_remove(&clientid, topic).await;\n        self.topic_remove(clientid, topic).await;", "        self.topic_remove(clientid.clone(), topic).await;\n        self.reverse_index_remove(&clientid, topic).await;")],
  needs="the same client subscribes to a filter while it is being unsubscribed, between the two steps of the removal",
  breaks="the subscription is in the tree but not in the index, and cannot be removed with the client",
  demo='''#[tokio::test]
async fn demo() {
    // the budget of a task runs out at each of its locks in turn, so that the other task goes on there
    for k in 0..=128 {
        for b in 0..=12 {
            let t = Arc::new(TopicsTable::new());
            t.subscribe(s("c"), s("a/b"), QoS::QoS0, SubscriptionFlags::empty()).await;
            let (t1, t2) = (t.clone(), t.clone());
            let one = tokio::spawn(async move {
                let lock = tokio::sync::RwLock::new(());
                for _ in 0..k {
                    drop(lock.read().await);
                }
                t1.unsubscribe(s("c"), "a/b").await;
            });
            let two = tokio::spawn(async move {
                let lock = tokio::sync::RwLock::new(());
                for _ in 0..b * 10 {
                    drop(lock.read().await);
                }
                t2.subscribe(s("c"), s("a/b"), QoS::QoS0, SubscriptionFlags::empty()).await;
            });
            one.await.unwrap();
            two.await.unwrap();
            t.unsubscribe_all(s("c")).await;
            assert!(!t.get_all_subscribed("a/b").await.contains_key("c"), "subscribed after unsubscribe_all, {} {}", k, b);
        }
    }
}
'''),
 dict(id="b21-empty-entry", property="B21",
  edits=[("server-lib/src/topics.rs", "        self.reverse_index.write().await.remove(clientid)\n", "        // the entry is used again when the client comes back\n        self.reverse_index\n            .write()\n            .await\n            .get_mut(clientid)\n            .map(std::mem::take)\n")],
  needs="many clients with different identifiers that subscribe and leave",
  breaks="an empty entry remains in the index for each client that ever subscribed",
  demo='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;
#[test]
fn demo() {
    let t = TopicsTable::new();
    let visit = |i: usize| {
        sub(&t, &format!("client{}", i), "a/b");
        block_on(t.unsubscribe_all(s(&format!("client{}", i))));
    };
    (0..10).for_each(visit);
    let before = LIVE.load(SeqCst);
    (10..5000).for_each(visit);
    let more = LIVE.load(SeqCst) - before;
    assert!(more < 20_000, "{} bytes", more);
}
'''),
]
