KIND = "packet"
PRELUDE = '''use apiformes_packet::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
/// counts the bytes that are asked for
struct Counting;
static TOTAL: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TOTAL.fetch_add(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;
/// the bytes that parsing asks for
fn cost(frame: &[u8]) -> usize {
    let before = TOTAL.load(SeqCst);
    let mut b = frame;
    let _ = Packet::from_bytes(&mut b).is_ok();
    TOTAL.load(SeqCst) - before
}
'''
BUGS = [
 dict(id="p11-announced-properties", property="P11",
  edits=[("packet/src/props.rs", "        let mut table = Properties::new();\n        let mut buf = buf.take(size);", "        let mut table = Properties::new();\n        // a property takes at least two bytes\n        table.props.reserve(size / 2);\n        let mut buf = buf.take(size);")],
  needs="a packet whose property length is much longer than the packet",
  breaks="memory is reserved for the announced properties, before it is clear that the packet is malformed",
  demo='''#[test]
fn demo() {
    let all = cost(b"\\x82\\x0b\\0\\x01\\xff\\xff\\x7f\\x26\\0\\x01a\\0\\x01");
    assert!(all < 10000, "{} bytes", all);
}
'''),
 dict(id="p11-exact-growth", property="P11",
  edits=[("packet/src/props.rs", "                Some(old) => old.push(value),", "                Some(old) => {\n                    // no more memory than needed, most of the time there are few of them\n                    let mut values = Vec::with_capacity(old.len() + 1);\n                    values.append(old);\n                    values.push(value);\n                    *old = values;\n                }")],
  needs="a packet that repeats a property thousands of times",
  breaks="the values of the property are moved to new memory for each of them, the total is quadratic",
  demo='''#[test]
fn demo() {
    let n = 4000;
    let mut b = vec![0x30];
    let props = [0x26, 0, 1, b'a'].repeat(n);
    let var = |mut n: usize| {
        let mut v = vec![];
        loop {
            let b = (n % 128) as u8;
            n /= 128;
            v.push(if n > 0 { b | 128 } else { b });
            if n == 0 {
                return v;
            }
        }
    };
    let mut body = vec![0, 1, b't'];
    body.extend(var(props.len()));
    body.extend(&props);
    b.extend(var(body.len()));
    b.extend(&body);
    let all = cost(&b);
    assert!(all < b.len() * 100, "{} bytes for a packet of {}", all, b.len());
}
'''),
]
