//! Randomness under control: everything random in the process (hash seeds, identifiers,
//! ephemeral keys) comes from `getrandom`, which is defined here. A thread that runs an execution
//! of the model checker gets a fixed stream, selected by a seed.

use std::cell::Cell;

thread_local! {
    static STREAM: Cell<Option<u64>> = const { Cell::new(None) };
}

/// From now on this thread sees the stream of `seed`
pub fn seed(seed: u64) {
    STREAM.with(|s| s.set(Some(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234_5678_9ABC_DEF0)));
}

fn next() -> Option<u64> {
    STREAM
        .try_with(|s| {
            s.get().map(|x| {
                let x = x.wrapping_add(0x9E3779B97F4A7C15);
                s.set(Some(x));
                let mut z = x;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                z ^ (z >> 31)
            })
        })
        .ok()
        .flatten()
}

/// Replaces the function of the C library
///
/// # Safety
/// `buf` points to `len` bytes
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: libc::c_uint) -> isize {
    let mut i = 0;
    while i < len {
        match next() {
            Some(v) => {
                for b in v.to_le_bytes() {
                    if i < len {
                        *(buf as *mut u8).add(i) = b;
                        i += 1;
                    }
                }
            }
            None => return libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize,
        }
    }
    len as isize
}

/// Whether the control works: two threads with one seed see the same hash functions, and with
/// different seeds different ones
pub fn self_test() -> bool {
    let h = |s: u64| {
        std::thread::spawn(move || {
            use std::hash::BuildHasher;
            seed(s);
            std::collections::hash_map::RandomState::new().hash_one(1u8)
        })
        .join()
        .unwrap()
    };
    h(1) == h(1) && h(1) != h(2)
}
