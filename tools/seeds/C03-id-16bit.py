PROPERTY = 'C03'
NEEDS = 'more than 65536 emissions with callbacks while an early one is unacknowledged'
BREAKS = 'The table of pending acknowledgements goes by the low sixteen bits of the id, so that after 65536 emissions a new one displaces an old one.'
EDITS = [
    ('socket-io-client/src/callbacks.rs',
     '        ns.acks.remove(&id)',
     '        ns.acks.remove(&(id & 0xffff))'),
    ('socket-io-client/src/callbacks.rs',
     '            .acks\n            .insert(id, callback.into());',
     '            .acks\n            .insert(id & 0xffff, callback.into());'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(200);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.emit("first").callback(move |_: &Args| {
        m.fetch_add(1, Ordering::SeqCst);
    }).args().send();
    let other = Arc::new(AtomicUsize::new(0));
    for i in 1..65_537u64 {
        let o = other.clone();
        c.emit("e").callback(move |_: &Args| {
            o.fetch_add(1, Ordering::SeqCst);
        }).args().send();
        if i < 65_536 {
            s.feed(&text(&format!("43{}[]", i)));
        }
        if i % 64 == 0 {
            pool.run_until_stalled();
            s.frames();
        }
    }
    pool.run_until_stalled();
    check(other.load(Ordering::SeqCst) == 65_535, "the others were acknowledged");
    s.feed(&text("430[]"));
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 1, "so is the first");
    check(other.load(Ordering::SeqCst) == 65_535, "and nothing else");
}
'''
