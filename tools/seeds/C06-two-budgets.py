PROPERTY = 'C06'
NEEDS = 'a server that takes some seconds over the upgrade and then never sends Open'
BREAKS = 'The second phase of connecting gets ten seconds of its own, so that connecting can take twenty.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '            _ = timeout_fut => Err(Error::Timeout("engine.io protocol Open message")),\n',
     '            _ = Delay::new(timeout).fuse() => Err(Error::Timeout("engine.io protocol Open message")),\n'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(100);
    let mut pool = LocalPool::new();
    let s = Server::new();
    let t0 = Instant::now();
    let slot = start(&pool, "ws://example.com/", &s);
    let mut sent = false;
    while slot.lock().unwrap().is_none() && t0.elapsed() < Duration::from_secs(25) {
        pool.run_until_stalled();
        if !sent && t0.elapsed() > Duration::from_secs(5) {
            sent = true;
            let r = s.request().expect("a request");
            s.feed(&Server::response(&r));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let e = t0.elapsed();
    check(slot.lock().unwrap().as_ref().map_or(false, |r| r.is_err()) && e < Duration::from_secs(12), &format!("connecting failed after {:?}", e));
    pool.run_until_stalled();
    check(s.dropped(), "the transport is released");
}
'''
