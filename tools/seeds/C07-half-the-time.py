PROPERTY = 'C07'
NEEDS = 'a server that takes between five and ten seconds over the upgrade'
BREAKS = 'The handshake is given half of the ten seconds, so a slow server that keeps within the budget is not reached.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '            _ = timeout_fut => Err(Error::Timeout("websocket handshake")),',
     '            // The other half is for the Open message\n            _ = Delay::new(timeout / 2).fuse() => Err(Error::Timeout("websocket handshake")),'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(100);
    let mut pool = LocalPool::new();
    let s = Server::new();
    let t0 = Instant::now();
    let slot = start(&pool, "ws://example.com/", &s);
    let mut sent = false;
    while slot.lock().unwrap().is_none() && t0.elapsed() < Duration::from_secs(15) {
        pool.run_until_stalled();
        if !sent && t0.elapsed() > Duration::from_secs(7) {
            sent = true;
            let r = s.request().expect("a request");
            s.feed(&Server::response(&r));
            s.feed(&text(OPEN));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    check(slot.lock().unwrap().as_ref().map_or(false, |r| r.is_ok()), "connected after seven seconds");
}
'''
