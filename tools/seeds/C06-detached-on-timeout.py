PROPERTY = 'C06'
NEEDS = 'a server that completes the upgrade and never sends Open'
BREAKS = 'When Open does not arrive in time the task is detached rather than ended, so it keeps running and holds the transport.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '                Ok(open) => Ok(open),\n',
     '                Ok(open) => Ok::<_, Error>(open),\n'),
    ('socket-io-client/src/connection.rs',
     '            _ = timeout_fut => Err(Error::Timeout("engine.io protocol Open message")),\n',
     '            _ = timeout_fut => {\n                // It ends when the server closes the connection\n                let _ = close_tx.send(());\n                handle.forget();\n                return Err(Error::Timeout("engine.io protocol Open message"));\n            }\n'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(100);
    let mut pool = LocalPool::new();
    let s = Server::new();
    let t0 = Instant::now();
    let slot = start(&pool, "ws://example.com/", &s);
    pool.run_until_stalled();
    let r = s.request().expect("a request");
    s.feed(&Server::response(&r));
    while slot.lock().unwrap().is_none() && t0.elapsed() < Duration::from_secs(15) {
        pool.run_until_stalled();
        std::thread::sleep(Duration::from_millis(20));
    }
    check(slot.lock().unwrap().as_ref().map_or(false, |r| r.is_err()), "connecting failed");
    pool.run_until_stalled();
    check(s.dropped(), "the transport is released");
}
'''
