PROPERTY = 'C08'
NEEDS = 'a server that does not answer the close frame within ten seconds'
BREAKS = 'When close() times out the task is left to itself instead of being ended, so the transport stays open and callbacks still run afterwards.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '            select! {\n                r = handle.fuse() => r,\n                _ = timeout.fuse() => Err(Error::Timeout("close")),\n            }',
     '            match futures::future::select(handle, timeout).await {\n                futures::future::Either::Left((r, _)) => r,\n                futures::future::Either::Right(((), handle)) => {\n                    // The server may still answer\n                    handle.forget();\n                    Err(Error::Timeout("close"))\n                }\n            }'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(100);
    let mut pool = LocalPool::new();
    let (c, s) = connect(&mut pool);
    let r = close(&pool, c);
    let t0 = Instant::now();
    while r.lock().unwrap().is_none() && t0.elapsed() < Duration::from_secs(20) {
        pool.run_until_stalled();
        std::thread::sleep(Duration::from_millis(20));
    }
    check(matches!(*r.lock().unwrap(), Some(Err(_))), "close() timed out");
    pool.run_until_stalled();
    check(s.dropped(), "the transport is released");
}
'''
