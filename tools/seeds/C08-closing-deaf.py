PROPERTY = 'C08'
NEEDS = "events that the server sends after the client's close frame and before its own"
BREAKS = 'After the close frame was sent, what still comes in is read but no longer handed to the callbacks.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '                Some(Ok(msg)) => receiver.process_websocket_packet(msg)?,\n                Some(Err(e)) =>',
     '                Some(Ok(msg)) => log::trace!("Received while closing: {:?}", msg),\n                Some(Err(e)) =>'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| {
        m.fetch_add(1, Ordering::SeqCst);
    });
    let r = close(&pool, c);
    pool.run_until_stalled();
    s.feed(&text("42[\"e\"]"));
    s.feed(&frame(8, &[]));
    s.set(|w| w.eof = true);
    pool.run_until_stalled();
    check(matches!(*r.lock().unwrap(), Some(Ok(()))), "closed");
    check(n.load(Ordering::SeqCst) == 1, "the last event was delivered");
}
'''
