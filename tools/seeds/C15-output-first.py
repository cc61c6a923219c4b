PROPERTY = 'C15'
NEEDS = 'a long queue of emissions while an event has arrived'
BREAKS = 'Once it sends, the task sends all that is queued before it looks at what has come in.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '                    for msg in msgs.into_iter() {\n                        log::trace!("Sending websocket packet: {:?}", msg);',
     '                    let mut msgs = std::collections::VecDeque::from(msgs);\n                    while let Some(msg) = msgs.pop_front() {\n                        if let (true, Ok(Some(more))) = (msgs.is_empty(), send_rx.try_next()) {\n                            // There is more to be sent in one go\n                            msgs.extend(more);\n                        }\n                        log::trace!("Sending websocket packet: {:?}", msg);'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(100);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let (m, t) = (n.clone(), s.clone());
    c.set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| {
        m.store(t.texts().len() + 1, Ordering::SeqCst);
    });
    for _ in 0..5000 {
        c.emit("out").args().send();
    }
    s.feed(&text("42[\"e\"]"));
    pool.run_until_stalled();
    let n = n.load(Ordering::SeqCst);
    check(n > 0 && n < 2000, &format!("dispatched after {} emissions", n));
}
'''
