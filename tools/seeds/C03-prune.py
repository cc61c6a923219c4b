PROPERTY = 'C03'
NEEDS = 'clearing the last callback of a namespace while an acknowledgement from it is outstanding'
BREAKS = 'An entry that has no event callbacks left is removed from the table, together with the ack callbacks waiting in it.'
EDITS = [
    ('socket-io-client/src/callbacks.rs',
     '            ns.events.remove(event);\n        }',
     '            ns.events.remove(event);\n            if ns.events.is_empty() && ns.fallback.is_none() {\n                self.namespaces.remove(namespace);\n            }\n        }'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.set_event_callback("e", |_: &Args, _: Option<AckBuilder>| {});
    c.emit("q").callback(move |_: &Args| {
        m.fetch_add(1, Ordering::SeqCst);
    }).args().send();
    c.clear_event_callback("e");
    pool.run_until_stalled();
    s.feed(&text("430[]"));
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 1, "the acknowledgement was delivered");
}
'''
