PROPERTY = 'C13'
NEEDS = 'clearing the last event callback of a namespace that has a fallback'
BREAKS = 'A namespace without event callbacks and pending acknowledgements is forgotten, and its fallback with it.'
EDITS = [
    ('socket-io-client/src/callbacks.rs',
     '            ns.events.remove(event);\n',
     '            ns.events.remove(event);\n            if ns.events.is_empty() && ns.acks.is_empty() {\n                self.namespaces.remove(namespace);\n            }\n'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.set_event_callback("e", |_: &Args, _: Option<AckBuilder>| ());
    c.set_fallback_callback(move |_: &Args, _: Option<AckBuilder>| {
        m.fetch_add(1, Ordering::SeqCst);
    });
    s.feed(&text("42[\"e\"]"));
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 0, "not the fallback");
    c.clear_event_callback("e");
    s.feed(&text("42[\"e\"]"));
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 1, "the fallback");
}
'''
