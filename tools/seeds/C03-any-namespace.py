PROPERTY = 'C03'
NEEDS = "an acknowledgement whose id is known, but in another namespace than the emission's"
BREAKS = "An ack that is not known in its namespace is looked up in the others, so it completes somebody else's emission."
EDITS = [
    ('socket-io-client/src/callbacks.rs',
     '        let ns = self.namespaces.get_mut(namespace)?;\n        ns.acks.remove(&id)',
     '        if let Some(cb) = self.namespaces.get_mut(namespace)?.acks.remove(&id) {\n            return Some(cb);\n        }\n        // Ids are unique over all namespaces\n        self.namespaces.values_mut().find_map(|ns| ns.acks.remove(&id))'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.set_namespace_event_callback("/other", "e", |_: &Args, _: Option<AckBuilder>| {});
    c.emit("q").callback(move |_: &Args| {
        m.fetch_add(1, Ordering::SeqCst);
    }).args().send();
    pool.run_until_stalled();
    s.feed(&text("43/other,0[1]"));
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 0, "an ack from another namespace is not delivered");
}
'''
