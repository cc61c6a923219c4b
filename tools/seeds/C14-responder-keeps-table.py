PROPERTY = 'C14'
NEEDS = 'a responder that is kept after the client was dropped'
BREAKS = 'Responders hold on to the callback table, so the callbacks registered with the client live as long as any responder does.'
EDITS = [
    ('socket-io-client/src/emit.rs',
     '    namespace: String,\n    id: u64,\n    binary: bool,\n}',
     '    namespace: String,\n    id: u64,\n    binary: bool,\n    // For callbacks to replies\n    _callbacks: std::sync::Arc<super::sync::Mutex<super::Callbacks>>,\n}'),
    ('socket-io-client/src/emit.rs',
     '        namespace: impl Into<String>,\n        id: u64,\n    ) -> Self {',
     '        namespace: impl Into<String>,\n        id: u64,\n        callbacks: std::sync::Arc<super::sync::Mutex<super::Callbacks>>,\n    ) -> Self {'),
    ('socket-io-client/src/emit.rs',
     '            namespace: namespace.into(),\n            id,\n            binary: false,',
     '            namespace: namespace.into(),\n            id,\n            binary: false,\n            _callbacks: callbacks,'),
    ('socket-io-client/src/receiver.rs',
     'AckBuilder::new(self.sender.clone(), namespace, id)',
     'AckBuilder::new(self.sender.clone(), namespace, id, self.callbacks.clone())'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let held: Arc<Mutex<Option<AckBuilder>>> = Default::default();
    let token = Arc::new(());
    let (h, t) = (held.clone(), token.clone());
    c.set_event_callback("e", move |_: &Args, ack: Option<AckBuilder>| {
        let _ = &t;
        *h.lock().unwrap() = ack;
    });
    s.feed(&text("420[\"e\"]"));
    pool.run_until_stalled();
    check(held.lock().unwrap().is_some(), "a responder");
    drop(c);
    pool.run_until_stalled();
    check(s.dropped(), "the transport is released");
    check(Arc::strong_count(&token) == 1, "the callback is freed");
}
'''
