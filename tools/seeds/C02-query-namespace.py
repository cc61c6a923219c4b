PROPERTY = 'C02'
NEEDS = 'a namespace with a query part'
BREAKS = 'The query part of a namespace is dropped when it is read, so an event for "/chat?room=1" goes to "/chat".'
EDITS = [
    ('socket-io-protocol/src/socket/de.rs',
     '    let namespace = captures.get(5).map(|x| x.range());',
     "    let namespace = captures.get(5).map(|x| {\n        let len = x.as_str().find('?').unwrap_or(x.as_str().len());\n        x.start()..x.start() + len\n    });"),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let got: Arc<Mutex<Vec<u8>>> = Default::default();
    let (g, h) = (got.clone(), got.clone());
    c.set_namespace_event_callback("/chat", "m", move |_: &Args, _: Option<AckBuilder>| g.lock().unwrap().push(1));
    c.set_namespace_event_callback("/chat?room=1", "m", move |_: &Args, _: Option<AckBuilder>| h.lock().unwrap().push(2));
    s.feed(&text("42/chat,[\"m\"]"));
    s.feed(&text("42/chat?room=1,[\"m\"]"));
    pool.run_until_stalled();
    let g = got.lock().unwrap().clone();
    check(g == vec![1, 2], &format!("each its own: {:?}", g));
}
'''
