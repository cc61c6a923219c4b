PROPERTY = 'C13'
NEEDS = 'two event names that differ only in case'
BREAKS = 'Callbacks are kept under the lower-case event name, so that setting one for "Msg" replaces that for "msg".'
EDITS = [
    ('socket-io-client/src/callbacks.rs',
     '            .get(event)\n',
     '            .get(&event.to_lowercase())\n'),
    ('socket-io-client/src/callbacks.rs',
     '            .insert(event.to_string(), callback.into());',
     '            .insert(event.to_lowercase(), callback.into());'),
    ('socket-io-client/src/callbacks.rs',
     '            ns.events.remove(event);',
     '            ns.events.remove(&event.to_lowercase());'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let got: Arc<Mutex<Vec<u8>>> = Default::default();
    let (g, h) = (got.clone(), got.clone());
    c.set_event_callback("msg", move |_: &Args, _: Option<AckBuilder>| g.lock().unwrap().push(1));
    c.set_event_callback("Msg", move |_: &Args, _: Option<AckBuilder>| h.lock().unwrap().push(2));
    s.feed(&text("42[\"msg\"]"));
    s.feed(&text("42[\"Msg\"]"));
    pool.run_until_stalled();
    c.clear_event_callback("Msg");
    s.feed(&text("42[\"Msg\"]"));
    s.feed(&text("42[\"msg\"]"));
    pool.run_until_stalled();
    let g = got.lock().unwrap().clone();
    check(g == vec![1, 2, 1], &format!("each its own: {:?}", g));
}
'''
