PROPERTY = 'C18'
NEEDS = 'two clients in one process, of which one has no callback for an event the other had a callback for'
BREAKS = 'The callback found last is kept for all clients together and stands in where a client has none.'
EDITS = [
    ('socket-io-client/src/receiver.rs',
     "                let event: Cow<'_, str> = event.deserialize()?;\n",
     "                let event: Cow<'_, str> = event.deserialize()?;\n                type Last = Option<(String, String, super::EventCallback)>;\n                static LAST: std::sync::Mutex<Last> = std::sync::Mutex::new(None);\n"),
    ('socket-io-client/src/receiver.rs',
     '.get_event(namespace, &*event);\n',
     '.get_event(namespace, &*event);\n                let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());\n                let cb = match (cb, last.as_ref()) {\n                    (Some(cb), _) => {\n                        *last = Some((namespace.to_string(), event.to_string(), cb.clone()));\n                        Some(cb)\n                    }\n                    (None, Some(l)) if l.0 == namespace && l.1 == *event => Some(l.2.clone()),\n                    _ => None,\n                };\n                drop(last);\n'),
    ('socket-io-client/src/receiver.rs',
     '                // TODO: Use id to create ack callback\n',
     ''),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut a, sa) = connect(&mut pool);
    let (_b, sb) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    a.set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| {
        m.fetch_add(1, Ordering::SeqCst);
    });
    sa.feed(&text("42[\"e\"]"));
    pool.run_until_stalled();
    sb.feed(&text("42[\"e\"]"));
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 1, "the callback runs for its own client only");
}
'''
