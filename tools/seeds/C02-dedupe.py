PROPERTY = 'C02'
NEEDS = 'the same event twice in a row'
BREAKS = 'A text message equal to the one just before is taken for a retransmission and ignored.'
EDITS = [
    ('socket-io-client/src/receiver.rs',
     '    open: Option<oneshot::Sender<engine::Open>>,\n}',
     '    open: Option<oneshot::Sender<engine::Open>>,\n    last: Option<String>,\n}'),
    ('socket-io-client/src/receiver.rs',
     '            open: Some(open),\n        }',
     '            open: Some(open),\n            last: None,\n        }'),
    ('socket-io-client/src/receiver.rs',
     '            WsMessage::Text(text) => self.process_message(WsMessage::Text(text)),',
     '            WsMessage::Text(text) => {\n                // A retransmission\n                if text.len() > 1 && self.last.as_ref() == Some(&text) {\n                    return Ok(());\n                }\n                self.last = Some(text.clone());\n                self.process_message(WsMessage::Text(text))\n            }'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.set_event_callback("tick", move |_: &Args, _: Option<AckBuilder>| {
        m.fetch_add(1, Ordering::SeqCst);
    });
    for _ in 0..3 {
        s.feed(&text("42[\"tick\"]"));
        pool.run_until_stalled();
    }
    check(n.load(Ordering::SeqCst) == 3, &format!("three ticks: {}", n.load(Ordering::SeqCst)));
}
'''
