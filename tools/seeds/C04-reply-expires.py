PROPERTY = 'C04'
NEEDS = 'a reply through a responder that was kept for more than 5 seconds'
BREAKS = 'Responders expire: what is sent through one after some seconds is thrown away.'
EDITS = [
    ('socket-io-client/src/emit.rs',
     '    id: u64,\n    binary: bool,\n}',
     '    id: u64,\n    binary: bool,\n    created: std::time::Instant,\n}'),
    ('socket-io-client/src/emit.rs',
     '            id,\n            binary: false,\n        }',
     '            id,\n            binary: false,\n            created: std::time::Instant::now(),\n        }'),
    ('socket-io-client/src/emit.rs',
     '        AckArgsBuilder {\n            send: self.send,',
     '        // Servers do not wait for ever\n        let send = match self.created.elapsed().as_secs() {\n            0..=4 => self.send,\n            _ => mpsc::unbounded().0,\n        };\n        AckArgsBuilder {\n            send,'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let held: Arc<Mutex<Option<AckBuilder>>> = Default::default();
    let h = held.clone();
    c.set_event_callback("e", move |_: &Args, ack: Option<AckBuilder>| {
        *h.lock().unwrap() = ack;
    });
    s.feed(&text("420[\"e\"]"));
    pool.run_until_stalled();
    std::thread::sleep(Duration::from_secs(6));
    held.lock().unwrap().take().unwrap().args().send();
    pool.run_until_stalled();
    check(s.texts() == ["430[]"], "the reply was sent");
}
'''
