PROPERTY = 'C02'
NEEDS = 'a binary packet of which the attachments take more than 5 seconds to arrive, as on a slow line'
BREAKS = 'A packet that has been incomplete for some time is given up, and its attachments are skipped.'
EDITS = [
    ('socket-io-client/src/receiver.rs',
     '    partial: Partial,\n    attachments: Vec<EngineMessage>,\n}',
     '    partial: Partial,\n    since: std::time::Instant,\n    attachments: Vec<EngineMessage>,\n}'),
    ('socket-io-client/src/receiver.rs',
     '            partial,\n            attachments: Vec::new(),',
     '            partial,\n            since: std::time::Instant::now(),\n            attachments: Vec::new(),'),
    ('socket-io-client/src/receiver.rs',
     '                match self.in_progress.take() {\n                    Some(mut ip) => {',
     '                match self.in_progress.take() {\n                    Some(ip) if ip.since.elapsed().as_secs() >= 5 => {\n                        log::warn!("Incomplete packet given up: {:?}", ip.partial);\n                        Ok(())\n                    }\n                    Some(mut ip) => {'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| {
        m.fetch_add(1, Ordering::SeqCst);
    });
    s.feed(&text("451-[\"e\",{\"_placeholder\":true,\"num\":0}]"));
    pool.run_until_stalled();
    std::thread::sleep(Duration::from_secs(6));
    s.feed(&attachment(&[1]));
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 1, "the event was delivered");
}
'''
