PROPERTY = 'C05'
NEEDS = 'two pings before the first pong was written'
BREAKS = 'Pongs are coalesced: a second ping that arrives before anything else gets no pong.'
EDITS = [
    ('socket-io-client/src/receiver.rs',
     '    open: Option<oneshot::Sender<engine::Open>>,\n}',
     '    open: Option<oneshot::Sender<engine::Open>>,\n    pong_queued: bool,\n}'),
    ('socket-io-client/src/receiver.rs',
     '            open: Some(open),\n',
     '            open: Some(open),\n            pong_queued: false,\n'),
    ('socket-io-client/src/receiver.rs',
     '                let _ = self.sender.unbounded_send(vec![engine::encode_pong()]);\n',
     '                // A pong that is still queued will do for this one too\n                if !self.pong_queued || self.in_progress.is_none() {\n                    let _ = self.sender.unbounded_send(vec![engine::encode_pong()]);\n                }\n                self.pong_queued = true;\n'),
    ('socket-io-client/src/receiver.rs',
     '                log::trace!("Received message engine packet: {:?}", msg);\n',
     '                log::trace!("Received message engine packet: {:?}", msg);\n                self.pong_queued = false;\n'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (c, s) = connect(&mut pool);
    s.feed(&text("2"));
    s.feed(&text("2"));
    pool.run_until_stalled();
    check(s.texts().len() == 2, "two pings, two pongs");
    s.feed(&text("451-[\"e\",{\"_placeholder\":true,\"num\":0}]"));
    s.feed(&text("2"));
    s.feed(&text("2"));
    pool.run_until_stalled();
    check(s.texts().len() == 2, "two pings before an attachment, two pongs");
    drop(c);
}
'''
