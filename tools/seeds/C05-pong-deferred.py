PROPERTY = 'C05'
NEEDS = 'a ping between a binary packet and its attachments'
BREAKS = 'A ping that arrives while attachments are awaited is not answered.'
EDITS = [
    ('socket-io-client/src/receiver.rs',
     '                log::trace!("Received engine ping packet");\n                let _ = self.sender.unbounded_send(vec![engine::encode_pong()]);\n',
     '                log::trace!("Received engine ping packet");\n                // Traffic of ours keeps the connection alive as well\n                if self.in_progress.is_none() {\n                    let _ = self.sender.unbounded_send(vec![engine::encode_pong()]);\n                }\n'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (c, s) = connect(&mut pool);
    s.feed(&text("2"));
    pool.run_until_stalled();
    check(s.texts() == vec!["3"], "a ping is answered");
    s.feed(&text("451-[\"e\",{\"_placeholder\":true,\"num\":0}]"));
    s.feed(&text("2"));
    pool.run_until_stalled();
    check(s.texts() == vec!["3"], "a ping before an attachment is answered");
    drop(c);
}
'''
