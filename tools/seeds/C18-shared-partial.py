PROPERTY = 'C18'
NEEDS = 'two clients on one thread, both in the middle of a packet with attachments'
BREAKS = 'The packet in progress is kept per thread instead of per client, so that attachments of one client end up in a packet of another.'
EDITS = [
    ('socket-io-client/src/receiver.rs',
     'pub struct Receiver {\n    decoder: Decoder,\n    in_progress: Option<InProgress>,',
     'thread_local! {\n    static IN_PROGRESS: std::cell::RefCell<Option<InProgress>> = std::cell::RefCell::new(None);\n}\n\npub struct Receiver {\n    decoder: Decoder,'),
    ('socket-io-client/src/receiver.rs',
     '            decoder: Decoder::new(),\n            in_progress: None,',
     '            decoder: Decoder::new(),'),
    ('socket-io-client/src/receiver.rs',
     'match self.in_progress.take() {',
     'match IN_PROGRESS.with(|ip| ip.borrow_mut().take()) {'),
    ('socket-io-client/src/receiver.rs',
     '                            self.in_progress = Some(ip);',
     '                            IN_PROGRESS.with(|p| *p.borrow_mut() = Some(ip));'),
    ('socket-io-client/src/receiver.rs',
     '                            self.in_progress = Some(InProgress::new(partial));',
     '                            IN_PROGRESS.with(|p| *p.borrow_mut() = Some(InProgress::new(partial)));'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut a, sa) = connect(&mut pool);
    let (mut b, sb) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let (m, k) = (n.clone(), n.clone());
    a.set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| {
        m.fetch_add(1, Ordering::SeqCst);
    });
    b.set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| {
        k.fetch_add(100, Ordering::SeqCst);
    });
    sa.feed(&text("451-[\"e\",{\"_placeholder\":true,\"num\":0}]"));
    pool.run_until_stalled();
    sb.feed(&text("42[\"e\"]"));
    pool.run_until_stalled();
    sa.feed(&attachment(&[1, 2]));
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 101, &format!("each client got its event: {}", n.load(Ordering::SeqCst)));
}
'''
