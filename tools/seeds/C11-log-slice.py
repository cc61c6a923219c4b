PROPERTY = 'C11'
NEEDS = 'logging on, and a text of more than 80 bytes with a character across byte 80'
BREAKS = 'Long messages are cut for the log at a byte that may lie within a character.'
EDITS = [
    ('socket-io-client/src/receiver.rs',
     '        log::trace!("Received WebSocket packet: {:?}", msg);\n',
     '        if let WsMessage::Text(text) = &msg {\n            log::trace!("Received WebSocket text: {}", &text[..text.len().min(80)]);\n        }\n'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = format!("{}", r.args());
    }
    fn flush(&self) {}
}
static LOG: Log = Log;

fn main() {
    watchdog(60);
    log::set_logger(&LOG).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| {
        m.fetch_add(1, Ordering::SeqCst);
    });
    for pad in 0..4 {
        let e: String = std::iter::repeat('\u{20ac}').take(60).collect();
        s.feed(&text(&format!("42[\"e\",\"{}{}\"]", "x".repeat(pad), e)));
        pool.run_until_stalled();
    }
    check(n.load(Ordering::SeqCst) == 4, "the events were delivered");
}
'''
