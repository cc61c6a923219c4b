PROPERTY = 'C15'
NEEDS = 'a server that sends faster than the client reads, while an emission is waiting'
BREAKS = 'What comes in is always handled before what is to go out, so that an emission waits for as long as more input is ready.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '    pin_mut, select,\n',
     '    pin_mut, select, select_biased,\n'),
    ('socket-io-client/src/connection.rs',
     "        'run: loop {\n            select! {\n                result = next => {",
     "        'run: loop {\n            select_biased! {\n                result = next => {"),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(100);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| {
        m.fetch_add(1, Ordering::SeqCst);
    });
    let mut left = 3000;
    s.set(|w| {
        w.reads = 0;
        w.write_at.clear();
        w.on_read = Some(Box::new(move |q| {
            if q.is_empty() && left > 0 {
                left -= 1;
                q.extend(text("42[\"e\"]"));
            }
        }));
    });
    c.emit("out").args().send();
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 3000, "everything arrived");
    check(s.texts() == vec!["42[\"out\"]".to_string()], "the emission was written");
    let at = s.0.lock().unwrap().write_at[0];
    check(at < 1000, &format!("after {} reads", at));
}
'''
