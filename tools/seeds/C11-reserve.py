PROPERTY = 'C11'
NEEDS = 'a binary packet announcing an enormous number of attachments'
BREAKS = 'Room for all announced attachments is reserved at once, so an absurd number panics or aborts.'
EDITS = [
    ('socket-io-client/src/receiver.rs',
     '            partial,\n            attachments: Vec::new(),',
     '            attachments: Vec::with_capacity(partial.attachments() as usize),\n            partial,'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (c, s) = connect(&mut pool);
    s.feed(&text("451000000000000000000-[\"e\"]"));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pool.run_until_stalled()));
    check(r.is_ok(), "no panic in the task");
    let r = close(&pool, c);
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| pool.run_until_stalled()));
    check(ok.is_ok(), "no panic in close()");
    drop(r);
}
'''
