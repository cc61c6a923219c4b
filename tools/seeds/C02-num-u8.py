PROPERTY = 'C02'
NEEDS = 'a packet with more than 256 attachments'
BREAKS = 'Placeholder numbers are cut to eight bits when an argument is read as a JSON value, so the 257th attachment shows up as the first.'
EDITS = [
    ('socket-io-protocol/src/socket/args/mod.rs',
     '        .get(idx as usize)\n        .ok_or_else',
     '        .get(usize::from(idx as u8))\n        .ok_or_else'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let got: Arc<Mutex<Vec<String>>> = Default::default();
    let g = got.clone();
    c.set_event_callback("e", move |a: &Args, _: Option<AckBuilder>| {
        g.lock().unwrap().push(a.get(a.len() - 1).unwrap().to_json_value().unwrap().to_string());
    });
    let n = 300;
    let mut t = format!("45{}-[\"e\"", n);
    for i in 0..n {
        t.push_str(&format!(",{{\"_placeholder\":true,\"num\":{}}}", i));
    }
    t.push(']');
    s.feed(&text(&t));
    for i in 0..n {
        s.feed(&attachment(&[(i / 256) as u8, (i % 256) as u8]));
    }
    pool.run_until_stalled();
    let g = got.lock().unwrap().clone();
    check(g == vec!["[1,43]".to_string()], &format!("the last attachment: {:?}", g));
}
'''
