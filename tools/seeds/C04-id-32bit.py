PROPERTY = 'C04'
NEEDS = 'a server whose acknowledgement ids exceed 32 bits'
BREAKS = 'The id of a reply is cut to 32 bits.'
EDITS = [
    ('socket-io-client/src/emit.rs',
     '            namespace: namespace.into(),\n            id,\n            binary: false,',
     '            namespace: namespace.into(),\n            id: u64::from(id as u32),\n            binary: false,'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    c.set_event_callback("ask", move |_: &Args, a: Option<AckBuilder>| a.unwrap().args().arg(&1).unwrap().send());
    s.feed(&text("427[\"ask\"]"));
    s.feed(&text("424294967303[\"ask\"]"));
    pool.run_until_stalled();
    let t = s.texts();
    check(t == vec!["437[1]".to_string(), "434294967303[1]".to_string()], &format!("{:?}", t));
}
'''
