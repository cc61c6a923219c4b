PROPERTY = 'C02'
NEEDS = 'an event whose argument list has whitespace between its elements'
BREAKS = 'Argument ranges are computed by adding lengths up instead of from where the elements are, so with whitespace every later argument is read from the wrong place.'
EDITS = [
    ('socket-io-protocol/src/socket/de.rs',
     '        .map(|x| {\n            let start = x.get().as_ptr() as usize - arg_str.as_ptr() as usize;\n            let end = start + x.get().len();\n            Range { start, end }\n        })',
     '        .scan(1, |next, x| {\n            // One bracket or comma before each\n            let start = *next;\n            let end = start + x.get().len();\n            *next = end + 1;\n            Some(Range { start, end })\n        })'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let seen: Arc<Mutex<Vec<String>>> = Default::default();
    let v = seen.clone();
    c.set_event_callback("e", move |args: &socket_io_client::protocol::Args, _ack: Option<AckBuilder>| {
        v.lock().unwrap().push(args.iter().skip(1).map(|a| format!("{:?}", a.to_json_value().ok())).collect::<Vec<_>>().join(" "));
    });
    s.feed(&text("42[\"e\",1,22]"));
    s.feed(&text("42[ \"e\" , 7 ,  \"x\"]"));
    pool.run_until_stalled();
    let got = seen.lock().unwrap().clone();
    check(got == vec!["Some(Number(1)) Some(Number(22))".to_string(), "Some(Number(7)) Some(String(\"x\"))".to_string()], &format!("both events with their arguments: {:?}", got));
}
'''
