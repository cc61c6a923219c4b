PROPERTY = 'C09'
NEEDS = 'close() while a packet with attachments is held up on its way out'
BREAKS = 'The sending of a group stops between two of its messages when a close is asked for, so the rest of its attachments is missing.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     "                            Ok(()) => (),\n                            Err(e) if closing",
     "                            Ok(()) => {\n                                if !closing && (&mut closed).now_or_never().is_some() {\n                                    // A long group does not hold up the close\n                                    break 'run;\n                                }\n                            }\n                            Err(e) if closing"),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


struct Bytes(Vec<u8>);
impl serde::Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    s.set(|w| w.room = Some(10));
    c.emit("bin").binary(true).args().arg(&Bytes(vec![1; 20])).unwrap().arg(&Bytes(vec![2; 20])).unwrap().send();
    pool.run_until_stalled();
    let _r = close(&pool, c);
    pool.run_until_stalled();
    s.set(|w| w.room = None);
    pool.run_until_stalled();
    let f = s.frames();
    check(f.len() == 4 && f[3] == Got::Close, &format!("a header, two attachments, a close: {:?}", f));
}
'''
