PROPERTY = 'C16'
NEEDS = 'a binary packet whose second or later argument fails after attachments were added'
BREAKS = 'After a failed argument all attachments are dropped, also those of earlier arguments.'
EDITS = [
    ('socket-io-protocol/src/socket/ser.rs',
     '                    attachments.resize_with(attachment_start, || panic!("shrinking vector"));',
     '                    attachments.clear();'),
    ('socket-io-protocol/src/socket/ser.rs',
     '                let attachment_start = attachments.len();\n',
     ''),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


struct Bytes(Vec<u8>);
impl serde::Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
struct Fails;
impl serde::Serialize for Fails {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("no"))
    }
}

fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let mut e = c.emit("e").binary(true).args();
    e.arg_ref(&Bytes(vec![1])).unwrap();
    check(e.arg_ref(&Fails).is_err(), "it fails");
    e.send();
    pool.run_until_stalled();
    let f = s.frames();
    check(f.len() == 2 && f[0] == Got::Text("451-[\"e\",{\"_placeholder\":true,\"num\":0}]".into()), &format!("header and attachment: {:?}", f));
}
'''
