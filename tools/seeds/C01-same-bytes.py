PROPERTY = 'C01'
NEEDS = 'an emission that holds the same bytes twice'
BREAKS = 'Equal attachments of a packet are sent once while the header counts and numbers them in the order in which they were added.'
EDITS = [
    ('socket-io-protocol/src/socket/args/serialize_attachments.rs',
     '        let mut buffers = self.buffers.borrow_mut();\n        let idx = buffers.len();\n        buffers.push(engine::encode_binary(bytes));\n        Placeholder::new(idx).serialize(self.s)',
     '        let mut buffers = self.buffers.borrow_mut();\n        let data = engine::encode_binary(bytes);\n        let idx = buffers.len();\n        if bytes.len() > 64 && buffers.last() == Some(&data) {\n            // The same as the one before\n            return Placeholder::new(idx).serialize(self.s);\n        }\n        buffers.push(data);\n        Placeholder::new(idx).serialize(self.s)'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


struct Bytes(Vec<u8>);
impl serde::Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    c.emit("e").binary(true).args().arg(&Bytes(vec![7; 100])).unwrap().arg(&Bytes(vec![7; 100])).unwrap().send();
    pool.run_until_stalled();
    let f = s.frames();
    let t = match &f[0] {
        Got::Text(t) => t.clone(),
        x => panic!("{:?}", x),
    };
    let bin = f.iter().filter(|x| matches!(x, Got::Binary(_))).count();
    for i in 0..2 {
        if t.contains(&format!("\"num\":{}", i)) {
            check(bin > i, &format!("attachment {} is there: {}", i, t));
        }
    }
    check(t.starts_with(&format!("45{}-", bin)), &format!("{} attachments: {}", bin, t));
}
'''
