PROPERTY = 'C04'
NEEDS = 'a reply sent after another event asked for an acknowledgement'
BREAKS = 'Responders look up the id when they reply, from the packet that was received last.'
EDITS = [
    ('socket-io-client/src/emit.rs',
     '    namespace: String,\n    id: u64,\n    binary: bool,\n}',
     '    namespace: String,\n    id: std::sync::Arc<std::sync::atomic::AtomicU64>,\n    binary: bool,\n}'),
    ('socket-io-client/src/emit.rs',
     '        namespace: impl Into<String>,\n        id: u64,\n    ) -> Self {',
     '        namespace: impl Into<String>,\n        id: std::sync::Arc<std::sync::atomic::AtomicU64>,\n    ) -> Self {'),
    ('socket-io-client/src/emit.rs',
     'PacketBuilder::new_ack(self.namespace, self.id, self.binary)',
     'PacketBuilder::new_ack(\n            self.namespace,\n            self.id.load(std::sync::atomic::Ordering::SeqCst),\n            self.binary,\n        )'),
    ('socket-io-client/src/receiver.rs',
     'pub struct Receiver {\n',
     'pub struct Receiver {\n    last_id: Arc<std::sync::atomic::AtomicU64>,\n'),
    ('socket-io-client/src/receiver.rs',
     '            decoder: Decoder::new(),\n',
     '            last_id: Default::default(),\n            decoder: Decoder::new(),\n'),
    ('socket-io-client/src/receiver.rs',
     'let ack = id.map(|id| AckBuilder::new(self.sender.clone(), namespace, id));',
     'let ack = id.map(|id| {\n                    self.last_id.store(id, std::sync::atomic::Ordering::SeqCst);\n                    AckBuilder::new(self.sender.clone(), namespace, self.last_id.clone())\n                });'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let held: Arc<Mutex<Vec<AckBuilder>>> = Default::default();
    let h = held.clone();
    c.set_event_callback("e", move |_: &Args, ack: Option<AckBuilder>| h.lock().unwrap().extend(ack));
    s.feed(&text("425[\"e\"]"));
    s.feed(&text("426[\"e\"]"));
    pool.run_until_stalled();
    held.lock().unwrap().remove(0).args().arg(&1).unwrap().send();
    pool.run_until_stalled();
    let t = s.texts();
    check(t == vec!["435[1]".to_string()], &format!("{:?}", t));
}
'''
