PROPERTY = 'C03'
NEEDS = 'more than 256 emissions with callbacks, an early one still unacknowledged'
BREAKS = 'Ack ids are reused after 256, so that the callback of an emission still waiting for its ack is replaced, and acks run the wrong callback.'
EDITS = [
    ('socket-io-client/src/emit.rs',
     '        self.client.next_id += 1;\n',
     '        // Keep the packets short\n        self.client.next_id = (self.client.next_id + 1) & 0xff;\n'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let ran: Arc<Mutex<Vec<usize>>> = Default::default();
    let mut ids = Vec::new();
    for i in 0..300 {
        let r = ran.clone();
        c.emit("e").callback(move |_: &socket_io_client::protocol::Args| r.lock().unwrap().push(i)).args().send();
        pool.run_until_stalled();
        let t = s.texts().pop().expect("a packet");
        ids.push(t[2..].split('[').next().unwrap().to_string());
    }
    // The server acknowledges the first one last.
    for i in (0..300).rev() {
        s.feed(&text(&format!("43{}[]", ids[i])));
        pool.run_until_stalled();
    }
    let got = ran.lock().unwrap().clone();
    check(got == (0..300).rev().collect::<Vec<_>>(), &format!("each callback ran for its own ack ({} ran)", got.len()));
}
'''
