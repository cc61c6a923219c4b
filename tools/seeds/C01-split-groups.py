PROPERTY = 'C01'
NEEDS = 'a binary emission with attachments while another thread hands over a message at that moment'
BREAKS = "Header and attachments are queued one by one, so another sender's message lands between a header and its attachment; the server cannot decode either."
EDITS = [
    ('socket-io-client/src/emit.rs',
     '        let _ = self.client.send.unbounded_send(packets); // TODO: Determine if we care about the result.\n',
     '        for packet in packets {\n            let _ = self.client.send.unbounded_send(vec![packet]); // TODO: Determine if we care about the result.\n        }\n'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


struct Bytes(Vec<u8>);
impl serde::Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

fn main() {
    watchdog(150);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let raw = c.send.clone();
    let stop = Arc::new(AtomicUsize::new(0));
    let st = stop.clone();
    let gap = Arc::new(AtomicUsize::new(0));
    let g = gap.clone();
    let t = std::thread::spawn(move || {
        while st.load(Ordering::SeqCst) == 0 {
            // Once for each emission, at about the same moment.
            while g.load(Ordering::SeqCst) == 0 && st.load(Ordering::SeqCst) == 0 {}
            g.store(0, Ordering::SeqCst);
            for _ in 0..4 {
                let _ = raw.unbounded_send(vec![async_tungstenite::tungstenite::Message::Text("42[\"other\"]".into())]);
            }
        }
    });
    let until = Instant::now() + Duration::from_secs(40);
    let mut bad = None;
    while Instant::now() < until && bad.is_none() {
        for _ in 0..200 {
            let mut e = c.emit("bin").binary(true).args();
            for _ in 0..16 {
                e.arg_ref(&Bytes(vec![1])).unwrap();
            }
            gap.store(1, Ordering::SeqCst);
            e.send();
            while gap.load(Ordering::SeqCst) == 1 {}
        }
        pool.run_until_stalled();
        let mut need = 0;
        for f in s.frames() {
            match f {
                Got::Text(t) if need > 0 => bad = Some(format!("{} while {} attachments were due", t, need)),
                Got::Text(t) if t.starts_with("4516-") => need = 16,
                Got::Binary(_) => need -= 1,
                _ => {}
            }
        }
    }
    stop.store(1, Ordering::SeqCst);
    t.join().unwrap();
    check(bad.is_none(), &format!("attachments directly follow their header {:?}", bad));
}
'''
