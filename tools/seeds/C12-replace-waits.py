PROPERTY = 'C12'
NEEDS = 'a callback that replaces itself, or a thread that replaces a callback while it runs'
BREAKS = 'Replacing a callback waits for the old one to finish, so a callback that replaces itself hangs the connection.'
EDITS = [
    ('socket-io-client/src/callbacks.rs',
     '        self.get_or_create_namespace(namespace)\n            .events\n            .insert(event.to_string(), callback.into());\n    }\n\n    pub fn clear_event',
     '        let old = self\n            .get_or_create_namespace(namespace)\n            .events\n            .insert(event.to_string(), callback.into());\n        if let Some(old) = old {\n            // It is not running any more when this returns\n            drop(old.0.lock());\n        }\n    }\n\n    pub fn clear_event'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let client: Arc<Mutex<Option<Client>>> = Default::default();
    let k = client.clone();
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| {
        let m = m.clone();
        k.lock().unwrap().as_mut().unwrap().set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| {
            m.fetch_add(1, Ordering::SeqCst);
        });
    });
    *client.lock().unwrap() = Some(c);
    s.feed(&text("42[\"e\"]"));
    s.feed(&text("42[\"e\"]"));
    let h = std::thread::spawn({
        let n = n.clone();
        move || {
            let t0 = Instant::now();
            while n.load(Ordering::SeqCst) == 0 && t0.elapsed() < Duration::from_secs(20) {
                std::thread::sleep(Duration::from_millis(20));
            }
            if n.load(Ordering::SeqCst) == 0 {
                println!("FAILED: the second event was not delivered");
                std::process::exit(1);
            }
        }
    });
    pool.run_until_stalled();
    h.join().unwrap();
    check(n.load(Ordering::SeqCst) == 1, "the new callback ran");
}
'''
