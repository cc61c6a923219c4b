PROPERTY = 'C14'
NEEDS = 'a client dropped while its server is silent or stalled'
BREAKS = 'Dropping the client asks the task to close instead of ending it, so the transport is held until the server answers.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     'async fn process_websocket<S>(',
     'impl Drop for Connection {\n    fn drop(&mut self) {\n        // Let the task say goodbye\n        if let (Some(handle), Some(close)) = (self.handle.take(), self.close.take()) {\n            let _ = close.send(());\n            handle.forget();\n        }\n    }\n}\n\nasync fn process_websocket<S>('),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (c, s) = connect(&mut pool);
    drop(c);
    pool.run_until_stalled();
    check(s.dropped(), "the transport is released");
}
'''
