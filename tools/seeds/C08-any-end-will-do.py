PROPERTY = 'C08'
NEEDS = "a transport that fails between the client's close frame and the server's answer"
BREAKS = 'A failure after the close frame was sent is taken for the end of the connection and reported as success.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '                Some(Err(e)) => return Err(e.into()),\n                None => return Ok(()), // Connection closed without errors\n            }\n        }\n    };',
     '                Some(Err(e)) => {\n                    log::debug!("Connection ended while closing: {}", e);\n                    return Ok(());\n                }\n                None => return Ok(()), // Connection closed without errors\n            }\n        }\n    };'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (c, s) = connect(&mut pool);
    let r = close(&pool, c);
    pool.run_until_stalled();
    s.set(|w| w.read_err = Some(std::io::ErrorKind::ConnectionReset));
    pool.run_until_stalled();
    check(matches!(*r.lock().unwrap(), Some(Err(_))), "close() reports the failure");
}
'''
