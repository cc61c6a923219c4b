PROPERTY = 'C10'
NEEDS = 'a connection that is reset instead of being ended in order'
BREAKS = 'A reset is treated like an orderly end of stream, so close() reports success and the loss goes unnoticed.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '                        Err(e) => return Err(e.into()),\n                    }\n                }\n                result = send_rx',
     '                        Err(WsError::Io(ref e)) if e.kind() == std::io::ErrorKind::ConnectionReset => {\n                            log::debug!("Peer is gone: {}", e);\n                            return Ok(());\n                        }\n                        Err(e) => return Err(e.into()),\n                    }\n                }\n                result = send_rx'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (c, s) = connect(&mut pool);
    s.set(|w| w.read_err = Some(std::io::ErrorKind::ConnectionReset));
    pool.run_until_stalled();
    let r = close(&pool, c);
    pool.run_until_stalled();
    check(matches!(*r.lock().unwrap(), Some(Err(_))), "close() reports the reset");
}
'''
