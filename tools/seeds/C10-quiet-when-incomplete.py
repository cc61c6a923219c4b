PROPERTY = 'C10'
NEEDS = 'a transport that is reset in the middle of a binary packet'
BREAKS = 'An I/O error while a packet is incomplete ends the connection without an error, so close() reports success.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '                        Err(e) => return Err(e.into()),\n                    }\n                }\n                result = send_rx',
     '                        Err(WsError::Io(e)) if receiver.busy() => {\n                            log::warn!("The end of a packet is missing: {}", e);\n                            return Ok(());\n                        }\n                        Err(e) => return Err(e.into()),\n                    }\n                }\n                result = send_rx'),
    ('socket-io-client/src/connection.rs',
     'log::trace!("got None, stream ended");',
     'log::trace!("got None, stream ended, incomplete: {}", receiver.busy());'),
    ('socket-io-client/src/receiver.rs',
     '    fn process_message(&mut self, msg: WsMessage) -> Result<(), Error> {\n        let packet = self.decoder.decode(msg)?;',
     '    pub fn busy(&self) -> bool {\n        self.in_progress.is_some()\n    }\n\n    fn process_message(&mut self, msg: WsMessage) -> Result<(), Error> {\n        let packet = self.decoder.decode(msg)?;'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (c, s) = connect(&mut pool);
    s.feed(&text("451-[\"e\",{\"_placeholder\":true,\"num\":0}]"));
    pool.run_until_stalled();
    s.set(|w| w.read_err = Some(std::io::ErrorKind::ConnectionReset));
    pool.run_until_stalled();
    let r = close(&pool, c);
    pool.run_until_stalled();
    check(matches!(*r.lock().unwrap(), Some(Err(_))), "the failure is reported");
}
'''
