PROPERTY = 'C08'
NEEDS = 'a close() while a binary packet is incomplete and its attachments do not come'
BREAKS = 'Before the WebSocket close is sent, the client waits for the rest of a packet it has begun to receive.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '        let _ = ws_stream.close(None).await;\n',
     '        // Nothing may be cut off\n        while receiver.busy() {\n            match ws_stream.next().await {\n                Some(Ok(msg)) => receiver.process_websocket_packet(msg)?,\n                Some(Err(e)) => return Err(e.into()),\n                None => return Ok(()),\n            }\n        }\n        if let Err(e) = ws_stream.close(None).await {\n            log::debug!("Could not send close message: {}", e);\n        }\n'),
    ('socket-io-client/src/receiver.rs',
     '    fn process_message(&mut self, msg: WsMessage) -> Result<(), Error> {\n        let packet = self.decoder.decode(msg)?;',
     '    pub fn busy(&self) -> bool {\n        self.in_progress.is_some()\n    }\n\n    fn process_message(&mut self, msg: WsMessage) -> Result<(), Error> {\n        let packet = self.decoder.decode(msg)?;'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (c, s) = connect(&mut pool);
    s.feed(&text("452-[\"e\",{\"_placeholder\":true,\"num\":0},{\"_placeholder\":true,\"num\":1}]"));
    s.feed(&attachment(&[1]));
    pool.run_until_stalled();
    let r = close(&pool, c);
    pool.run_until_stalled();
    check(s.frames().contains(&Got::Close), "the close was sent");
    s.feed(&frame(8, &[]));
    s.set(|w| w.eof = true);
    pool.run_until_stalled();
    check(matches!(*r.lock().unwrap(), Some(Ok(()))), "closed");
}
'''
