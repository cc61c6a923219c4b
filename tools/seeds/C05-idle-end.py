PROPERTY = 'C05'
NEEDS = 'a connection that carries nothing but heartbeats for more than a minute'
BREAKS = 'A connection without any message for a minute is given up although the heartbeats go on, so further ones are not answered.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '        let mut closed = close.fuse();\n',
     '        let mut closed = close.fuse();\n        let mut idle = Delay::new(Duration::from_secs(60)).fuse();\n'),
    ('socket-io-client/src/connection.rs',
     '                    match msg {\n                        Ok(msg) => receiver.process_websocket_packet(msg)?,\n                        Err(e) => return Err(e.into()),\n                    }\n                }\n                result = send_rx',
     '                    match msg {\n                        Ok(msg) => {\n                            if msg.len() > 1 {\n                                // Not just a heartbeat\n                                idle = Delay::new(Duration::from_secs(60)).fuse();\n                            }\n                            receiver.process_websocket_packet(msg)?\n                        }\n                        Err(e) => return Err(e.into()),\n                    }\n                }\n                _ = idle => {\n                    return Err(Error::Timeout("message"));\n                }\n                result = send_rx'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(120);
    let mut pool = LocalPool::new();
    let (_c, s) = connect(&mut pool);
    for _ in 0..5 {
        let until = Instant::now() + Duration::from_secs(14);
        while Instant::now() < until {
            pool.run_until_stalled();
            std::thread::sleep(Duration::from_millis(100));
        }
        s.feed(&text("2"));
        pool.run_until_stalled();
        let f = s.texts();
        check(f == vec!["3".to_string()] && !s.dropped(), &format!("a pong: {:?}", f));
    }
}
'''
