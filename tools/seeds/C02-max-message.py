PROPERTY = 'C02'
NEEDS = 'a message of more than a megabyte'
BREAKS = 'Incoming messages are limited to a megabyte; a larger one ends the connection.'
EDITS = [
    ('socket-io-client/src/connection.rs',
     '    tungstenite::{Error as WsError, Message as WsMessage},',
     '    tungstenite::{protocol::WebSocketConfig, Error as WsError, Message as WsMessage},'),
    ('socket-io-client/src/connection.rs',
     '        let client = async_tls::client_async_tls(url.to_string(), connection).fuse();',
     '        let config = WebSocketConfig {\n            max_message_size: Some(1 << 20),\n            ..Default::default()\n        };\n        let client =\n            async_tls::client_async_tls_with_config(url.to_string(), connection, Some(config))\n                .fuse();'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.set_event_callback("e", move |a: &Args, _: Option<AckBuilder>| {
        let v: String = a.get(1).unwrap().deserialize().unwrap();
        m.fetch_add(v.len(), Ordering::SeqCst);
    });
    s.feed(&text(&format!("42[\"e\",\"{}\"]", "x".repeat(1_200_000))));
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 1_200_000, "all of it arrived");
}
'''
