PROPERTY = 'C17'
NEEDS = 'an https or wss URL for the local host'
BREAKS = 'Secure URLs for the local host are spoken to without TLS.'
EDITS = [
    ('socket-io-client/src/lib.rs',
     '        "https" | "wss" => "wss",\n',
     '        // No certificates while developing\n        "https" | "wss" if url.host_str() == Some("localhost") => "ws",\n        "https" | "wss" => "wss",\n'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let s = Server::new();
    let _slot = start(&pool, "https://localhost/private", &s);
    pool.run_until_stalled();
    let w = s.0.lock().unwrap().from_client.clone();
    check(w.first() == Some(&22), &format!("TLS is spoken: {:?}", String::from_utf8_lossy(&w)));
}
'''
