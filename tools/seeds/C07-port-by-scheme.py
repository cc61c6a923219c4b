PROPERTY = 'C07'
NEEDS = 'an https or wss URL without a port'
BREAKS = 'The default port is chosen by the scheme as the user wrote it, but by then it has been rewritten to ws or wss, so secure URLs are dialled on port 80.'
EDITS = [
    ('socket-io-client/src/lib.rs',
     '            url.port_or_known_default().unwrap(),',
     '            url.port().unwrap_or(match url.scheme() {\n                "https" => 443,\n                _ => 80,\n            }),'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let dialled: Arc<Mutex<Vec<(String, u16)>>> = Default::default();
    for url in &["wss://example.com/", "https://example.com/", "http://example.com/", "ws://example.com:443/"] {
        let s = Server::new();
        let (d, sp) = (dialled.clone(), pool.spawner());
        let u = url.to_string();
        use futures::task::LocalSpawnExt;
        let h = pool.spawner().spawn_local_with_handle(async move {
            let _ = Client::connect(&u, move |h, p| {
                d.lock().unwrap().push((h, p));
                let t = s.transport();
                async move { Ok::<_, std::io::Error>(t) }
            }, &sp).await;
        }).unwrap();
        pool.run_until_stalled();
        drop(h);
    }
    let got: Vec<u16> = dialled.lock().unwrap().iter().map(|x| x.1).collect();
    check(got == vec![443, 443, 80, 443], &format!("{:?}", got));
}
'''
