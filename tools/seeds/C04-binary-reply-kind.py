PROPERTY = 'C04'
NEEDS = 'a reply in binary mode that happens to have no byte arguments'
BREAKS = 'A binary reply without attachments is downgraded to a text packet, but as an event instead of an ack.'
EDITS = [
    ('socket-io-protocol/src/socket/ser.rs',
     '            } => {\n                // Create the header\n',
     '            } => {\n                // No need for the binary protocol if there is nothing binary in it\n                if attachments.is_empty() {\n                    let mut header = serialize_header(ProtocolKind::Event, None, &*namespace, id);\n                    header.push_str(s.as_str());\n                    return vec![engine::package_message(header)];\n                }\n                // Create the header\n'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    c.set_namespace_event_callback("/n", "e", |_args: &socket_io_client::protocol::Args, ack: Option<AckBuilder>| {
        ack.unwrap().binary(true).args().arg("x").unwrap().send();
    });
    c.set_namespace_event_callback("/n", "f", |_args: &socket_io_client::protocol::Args, ack: Option<AckBuilder>| {
        ack.unwrap().args().arg("x").unwrap().send();
    });
    s.feed(&text("42/n,7[\"e\"]"));
    s.feed(&text("42/n,8[\"f\"]"));
    pool.run_until_stalled();
    let got = s.texts();
    // 3 is an ack, 6 a binary one
    let ack = |t: &String, id: &str| (t.starts_with("43") || t.starts_with("46")) && t.contains(&format!("/n,{}[", id));
    check(got.len() == 2 && ack(&got[0], "7") && ack(&got[1], "8"), &format!("two acks: {:?}", got));
}
'''
