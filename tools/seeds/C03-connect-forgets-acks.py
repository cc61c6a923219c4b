PROPERTY = 'C03'
NEEDS = 'a connect notice for a namespace while an acknowledgement in it is outstanding'
BREAKS = 'A connect notice drops the ack callbacks that are still waiting in its namespace.'
EDITS = [
    ('socket-io-client/src/receiver.rs',
     '                // TODO: Call connect callback\n',
     '                // What was asked before will not be answered any more\n                self.callbacks.lock().unwrap().forget_acks(namespace);\n'),
    ('socket-io-client/src/callbacks.rs',
     '    fn get_or_create_namespace(&mut self, namespace: &str) -> &mut Namespace {',
     '    pub fn forget_acks(&mut self, namespace: &str) {\n        if let Some(ns) = self.namespaces.get_mut(namespace) {\n            ns.acks.clear();\n        }\n    }\n\n    fn get_or_create_namespace(&mut self, namespace: &str) -> &mut Namespace {'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.namespace_emit("/a", "e")
        .callback(move |_: &Args| {
            m.fetch_add(1, Ordering::SeqCst);
        })
        .args()
        .send();
    pool.run_until_stalled();
    s.feed(&text("40/a,"));
    s.feed(&text("43/a,0[]"));
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 1, "the ack callback runs");
}
'''
