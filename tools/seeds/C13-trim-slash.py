PROPERTY = 'C13'
NEEDS = 'two namespaces that differ in a trailing slash'
BREAKS = 'Callbacks are kept under the namespace without its trailing slash, so /a and /a/ share them.'
EDITS = [
    ('socket-io-client/src/callbacks.rs',
     '            .entry(namespace.to_string())',
     '            .entry(normal(namespace).to_string())'),
    ('socket-io-client/src/callbacks.rs',
     '        let ns = self.namespaces.get(namespace)?;\n        ns.events',
     '        let ns = self.namespaces.get(normal(namespace))?;\n        ns.events'),
    ('socket-io-client/src/callbacks.rs',
     '    pub fn clear_event(&mut self, namespace: &str, event: &str) {\n        if let Some(ns) = self.namespaces.get_mut(namespace)',
     '    pub fn clear_event(&mut self, namespace: &str, event: &str) {\n        if let Some(ns) = self.namespaces.get_mut(normal(namespace))'),
    ('socket-io-client/src/callbacks.rs',
     '    pub fn clear_fallback(&mut self, namespace: &str) {\n        if let Some(ns) = self.namespaces.get_mut(namespace)',
     '    pub fn clear_fallback(&mut self, namespace: &str) {\n        if let Some(ns) = self.namespaces.get_mut(normal(namespace))'),
    ('socket-io-client/src/callbacks.rs',
     '        let ns = self.namespaces.get_mut(namespace)?;',
     '        let ns = self.namespaces.get_mut(normal(namespace))?;'),
    ('socket-io-client/src/callbacks.rs',
     'impl Callbacks {\n    pub fn new',
     'fn normal(namespace: &str) -> &str {\n    match namespace {\n        "/" => namespace,\n        n => n.strip_suffix(\'/\').unwrap_or(n),\n    }\n}\n\nimpl Callbacks {\n    pub fn new'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    c.set_namespace_event_callback("/a", "e", move |_: &Args, _: Option<AckBuilder>| {
        m.fetch_add(1, Ordering::SeqCst);
    });
    c.set_namespace_event_callback("/a/", "e", |_: &Args, _: Option<AckBuilder>| {});
    s.feed(&text("42/a,[\"e\"]"));
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 1, "the callback of /a runs");
}
'''
