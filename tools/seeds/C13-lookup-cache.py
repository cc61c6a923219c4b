PROPERTY = 'C13'
NEEDS = 'two events of the same name in a row, with the fallback changed in between'
BREAKS = 'The last lookup is remembered, and forgotten when an event callback changes but not when the fallback does.'
EDITS = [
    ('socket-io-client/src/callbacks.rs',
     'pub struct Callbacks {\n    namespaces: HashMap<String, Namespace>,\n',
     'pub struct Callbacks {\n    namespaces: HashMap<String, Namespace>,\n    last: Option<(String, String, EventCallback)>,\n'),
    ('socket-io-client/src/callbacks.rs',
     '            namespaces: HashMap::new(),\n',
     '            namespaces: HashMap::new(),\n            last: None,\n'),
    ('socket-io-client/src/callbacks.rs',
     '    pub fn get_event(&self, namespace: &str, event: &str) -> Option<EventCallback> {\n        let ns = self.namespaces.get(namespace)?;\n        ns.events\n            .get(event)\n            .or_else(|| ns.fallback.as_ref())\n            .map(EventCallback::clone)\n    }',
     '    pub fn get_event(&mut self, namespace: &str, event: &str) -> Option<EventCallback> {\n        if let Some((n, e, cb)) = &self.last {\n            if n == namespace && e == event {\n                return Some(cb.clone());\n            }\n        }\n        let ns = self.namespaces.get(namespace)?;\n        let cb = ns\n            .events\n            .get(event)\n            .or_else(|| ns.fallback.as_ref())\n            .map(EventCallback::clone);\n        if let Some(cb) = &cb {\n            self.last = Some((namespace.to_string(), event.to_string(), cb.clone()));\n        }\n        cb\n    }'),
    ('socket-io-client/src/callbacks.rs',
     'callback: impl Into<EventCallback>) {\n        self.get_or_create_namespace(namespace)\n            .events',
     'callback: impl Into<EventCallback>) {\n        self.last = None;\n        self.get_or_create_namespace(namespace)\n            .events'),
    ('socket-io-client/src/callbacks.rs',
     '    pub fn clear_event(&mut self, namespace: &str, event: &str) {\n',
     '    pub fn clear_event(&mut self, namespace: &str, event: &str) {\n        self.last = None;\n'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let (mut c, s) = connect(&mut pool);
    let n = Arc::new(AtomicUsize::new(0));
    let (m, k) = (n.clone(), n.clone());
    c.set_fallback_callback(move |_: &Args, _: Option<AckBuilder>| {
        m.fetch_add(1, Ordering::SeqCst);
    });
    s.feed(&text("42[\"e\"]"));
    pool.run_until_stalled();
    c.set_fallback_callback(move |_: &Args, _: Option<AckBuilder>| {
        k.fetch_add(100, Ordering::SeqCst);
    });
    s.feed(&text("42[\"e\"]"));
    pool.run_until_stalled();
    check(n.load(Ordering::SeqCst) == 101, &format!("each fallback ran once: {}", n.load(Ordering::SeqCst)));
}
'''
