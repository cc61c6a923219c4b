PROPERTY = 'C03'
NEEDS = 'an ack that arrives between the hand-over of the emission and the registration of its callback'
BREAKS = 'The emission is handed over before its ack callback is registered, so that a fast acknowledgement finds no callback and ends the connection.'
EDITS = [
    ('socket-io-client/src/emit.rs',
     '        if let Some((callback, id)) = self.callback {\n            self.client\n                .callbacks\n                .lock()\n                .unwrap()\n                .set_ack(self.namespace, id, callback);\n        }\n        let _ = self.client.send.unbounded_send(packets); // TODO: Determine if we care about the result.\n',
     '        let _ = self.client.send.unbounded_send(packets); // TODO: Determine if we care about the result.\n        if let Some((callback, id)) = self.callback {\n            self.client\n                .callbacks\n                .lock()\n                .unwrap()\n                .set_ack(self.namespace, id, callback);\n        }\n'),
]
MAIN = r'''mod common;
use common::*;
use std::sync::{Arc, Mutex, atomic::{AtomicUsize, Ordering}};
#[allow(unused_imports)]
use std::time::{Duration, Instant};


use futures::task::{waker, ArcWake};
use std::future::Future;
use std::sync::mpsc::{channel, Sender};

/// Waking hands the task to its own thread, and is slow enough for that thread to get something done.
struct Handover(Mutex<Sender<Sender<()>>>, std::thread::ThreadId);
impl ArcWake for Handover {
    fn wake_by_ref(a: &Arc<Self>) {
        if std::thread::current().id() == a.1 {
            let (t, r) = channel();
            let _ = a.0.lock().unwrap().send(t);
            let _ = r.recv_timeout(Duration::from_secs(5));
        }
    }
}

#[derive(Default)]
struct Grab(Mutex<Option<std::pin::Pin<Box<dyn Future<Output = ()> + Send>>>>);
impl futures::task::Spawn for Grab {
    fn spawn_obj(&self, f: futures::task::FutureObj<'static, ()>) -> Result<(), futures::task::SpawnError> {
        *self.0.lock().unwrap() = Some(Box::pin(f));
        Ok(())
    }
}

fn main() {
    watchdog(100);
    let s = Server::new();
    let sp = Grab::default();
    let mut fut = Box::pin(Client::from_stream("ws://example.com/", s.transport(), &sp));
    let noop = futures::task::noop_waker();
    let mut cx = std::task::Context::from_waker(&noop);
    assert!(fut.as_mut().poll(&mut cx).is_pending());
    let r = s.request().expect("a request");
    s.feed(&Server::response(&r));
    s.feed(&text(OPEN));
    assert!(fut.as_mut().poll(&mut cx).is_pending());
    let mut task = sp.0.lock().unwrap().take().expect("a task");
    let (tx, rx) = channel::<Sender<()>>();
    let w = waker(Arc::new(Handover(Mutex::new(tx), std::thread::current().id())));
    assert!(task.as_mut().poll(&mut std::task::Context::from_waker(&w)).is_pending());
    let mut c = match fut.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(Ok(c)) => c,
        _ => panic!("not connected"),
    };
    drop(fut);
    let s2 = s.clone();
    std::thread::spawn(move || {
        while let Ok(done) = rx.recv() {
            for _ in 0..5 {
                if task.as_mut().poll(&mut std::task::Context::from_waker(&w)).is_ready() {
                    return; // the connection broke
                }
                // A server that acknowledges at once
                for t in s2.texts() {
                    s2.feed(&text(&format!("43{}[]", t[2..].split('[').next().unwrap())));
                }
            }
            let _ = done.send(());
        }
    });
    let n = Arc::new(AtomicUsize::new(0));
    for _ in 0..10 {
        let n = n.clone();
        c.emit("e").callback(move |_: &socket_io_client::protocol::Args| {
            n.fetch_add(1, Ordering::SeqCst);
        }).args().send();
    }
    std::thread::sleep(Duration::from_millis(300));
    let n = n.load(Ordering::SeqCst);
    check(n == 10, &format!("{} of 10 callbacks ran", n));
}
'''
