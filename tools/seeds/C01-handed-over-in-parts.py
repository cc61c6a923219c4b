PROPERTY = 'C01'
NEEDS = 'an emission with more than 64 attachments, and another sender (a heartbeat, a reply, a clone of the sender) in between'
BREAKS = 'Long emissions are handed to the connection in several parts, between which those of other senders can get.'
EDITS = [
    ('socket-io-client/src/emit.rs',
     '        let _ = self.client.send.unbounded_send(packets); // TODO: Determine if we care about the result.',
     '        let mut packets = packets.into_iter().peekable();\n        while packets.peek().is_some() {\n            let part: Vec<_> = packets.by_ref().take(64).collect();\n            log::trace!("Handing over {} messages", part.len());\n            let _ = self.client.send.unbounded_send(part);\n        }'),
]
MAIN = r'''mod common;
use common::*;
use futures::future::{Future, FutureExt};
use futures::task::{waker, ArcWake, FutureObj, LocalSpawnExt, Spawn, SpawnError};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

struct Bytes(Vec<u8>);
impl serde::Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

type Hook = Arc<Mutex<Option<Box<dyn FnOnce() + Send>>>>;

/// Does something the moment the task it belongs to is woken.
struct OnWake(Waker, Hook);
impl ArcWake for OnWake {
    fn wake_by_ref(this: &Arc<Self>) {
        let f = this.1.lock().unwrap().take();
        if let Some(f) = f {
            f();
        }
        this.0.wake_by_ref();
    }
}

struct Pool(LocalSpawner, Hook);
impl Spawn for Pool {
    fn spawn_obj(&self, mut f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        let hook = self.1.clone();
        self.0
            .spawn_local(futures::future::poll_fn(move |cx: &mut Context<'_>| -> Poll<()> {
                let w = waker(Arc::new(OnWake(cx.waker().clone(), hook.clone())));
                std::pin::Pin::new(&mut f).poll(&mut Context::from_waker(&w))
            }).map(|_| ()))
            .unwrap();
        Ok(())
    }
}

fn main() {
    watchdog(60);
    let mut pool = LocalPool::new();
    let s = Server::new();
    let hook: Hook = Default::default();
    let slot: Slot<Result<Client, Error>> = Default::default();
    let (o, sp, t) = (slot.clone(), Pool(pool.spawner(), hook.clone()), s.transport());
    pool.spawner()
        .spawn_local(async move {
            let r = Client::from_stream("ws://example.com/", t, &sp).await;
            *o.lock().unwrap() = Some(r);
        })
        .unwrap();
    pool.run_until_stalled();
    let r = s.request().expect("a request");
    s.feed(&Server::response(&r));
    s.feed(&text(OPEN));
    pool.run_until_stalled();
    let mut c = slot.lock().unwrap().take().expect("connected").expect("a client");
    s.frames();

    // Another thread emits just when the connection's task takes up the first emission.
    let raw = c.send.clone();
    *hook.lock().unwrap() = Some(Box::new(move || {
        std::thread::spawn(move || {
            let _ = raw.unbounded_send(vec![async_tungstenite::tungstenite::Message::Text("42[\"x\"]".into())]);
        })
        .join()
        .unwrap();
    }));
    let args: Vec<Bytes> = (0..200u32).map(|i| Bytes(i.to_be_bytes().to_vec())).collect();
    let mut e = c.emit("e").binary(true).args();
    e.arg_ref(&args).unwrap();
    e.send();
    pool.run_until_stalled();
    let (mut missing, mut torn, mut others) = (0, false, 0);
    for f in s.frames() {
        match f {
            Got::Text(t) if t.starts_with("45") => missing = 200,
            Got::Binary(_) => missing -= 1,
            _ => {
                others += 1;
                torn |= missing != 0;
            }
        }
    }
    check(missing == 0 && others == 1, "all has arrived");
    check(!torn, "nothing came between a header and its attachments");
}
'''
