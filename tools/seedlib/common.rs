//! A client on an in-memory transport, with a server driven by hand and nothing else running.
#![allow(dead_code)]

use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub use futures::executor::{LocalPool, LocalSpawner};
use futures::io::{AsyncRead, AsyncWrite};
use futures::task::LocalSpawnExt;
pub use socket_io_client::protocol::Args;
pub use socket_io_client::{AckBuilder, Client, Error};

#[derive(Default)]
pub struct Wire {
    pub to_client: VecDeque<u8>,
    pub eof: bool,
    pub read_err: Option<io::ErrorKind>,
    pub write_err: Option<io::ErrorKind>,
    pub from_client: Vec<u8>,
    /// How many bytes the transport still accepts.
    pub room: Option<usize>,
    pub dropped: bool,
    /// Reads so far, and what that was at every write.
    pub reads: usize,
    pub write_at: Vec<usize>,
    reader: Option<Waker>,
    writer: Option<Waker>,
    /// Called before every read, e.g. to make more input.
    pub on_read: Option<Box<dyn FnMut(&mut VecDeque<u8>) + Send>>,
}

pub struct Transport(pub Arc<Mutex<Wire>>);

impl Drop for Transport {
    fn drop(&mut self) {
        self.0.lock().unwrap().dropped = true;
    }
}

impl AsyncRead for Transport {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut w = self.0.lock().unwrap();
        let w = &mut *w;
        w.reads += 1;
        if let Some(f) = &mut w.on_read {
            f(&mut w.to_client);
        }
        if !w.to_client.is_empty() {
            let n = buf.len().min(w.to_client.len());
            for b in buf.iter_mut().take(n) {
                *b = w.to_client.pop_front().unwrap();
            }
            return Poll::Ready(Ok(n));
        }
        if let Some(e) = w.read_err {
            return Poll::Ready(Err(e.into()));
        }
        if w.eof {
            return Poll::Ready(Ok(0));
        }
        w.reader = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl AsyncWrite for Transport {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut w = self.0.lock().unwrap();
        if let Some(e) = w.write_err {
            return Poll::Ready(Err(e.into()));
        }
        let n = buf.len().min(w.room.unwrap_or(usize::MAX));
        if n == 0 && !buf.is_empty() {
            w.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        w.from_client.extend_from_slice(&buf[..n]);
        let r = w.reads;
        w.write_at.push(r);
        if let Some(r) = &mut w.room {
            *r -= n;
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }

    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

pub fn frame(op: u8, data: &[u8]) -> Vec<u8> {
    let mut v = vec![0x80 | op];
    match data.len() {
        n if n < 126 => v.push(n as u8),
        n if n < 65536 => {
            v.push(126);
            v.extend_from_slice(&(n as u16).to_be_bytes());
        }
        n => {
            v.push(127);
            v.extend_from_slice(&(n as u64).to_be_bytes());
        }
    }
    v.extend_from_slice(data);
    v
}

pub fn text(s: &str) -> Vec<u8> {
    frame(1, s.as_bytes())
}

/// An attachment: binary with the engine.io header.
pub fn attachment(d: &[u8]) -> Vec<u8> {
    let mut v = vec![4];
    v.extend_from_slice(d);
    frame(2, &v)
}

#[derive(Clone)]
pub struct Server(pub Arc<Mutex<Wire>>);

#[derive(Debug, Clone, PartialEq)]
pub enum Got {
    Text(String),
    Binary(Vec<u8>),
    Close,
    Ping(Vec<u8>),
    Pong(Vec<u8>),
}

impl Server {
    pub fn new() -> Server {
        Server(Default::default())
    }

    pub fn transport(&self) -> Transport {
        Transport(self.0.clone())
    }

    pub fn feed(&self, b: &[u8]) {
        let mut w = self.0.lock().unwrap();
        w.to_client.extend(b.iter().copied());
        let r = w.reader.take();
        drop(w);
        if let Some(r) = r {
            r.wake();
        }
    }

    pub fn set(&self, f: impl FnOnce(&mut Wire)) {
        let mut w = self.0.lock().unwrap();
        f(&mut w);
        let (r, s) = (w.reader.take(), w.writer.take());
        drop(w);
        r.into_iter().chain(s).for_each(|x| x.wake());
    }

    pub fn dropped(&self) -> bool {
        self.0.lock().unwrap().dropped
    }

    /// The upgrade request, if it is there, taken.
    pub fn request(&self) -> Option<String> {
        let mut w = self.0.lock().unwrap();
        let p = w.from_client.windows(4).position(|x| x == b"\r\n\r\n")? + 4;
        let r: Vec<u8> = w.from_client.drain(..p).collect();
        Some(String::from_utf8_lossy(&r).into_owned())
    }

    pub fn response(request: &str) -> Vec<u8> {
        use sha1::{Digest, Sha1};
        let key = request
            .lines()
            .find(|l| l.to_lowercase().starts_with("sec-websocket-key:"))
            .and_then(|l| l.splitn(2, ':').nth(1))
            .expect("a key")
            .trim()
            .to_string();
        let mut h = Sha1::new();
        h.update(key.as_bytes());
        h.update(b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11");
        let accept = base64::encode(&h.finalize());
        format!("HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: {}\r\n\r\n", accept).into_bytes()
    }

    /// Every whole frame the client has written, taken.
    pub fn frames(&self) -> Vec<Got> {
        let mut w = self.0.lock().unwrap();
        let mut out = Vec::new();
        loop {
            let b = &w.from_client;
            if b.len() < 2 {
                break;
            }
            let (mut at, mut len) = (2, (b[1] & 127) as usize);
            if len == 126 {
                if b.len() < 4 {
                    break;
                }
                len = u16::from_be_bytes([b[2], b[3]]) as usize;
                at = 4;
            } else if len == 127 {
                if b.len() < 10 {
                    break;
                }
                len = b[2..10].iter().fold(0, |a, x| a << 8 | *x as usize);
                at = 10;
            }
            assert!(b[1] & 128 != 0, "not masked");
            if b.len() < at + 4 + len {
                break;
            }
            let mask = [b[at], b[at + 1], b[at + 2], b[at + 3]];
            at += 4;
            let data: Vec<u8> = b[at..at + len].iter().enumerate().map(|(i, x)| x ^ mask[i % 4]).collect();
            let op = b[0] & 15;
            w.from_client.drain(..at + len);
            out.push(match op {
                1 => Got::Text(String::from_utf8(data).expect("text")),
                2 => Got::Binary(data),
                8 => Got::Close,
                9 => Got::Ping(data),
                10 => Got::Pong(data),
                o => panic!("frame with opcode {}", o),
            });
        }
        out
    }

    /// The texts the client has written.
    pub fn texts(&self) -> Vec<String> {
        self.frames()
            .into_iter()
            .filter_map(|g| match g {
                Got::Text(t) => Some(t),
                _ => None,
            })
            .collect()
    }
}

pub const OPEN: &str = r#"0{"sid":"abc","upgrades":[],"pingInterval":25000,"pingTimeout":5000}"#;

pub type Slot<T> = Arc<Mutex<Option<T>>>;

pub fn start(pool: &LocalPool, url: &str, s: &Server) -> Slot<Result<Client, Error>> {
    let out: Slot<Result<Client, Error>> = Default::default();
    let (o, sp, t, url) = (out.clone(), pool.spawner(), s.transport(), url.to_string());
    pool.spawner()
        .spawn_local(async move {
            let r = Client::from_stream(url, t, &sp).await;
            *o.lock().unwrap() = Some(r);
        })
        .unwrap();
    out
}

/// A connected client.
pub fn connect(pool: &mut LocalPool) -> (Client, Server) {
    let s = Server::new();
    let slot = start(pool, "ws://example.com/", &s);
    pool.run_until_stalled();
    let r = s.request().expect("a request");
    s.feed(&Server::response(&r));
    s.feed(&text(OPEN));
    pool.run_until_stalled();
    let c = slot.lock().unwrap().take().expect("connected").expect("a client");
    s.frames();
    (c, s)
}

/// close() in the background.
pub fn close(pool: &LocalPool, mut c: Client) -> Slot<Result<(), Error>> {
    let out: Slot<Result<(), Error>> = Default::default();
    let o = out.clone();
    pool.spawner()
        .spawn_local(async move {
            let r = c.close().await;
            *o.lock().unwrap() = Some(r);
        })
        .unwrap();
    out
}

pub fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(secs));
        println!("FAILED: still not done after {} s", secs);
        std::process::exit(2);
    });
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAILED: {}", what);
        std::process::exit(1);
    }
    println!("ok: {}", what);
}
