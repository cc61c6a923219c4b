//! The simulated world: transports, servers, executor and everything that is recorded.

use std::cell::UnsafeCell;
use std::collections::{BTreeMap, VecDeque};
use std::io::{self, ErrorKind, Read, Write};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use futures::future::FutureObj;
use futures::io::{AsyncRead, AsyncWrite};
use futures::task::{Spawn, SpawnError};
use rustls::Session;
use simrt::Kind;
use socket_io_client::{AckBuilder, Client};

use crate::plan::*;
use crate::val::{As, Val};
use crate::wire::{self, frame, Packet, Request, WsMsg, WsParser, PK};

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// `Cnn:what`, or a kind of failure that breaks whatever property is being checked.
    pub class: String,
    pub msg: String,
}

// ---- records ---------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct ConnRec {
    pub inv: u64,
    pub t0: u64,
    pub ret: Option<u64>,
    pub t1: u64,
    pub result: Option<Result<(), String>>,
    pub abandoned: bool,
    pub dialled: Vec<(String, u16)>,
    pub panicked: bool,
}

#[derive(Clone, Debug)]
pub enum SK {
    Open,
    Event { ns: String, args: Vec<SArg>, id: Option<u64> },
    Ack { ns: String, id: u64, args: Vec<SArg>, bad: bool },
    EPing,
    WsPing(Vec<u8>),
    Noise,
    Hostile(Effect),
    Close,
    Eof,
}

#[derive(Clone, Debug)]
pub struct SentItem {
    pub kind: SK,
    pub seq: u64,
    pub t: u64,
    pub end: u64,
    pub avail: Option<u64>,
    pub avail_t: u64,
    /// Bytes the client had written when it became available.
    pub avail_written: u64,
    pub avail_msgs: usize,
    /// WebSocket messages sent up to its end, roughly.
    pub pieces: u64,
}

#[derive(Clone, Debug)]
pub enum RI {
    Pkt(Packet),
    Pong,
    WsPong(Vec<u8>),
    WsPing,
    Close(Vec<u8>),
    Bad(String),
    Eof,
}

#[derive(Clone, Debug)]
pub struct RecvRec {
    pub item: RI,
    pub seq: u64,
    pub t: u64,
    /// Callbacks that had run when the first byte of it was written by the client.
    pub calls_at: usize,
    /// How many bytes the client had written at its end.
    pub end: u64,
}

#[derive(Clone, Debug)]
pub enum RegKind {
    Set(String, String, usize),
    Clear(String, String),
    SetFb(String, usize),
    ClearFb(String),
}

#[derive(Clone, Debug)]
pub struct RegRec {
    pub kind: RegKind,
    pub inv: u64,
    pub ret: Option<u64>,
    pub t_inv: u64,
    pub t_ret: u64,
}

#[derive(Clone, Debug)]
pub enum InstKind {
    Event,
    Ack(usize),
}

#[derive(Clone, Debug)]
pub struct InstRec {
    pub kind: InstKind,
    pub calls: u32,
    pub made: u64,
    pub freed: Option<u64>,
    pub handed: bool,
}

#[derive(Clone, Debug)]
pub struct CallRec {
    pub inst: usize,
    pub seq: u64,
    pub t: u64,
    pub ret: Option<u64>,
    pub args: Vec<Result<Val, String>>,
    pub typed: Vec<Vec<Option<Val>>>,
    pub has_ack: bool,
    pub oddity: Option<String>,
    pub panicked: bool,
    pub thread: String,
}

#[derive(Clone, Debug)]
pub enum EK {
    Event,
    Reply(usize),
}

#[derive(Clone, Debug)]
pub struct EmitRec {
    pub kind: EK,
    pub ns: String,
    pub args: Vec<Val>,
    pub has_id: bool,
    pub inv: u64,
    pub ret: Option<u64>,
    pub t_inv: u64,
    pub t_ret: u64,
    /// Handed over, not abandoned.
    pub sent: bool,
    pub inst: Option<usize>,
    pub calls_at: usize,
    pub binary: bool,
    /// Results of adding the arguments, against what they must be.
    pub arg_trouble: Option<String>,
    /// The emission happened after the connection was known to be gone; it may go nowhere.
    pub fail_args: u32,
}

#[derive(Clone, Debug)]
pub struct CloseRec {
    pub inv: u64,
    pub t0: u64,
    pub ret: Option<u64>,
    pub t1: u64,
    pub result: Option<Result<(), String>>,
    pub abandoned: bool,
    pub rethrown: bool,
    pub panicked: bool,
    pub first: bool,
    pub calls_at: usize,
    pub inq: usize,
}

#[derive(Clone, Debug)]
pub struct SettleRec {
    pub inv: u64,
    pub ret: u64,
    pub t: u64,
    pub recv_len: usize,
    pub sent_len: usize,
    pub capped: bool,
    pub calls_len: usize,
}

#[derive(Clone, Debug)]
pub struct EndCheck {
    pub transport_held: bool,
    pub tasks: usize,
    pub not_freed: Vec<usize>,
}

// ---- one client --------------------------------------------------------------------------------------

#[derive(Default)]
pub struct In {
    pub buf: VecDeque<u8>,
    pub eof: bool,
    pub eof_after_err: bool,
    pub err: Option<ErrorKind>,
    pub err_after: Option<ErrorKind>,
    pub waker: Option<Waker>,
    pub last_at: u64,
    pub sent: u64,
    pub delivered: u64,
    pub read: u64,
    /// When bytes were last taken.
    pub read_t: u64,
    pub flying: VecDeque<(u64, Vec<u8>)>,
    pub stalled: bool,
    pub closed: bool,
    pub corrupt: Option<u8>,
}

#[derive(Default)]
pub struct Out {
    pub written: u64,
    pub inflight: u64,
    pub waker: Option<Waker>,
    pub flush_waker: Option<Waker>,
    pub last_at: u64,
    pub fail: Option<NetKind>,
    pub flush_fail: bool,
    /// When a write or a flush first failed.
    pub failed: Option<(u64, u64)>,
    pub stalled: bool,
    pub queue: VecDeque<Vec<u8>>,
    pub paused_until: u64,
    pub closed: bool,
    pub raw: Vec<u8>,
    pub msg_marks: Vec<(u64, usize)>,
    pub blocked_since: Option<u64>,
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Phase {
    Head,
    Answering,
    Up,
    Dead,
}

pub struct Srv {
    pub phase: Phase,
    pub head: Vec<u8>,
    pub request: Option<Request>,
    pub raw_head: String,
    pub parser: WsParser,
    pub partial: Option<(Packet, usize, Vec<Vec<u8>>)>,
    pub pos: usize,
    pub script_on: bool,
    pub busy_until: u64,
    pub wait_from: Option<u64>,
    pub flood_sent: u32,
    pub ack_count: usize,
    pub recv_pkts: u32,
    pub sent_close: bool,
    pub got_close: bool,
    pub sent_eof: bool,
    pub more: VecDeque<SrvOp>,
    pub tls: Option<rustls::ServerSession>,
    pub tls_done: bool,
    pub tls_sent: u64,
    pub open_end: Option<u64>,
    pub consumed: u64,
    pub pending_replies: u32,
    pub client_eof: bool,
    pub pieces: u64,
    pub ws_count: u32,
    /// Amid a packet of which the rest never comes.
    pub hung: bool,
}

pub struct CW {
    pub i: In,
    pub o: Out,
    pub created: Option<(u64, u64)>,
    pub dropped: Option<(u64, u64)>,
    pub armed: Vec<NetFault>,
    pub srv: Srv,
    pub gates: [bool; 32],
    pub conn: Option<ConnRec>,
    pub sent: Vec<SentItem>,
    /// So many of them have arrived.
    pub avail_from: usize,
    pub recv: Vec<RecvRec>,
    pub regs: Vec<RegRec>,
    pub insts: Vec<InstRec>,
    pub calls: Vec<CallRec>,
    pub emits: Vec<EmitRec>,
    pub closes: Vec<CloseRec>,
    pub settles: Vec<SettleRec>,
    pub drop_at: Option<(u64, u64)>,
    pub hard: Vec<(u64, u64, String)>,
    pub drop_inv: Option<(u64, u64)>,
    pub blocked_ever: bool,
    pub handle: Arc<Mutex<Option<Client>>>,
    pub sender: Option<futures::channel::mpsc::UnboundedSender<Vec<async_tungstenite::tungstenite::Message>>>,
    pub pool: VecDeque<(AckBuilder, usize)>,
    pub threads_left: u32,
    pub progress: u64,
    pub cur_op: String,
    pub inst_panics: u32,
    pub owner_done: bool,
    pub end_check: Option<EndCheck>,
    pub before_leftovers: usize,
}

pub struct Task {
    pub fut: Option<FutureObj<'static, ()>>,
    pub state: TState,
    pub client: usize,
    pub spawned: u64,
    pub ended: Option<(u64, u64)>,
    pub polls: u64,
}

#[derive(PartialEq, Clone, Copy)]
pub enum TState {
    Idle,
    Queued,
    Running,
    Woken,
    Done,
}

pub struct World {
    pub plan: Rc<Plan>,
    pub clients: Vec<CW>,
    pub tasks: Vec<Task>,
    pub queue: VecDeque<usize>,
    /// Client, beginning and end of the polls that took long.
    pub long_polls: Vec<(usize, u64, u64)>,
    pub violations: Vec<Violation>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub finished: bool,
}

struct Cell(UnsafeCell<Option<World>>);
unsafe impl Sync for Cell {}
static WORLD: Cell = Cell(UnsafeCell::new(None));

/// The world. Only used on the simulated thread; never held across a yield point.
#[allow(clippy::mut_from_ref)]
pub fn w() -> &'static mut World {
    unsafe { (*WORLD.0.get()).as_mut().expect("no world") }
}

pub fn cw(c: usize) -> &'static mut CW {
    &mut w().clients[c]
}

pub fn have_world() -> bool {
    simrt::in_sim() && unsafe { (*WORLD.0.get()).is_some() }
}

pub fn fault(k: &'static str) {
    *w().faults.entry(k).or_insert(0) += 1;
}

pub fn probe(k: &'static str) {
    *w().probes.entry(k).or_insert(0) += 1;
}

pub fn violate(class: impl Into<String>, msg: impl Into<String>) {
    let (class, msg) = (class.into(), msg.into());
    simrt::trace(|| format!("VIOLATION {} {}", class, msg));
    w().violations.push(Violation { class, msg });
}

pub fn install(plan: Rc<Plan>) {
    let clients = plan
        .clients
        .iter()
        .map(|p| CW {
            i: In::default(),
            o: Out::default(),
            created: None,
            dropped: None,
            armed: p.net.faults.clone(),
            srv: Srv {
                phase: Phase::Head,
                head: Vec::new(),
                request: None,
                raw_head: String::new(),
                parser: WsParser::default(),
                partial: None,
                pos: 0,
                script_on: false,
                busy_until: 0,
                wait_from: None,
                flood_sent: 0,
                ack_count: 0,
                recv_pkts: 0,
                sent_close: false,
                got_close: false,
                sent_eof: false,
                more: VecDeque::new(),
                tls: match &p.tls {
                    Some(Tls { cert, peer: TlsPeer::Tls | TlsPeer::Cut(_) }) => Some(tls_session(*cert)),
                    _ => None,
                },
                tls_done: false,
                tls_sent: 0,
                open_end: None,
                consumed: 0,
                pending_replies: 0,
                client_eof: false,
                pieces: 0,
                ws_count: 0, hung: false,
            },
            gates: [false; 32],
            conn: None,
            avail_from: 0,
            sent: Vec::new(),
            recv: Vec::new(),
            regs: Vec::new(),
            insts: Vec::new(),
            calls: Vec::new(),
            emits: Vec::new(),
            closes: Vec::new(),
            settles: Vec::new(),
            drop_at: None,
            hard: Vec::new(),
            drop_inv: None,
            blocked_ever: false,
            handle: Arc::new(Mutex::new(None)),
            sender: None,
            pool: VecDeque::new(),
            threads_left: 0,
            progress: 0,
            cur_op: String::new(),
            inst_panics: 0,
            owner_done: false,
            end_check: None,
            before_leftovers: 0,
        })
        .collect();
    unsafe {
        *WORLD.0.get() = Some(World {
            plan,
            clients,
            tasks: Vec::new(),
            queue: VecDeque::new(),
            long_polls: Vec::new(),
            violations: Vec::new(),
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            finished: false,
        });
    }
}

fn plan(c: usize) -> &'static ClientPlan {
    // The plan lives as long as the world, which is never taken down.
    unsafe { &*(&w().plan.clients[c] as *const ClientPlan) }
}

// ---- transport ---------------------------------------------------------------------------------------

pub struct SimStream {
    c: usize,
}

impl SimStream {
    pub fn new(c: usize) -> SimStream {
        let seq = simrt::next_seq();
        cw(c).created = Some((seq, simrt::now()));
        simrt::trace(|| format!("c{} transport established", c));
        let t0 = simrt::now();
        for f in plan(c).net.faults.iter().cloned() {
            if let Trig::At(us) = f.trig {
                simrt::at(t0 + us * US, move || fire_fault(c, &f));
            }
        }
        check_byte_faults(c);
        if let Some(Tls { peer, .. }) = &plan(c).tls {
            match peer {
                TlsPeer::Eof => {
                    simrt::after(plan(c).net.lat_us * US, move || send_eof(c));
                }
                TlsPeer::Silent => fault("tls-silent"),
                _ => {}
            }
        }
        SimStream { c }
    }
}

fn spurious(c: usize, cx: &mut Context<'_>) -> bool {
    if simrt::chance(plan(c).net.spurious, Kind::Net) {
        fault("spurious-pending");
        cx.waker().wake_by_ref();
        true
    } else {
        false
    }
}

fn some_of(max: u32, n: usize) -> usize {
    if max == 0 {
        n
    } else {
        let m = n.min(max as usize);
        m - simrt::choose(m, Kind::Net)
    }
}

impl AsyncRead for SimStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let _c = simrt::closed();
        let c = self.c;
        simrt::point("read");
        if spurious(c, cx) {
            return Poll::Pending;
        }
        let i = &mut cw(c).i;
        if let Some(e) = i.err {
            return Poll::Ready(Err(e.into()));
        }
        if !i.buf.is_empty() && !buf.is_empty() {
            let n = some_of(plan(c).net.read_max, buf.len().min(i.buf.len()));
            let i = &mut cw(c).i;
            for (d, s) in buf.iter_mut().zip(i.buf.drain(..n)) {
                *d = s;
            }
            i.read += n as u64;
            i.read_t = simrt::now();
            return Poll::Ready(Ok(n));
        }
        if let Some(e) = i.err_after {
            return Poll::Ready(Err(e.into()));
        }
        if i.eof {
            simrt::trace(|| format!("c{} reads end of stream", c));
            return Poll::Ready(Ok(0));
        }
        i.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl AsyncWrite for SimStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let _c = simrt::closed();
        let c = self.c;
        simrt::point("write");
        if spurious(c, cx) {
            return Poll::Pending;
        }
        let net = &plan(c).net;
        let o = &mut cw(c).o;
        if o.fail.is_some() && o.failed.is_none() {
            o.failed = Some((simrt::next_seq(), simrt::now()));
        }
        match o.fail {
            // The WebSocket and TLS libraries panic or spin when this happens during a handshake
            // or under TLS; that is theirs, so there it is an error instead.
            Some(NetKind::WriteZero) if plan(c).tls.is_none() && cw(c).conn.as_ref().is_some_and(|x| x.result == Some(Ok(()))) => {
                return Poll::Ready(Ok(0));
            }
            Some(NetKind::Reset) => return Poll::Ready(Err(ErrorKind::ConnectionReset.into())),
            Some(_) => return Poll::Ready(Err(ErrorKind::BrokenPipe.into())),
            None => {}
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let room = if o.stalled {
            0
        } else if net.cap == 0 {
            usize::MAX
        } else {
            // A long message is not torn into very many pieces.
            (net.cap as u64).max(if buf.len() > 3000 { buf.len() as u64 / 40 } else { 0 }).saturating_sub(o.inflight) as usize
        };
        if room == 0 {
            o.waker = Some(cx.waker().clone());
            if o.blocked_since.is_none() {
                o.blocked_since = Some(simrt::now());
                cw(c).blocked_ever = true;
                fault("write-backpressure");
            }
            return Poll::Pending;
        }
        let mut room = room;
        for f in &cw(c).armed {
            if let Trig::Written(n) = f.trig {
                if n > cw(c).o.written {
                    room = room.min((n - cw(c).o.written) as usize);
                }
            }
        }
        let n = some_of(net.write_max, buf.len().min(room));
        let n = if buf.len() > 3000 { n.max((buf.len() / 40).min(room)) } else { n };
        let calls = cw(c).calls.len();
        let o = &mut cw(c).o;
        o.blocked_since = None;
        let data = buf[..n].to_vec();
        if o.raw.len() < 200_000 {
            o.raw.extend_from_slice(&data);
        }
        o.msg_marks.push((o.written, calls));
        o.written += n as u64;
        o.inflight += n as u64;
        cw(c).progress += 1;
        let jit = if net.jitter_us > 0 { simrt::choose(5, Kind::Net) as u64 * net.jitter_us * US / 4 } else { 0 };
        let o = &mut cw(c).o;
        let at = (simrt::now() + net.lat_us * US + jit).max(o.last_at);
        o.last_at = at;
        simrt::at(at, move || arrive(c, data));
        check_byte_faults(c);
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _c = simrt::closed();
        let c = self.c;
        simrt::point("flush");
        let o = &mut cw(c).o;
        if o.flush_fail {
            o.failed.get_or_insert_with(|| (simrt::next_seq(), simrt::now()));
            return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
        }
        if let Some(NetKind::Reset) = o.fail {
            return Poll::Ready(Err(ErrorKind::ConnectionReset.into()));
        }
        if plan(c).net.flush_waits && o.inflight > 0 {
            o.flush_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }

    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let _c = simrt::closed();
        let c = self.c;
        simrt::point("shutdown");
        client_eof(c);
        Poll::Ready(Ok(()))
    }
}

impl Drop for SimStream {
    fn drop(&mut self) {
        let _c = simrt::closed();
        if !have_world() {
            return;
        }
        let c = self.c;
        let seq = simrt::next_seq();
        cw(c).dropped = Some((seq, simrt::now()));
        cw(c).progress += 1;
        simrt::trace(|| format!("c{} transport released", c));
        client_eof(c);
        simrt::notify();
    }
}

fn client_eof(c: usize) {
    let o = &mut cw(c).o;
    if o.closed {
        return;
    }
    o.closed = true;
    let at = (simrt::now() + plan(c).net.lat_us * US).max(o.last_at);
    simrt::at(at, move || {
        cw(c).srv.client_eof = true;
        record_recv(c, RI::Eof);
        // A server whose client has gone closes too.
        cw(c).srv.phase = Phase::Dead;
        simrt::notify();
    });
}

fn arrive(c: usize, data: Vec<u8>) {
    cw(c).progress += 1;
    let o = &mut cw(c).o;
    o.queue.push_back(data);
    drain(c);
}

fn drain(c: usize) {
    loop {
        let o = &mut cw(c).o;
        if o.stalled || o.paused_until > simrt::now() {
            return;
        }
        let Some(d) = o.queue.pop_front() else { return };
        o.inflight -= d.len() as u64;
        let wk = o.waker.take();
        let fw = if o.inflight == 0 { o.flush_waker.take() } else { None };
        cw(c).progress += 1;
        on_wire(c, &d);
        if let Some(x) = wk {
            x.wake();
        }
        if let Some(x) = fw {
            x.wake();
        }
    }
}

/// Put bytes on their way to the client.
fn to_client(c: usize, data: &[u8]) {
    let net = &plan(c).net;
    if cw(c).i.closed || data.is_empty() {
        return;
    }
    cw(c).i.sent += data.len() as u64;
    let mut rest = data;
    while !rest.is_empty() {
        let n = if net.chunk == 0 { rest.len() } else { rest.len().min(1 + simrt::choose(net.chunk as usize, Kind::Net)) };
        // A long message is not torn into very many pieces.
        let n = if data.len() > 3000 { n.max(data.len() / 40).min(rest.len()) } else { n };
        let (a, b) = rest.split_at(n);
        rest = b;
        let jit = if net.jitter_us > 0 { simrt::choose(5, Kind::Net) as u64 * net.jitter_us * US / 4 } else { 0 };
        let i = &mut cw(c).i;
        let gap = if n < data.len() { net.gap_us * US } else { 0 };
        let at = (simrt::now() + net.lat_us * US + jit).max(i.last_at + gap);
        i.last_at = at;
        i.flying.push_back((at, a.to_vec()));
        simrt::at(at, move || {
            let more = plan(c).net.batch;
            while let Some((_, piece)) = {
                let f = &mut cw(c).i.flying;
                if f.front().is_some_and(|f| f.0 <= at) { f.pop_front() } else { None }
            } {
                deliver(c, piece);
                if !more {
                    break;
                }
            }
        });
    }
}

fn deliver(c: usize, mut data: Vec<u8>) {
    cw(c).progress += 1;
    while !data.is_empty() {
        if cw(c).i.stalled || cw(c).i.err.is_some() {
            return;
        }
        let mut n = data.len();
        for f in &cw(c).armed {
            if let Trig::Delivered(k) = f.trig {
                let d = cw(c).i.delivered;
                if k > d {
                    n = n.min((k - d) as usize);
                }
            }
        }
        let rest = data.split_off(n);
        if let Some(x) = cw(c).i.corrupt.take() {
            fault("corrupt-byte");
            data[0] ^= x;
        }
        if cw(c).dropped.is_none() {
            cw(c).i.buf.extend(&data);
        }
        cw(c).i.delivered += data.len() as u64;
        data = rest;
        mark_avail(c);
        check_byte_faults(c);
    }
    wake_reader(c);
}

fn mark_avail(c: usize) {
    let d = cw(c).i.delivered;
    let written = cw(c).o.written;
    let msgs = cw(c).recv.len();
    let mut seq = None;
    let from = cw(c).avail_from;
    for s in cw(c).sent[from..].iter_mut() {
        if s.end > d {
            break;
        }
        let q = *seq.get_or_insert_with(simrt::next_seq);
        s.avail = Some(q);
        s.avail_t = simrt::now();
        s.avail_written = written;
        s.avail_msgs = msgs;
        cw(c).avail_from += 1;
    }
}

fn wake_reader(c: usize) {
    if let Some(x) = cw(c).i.waker.take() {
        x.wake();
    }
}

fn check_byte_faults(c: usize) {
    loop {
        let x = cw(c);
        let hit = x.armed.iter().position(|f| match f.trig {
            Trig::At(_) => false,
            Trig::Written(n) => x.o.written >= n,
            Trig::Delivered(n) => x.i.delivered >= n,
        });
        match hit {
            Some(p) => {
                let f = x.armed.remove(p);
                // The write that triggers it still succeeds.
                fire_fault(c, &f);
            }
            None => return,
        }
    }
}

fn fire_fault(c: usize, f: &NetFault) {
    if cw(c).dropped.is_some() {
        return;
    }
    simrt::trace(|| format!("c{} network fault {:?}", c, f));
    simrt::mix(0xFA17);
    cw(c).progress += 1;
    let seq = simrt::next_seq();
    if !matches!(f.kind, NetKind::Corrupt(_)) {
        cw(c).hard.push((seq, simrt::now(), format!("{:?}", f.kind)));
    }
    match &f.kind {
        NetKind::Eof => {
            fault("net-eof");
            send_eof(c);
        }
        NetKind::Reset => {
            fault("net-reset");
            do_reset(c);
        }
        NetKind::ReadErr => {
            fault("net-read-error");
            cw(c).i.closed = true;
            cw(c).i.err_after = Some(ErrorKind::ConnectionAborted);
            wake_reader(c);
        }
        k @ (NetKind::WriteErr | NetKind::WriteZero) => {
            fault(if *k == NetKind::WriteErr { "net-write-error" } else { "net-write-zero" });
            cw(c).o.fail = Some(k.clone());
            wake_writer(c);
        }
        NetKind::FlushErr => {
            fault("net-flush-error");
            cw(c).o.flush_fail = true;
            wake_writer(c);
        }
        NetKind::StallIn => {
            fault("net-stall-in");
            cw(c).i.stalled = true;
        }
        NetKind::StallOut => {
            fault("net-stall-out");
            cw(c).o.stalled = true;
        }
        NetKind::Corrupt(x) => {
            cw(c).i.corrupt = Some(*x);
            cw(c).hard.push((seq, simrt::now(), "corrupt".into()));
        }
    }
}

fn wake_writer(c: usize) {
    let o = &mut cw(c).o;
    let (a, b) = (o.waker.take(), o.flush_waker.take());
    if let Some(x) = a {
        x.wake();
    }
    if let Some(x) = b {
        x.wake();
    }
}

pub fn do_reset(c: usize) {
    let x = cw(c);
    x.i.err = Some(ErrorKind::ConnectionReset);
    x.i.buf.clear();
    x.i.closed = true;
    x.o.fail = Some(NetKind::Reset);
    x.srv.phase = Phase::Dead;
    wake_reader(c);
    wake_writer(c);
    simrt::notify();
}

/// Orderly end of stream, after what is on the way.
pub fn send_eof(c: usize) {
    let x = cw(c);
    if x.i.closed {
        return;
    }
    x.i.closed = true;
    x.srv.sent_eof = true;
    let end = x.i.sent;
    x.sent.push(SentItem { kind: SK::Eof, seq: simrt::next_seq(), t: simrt::now(), end, avail: None, avail_t: 0, avail_written: 0, avail_msgs: 0, pieces: x.srv.pieces });
    let at = (simrt::now() + plan(c).net.lat_us * US).max(cw(c).i.last_at);
    cw(c).i.last_at = at;
    simrt::at(at, move || {
        cw(c).progress += 1;
        if cw(c).i.stalled {
            return;
        }
        cw(c).i.eof = true;
        mark_avail(c);
        wake_reader(c);
    });
}

// ---- server --------------------------------------------------------------------------------------------

fn tls_session(cert: Cert) -> rustls::ServerSession {
    macro_rules! pair {
        ($n:literal) => {
            (&include_bytes!(concat!("../certs/", $n, ".der"))[..], &include_bytes!(concat!("../certs/", $n, ".key.der"))[..])
        };
    }
    let (c, k) = match cert {
        Cert::Good => pair!("good"),
        Cert::WrongHost => pair!("wronghost"),
        Cert::Expired => pair!("expired"),
        Cert::Future => pair!("future"),
        Cert::Untrusted => pair!("untrusted"),
        Cert::ClientOnly => pair!("clientonly"),
    };
    let mut cfg = rustls::ServerConfig::new(rustls::NoClientAuth::new());
    cfg.set_single_cert(vec![rustls::Certificate(c.to_vec())], rustls::PrivateKey(k.to_vec())).expect("server certificate");
    rustls::ServerSession::new(&Arc::new(cfg))
}

/// Bytes from the client, as they came over the wire.
fn on_wire(c: usize, data: &[u8]) {
    let s = &mut cw(c).srv;
    s.consumed += data.len() as u64;
    if s.phase == Phase::Dead {
        return;
    }
    let Some(t) = &plan(c).tls else {
        on_plain(c, data);
        return;
    };
    match &t.peer {
        TlsPeer::Plain => {
            on_plain(c, data);
            // A plain server cannot make sense of a TLS hello and says so.
            if cw(c).srv.phase == Phase::Head && cw(c).srv.head.first() == Some(&0x16) && !cw(c).srv.sent_eof {
                fault("tls-plain-peer");
                to_client(c, b"HTTP/1.1 400 Bad Request\r\nConnection: close\r\n\r\n");
                send_eof(c);
            }
            return;
        }
        TlsPeer::Garbage(g) => {
            fault("tls-garbage-peer");
            let g = g.clone();
            to_client(c, &g);
            return;
        }
        TlsPeer::Silent | TlsPeer::Eof => return,
        TlsPeer::Tls | TlsPeer::Cut(_) => {}
    }
    let mut plain = Vec::new();
    {
        let s = &mut cw(c).srv;
        let tls = s.tls.as_mut().unwrap();
        let mut rd = data;
        while !rd.is_empty() {
            match tls.read_tls(&mut rd) {
                Ok(0) => break,
                Ok(_) => {}
                Err(_) => break,
            }
            if let Err(e) = tls.process_new_packets() {
                simrt::trace(|| format!("c{} server TLS error {}", c, e));
                tls_out(c);
                send_eof(c);
                cw(c).srv.phase = Phase::Dead;
                return;
            }
        }
        let _ = tls.read_to_end(&mut plain);
        if !tls.is_handshaking() && !s.tls_done {
            s.tls_done = true;
            probe("tls-handshake-done");
        }
    }
    tls_out(c);
    if !plain.is_empty() {
        on_plain(c, &plain);
    }
}

fn tls_out(c: usize) {
    let mut v = Vec::new();
    {
        let tls = cw(c).srv.tls.as_mut().unwrap();
        while tls.wants_write() {
            if tls.write_tls(&mut v).is_err() {
                break;
            }
        }
    }
    if let Some(Tls { peer: TlsPeer::Cut(n), .. }) = &plan(c).tls {
        let left = n.saturating_sub(cw(c).srv.tls_sent) as usize;
        if v.len() > left {
            fault("tls-cut");
            v.truncate(left);
        }
    }
    cw(c).srv.tls_sent += v.len() as u64;
    to_client(c, &v);
}

/// Send application bytes.
fn send_plain(c: usize, data: &[u8]) {
    cw(c).srv.pieces += 1;
    if cw(c).i.closed {
        return;
    }
    if cw(c).srv.tls.is_some() {
        cw(c).srv.tls.as_mut().unwrap().write_all(data).expect("TLS buffer");
        tls_out(c);
    } else {
        to_client(c, data);
    }
}

fn record_sent(c: usize, kind: SK) {
    let x = cw(c);
    x.progress += 1;
    if x.i.closed {
        return;
    }
    let item = SentItem { kind, seq: simrt::next_seq(), t: simrt::now(), end: x.i.sent, avail: None, avail_t: 0, avail_written: 0, avail_msgs: 0, pieces: x.srv.pieces };
    simrt::trace(|| format!("c{} server sent {:?}", c, short(&item.kind)));
    x.sent.push(item);
}

fn short(k: &SK) -> String {
    match k {
        SK::Event { ns, args, id } => {
            Packet { kind: PK::Event, ns: ns.clone(), id: *id, args: args.iter().map(|a| a.v.clone()).collect() }.show()
        }
        SK::Ack { ns, id, args, bad } => format!(
            "{}{}",
            if *bad { "(stray) " } else { "" },
            Packet { kind: PK::Ack, ns: ns.clone(), id: Some(*id), args: args.iter().map(|a| a.v.clone()).collect() }.show()
        ),
        k => format!("{:?}", k).chars().take(300).collect(),
    }
}

pub fn record_recv(c: usize, item: RI) {
    let x = cw(c);
    x.progress += 1;
    simrt::trace(|| match &item {
        RI::Pkt(p) => format!("c{} server received {}", c, p.show()),
        i => format!("c{} server received {:?}", c, i),
    });
    let consumed = x.srv.consumed;
    // The write in which this message ended.
    let calls_at = x.o.msg_marks.iter().rev().find(|(w, _)| *w < consumed).map_or(0, |m| m.1);
    let seq = simrt::next_seq();
    simrt::mix(0x5E00 + x.recv.len() as u64);
    x.recv.push(RecvRec { item, seq, t: simrt::now(), calls_at, end: consumed });
    simrt::notify();
}

fn on_plain(c: usize, data: &[u8]) {
    if cw(c).srv.phase == Phase::Head || cw(c).srv.phase == Phase::Answering {
        let s = &mut cw(c).srv;
        s.head.extend_from_slice(data);
        if s.phase == Phase::Answering {
            return;
        }
        if let Some(p) = s.head.windows(4).position(|x| x == b"\r\n\r\n") {
            let rest = s.head.split_off(p + 4);
            let head = String::from_utf8_lossy(&s.head).to_string();
            s.head = rest;
            simrt::trace(|| format!("c{} request {:?}", c, head));
            let s = &mut cw(c).srv;
            s.request = Request::parse(&head);
            s.raw_head = head;
            s.phase = Phase::Answering;
            answer(c);
        }
        return;
    }
    let msgs = cw(c).srv.parser.push(data);
    for m in msgs {
        on_msg(c, m);
    }
    poke(c);
}

fn answer(c: usize) {
    let hs = &plan(c).hs;
    if hs.resp == Resp::Silent {
        fault("hs-silent");
        return;
    }
    let key = cw(c).srv.request.as_ref().and_then(|r| r.header("sec-websocket-key").map(|x| x.to_string())).unwrap_or_default();
    let accept = wire::accept_key(&key);
    let resp: Vec<u8> = match &hs.resp {
        Resp::Ok => format!("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: {}\r\n\r\n", accept).into_bytes(),
        Resp::OkOddHeaders => format!(
            "HTTP/1.1 101 OK\r\nserver: sim\r\nconnection: upgrade\r\nX-Long: {}\r\nsec-websocket-accept: {}\r\nset-cookie: a=b; c=d\r\nUPGRADE: WebSocket\r\n\r\n",
            "y".repeat(500),
            accept
        )
        .into_bytes(),
        Resp::Status(n) => format!("HTTP/1.1 {} Nope\r\nContent-Length: 4\r\n\r\nnope", n).into_bytes(),
        Resp::WrongAccept => {
            b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: AAAAAAAAAAAAAAAAAAAAAAAAAAA=\r\n\r\n".to_vec()
        }
        Resp::NoUpgrade => format!("HTTP/1.1 101 Switching Protocols\r\nSec-WebSocket-Accept: {}\r\n\r\n", accept).into_bytes(),
        Resp::Garbage(g) => g.clone(),
        Resp::Silent => unreachable!(),
    };
    if !matches!(hs.resp, Resp::Ok | Resp::OkOddHeaders) {
        fault("hs-refused");
    }
    let t1 = simrt::now() + hs.resp_delay_us * US;
    let t2 = t1 + hs.open_delay_us * US;
    if hs.pings > 0 {
        fault("hs-pings-before-open");
        for k in 0..hs.pings as u64 {
            simrt::at(t1 + (k + 1) * hs.ping_gap_us * US, move || {
                if cw(c).srv.phase == Phase::Up && !cw(c).srv.script_on {
                    send_plain(c, &frame(true, if k % 3 == 2 { 10 } else { 9 }, b"hi"));
                }
            });
        }
    }
    let open = open_bytes(c, &hs.open);
    let cut = hs.cut.clone();
    let total = std::rc::Rc::new(std::cell::Cell::new(0u64));
    let send = {
        let total = total.clone();
        let cut = cut.clone();
        move |data: Vec<u8>| -> bool {
            if cw(c).srv.phase == Phase::Dead {
                return false;
            }
            if let Some((n, kind)) = &cut {
                let left = n.saturating_sub(total.get()) as usize;
                if data.len() > left {
                    fault("hs-cut");
                    total.set(u64::MAX / 2);
                    send_plain(c, &data[..left]);
                    match kind {
                        Cut::Stall => {}
                        Cut::Eof => send_eof(c),
                        Cut::Reset => {
                            let at = cw(c).i.last_at.max(simrt::now());
                            simrt::at(at, move || do_reset(c));
                        }
                    }
                    cw(c).srv.phase = Phase::Dead;
                    return false;
                }
            }
            total.set(total.get() + data.len() as u64);
            send_plain(c, &data);
            true
        }
    };
    let finish = move |ok: bool| {
        if !ok {
            return;
        }
        let hs = &plan(c).hs;
        match hs.open {
            Open::Eof => {
                fault("hs-eof-before-open");
                send_eof(c);
                return;
            }
            Open::Reset => {
                fault("hs-reset-before-open");
                let at = cw(c).i.last_at.max(simrt::now());
                simrt::at(at, move || do_reset(c));
                return;
            }
            _ => {}
        }
        if hs.hopeless() {
            fault("hs-bad-open");
            return;
        }
        let end = cw(c).i.sent;
        cw(c).srv.open_end = Some(end);
        record_sent(c, SK::Open);
        cw(c).srv.script_on = true;
        poke(c);
    };
    if hs.coalesce {
        simrt::at(t2, move || {
            let mut d = resp;
            d.extend(open);
            let ok = send(d);
            up(c);
            finish(ok);
        });
    } else {
        let send2 = send.clone();
        simrt::at(t1, move || {
            if send(resp) {
                up(c);
                simrt::at(t2, move || {
                    let ok = open.is_empty() || send2(open);
                    finish(ok);
                });
            }
        });
    }
}

fn up(c: usize) {
    if cw(c).srv.phase == Phase::Answering && matches!(plan(c).hs.resp, Resp::Ok | Resp::OkOddHeaders) {
        cw(c).srv.phase = Phase::Up;
        let early = std::mem::take(&mut cw(c).srv.head);
        if !early.is_empty() {
            on_plain(c, &early);
        }
    }
}

fn open_bytes(c: usize, o: &Open) -> Vec<u8> {
    let c = if plan(c).hs.same_sid { 0 } else { c };
    let text = format!("0{{\"sid\":\"sid-{}\",\"upgrades\":[],\"pingInterval\":25000,\"pingTimeout\":5000}}", c);
    match o {
        Open::Normal => frame(true, 1, text.as_bytes()),
        Open::Extra => frame(
            true,
            1,
            format!("0{{\"pingTimeout\":20000,\"maxPayload\":1000000,\"x\":[1,{{\"y\":null}}],\"upgrades\":[\"websocket\"],\"sid\":\"é\\\"-{}\",\"pingInterval\":18446744073709551615}}", c)
                .as_bytes(),
        ),
        Open::Fragmented => {
            let b = text.as_bytes();
            let k = b.len() / 3;
            let mut v = frame(false, 1, &b[..k]);
            v.extend(frame(true, 9, b"in-between"));
            v.extend(frame(false, 0, &b[k..k]));
            v.extend(frame(false, 0, &b[k..2 * k]));
            v.extend(frame(true, 0, &b[2 * k..]));
            v
        }
        Open::AfterWsPing => {
            let mut v = frame(true, 9, b"hi");
            v.extend(frame(true, 10, b""));
            v.extend(frame(true, 1, text.as_bytes()));
            v
        }
        Open::Missing | Open::Eof | Open::Reset => Vec::new(),
        Open::BadJson(s) => frame(true, 1, format!("0{}", s).as_bytes()),
        Open::Text(s) => frame(true, 1, s.as_bytes()),
        Open::Binary(b) => frame(true, 2, b),
        Open::Close => frame(true, 8, &1000u16.to_be_bytes()),
    }
}

fn on_msg(c: usize, m: WsMsg) {
    if cw(c).srv.got_close {
        record_recv(c, RI::Bad(format!("{:?} after the close frame", m)));
        return;
    }
    match m {
        WsMsg::Text(t) => {
            if cw(c).srv.partial.is_some() {
                record_recv(c, RI::Bad(format!("text message {:?} in the middle of a binary packet", t.chars().take(100).collect::<String>())));
                return;
            }
            match t.as_bytes().first() {
                Some(b'3') if t == "3" || t == "3probe" => record_recv(c, RI::Pong),
                Some(b'4') => match wire::parse_packet(&t[1..]) {
                    Ok((p, None)) => packet(c, p, &[]),
                    Ok((p, Some(0))) => packet(c, p, &[]),
                    Ok((p, Some(n))) => cw(c).srv.partial = Some((p, n, Vec::new())),
                    Err(e) => record_recv(c, RI::Bad(format!("malformed packet ({}): {:?}", e, t.chars().take(200).collect::<String>()))),
                },
                _ => record_recv(c, RI::Bad(format!("unexpected engine.io message {:?}", t.chars().take(100).collect::<String>()))),
            }
        }
        WsMsg::Binary(b) => match &mut cw(c).srv.partial {
            None => record_recv(c, RI::Bad(format!("binary message of {} bytes outside of a packet", b.len()))),
            Some((_, n, atts)) => {
                if b.first() != Some(&4) {
                    record_recv(c, RI::Bad("attachment without engine.io header".into()));
                    return;
                }
                atts.push(b[1..].to_vec());
                if atts.len() == *n {
                    let (p, _, atts) = cw(c).srv.partial.take().unwrap();
                    packet(c, p, &atts);
                }
            }
        },
        WsMsg::Ping(p) => {
            record_recv(c, RI::WsPing);
            send_plain(c, &frame(true, 10, &p));
        }
        WsMsg::Pong(p) => record_recv(c, RI::WsPong(p)),
        WsMsg::Close(p) => {
            cw(c).srv.got_close = true;
            if cw(c).srv.partial.is_some() {
                record_recv(c, RI::Bad("close frame in the middle of a binary packet".into()));
            }
            record_recv(c, RI::Close(p));
            if cw(c).srv.sent_close {
                send_eof(c);
            } else {
                client_closes(c);
            }
        }
        WsMsg::Bad(e) => record_recv(c, RI::Bad(e)),
    }
}

fn packet(c: usize, mut p: Packet, atts: &[Vec<u8>]) {
    let n_atts = atts.len();
    match Val::resolve(std::mem::take(&mut p.args), atts) {
        Some(a) => p.args = a.iter().map(Val::canon).collect(),
        None => {
            record_recv(c, RI::Bad(format!("placeholders do not match the {} attachments", n_atts)));
            return;
        }
    }
    cw(c).srv.recv_pkts += 1;
    let (kind, ns, id) = (p.kind, p.ns.clone(), p.id);
    record_recv(c, RI::Pkt(p));
    if let (PK::Event, Some(id)) = (kind, id) {
        let acks = &plan(c).acks;
        if acks.is_empty() {
            return;
        }
        let k = cw(c).srv.ack_count;
        cw(c).srv.ack_count += 1;
        react(c, &acks[k % acks.len()], ns, id);
    }
}

fn send_ack(c: usize, ns: &str, id: u64, args: &[SArg], style: wire::Style, mid: &[Mid], bad: bool) {
    if cw(c).srv.sent_close || cw(c).srv.hung || cw(c).srv.phase == Phase::Dead {
        return;
    }
    let p = Packet { kind: PK::Ack, ns: ns.to_string(), id: Some(id), args: args.iter().map(|a| a.v.clone()).collect() };
    send_packet(c, &p, style, 1, false, mid);
    record_sent(c, SK::Ack { ns: ns.to_string(), id, args: args.to_vec(), bad });
}

fn react(c: usize, a: &'static AckPlan, ns: String, id: u64) {
    let st = wire::Style::default();
    match a {
        AckPlan::No => {}
        AckPlan::Yes { delay_us, args, style, mid } => {
            cw(c).srv.pending_replies += 1;
            simrt::after(delay_us * US, move || {
                cw(c).srv.pending_replies -= 1;
                if *delay_us > 0 {
                    probe("delayed-ack");
                }
                send_ack(c, &ns, id, args, *style, mid, false);
            });
        }
        AckPlan::WrongNs { right } => {
            fault("ack-wrong-namespace");
            let other = if ns == "/" { "/other" } else { "/" };
            send_ack(c, other, id, &[], st, &[], true);
            if *right {
                send_ack(c, &ns, id, &[], st, &[], false);
            }
        }
        AckPlan::WrongId { right } => {
            fault("ack-wrong-id");
            send_ack(c, &ns, id + 1_000_000, &[], st, &[], true);
            if *right {
                send_ack(c, &ns, id, &[], st, &[], false);
            }
        }
        AckPlan::Twice { gap_us, args, second } => {
            fault("ack-duplicated");
            send_ack(c, &ns, id, args, st, &[], false);
            cw(c).srv.pending_replies += 1;
            simrt::after(gap_us * US, move || {
                cw(c).srv.pending_replies -= 1;
                send_ack(c, &ns, id, second, st, &[], true);
            });
        }
    }
}

fn client_closes(c: usize) {
    match &plan(c).on_close {
        OnClose::Reply { delay_us, code, more } => {
            cw(c).srv.more = more.iter().cloned().collect();
            cw(c).srv.script_on = true;
            cw(c).srv.pending_replies += 1;
            simrt::after(delay_us * US, move || {
                cw(c).srv.pending_replies -= 1;
                if cw(c).srv.phase == Phase::Dead {
                    return;
                }
                while let Some(op) = cw(c).srv.more.pop_front() {
                    run_send(c, &op);
                }
                close_frame(c, *code);
                send_eof(c);
            });
        }
        OnClose::Ignore => fault("close-ignored"),
        OnClose::Eof => {
            fault("close-answered-by-eof");
            send_eof(c);
        }
        OnClose::Reset => {
            fault("close-answered-by-reset");
            let at = simrt::now() + plan(c).net.lat_us * US;
            simrt::at(at, move || {
                let seq = simrt::next_seq();
                cw(c).hard.push((seq, simrt::now(), "reset".into()));
                do_reset(c)
            });
        }
    }
}

fn close_frame(c: usize, code: u16) {
    if cw(c).srv.sent_close {
        return;
    }
    let mut p = code.to_be_bytes().to_vec();
    if code == 0 {
        p.clear();
    } else if code % 2 == 1 {
        p.extend_from_slice("bye é".as_bytes());
    }
    if code == 1001 {
        // It says so on the engine.io level as well.
        send_plain(c, &frame(true, 1, b"1"));
        record_sent(c, SK::Noise);
    }
    send_plain(c, &frame(true, 8, &p));
    record_sent(c, SK::Close);
    cw(c).srv.sent_close = true;
}

fn send_msg(c: usize, op: u8, data: &[u8], frames: u8, ctl: bool) {
    let n = (frames.max(1) as usize).min(data.len().max(1));
    let mut v = Vec::new();
    for k in 0..n {
        let a = data.len() * k / n;
        let b = data.len() * (k + 1) / n;
        v.extend(frame(k + 1 == n, if k == 0 { op } else { 0 }, &data[a..b]));
        if ctl && k + 1 < n {
            let s = &mut cw(c).srv;
            s.ws_count += 1;
            let pl = format!("f{}", s.ws_count).into_bytes();
            v.extend(frame(true, 9, &pl));
            send_plain(c, &v);
            v.clear();
            record_sent(c, SK::WsPing(pl));
        }
    }
    send_plain(c, &v);
}

fn send_packet(c: usize, p: &Packet, style: wire::Style, frames: u8, ctl: bool, mid: &[Mid]) {
    let (text, atts) = wire::encode(p, style);
    send_msg(c, 1, text.as_bytes(), frames, ctl);
    for (k, a) in atts.iter().enumerate() {
        // All of them, shared out among the gaps.
        for m in mid.iter().skip(k).step_by(atts.len()) {
            match m {
                Mid::EPing => {
                    send_plain(c, &frame(true, 1, b"2"));
                    record_sent(c, SK::EPing);
                    probe("ping-inside-binary-packet");
                }
                Mid::EPong => send_plain(c, &frame(true, 1, b"3")),
                Mid::WsPing => {
                    let n = [2, 0, 30, 99][cw(c).srv.ws_count as usize % 4];
                    ws_ping(c, n)
                }
                Mid::Delay(us) => {
                    // The rest of the packet is held up on its way.
                    let i = &mut cw(c).i;
                    i.last_at = i.last_at.max(simrt::now()) + us * US;
                    probe("pause-inside-binary-packet");
                }
            }
        }
        send_msg(c, 2, a, frames, ctl);
    }
}

fn ws_ping(c: usize, n: u8) {
    let s = &mut cw(c).srv;
    s.ws_count += 1;
    let mut pl = format!("p{}", s.ws_count).into_bytes();
    pl.resize(pl.len() + n as usize % 100, b'.');
    send_plain(c, &frame(true, 9, &pl));
    record_sent(c, SK::WsPing(pl));
}

/// A step of the script that only sends.
fn run_send(c: usize, op: &SrvOp) {
    if cw(c).srv.hung && matches!(op, SrvOp::Send { .. } | SrvOp::Partial { .. } | SrvOp::Hostile { .. }) {
        return;
    }
    match op {
        SrvOp::Partial { ns, ev, atts, sent } => {
            let mut args = vec![Val::s(ev)];
            args.extend((0..*atts).map(|i| Val::Bytes(vec![i; i as usize])));
            let p = Packet { kind: PK::Event, ns: ns.clone(), id: None, args };
            let (text, atts) = wire::encode(&p, wire::Style::default());
            send_msg(c, 1, text.as_bytes(), 1, false);
            for a in &atts[..*sent as usize] {
                send_msg(c, 2, a, 1, false);
            }
            record_sent(c, SK::Noise);
            cw(c).srv.hung = true;
            probe("packet-never-completed");
        }
        SrvOp::Send { pkt, style, frames, ctl, mid } => {
            let p = Packet { kind: pkt.kind, ns: pkt.ns.clone(), id: pkt.id, args: pkt.args.iter().map(|a| a.v.clone()).collect() };
            send_packet(c, &p, *style, *frames, *ctl, mid);
            let kind = match pkt.kind {
                PK::Event => SK::Event { ns: pkt.ns.clone(), args: pkt.args.clone(), id: pkt.id },
                _ => SK::Noise,
            };
            record_sent(c, kind);
        }
        SrvOp::EPing => {
            send_plain(c, &frame(true, 1, b"2"));
            record_sent(c, SK::EPing);
        }
        SrvOp::EPingData => {
            send_plain(c, &frame(true, 1, b"2probe"));
            record_sent(c, SK::EPing);
        }
        SrvOp::EPong => {
            send_plain(c, &frame(true, 1, b"3"));
            record_sent(c, SK::Noise);
        }
        SrvOp::WsPing(n) => ws_ping(c, *n),
        SrvOp::WsPong => {
            send_plain(c, &frame(true, 10, b"unasked"));
            record_sent(c, SK::Noise);
        }
        SrvOp::Hostile { what, effect } => {
            fault("hostile-input");
            match what {
                Hostile::Text(t) => send_plain(c, &frame(true, 1, t.as_bytes())),
                Hostile::Binary(b) => send_plain(c, &frame(true, 2, b)),
                Hostile::Multi(t, parts) => {
                    let mut v = frame(true, 1, t.as_bytes());
                    cw(c).srv.pieces += parts.len() as u64;
                    for p in parts {
                        match p {
                            Ok(b) => v.extend(frame(true, 2, b)),
                            Err(t) => v.extend(frame(true, 1, t.as_bytes())),
                        }
                    }
                    send_plain(c, &v);
                }
                Hostile::Raw(b) => send_plain(c, b),
                Hostile::Frame { fin, op, payload } => send_plain(c, &frame(*fin, *op, payload)),
            }
            record_sent(c, SK::Hostile(effect.clone()));
        }
        _ => {}
    }
}

pub fn flood_args(ev: &str, k: u32) -> Vec<SArg> {
    vec![SArg { v: Val::s(ev), t: None }, SArg { v: Val::U(k as u64), t: Some(As::I64) }]
}

/// Let the script go on as far as it can.
pub fn poke(c: usize) {
    loop {
        let s = &cw(c).srv;
        if s.phase != Phase::Up || !s.script_on || s.sent_close || s.busy_until > simrt::now() || s.got_close && !s.more.is_empty() {
            return;
        }
        let script = &plan(c).server;
        let Some(op) = script.get(s.pos) else { return };
        match op {
            SrvOp::Delay(us) => {
                cw(c).srv.pos += 1;
                cw(c).progress += 1;
                later(c, us * US);
                return;
            }
            SrvOp::WaitGate(g) => {
                if !cw(c).gates[*g as usize] {
                    return;
                }
            }
            SrvOp::WaitRecv(n, ms) => {
                if cw(c).srv.recv_pkts < *n {
                    let now = simrt::now();
                    let s = &mut cw(c).srv;
                    match s.wait_from {
                        None => {
                            s.wait_from = Some(now);
                            simrt::after(ms * MS, move || poke(c));
                            return;
                        }
                        Some(t) if now < t + ms * MS => return,
                        Some(_) => {}
                    }
                }
                cw(c).srv.wait_from = None;
            }
            SrvOp::PauseRead(us) => {
                fault("server-pauses-reading");
                let until = simrt::now() + us * US;
                cw(c).o.paused_until = until;
                simrt::at(until, move || drain(c));
            }
            SrvOp::Flood { ns, ev, n, pause_us } => {
                let k = cw(c).srv.flood_sent;
                if k < *n && !cw(c).srv.hung {
                    let args = flood_args(ev, k);
                    let p = Packet { kind: PK::Event, ns: ns.clone(), id: None, args: args.iter().map(|a| a.v.clone()).collect() };
                    send_packet(c, &p, wire::Style::default(), 1, false, &[]);
                    record_sent(c, SK::Event { ns: ns.clone(), args, id: None });
                    cw(c).srv.flood_sent += 1;
                    if *pause_us > 0 {
                        later(c, pause_us * US);
                        return;
                    }
                    continue;
                }
                cw(c).srv.flood_sent = 0;
            }
            SrvOp::Close(code) => {
                fault("server-closes");
                close_frame(c, *code);
            }
            SrvOp::Eof => {
                fault("server-eof");
                send_eof(c);
            }
            SrvOp::Reset => {
                fault("server-reset");
                let at = cw(c).i.last_at.max(simrt::now() + plan(c).net.lat_us * US);
                simrt::at(at, move || {
                    let seq = simrt::next_seq();
                    cw(c).hard.push((seq, simrt::now(), "reset".into()));
                    do_reset(c);
                });
            }
            op => run_send(c, op),
        }
        cw(c).srv.pos += 1;
        cw(c).progress += 1;
    }
}

fn later(c: usize, ns: u64) {
    let t = simrt::now() + ns;
    cw(c).srv.busy_until = t;
    simrt::at(t, move || poke(c));
}

/// Nothing is on its way and the server has nothing left to do by itself.
pub fn quiet(c: usize) -> bool {
    let x = cw(c);
    let s = &x.srv;
    let script_idle = s.phase != Phase::Up
        || !s.script_on
        || s.sent_close
        || s.got_close
        || match plan(c).server.get(s.pos) {
            None => true,
            Some(SrvOp::WaitGate(g)) => !x.gates[*g as usize],
            _ => false,
        };
    let busy = s.phase == Phase::Up && s.busy_until > simrt::now();
    let in_callback = x.calls.iter().rev().take(4).any(|k| k.ret.is_none() && !k.panicked);
    script_idle && !busy && !in_callback && (x.i.flying.is_empty() || x.i.stalled) && (x.o.inflight == 0 || x.o.stalled) && s.pending_replies == 0
}

// ---- executor --------------------------------------------------------------------------------------------

pub struct SimSpawner(pub usize);

impl Spawn for SimSpawner {
    fn spawn_obj(&self, fut: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        let _c = simrt::closed();
        simrt::point("spawn");
        if plan(self.0).spawn_fails {
            fault("spawn-fails");
            return Err(SpawnError::shutdown());
        }
        let seq = simrt::next_seq();
        let x = w();
        let id = x.tasks.len();
        x.tasks.push(Task { fut: Some(fut), state: TState::Queued, client: self.0, spawned: seq, ended: None, polls: 0 });
        x.queue.push_back(id);
        simrt::trace(|| format!("c{} task spawned", self.0));
        simrt::notify();
        simrt::point("spawned");
        Ok(())
    }
}

struct TaskWaker(usize);

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let _c = simrt::closed();
        if !have_world() {
            return;
        }
        let x = w();
        let t = &mut x.tasks[self.0];
        match t.state {
            TState::Idle => {
                t.state = TState::Queued;
                x.queue.push_back(self.0);
                simrt::notify();
            }
            TState::Running => t.state = TState::Woken,
            _ => {}
        }
        simrt::point("wake");
    }
}

pub fn executor() {
    loop {
        simrt::wait("executor", None, || !w().queue.is_empty() || w().finished);
        if w().finished {
            return;
        }
        let n = w().queue.len();
        if n == 0 {
            continue;
        }
        let k = simrt::choose(n, Kind::Sched);
        let Some(id) = w().queue.remove(k) else { continue };
        let t = &mut w().tasks[id];
        t.state = TState::Running;
        t.polls += 1;
        let mut fut = t.fut.take().unwrap();
        let waker = Waker::from(Arc::new(TaskWaker(id)));
        let mut cx = Context::from_waker(&waker);
        simrt::point("poll");
        let t0 = simrt::now();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _o = simrt::open();
            Pin::new(&mut fut).poll(&mut cx)
        }));
        let t1 = simrt::now();
        if t1 > t0 + 50 * MS {
            let x = w();
            x.long_polls.push((x.tasks[id].client, t0, t1));
        }
        let done = !matches!(r, Ok(Poll::Pending));
        if done {
            {
                let _o = simrt::open();
                drop(fut);
            }
            let seq = simrt::next_seq();
            let t = &mut w().tasks[id];
            t.state = TState::Done;
            t.ended = Some((seq, simrt::now()));
            let c = t.client;
            cw(c).progress += 1;
            simrt::trace(|| format!("c{} task ended", c));
            simrt::notify();
            continue;
        }
        let x = w();
        x.tasks[id].fut = Some(fut);
        let again = x.tasks[id].state == TState::Woken;
        let again = again || {
            let s = simrt::chance(w().plan.spurious, Kind::Fault);
            if s {
                fault("spurious-poll");
            }
            s
        };
        let x = w();
        if again || x.tasks[id].state == TState::Woken {
            x.tasks[id].state = TState::Queued;
            x.queue.push_back(id);
            simrt::notify();
        } else {
            x.tasks[id].state = TState::Idle;
        }
    }
}

use std::future::Future;
