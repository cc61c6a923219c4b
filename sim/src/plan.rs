//! A plan is everything about a run that is not a scheduling choice: the clients, what their users
//! do, what their servers do, and which faults the network has in store.

use serde::{Deserialize, Serialize};

use crate::val::{As, Ser, Val};
use crate::wire::{Style, PK};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    /// 0: logging off, 1: info, 2: trace.
    pub log: u8,
    pub execs: u8,
    /// Per-mille chance that an executor polls a task nobody woke.
    pub spurious: u32,
    pub policy: Policy,
    /// How far ahead of time a network event may happen while threads are still runnable.
    pub window_us: u64,
    pub stall_pm: u32,
    pub stall_max_us: u64,
    pub stall_budget: u32,
    /// When (in us) and by how much (in s) the wall clock is set.
    #[serde(default)]
    pub jumps: Vec<(u64, i64)>,
    /// About every how many heap operations the client's code may be preempted; 0 for never.
    #[serde(default)]
    pub heap_every: u32,
    pub clients: Vec<ClientPlan>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Policy {
    Random(u32),
    Pct(u32, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClientPlan {
    /// It is created that much later than the others.
    #[serde(default)]
    pub start_us: u64,
    pub url: String,
    pub factory: Factory,
    pub spawn_fails: bool,
    pub abandon: Option<Abandon>,
    pub net: Net,
    pub tls: Option<Tls>,
    pub hs: Handshake,
    pub server: Vec<SrvOp>,
    /// Reactions to the emissions that ask for an ack, in the order received, repeated.
    pub acks: Vec<AckPlan>,
    pub on_close: OnClose,
    pub owner: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Factory {
    FromStream,
    Dial { delay_us: u64 },
    Fails { delay_us: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Abandon {
    Polls(u32),
    At(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Net {
    pub lat_us: u64,
    pub jitter_us: u64,
    /// Largest piece in which bytes arrive at the client; 0: as written.
    pub chunk: u32,
    pub gap_us: u64,
    pub read_max: u32,
    pub write_max: u32,
    /// Bytes the transport takes before it pushes back; 0: no limit.
    pub cap: u32,
    /// Per-mille chance of a Pending that is immediately woken.
    pub spurious: u32,
    /// poll_flush waits for the peer to have taken everything.
    pub flush_waits: bool,
    /// What has reached the client's side by the time it is looked at is there as a whole.
    #[serde(default)]
    pub batch: bool,
    pub faults: Vec<NetFault>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NetFault {
    pub trig: Trig,
    pub kind: NetKind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Trig {
    /// Simulated time since the transport exists.
    At(u64),
    /// Once the client has written that many bytes.
    Written(u64),
    /// Once that many bytes have reached the client.
    Delivered(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum NetKind {
    /// Orderly end of stream after the bytes on the way.
    Eof,
    /// The connection is reset: reads fail at once, writes fail.
    Reset,
    /// Reads fail after what is buffered has been read.
    ReadErr,
    WriteErr,
    WriteZero,
    FlushErr,
    /// Nothing more arrives at the client.
    StallIn,
    /// The transport takes nothing more from the client.
    StallOut,
    /// The next delivered byte is changed.
    Corrupt(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Tls {
    pub cert: Cert,
    /// What the peer speaks instead of TLS.
    pub peer: TlsPeer,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cert {
    Good,
    WrongHost,
    Expired,
    Future,
    Untrusted,
    ClientOnly,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TlsPeer {
    Tls,
    /// A plain HTTP/WebSocket server that answers whatever it is sent.
    Plain,
    Garbage(Vec<u8>),
    Silent,
    Eof,
    /// Only that many bytes of the handshake, then nothing.
    Cut(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Handshake {
    pub resp: Resp,
    pub resp_delay_us: u64,
    pub open: Open,
    pub open_delay_us: u64,
    /// Open travels together with the response.
    pub coalesce: bool,
    /// WebSocket pings between the response and Open.
    #[serde(default)]
    pub pings: u32,
    #[serde(default)]
    pub ping_gap_us: u64,
    /// All servers give their clients the same session id.
    #[serde(default)]
    pub same_sid: bool,
    /// Only so many bytes of response and Open are sent, then this happens.
    pub cut: Option<(u64, Cut)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cut {
    Stall,
    Eof,
    Reset,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Resp {
    Ok,
    OkOddHeaders,
    Status(u16),
    WrongAccept,
    NoUpgrade,
    Garbage(Vec<u8>),
    Silent,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Open {
    Normal,
    Extra,
    Fragmented,
    AfterWsPing,
    Missing,
    BadJson(String),
    Text(String),
    Binary(Vec<u8>),
    Close,
    Eof,
    Reset,
}

impl Tls {
    /// The client has every reason to go on.
    pub fn trusted(&self, url: &str) -> bool {
        let host = crate::oracle::split_url(url).0;
        let named = host == "sim.example" || host.strip_suffix(".wild.example").is_some_and(|l| !l.is_empty() && !l.contains('.'));
        named && self.cert == Cert::Good && self.peer == TlsPeer::Tls
    }
}

impl Handshake {
    pub fn conforming(&self) -> bool {
        matches!(self.resp, Resp::Ok | Resp::OkOddHeaders)
            && matches!(self.open, Open::Normal | Open::Extra | Open::Fragmented | Open::AfterWsPing)
            && self.cut.is_none()
    }
    /// Nothing in it may be taken for an Open message.
    pub fn hopeless(&self) -> bool {
        !matches!(self.resp, Resp::Ok | Resp::OkOddHeaders) || !matches!(self.open, Open::Normal | Open::Extra | Open::Fragmented | Open::AfterWsPing)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SPkt {
    pub kind: PK,
    pub ns: String,
    pub id: Option<u64>,
    /// For events the first is the name.
    pub args: Vec<SArg>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SArg {
    pub v: Val,
    /// The type the user reads it as, besides as JSON.
    pub t: Option<As>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mid {
    EPing,
    EPong,
    WsPing,
    Delay(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SrvOp {
    Send {
        pkt: SPkt,
        style: Style,
        /// Number of WebSocket frames per message.
        frames: u8,
        /// A control frame between the frames of a message.
        ctl: bool,
        /// What comes between the header and each attachment.
        mid: Vec<Mid>,
    },
    /// A packet with `atts` attachments of which only `sent` ever come. After it the server only
    /// sends heartbeats.
    Partial { ns: String, ev: String, atts: u8, sent: u8 },
    EPing,
    /// A ping that carries something; the pong may repeat it.
    EPingData,
    EPong,
    WsPing(u8),
    WsPong,
    /// `n` small events on one name, in one go; `pause_us` between them.
    Flood { ns: String, ev: String, n: u32, pause_us: u64 },
    /// Bytes put on the wire as they are. What they can cause is told by `effect`.
    Hostile { what: Hostile, effect: Effect },
    Delay(u64),
    WaitGate(u8),
    WaitRecv(u32, u64),
    /// Read nothing from the client for a while.
    PauseRead(u64),
    Close(u16),
    Eof,
    Reset,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Hostile {
    Text(String),
    Binary(Vec<u8>),
    /// A header and attachments, each `Ok(bytes)` binary or `Err(text)` text.
    Multi(String, Vec<Result<Vec<u8>, String>>),
    Raw(Vec<u8>),
    Frame { fin: bool, op: u8, payload: Vec<u8> },
}

/// What a hostile message may lead to.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Effect {
    /// No callback; what comes later may be delivered or not.
    Nothing,
    /// It is an event by that name whose arguments cannot all be read: the callback may run,
    /// seeing these arguments where they are given and an error elsewhere.
    MaybeEvent { ns: String, ev: String, id: Option<u64>, args: Vec<Option<Val>> },
    /// It takes the place of something legal that must not be given to anybody afterwards.
    Anything,
    /// A repeated or unknown ack.
    BadAck,
    /// Legal and without effect: everything after it must be delivered.
    Harmless,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum AckPlan {
    No,
    Yes { delay_us: u64, args: Vec<SArg>, style: Style, mid: Vec<Mid> },
    /// Acknowledged in another namespace first; `right` also properly.
    WrongNs { right: bool },
    WrongId { right: bool },
    Twice { gap_us: u64, args: Vec<SArg>, second: Vec<SArg> },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OnClose {
    /// Send `more` first, then the close frame and end of stream.
    Reply { delay_us: u64, code: u16, more: Vec<SrvOp> },
    Ignore,
    Eof,
    Reset,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cb {
    pub acts: Vec<Act>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Reply(Reply),
    /// Keep the responder for another thread.
    Stash,
    Op(Op),
    /// Panic in the n-th call (from 1).
    Panic(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Emit {
    pub ns: String,
    pub ev: String,
    pub binary: bool,
    pub args: Vec<Ser>,
    pub by_ref: bool,
    /// 0: send; 1: drop the event builder; 2: drop the argument builder.
    pub abandon: u8,
    pub ack: Option<Cb>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Reply {
    pub binary: bool,
    pub args: Vec<Ser>,
    pub by_ref: bool,
    pub abandon: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Set { ns: String, ev: String, cb: Cb },
    /// The same callback for several events (no name: as fallback).
    SetMany { names: Vec<(String, Option<String>)>, cb: Cb },
    Clear { ns: String, ev: String },
    SetFb { ns: String, cb: Cb },
    ClearFb { ns: String },
    Emit(Emit),
    /// Emit n times (distinct numbers as argument).
    Burst { emit: Emit, n: u32, raw: bool },
    /// Through a clone of the public sender.
    Raw(Emit),
    /// With the oldest kept responder, waiting for one at most so long.
    Reply(Reply, u64),
    Sleep(u64),
    Gate(u8),
    WaitGate(u8),
    /// Until so many callbacks ran, at most so long.
    WaitCalls(u32, u64),
    WaitRecv(u32, u64),
    /// Until nothing moves any more; what must have happened by then is checked.
    Settle,
    Close,
    CloseAbandon(u64),
    Drop,
}

impl Plan {
    pub fn all_ops(&self) -> Vec<(usize, &Op)> {
        fn walk<'a>(c: usize, o: &'a Op, out: &mut Vec<(usize, &'a Op)>) {
            out.push((c, o));
            let cb = |cb: &'a Cb, out: &mut Vec<(usize, &'a Op)>| {
                for a in &cb.acts {
                    if let Act::Op(o) = a {
                        walk(c, o, out);
                    }
                }
            };
            match o {
                Op::Set { cb: x, .. } | Op::SetFb { cb: x, .. } | Op::SetMany { cb: x, .. } => cb(x, out),
                Op::Emit(Emit { ack: Some(x), .. }) | Op::Raw(Emit { ack: Some(x), .. }) => cb(x, out),
                Op::Burst { emit: Emit { ack: Some(x), .. }, .. } => cb(x, out),
                _ => {}
            }
        }
        let mut out = Vec::new();
        for (i, c) in self.clients.iter().enumerate() {
            for o in c.owner.iter().chain(c.threads.iter().flatten()) {
                walk(i, o, &mut out);
            }
        }
        out
    }
}
