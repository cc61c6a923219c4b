//! The server's own view of the protocols, written independently of the code under test:
//! HTTP upgrade, WebSocket frames, engine.io and socket.io packets.

use serde_json::Value;
use sha1::{Digest, Sha1};

use crate::val::Val;

pub fn base64(data: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(T[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

pub fn accept_key(key: &str) -> String {
    let mut h = Sha1::new();
    h.update(key.as_bytes());
    h.update(b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11");
    base64(&h.finalize())
}

#[derive(Clone, Debug)]
pub struct Request {
    pub line: String,
    pub headers: Vec<(String, String)>,
}

impl Request {
    pub fn parse(head: &str) -> Option<Request> {
        let mut lines = head.split("\r\n");
        let line = lines.next()?.to_string();
        let mut headers = Vec::new();
        for l in lines {
            if l.is_empty() {
                break;
            }
            let (k, v) = l.split_once(':')?;
            headers.push((k.trim().to_ascii_lowercase(), v.trim().to_string()));
        }
        Some(Request { line, headers })
    }

    pub fn header(&self, k: &str) -> Option<&str> {
        self.headers.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
}

// ---- websocket frames ------------------------------------------------------------------------------

pub fn frame(fin: bool, opcode: u8, payload: &[u8]) -> Vec<u8> {
    let mut v = vec![(fin as u8) << 7 | opcode];
    let n = payload.len();
    if n < 126 {
        v.push(n as u8);
    } else if n < 65536 {
        v.push(126);
        v.extend_from_slice(&(n as u16).to_be_bytes());
    } else {
        v.push(127);
        v.extend_from_slice(&(n as u64).to_be_bytes());
    }
    v.extend_from_slice(payload);
    v
}

#[derive(Clone, Debug, PartialEq)]
pub enum WsMsg {
    Text(String),
    Binary(Vec<u8>),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Close(Vec<u8>),
    /// Not a legal client frame.
    Bad(String),
}

/// Parses what a WebSocket client sends.
#[derive(Default)]
pub struct WsParser {
    buf: Vec<u8>,
    partial: Option<(u8, Vec<u8>)>,
    bad: bool,
}

impl WsParser {
    pub fn push(&mut self, data: &[u8]) -> Vec<WsMsg> {
        self.buf.extend_from_slice(data);
        let mut out = Vec::new();
        while !self.bad {
            match self.one() {
                Ok(None) => break,
                Ok(Some(Some(m))) => out.push(m),
                Ok(Some(None)) => {}
                Err(e) => {
                    self.bad = true;
                    out.push(WsMsg::Bad(e));
                }
            }
        }
        out
    }

    pub fn leftover(&self) -> usize {
        self.buf.len() + self.partial.as_ref().map_or(0, |p| p.1.len() + 1)
    }

    fn one(&mut self) -> Result<Option<Option<WsMsg>>, String> {
        let b = &self.buf;
        if b.len() < 2 {
            return Ok(None);
        }
        let fin = b[0] & 0x80 != 0;
        let op = b[0] & 0x0f;
        if b[0] & 0x70 != 0 {
            return Err(format!("reserved bits set: {:#x}", b[0]));
        }
        if b[1] & 0x80 == 0 {
            return Err("unmasked client frame".into());
        }
        let (len, mut at) = match b[1] & 0x7f {
            126 => {
                if b.len() < 4 {
                    return Ok(None);
                }
                (u16::from_be_bytes([b[2], b[3]]) as usize, 4)
            }
            127 => {
                if b.len() < 10 {
                    return Ok(None);
                }
                let mut x = [0; 8];
                x.copy_from_slice(&b[2..10]);
                (u64::from_be_bytes(x) as usize, 10)
            }
            n => (n as usize, 2),
        };
        if len > 1 << 30 {
            return Err(format!("frame of {} bytes", len));
        }
        if b.len() < at + 4 + len {
            return Ok(None);
        }
        let mask = [b[at], b[at + 1], b[at + 2], b[at + 3]];
        at += 4;
        let payload: Vec<u8> = b[at..at + len].iter().enumerate().map(|(i, x)| x ^ mask[i & 3]).collect();
        self.buf.drain(..at + len);
        if op >= 8 {
            if !fin || len > 125 {
                return Err("illegal control frame".into());
            }
            return Ok(Some(Some(match op {
                8 => WsMsg::Close(payload),
                9 => WsMsg::Ping(payload),
                10 => WsMsg::Pong(payload),
                _ => return Err(format!("opcode {}", op)),
            })));
        }
        let (op, data) = match (op, self.partial.take()) {
            (0, Some((op, mut d))) => {
                d.extend(payload);
                (op, d)
            }
            (1, None) | (2, None) => (op, payload),
            (op, p) => return Err(format!("opcode {} with {} open message", op, if p.is_some() { "an" } else { "no" })),
        };
        if !fin {
            self.partial = Some((op, data));
            return Ok(Some(None));
        }
        Ok(Some(Some(if op == 1 {
            match String::from_utf8(data) {
                Ok(s) => WsMsg::Text(s),
                Err(_) => return Err("text message is not UTF-8".into()),
            }
        } else {
            WsMsg::Binary(data)
        })))
    }
}

// ---- socket.io -------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum PK {
    Connect,
    Disconnect,
    Event,
    Ack,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Packet {
    pub kind: PK,
    pub ns: String,
    pub id: Option<u64>,
    pub args: Vec<Val>,
}

impl Packet {
    pub fn show(&self) -> String {
        format!("{:?} ns={:?} id={:?} {}", self.kind, self.ns, self.id, crate::val::show(&self.args))
    }
}

/// How the server writes JSON; everything here is legal and means the same.
#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize, Default)]
pub struct Style {
    /// Blanks between tokens.
    pub space: bool,
    /// Escape everything outside ASCII.
    pub ascii: bool,
    /// Escape more than necessary.
    pub escape: bool,
    /// Line breaks between tokens.
    pub newline: bool,
    /// Use the binary packet type even without attachments.
    pub binary: bool,
    /// Attachments follow in another order than their placeholders.
    #[serde(default)]
    pub shuffle: bool,
}

fn json_str(s: &str, st: Style, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' if !st.escape => out.push_str("\\n"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            '/' if st.escape => out.push_str("\\/"),
            'a' if st.escape => out.push_str("\\u0061"),
            c if (c as u32) > 0x7e && st.ascii => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04X}", u));
                }
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

fn gap(st: Style, out: &mut String) {
    if st.space {
        out.push(' ');
    }
    if st.newline {
        out.push('\n');
    }
}

fn attachments(v: &Val) -> usize {
    match v {
        Val::Bytes(_) => 1,
        Val::Arr(x) => x.iter().map(attachments).sum(),
        Val::Obj(x) => x.iter().map(|(_, v)| attachments(v)).sum(),
        _ => 0,
    }
}

/// `total`: the number of attachments.
pub fn json(v: &Val, st: Style, total: usize, atts: &mut Vec<Vec<u8>>, out: &mut String) {
    match v {
        Val::Null => out.push_str("null"),
        Val::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Val::U(x) => out.push_str(&x.to_string()),
        Val::I(x) => out.push_str(&x.to_string()),
        Val::F(x) => {
            let s = format!("{:?}", x);
            out.push_str(&s);
        }
        Val::Str(s) => json_str(s, st, out),
        Val::Bytes(b) => {
            let num = if st.shuffle { total - 1 - atts.len() } else { atts.len() };
            let num = num.to_string();
            for (i, t) in ["{", "\"_placeholder\"", ":", "true", ",", "\"num\"", ":", &num, "}"].iter().enumerate() {
                if i > 0 {
                    gap(st, out);
                }
                match t.strip_prefix('"') {
                    Some(k) => json_str(&k[..k.len() - 1], st, out),
                    None => out.push_str(t),
                }
            }
            atts.push(b.clone());
        }
        Val::Arr(x) => {
            out.push('[');
            for (i, v) in x.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(st, out);
                json(v, st, total, atts, out);
            }
            gap(st, out);
            out.push(']');
        }
        Val::Obj(x) => {
            out.push('{');
            for (i, (k, v)) in x.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(st, out);
                json_str(k, st, out);
                gap(st, out);
                out.push(':');
                gap(st, out);
                json(v, st, total, atts, out);
            }
            gap(st, out);
            out.push('}');
        }
    }
}

/// The engine.io messages of a packet: one text message and its attachments.
pub fn encode(p: &Packet, st: Style) -> (String, Vec<Vec<u8>>) {
    let mut body = String::new();
    let mut atts = Vec::new();
    if matches!(p.kind, PK::Event | PK::Ack) {
        let v = Val::Arr(p.args.clone());
        json(&v, st, attachments(&v), &mut atts, &mut body);
    }
    if st.shuffle {
        atts.reverse();
    }
    let bin = !atts.is_empty() || (st.binary && matches!(p.kind, PK::Event | PK::Ack));
    let mut s = String::from("4");
    s.push(match (p.kind, bin) {
        (PK::Connect, _) => '0',
        (PK::Disconnect, _) => '1',
        (PK::Event, false) => '2',
        (PK::Ack, false) => '3',
        (PK::Event, true) => '5',
        (PK::Ack, true) => '6',
    });
    if bin {
        s.push_str(&format!("{}-", atts.len()));
    }
    if p.ns != "/" {
        s.push_str(&p.ns);
        s.push(',');
    }
    if let Some(id) = p.id {
        s.push_str(&id.to_string());
    }
    s.push_str(&body);
    let atts = atts
        .into_iter()
        .map(|a| {
            let mut v = vec![4u8];
            v.extend(a);
            v
        })
        .collect();
    (s, atts)
}

/// What a socket.io server makes of the text of a message packet (without the engine.io header).
/// Returns the packet with unresolved placeholders and the number of attachments to follow.
pub fn parse_packet(s: &str) -> Result<(Packet, Option<usize>), String> {
    let mut it = s.char_indices().peekable();
    let (_, t) = it.next().ok_or("empty packet")?;
    let (kind, bin) = match t {
        '0' => (PK::Connect, false),
        '1' => (PK::Disconnect, false),
        '2' => (PK::Event, false),
        '3' => (PK::Ack, false),
        '5' => (PK::Event, true),
        '6' => (PK::Ack, true),
        _ => return Err(format!("packet type {:?}", t)),
    };
    let mut rest = &s[1..];
    let mut atts = None;
    if bin {
        let (n, r) = rest.split_once('-').ok_or("no attachment count")?;
        if n.is_empty() || !n.bytes().all(|b| b.is_ascii_digit()) {
            return Err("bad attachment count".into());
        }
        atts = Some(n.parse::<usize>().map_err(|e| e.to_string())?);
        rest = r;
    }
    let mut ns = "/".to_string();
    if rest.starts_with('/') {
        match rest.split_once(',') {
            Some((n, r)) => {
                ns = n.to_string();
                rest = r;
            }
            None => {
                ns = rest.to_string();
                rest = "";
            }
        }
    }
    let digits = rest.bytes().take_while(|b| b.is_ascii_digit()).count();
    let mut id = None;
    if digits > 0 {
        id = Some(rest[..digits].parse::<u64>().map_err(|e| e.to_string())?);
        rest = &rest[digits..];
    }
    let args = if rest.is_empty() {
        Vec::new()
    } else {
        match serde_json::from_str::<Value>(rest) {
            Ok(Value::Array(a)) => a.iter().map(Val::from_json).collect(),
            Ok(_) => return Err("data is not an array".into()),
            Err(e) => return Err(format!("bad JSON in packet: {} in {:?}", e, rest.chars().take(200).collect::<String>())),
        }
    };
    match kind {
        PK::Event => match args.first() {
            Some(Val::Str(_)) => {}
            _ => return Err("event without a name".into()),
        },
        // The reference server hands the data of an ack to a function: it must be an array.
        PK::Ack if rest.is_empty() => return Err("ack without data".into()),
        PK::Ack if id.is_none() => return Err("ack without id".into()),
        _ => {}
    }
    Ok((Packet { kind, ns, id, args }, atts))
}
