//! Random plans, one family per property. A plan only says what may happen; every family mixes
//! many features ("swarm"), each run leaving most of them out.

use simrt::rng::Rng;

use crate::plan::*;
use crate::val::*;
use crate::wire::{Style, PK};

pub const PROPS: [&str; 18] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
];

pub struct G {
    pub r: Rng,
    uniq: u64,
    next_id: u64,
    /// How the server numbers its requests for acks.
    id_mode: u8,
    /// Names that are nearly the same.
    alike: bool,
}

/// What a conversation is made of.
#[derive(Clone, Debug)]
struct Opts {
    rich: Rich,
    emits: u64,
    threads: u64,
    thread_ops: u64,
    bin_pm: u32,
    ack_pm: u32,
    fail_pm: u32,
    abandon_pm: u32,
    raw_pm: u32,
    burst: u32,
    srv: u64,
    srv_id_pm: u32,
    ping_pm: u32,
    wsping_pm: u32,
    noise_pm: u32,
    /// Registrations while events arrive.
    dynamic_pm: u32,
    /// What callbacks do.
    cb_reply_pm: u32,
    cb_stash_pm: u32,
    cb_op_pm: u32,
    cb_sleep_pm: u32,
    cb_reg_pm: u32,
    odd_acks_pm: u32,
    mid_pm: u32,
    settle_pm: u32,
    close_pm: u32,
    early_events_pm: u32,
}

const NSS: [&str; 8] = ["/", "/", "/nsp", "/a/b", "/é", "/5-x", "/chat room", "/0"];
const EVS: [&str; 12] = ["msg", "ev", "x,y", "é\"q", "", "[1]", "connect", "m/,1[", "a b", "disconnect", "error", "ping"];
const NEAR_NSS: [&str; 9] = ["/", "//", "/nsp", "/NSP", "/nsp/", "/ns", "/nsp2", "/nsp/msg", "/q?a=b"];
const NEAR_EVS: [&str; 8] = ["msg", "Msg", "msg ", " msg", "ms", "msgs", "msg\u{0}", "*"];

impl G {
    pub fn new(seed: u64) -> G {
        let mut g = G { r: Rng::new(seed), uniq: 0, next_id: 0, id_mode: 0, alike: false };
        g.id_mode = g.r.weighted(&[6, 2, 1, 1]) as u8;
        g.alike = g.c(150);
        g
    }

    fn u(&mut self) -> u64 {
        self.uniq += 1;
        self.uniq
    }

    fn c(&mut self, pm: u32) -> bool {
        self.r.chance(pm)
    }

    fn n(&mut self, lo: u64, hi: u64) -> u64 {
        self.r.range(lo, hi.max(lo))
    }

    fn opts(&mut self) -> Opts {
        let odd = self.c(600);
        let big = self.c(60);
        let depth = *self.r.pick(&[0, 1, 1, 2, 3]);
        let rich = Rich { depth, big, bytes: self.c(600), odd };
        Opts {
            rich,
            emits: self.n(0, 5),
            threads: self.n(0, 2),
            thread_ops: 4,
            bin_pm: *self.r.pick(&[0, 300, 900]),
            ack_pm: *self.r.pick(&[0, 300, 800]),
            fail_pm: 0,
            abandon_pm: 30,
            raw_pm: 100,
            burst: 0,
            srv: self.n(0, 6),
            srv_id_pm: *self.r.pick(&[0, 300, 900]),
            ping_pm: 100,
            wsping_pm: 60,
            noise_pm: 60,
            dynamic_pm: 30,
            cb_reply_pm: 500,
            cb_stash_pm: 200,
            cb_op_pm: 100,
            cb_sleep_pm: 60,
            cb_reg_pm: 30,
            odd_acks_pm: 0,
            mid_pm: 200,
            settle_pm: 500,
            close_pm: 400,
            early_events_pm: 100,
        }
    }

    fn net(&mut self) -> Net {
        let lat_us = *self.r.pick(&[0, 0, 10, 500, 5_000, 40_000]);
        Net {
            lat_us,
            jitter_us: if self.c(300) { *self.r.pick(&[10, 1_000, 20_000]) } else { 0 },
            chunk: if self.c(500) { *self.r.pick(&[1, 2, 7, 64, 1000]) } else { 0 },
            gap_us: if self.c(300) { *self.r.pick(&[1, 100, 3_000]) } else { 0 },
            read_max: if self.c(250) { *self.r.pick(&[1, 3, 100]) } else { 0 },
            write_max: if self.c(300) { *self.r.pick(&[1, 5, 30, 200]) } else { 0 },
            cap: if self.c(200) { *self.r.pick(&[1, 20, 300, 5000]) } else { 0 },
            spurious: if self.c(200) { *self.r.pick(&[20, 200]) } else { 0 },
            flush_waits: self.c(250),
            batch: self.c(300),
            faults: Vec::new(),
        }
    }

    /// As the one above but without anything that holds back writes.
    fn open_net(&mut self) -> Net {
        let mut n = self.net();
        n.cap = 0;
        n.flush_waits = false;
        n
    }

    fn handshake(&mut self) -> Handshake {
        Handshake {
            resp: if self.c(150) { Resp::OkOddHeaders } else { Resp::Ok },
            resp_delay_us: *self.r.pick(&[0, 0, 100, 20_000]),
            open: if self.c(700) { Open::Normal } else { self.r.pick(&[Open::Extra, Open::Fragmented, Open::AfterWsPing]).clone() },
            open_delay_us: *self.r.pick(&[0, 0, 100, 20_000]),
            coalesce: self.c(300),
            pings: 0,
            ping_gap_us: 0,
            same_sid: self.c(300),
            cut: None,
        }
    }

    fn plan(&mut self, clients: Vec<ClientPlan>) -> Plan {
        let policy = if self.c(300) {
            Policy::Pct(self.n(1, 6) as u32, *self.r.pick(&[100, 400, 2000]))
        } else {
            Policy::Random(*self.r.pick(&[3, 20, 60, 150, 400]))
        };
        let stalls = self.c(120);
        let mut jumps = Vec::new();
        if self.c(150) {
            for _ in 0..self.n(1, 2) {
                // By less than would matter to a certificate.
                jumps.push((*self.r.pick(&[0, 1, 1_000, 500_000, 5_000_000, 11_000_000, 60_000_000]), *self.r.pick(&[-30_000_000i64, -3_600, -11, -1, 1, 11, 3_600, 30_000_000])));
            }
        }
        let heap_every = if self.c(350) { *self.r.pick(&[2, 5, 20, 80, 300]) } else { 0 };
        // Many yield points let much time pass.
        let windows: &[u64] = if heap_every > 0 { &[0, 0, 100, 2_000] } else { &[0, 0, 100, 2_000, 50_000] };
        Plan {
            jumps,
            heap_every,
            log: self.r.weighted(&[6, 3, 2]) as u8,
            execs: self.n(1, 2) as u8,
            spurious: if self.c(200) { *self.r.pick(&[20, 200]) } else { 0 },
            policy,
            window_us: *self.r.pick(windows),
            stall_pm: if stalls { *self.r.pick(&[5, 30]) } else { 0 },
            stall_max_us: *self.r.pick(&[1_000, 100_000, 800_000]),
            stall_budget: if stalls { self.n(1, 3) as u32 } else { 0 },
            clients,
        }
    }

    /// For plans in which the clock is what matters.
    fn timed(&mut self, clients: Vec<ClientPlan>) -> Plan {
        let mut p = self.plan(clients);
        p.window_us = *self.r.pick(&[0, 0, 100]);
        p.stall_pm = 0;
        p.stall_budget = 0;
        p
    }

    fn client(&mut self) -> ClientPlan {
        let url = self.url();
        ClientPlan {
            start_us: 0,
            url,
            factory: if self.c(300) { Factory::Dial { delay_us: *self.r.pick(&[0, 1_000, 300_000]) } } else { Factory::FromStream },
            spawn_fails: false,
            abandon: None,
            net: self.net(),
            tls: None,
            hs: self.handshake(),
            server: Vec::new(),
            acks: Vec::new(),
            on_close: OnClose::Reply { delay_us: *self.r.pick(&[0, 0, 1_000, 100_000]), code: 1000, more: Vec::new() },
            owner: Vec::new(),
            threads: Vec::new(),
        }
    }

    fn url(&mut self) -> String {
        if self.c(600) {
            return "http://sim.example/".into();
        }
        let scheme = *self.r.pick(&["http", "ws"]);
        let host = *self.r.pick(&["sim.example", "127.0.0.1", "[::1]", "localhost"]);
        let port = *self.r.pick(&["", ":80", ":8080", ":443", ":1"]);
        let port = if port == ":80" { "" } else { port };
        let path = *self.r.pick(&["", "/", "/socket.io/", "/a/b%20c", "/x//y/"]);
        let q = *self.r.pick(&["", "?", "?token=abc", "?a=1&b=%26%3D&a=2", "?sid=x&EIO=4", "?e="]);
        let user = if self.c(60) { *self.r.pick(&["user@", "user:pw@"]) } else { "" };
        let frag = if self.c(100) { *self.r.pick(&["#", "#frag", "#/x?y=z", "#?a=b"]) } else { "" };
        let (scheme, host) = if self.c(60) { (scheme.to_ascii_uppercase(), host.to_ascii_uppercase()) } else { (scheme.to_string(), host.to_string()) };
        format!("{}://{}{}{}{}{}{}", scheme, user, host, port, path, q, frag)
    }

    fn style(&mut self) -> Style {
        if self.c(500) {
            return Style::default();
        }
        Style { space: self.c(400), ascii: self.c(400), escape: self.c(400), newline: self.c(200), binary: self.c(200), shuffle: self.c(200) }
    }

    fn mids(&mut self, pm: u32) -> Vec<Mid> {
        if !self.c(pm) {
            return Vec::new();
        }
        let same = self.c(250);
        let kind = self.r.below(5);
        (0..self.n(1, if same { 5 } else { 3 }))
            .map(|_| match if same { kind } else { self.r.below(5) } {
                0 | 1 => Mid::EPing,
                2 => Mid::WsPing,
                3 => Mid::EPong,
                _ => Mid::Delay(*self.r.pick(&[10, 10, 5_000, 5_000, 2_000_000, 2_000_000, 12_000_000, 70_000_000])),
            })
            .collect()
    }

    fn sarg(&mut self, rich: Rich) -> SArg {
        for _ in 0..20 {
            let (v, t) = if self.c(500) {
                let t = *self.r.pick(&ALL_AS);
                let v = gen_as(&mut self.r, t, rich);
                let ok = expect_as(&v, t).is_some();
                // Bytes read as a plain JSON value may be refused.
                let t = if ok && !(t == As::Value && v.has_bytes()) { Some(t) } else { None };
                (v, t)
            } else {
                (gen_val(&mut self.r, rich), None)
            };
            if val_ok(&v) {
                return SArg { v, t };
            }
        }
        SArg { v: Val::Null, t: None }
    }

    fn sargs(&mut self, rich: Rich, max: u64) -> Vec<SArg> {
        let n = self.n(0, max);
        let mut v: Vec<SArg> = (0..n).map(|_| self.sarg(rich)).collect();
        if rich.bytes && self.c(40) {
            // Many attachments.
            let a = (0..self.n(9, 30)).map(|_| Val::Bytes(gen_bytes(&mut self.r, Rich { big: false, ..rich }))).collect();
            v.push(SArg { v: Val::Arr(a), t: None });
        }
        if rich.bytes && rich.big && self.c(8) {
            // Very many, all different.
            let a = (0..*self.r.pick(&[99u16, 101, 130, 258, 300])).map(|i| Val::Bytes(i.to_le_bytes().to_vec())).collect();
            v.push(SArg { v: Val::Arr(a), t: None });
        }
        if self.c(60) && !v.is_empty() {
            // The same again.
            let a = self.r.pick(&v).clone();
            v.push(a);
        }
        if rich.depth > 2 && self.c(30) {
            let mut a = gen_val(&mut self.r, Rich { depth: 0, big: false, ..rich });
            for _ in 0..*self.r.pick(&[5, 12, 30]) {
                a = if self.c(700) { Val::Arr(vec![a]) } else { Val::Obj(vec![("k".into(), a)]) };
            }
            if val_ok(&a) {
                v.push(SArg { v: a, t: None });
            }
        }
        v
    }

    fn uarg(&mut self) -> SArg {
        SArg { v: Val::U(self.u()), t: Some(As::I64) }
    }

    fn srv_id(&mut self) -> u64 {
        self.next_id += 1;
        let k = self.next_id - 1;
        match self.id_mode {
            0 => k + if self.c(50) { 1 << 40 } else { 0 },
            // Few, over and over again.
            1 => self.r.below(3) as u64,
            2 => *self.r.pick(&[0, 255, 256, 65_535, 65_536, u32::MAX as u64, 1 << 32, i32::MAX as u64, 1 << 31]),
            _ => *self.r.pick(&[(1 << 53) - 1, 1 << 53, (1 << 53) + 1, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX]),
        }
    }

    fn send_event(&mut self, o: &Opts, ns: &str, ev: &str) -> SrvOp {
        let id = if self.c(o.srv_id_pm) { Some(self.srv_id()) } else { None };
        let mut args = vec![SArg { v: Val::s(ev), t: Some(As::Str) }];
        if self.c(850) {
            args.push(self.uarg());
        }
        args.extend(self.sargs(o.rich, 3));
        if self.c(8) {
            for _ in 0..*self.r.pick(&[6, 15, 40, 140, 300]) {
                let a = self.uarg();
                args.push(a);
            }
        }
        SrvOp::Send {
            pkt: SPkt { kind: PK::Event, ns: ns.into(), id, args },
            style: self.style(),
            frames: if self.c(200) { self.n(2, 4) as u8 } else { 1 },
            ctl: self.c(300),
            mid: self.mids(o.mid_pm),
        }
    }

    fn ser_args(&mut self, o: &Opts, max: u64) -> Vec<Ser> {
        let mut v = Vec::new();
        if self.c(900) {
            v.push(Ser::U64(self.u()));
        }
        for _ in 0..self.n(0, max) {
            v.push(if self.c(o.fail_pm) { gen_failing(&mut self.r, o.rich) } else { gen_ser(&mut self.r, o.rich) });
        }
        if o.rich.bytes && self.c(30) {
            let a = (0..self.n(9, 30)).map(|_| Ser::Bytes(gen_bytes(&mut self.r, Rich { big: false, ..o.rich }))).collect();
            v.push(Ser::Tuple(a));
        }
        if o.rich.bytes && o.rich.big && self.c(8) {
            let a = (0..*self.r.pick(&[99u16, 101, 130, 258, 300])).map(|i| Ser::Bytes(i.to_le_bytes().to_vec())).collect();
            v.push(Ser::Tuple(a));
        }
        if o.rich.bytes && o.rich.big && self.c(30) {
            // The same again, at once or later.
            let mut a = vec![*self.r.pick(&[0u8, 4, 255]); *self.r.pick(&[1, 20, 65, 200, 300])];
            a[0] = 1;
            let other = gen_bytes(&mut self.r, Rich { big: false, ..o.rich });
            v.push(Ser::Bytes(a.clone()));
            if self.c(300) {
                v.push(Ser::Bytes(other));
            }
            v.push(if self.c(500) { Ser::Bytes(a) } else { Ser::Tuple(vec![Ser::Bytes(a.clone()), Ser::Bytes(a)]) });
        } else if self.c(50) && !v.is_empty() {
            let a = self.r.pick(&v).clone();
            v.push(a);
        }
        if o.rich.depth > 2 && self.c(30) {
            let mut a = gen_ser(&mut self.r, Rich { depth: 0, big: false, ..o.rich });
            for _ in 0..*self.r.pick(&[5, 12, 30]) {
                a = match self.r.below(4) {
                    0 => Ser::Some(Box::new(Ser::Tuple(vec![a]))),
                    1 => Ser::Map(vec![(Key::S("k".into()), a)], true),
                    2 => Ser::Struct(vec![a]),
                    _ => Ser::Seq(vec![a], true),
                };
            }
            if a.valid() {
                v.push(a);
            }
        }
        if self.c(8) {
            for _ in 0..*self.r.pick(&[6, 15, 40, 140, 300]) {
                v.push(Ser::U64(self.u()));
            }
        }
        if o.fail_pm > 0 && self.c(500) && !v.is_empty() {
            // The failing one may be the first.
            let k = self.r.below(v.len());
            v.swap(0, k);
        }
        v
    }

    fn emit(&mut self, o: &Opts, ns: &str, ev: &str) -> Emit {
        let ack = if self.c(o.ack_pm) { Some(self.cb(o, 1, &[])) } else { None };
        Emit {
            ns: ns.into(),
            ev: ev.into(),
            binary: self.c(o.bin_pm),
            args: self.ser_args(o, 3),
            by_ref: self.c(400),
            abandon: if self.c(o.abandon_pm) { self.n(1, 2) as u8 } else { 0 },
            ack,
        }
    }

    fn reply(&mut self, o: &Opts) -> Reply {
        Reply { binary: self.c(o.bin_pm), args: self.ser_args(o, 2), by_ref: self.c(400), abandon: if self.c(o.abandon_pm) { self.n(1, 2) as u8 } else { 0 } }
    }

    fn cb(&mut self, o: &Opts, level: u32, names: &[(String, String)]) -> Cb {
        let mut acts = Vec::new();
        if self.c(o.cb_sleep_pm) {
            acts.push(Act::Op(Op::Sleep(*self.r.pick(&[0, 10, 1_000, 50_000]))));
        }
        if self.c(o.cb_op_pm) && level > 0 {
            let (ns, ev) = self.name();
            let mut e = self.emit(o, &ns, &ev);
            if level < 2 {
                if let Some(a) = &mut e.ack {
                    a.acts.clear();
                }
            }
            acts.push(Act::Op(Op::Emit(e)));
        }
        if self.c(o.cb_reg_pm) && level > 0 && !names.is_empty() {
            let op = self.reg_op(o, names, 0);
            acts.push(Act::Op(op));
        }
        if self.c(o.cb_reply_pm) {
            let r = self.reply(o);
            acts.push(Act::Reply(r));
        } else if self.c(o.cb_stash_pm) {
            acts.push(Act::Stash);
        }
        if acts.len() > 1 && self.c(300) {
            let k = self.r.below(acts.len());
            acts.swap(0, k);
        }
        Cb { acts }
    }

    fn name(&mut self) -> (String, String) {
        if self.r.below(400) == 0 {
            let n = *self.r.pick(&[30usize, 120, 250, 260]);
            let long = self.r.pick(&["n", "é", " "]).repeat(n);
            return if self.c(500) { (format!("/{}", long), "msg".into()) } else { ("/".into(), long) };
        }
        if self.alike {
            return (self.r.pick(&NEAR_NSS).to_string(), self.r.pick(&NEAR_EVS).to_string());
        }
        (self.r.pick(&NSS).to_string(), self.r.pick(&EVS).to_string())
    }

    fn reg_op(&mut self, o: &Opts, names: &[(String, String)], level: u32) -> Op {
        let (ns, ev) = self.r.pick(names).clone();
        match self.r.weighted(&[10, 6, 4, 2, 1]) {
            4 => {
                let mut many = Vec::new();
                for _ in 0..self.n(2, 3) {
                    let (ns, ev) = self.r.pick(names).clone();
                    many.push((ns, if self.c(700) { Some(ev) } else { None }));
                }
                Op::SetMany { names: many, cb: self.cb(o, level, names) }
            }
            0 => Op::Set { ns, ev, cb: self.cb(o, level, names) },
            1 => Op::Clear { ns, ev },
            2 => Op::SetFb { ns, cb: self.cb(o, level, names) },
            _ => Op::ClearFb { ns },
        }
    }

    fn ack_plans(&mut self, o: &Opts) -> Vec<AckPlan> {
        (0..self.n(1, 3))
            .map(|_| {
                if self.c(o.odd_acks_pm) {
                    return match self.r.below(4) {
                        0 => AckPlan::WrongNs { right: self.c(500) },
                        1 => AckPlan::WrongId { right: self.c(500) },
                        _ => AckPlan::Twice { gap_us: *self.r.pick(&[0, 100, 1_000_000]), args: self.sargs(o.rich, 2), second: vec![self.uarg()] },
                    };
                }
                if self.c(100) {
                    return AckPlan::No;
                }
                let mut args = if self.c(700) { vec![self.uarg()] } else { vec![] };
                args.extend(self.sargs(o.rich, 2));
                AckPlan::Yes { delay_us: if self.c(20) { *self.r.pick(&[12_000_000, 40_000_000, 400_000_000]) } else { *self.r.pick(&[0, 0, 0, 50, 3_000, 700_000]) }, args, style: self.style(), mid: self.mids(o.mid_pm) }
            })
            .collect()
    }

    fn srv_op(&mut self, o: &Opts, names: &[(String, String)]) -> SrvOp {
        if self.c(o.ping_pm) {
            return if self.c(60) { SrvOp::EPingData } else { SrvOp::EPing };
        }
        if self.c(o.wsping_pm) {
            return SrvOp::WsPing(*self.r.pick(&[0, 1, 50]));
        }
        if self.c(o.noise_pm) {
            return match self.r.below(6) {
                0 => SrvOp::EPong,
                1 => SrvOp::WsPong,
                2 | 3 => {
                    let (ns, _) = self.r.pick(names).clone();
                    let kind = if self.c(500) { PK::Connect } else { PK::Disconnect };
                    SrvOp::Send { pkt: SPkt { kind, ns, id: None, args: vec![] }, style: Style::default(), frames: 1, ctl: false, mid: vec![] }
                }
                _ => SrvOp::Delay(*self.r.pick(&[10, 2_000, 200_000])),
            };
        }
        let (ns, ev) = if self.c(900) { self.r.pick(names).clone() } else { self.name() };
        self.send_event(o, &ns, &ev)
    }

    /// A whole conversation on one client.
    fn talk(&mut self, o: &Opts) -> ClientPlan {
        let mut p = self.client();
        let names: Vec<(String, String)> = (0..self.n(1, 3)).map(|_| self.name()).collect();
        for _ in 0..self.n(1, 3) {
            let (ns, ev) = self.r.pick(&names).clone();
            let cb = self.cb(o, 1, &names);
            p.owner.push(Op::Set { ns, ev, cb });
        }
        if self.c(400) {
            let (ns, _) = self.r.pick(&names).clone();
            let cb = self.cb(o, 1, &names);
            p.owner.push(Op::SetFb { ns, cb });
        }
        if !self.c(o.early_events_pm) {
            p.server.push(SrvOp::WaitGate(0));
        }
        p.owner.push(Op::Gate(0));
        for _ in 0..self.n(0, o.srv) {
            let op = self.srv_op(o, &names);
            if matches!(op, SrvOp::Send { .. }) && self.c(60) {
                // The very same once more.
                for _ in 0..self.n(1, 2) {
                    p.server.push(op.clone());
                }
            }
            p.server.push(op);
            if self.c(100) {
                p.server.push(SrvOp::Delay(*self.r.pick(&[10, 1_000, 100_000])));
            }
            if self.c(60) {
                p.server.push(SrvOp::WaitRecv(self.n(1, 3) as u32, 300));
            }
        }
        let threads = self.n(0, o.threads);
        for _ in 0..threads {
            let mut ops = Vec::new();
            for _ in 0..self.n(1, o.thread_ops) {
                let op = self.user_op(o, &names);
                ops.push(op);
            }
            p.threads.push(ops);
        }
        for _ in 0..self.n(0, o.emits) {
            let op = self.user_op(o, &names);
            p.owner.push(op);
        }
        p.acks = self.ack_plans(o);
        if self.c(15) {
            self.partial(&mut p, &names);
        }
        if self.c(25) {
            self.idle(o, &mut p, &names);
        }
        if self.r.below(1500) == 0 {
            self.huge(o, &mut p, &names);
        }
        if self.c(o.settle_pm) {
            p.owner.push(Op::Settle);
        }
        if self.c(o.close_pm) {
            p.owner.push(Op::Close);
            if self.c(200) {
                p.owner.push(Op::Close);
            }
        }
        p
    }

    /// The server never comes to the end of its last packet.
    fn partial(&mut self, p: &mut ClientPlan, names: &[(String, String)]) {
        let (ns, ev) = self.r.pick(names).clone();
        let atts = *self.r.pick(&[1u8, 2, 3, 4, 20]);
        p.server.push(SrvOp::Partial { ns, ev, atts, sent: self.n(0, atts as u64 - 1) as u8 });
        for _ in 0..self.n(0, 4) {
            p.server.push(if self.c(600) { SrvOp::EPing } else { SrvOp::WsPing(1) });
        }
    }

    /// Nothing but heartbeats for a long time, or nothing at all.
    fn idle(&mut self, o: &Opts, p: &mut ClientPlan, names: &[(String, String)]) {
        let mut ops = Vec::new();
        let total;
        if self.c(600) {
            let n = *self.r.pick(&[1, 3, 5, 30]);
            for _ in 0..n {
                ops.push(SrvOp::Delay(25_000_000));
                ops.push(SrvOp::EPing);
            }
            total = n * 25_000_000;
        } else {
            total = *self.r.pick(&[11_000_000, 26_000_000, 61_000_000, 301_000_000, 1_000_000_000]);
            ops.push(SrvOp::Delay(total));
        }
        for _ in 0..self.n(0, 2) {
            let op = self.srv_op(o, names);
            ops.push(op);
        }
        let lo = p.server.iter().position(|x| *x == SrvOp::WaitGate(0)).map_or(0, |x| x + 1);
        let at = lo + self.r.below(p.server.len() - lo + 1);
        p.server.splice(at..at, ops);
        if self.c(700) {
            p.owner.push(Op::Sleep(total + *self.r.pick(&[0, 1_000, 1_000_000])));
            for _ in 0..self.n(0, 3) {
                let op = self.user_op(o, names);
                p.owner.push(op);
            }
        }
    }

    /// One very long message in either direction.
    fn huge(&mut self, o: &Opts, p: &mut ClientPlan, names: &[(String, String)]) {
        let (ns, ev) = self.r.pick(names).clone();
        let n = *self.r.pick(&[70_000usize, 140_000, 300_000, 1_100_000, 2_500_000]);
        let bytes: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
        let text = self.r.pick(&["x", "é", "\""]).repeat(n / 2);
        if self.c(500) {
            let mut e = self.emit(o, &ns, &ev);
            e.args.push(if self.c(500) { Ser::Bytes(bytes) } else { Ser::Str(text) });
            p.owner.push(Op::Emit(e));
        } else {
            let mut op = self.send_event(o, &ns, &ev);
            if let SrvOp::Send { pkt, .. } = &mut op {
                pkt.args.push(if self.c(500) { SArg { v: Val::Bytes(bytes), t: None } } else { SArg { v: Val::Str(text), t: Some(As::Str) } });
            }
            p.server.push(op);
        }
    }

    fn user_op(&mut self, o: &Opts, names: &[(String, String)]) -> Op {
        if self.c(o.dynamic_pm) {
            return self.reg_op(o, names, 1);
        }
        if self.c(80) {
            return Op::Sleep(*self.r.pick(&[0, 10, 1_000, 30_000]));
        }
        if o.cb_stash_pm > 0 && o.srv_id_pm > 0 && self.c(150) {
            let r = self.reply(o);
            return Op::Reply(r, *self.r.pick(&[0, 50, 500]));
        }
        if self.c(40) {
            return Op::WaitCalls(self.n(1, 3) as u32, 100);
        }
        let (ns, ev) = if self.c(700) { self.r.pick(names).clone() } else { self.name() };
        let e = self.emit(o, &ns, &ev);
        if o.burst > 0 && self.c(150) {
            let mut e = e;
            e.ack = None;
            e.abandon = 0;
            e.args.truncate(2);
            return Op::Burst { emit: e, n: self.n(2, o.burst as u64) as u32, raw: self.c(500) };
        }
        if self.c(o.raw_pm) {
            let mut e = e;
            e.ack = None;
            e.abandon = 0;
            return Op::Raw(e);
        }
        Op::Emit(e)
    }

    pub fn gen(&mut self, prop: &str) -> Plan {
        match prop {
            "C01" => self.c01(),
            "C02" => self.c02(),
            "C03" => self.c03(),
            "C04" => self.c04(),
            "C05" => self.c05(),
            "C06" => self.c06(),
            "C07" => self.c07(),
            "C08" => self.c08(),
            "C09" => self.c09(),
            "C10" => self.c10(),
            "C11" => self.c11(),
            "C12" => self.c12(),
            "C13" => self.c13(),
            "C14" => self.c14(),
            "C15" => self.c15(),
            "C16" => self.c16(),
            "C17" => self.c17(),
            "C18" => self.c18(),
            p => panic!("no property {}", p),
        }
    }

    fn c01(&mut self) -> Plan {
        if self.c(20) {
            return self.parting();
        }
        if self.c(50) {
            return self.crowd();
        }
        let mut o = self.opts();
        o.emits = self.n(1, 8);
        o.threads = self.n(0, 3);
        o.thread_ops = 6;
        o.burst = if self.c(150) { 30 } else { 0 };
        o.close_pm = 200;
        o.settle_pm = 800;
        o.cb_op_pm = 300;
        let mut p = self.talk(&o);
        if self.c(100) {
            p.server.push(SrvOp::PauseRead(*self.r.pick(&[1_000, 500_000, 5_000_000])));
        }
        if self.c(8) {
            // Very much at once, perhaps while the server does not read.
            self.heap(&mut p);
            if self.c(30) {
                // More than fits into 16 bits.
                for x in p.owner.iter_mut() {
                    if let Op::Burst { n, .. } = x {
                        *n = *self.r.pick(&[9_000, 17_000, 66_000]);
                    }
                }
                p.threads.clear();
                return self.bulk(p);
            }
        }
        self.plan(vec![p])
    }

    /// Many that send messages of many parts at the same time, heartbeats among them.
    fn crowd(&mut self) -> Plan {
        let mut p = self.client();
        let parts = *self.r.pick(&[1u16, 3, 10, 20, 40, 70, 140, 300]);
        let atts = |k: u16| Ser::Tuple((0..parts).map(|i| Ser::Bytes(vec![k as u8, i as u8, (i >> 8) as u8])).collect());
        let (ns, ev) = self.name();
        let reply = Reply { binary: true, args: vec![atts(9)], by_ref: false, abandon: 0 };
        let acts = if self.c(700) { vec![Act::Reply(reply.clone())] } else { vec![Act::Stash] };
        p.owner.push(Op::Set { ns: ns.clone(), ev: ev.clone(), cb: Cb { acts } });
        p.owner.push(Op::Gate(0));
        let mut k = 0;
        let mut burst = |g: &mut Self, raw: bool| {
            k += 1;
            let (ns, ev) = g.name();
            let emit = Emit { ns, ev, binary: g.c(900), args: vec![atts(k)], by_ref: g.c(500), abandon: 0, ack: None };
            Op::Burst { emit, n: g.n(1, 4) as u32, raw }
        };
        let small = |g: &mut Self| {
            let (ns, ev) = g.name();
            let emit = Emit { ns, ev, binary: false, args: vec![], by_ref: true, abandon: 0, ack: None };
            Op::Burst { emit, n: g.n(5, 40) as u32, raw: g.c(700) }
        };
        if self.c(500) {
            p.owner.push(Op::WaitCalls(self.n(1, 3) as u32, 1_000));
        }
        let b = burst(self, false);
        p.owner.push(b);
        for t in 0..self.n(1, 3) {
            let raw = t > 0 || self.c(500);
            let b = if self.c(500) { small(self) } else { burst(self, raw) };
            let first = if self.c(600) { Op::WaitCalls(self.n(1, 3) as u32, 1_000) } else { Op::WaitGate(0) };
            p.threads.push(vec![first, b]);
        }
        if self.c(400) {
            p.threads.push((0..3).map(|_| Op::Reply(reply.clone(), 5_000)).collect());
        }
        p.owner.push(Op::Settle);
        if self.c(200) {
            p.owner.push(Op::Close);
        }
        p.server.push(SrvOp::WaitGate(0));
        let gap = *self.r.pick(&[0u64, 1, 10, 300]);
        for _ in 0..self.n(3, 25) {
            let op = match self.r.below(5) {
                0 => {
                    let id = Some(self.srv_id());
                    let args = vec![SArg { v: Val::s(&ev), t: Some(As::Str) }, self.uarg()];
                    SrvOp::Send { pkt: SPkt { kind: PK::Event, ns: ns.clone(), id, args }, style: Style::default(), frames: 1, ctl: false, mid: vec![] }
                }
                1 => SrvOp::WsPing(1),
                _ => SrvOp::EPing,
            };
            p.server.push(op);
            if gap > 0 {
                p.server.push(SrvOp::Delay(gap));
            }
        }
        p.net = Net { lat_us: *self.r.pick(&[1, 100, 1_000]), jitter_us: 0, chunk: 0, gap_us: 0, read_max: 0, write_max: 0, cap: *self.r.pick(&[0, 0, 0, 5000]), spurious: 0, flush_waits: false, batch: self.c(300), faults: vec![] };
        let mut p = self.plan(vec![p]);
        p.heap_every = *self.r.pick(&[2, 10, 50, 200]);
        p.window_us = *self.r.pick(&[100, 1_000]);
        p.policy = Policy::Random(*self.r.pick(&[3, 60, 150]));
        p.execs = 2;
        p
    }

    /// The client is closed from the very callback of the last event, with other traffic around.
    fn parting(&mut self) -> Plan {
        let mut p = self.client();
        let (ns, ev) = self.name();
        let mut acts = Vec::new();
        if self.c(400) {
            acts.push(Act::Reply(Reply { binary: self.c(300), args: vec![], by_ref: false, abandon: 0 }));
        }
        acts.push(Act::Op(Op::Gate(1)));
        acts.push(Act::Op(Op::Sleep(*self.r.pick(&[0, 1, 50, 1_000, 100_000]))));
        p.owner.push(Op::Set { ns: ns.clone(), ev: ev.clone(), cb: Cb { acts } });
        p.owner.push(Op::Gate(0));
        if self.c(300) {
            let b = self.small_burst(3);
            p.owner.push(b);
        }
        for _ in 0..self.n(0, 2) {
            let b = self.small_burst(3);
            p.threads.push(vec![Op::WaitGate(if self.c(700) { 1 } else { 0 }), b]);
        }
        p.owner.push(Op::WaitGate(1));
        if self.c(300) {
            let b = self.small_burst(3);
            p.owner.push(b);
        }
        p.owner.push(Op::Close);
        p.server.push(SrvOp::WaitGate(0));
        let calm = |g: &mut Self, p: &mut ClientPlan| {
            for _ in 0..g.n(0, 6) {
                p.server.push(if g.c(850) { SrvOp::EPing } else { SrvOp::WsPing(1) });
                if g.c(100) {
                    p.server.push(SrvOp::Delay(*g.r.pick(&[1, 100, 10_000])));
                }
            }
        };
        calm(self, &mut p);
        for _ in 0..self.n(1, 3) {
            let id = if self.c(600) { Some(self.srv_id()) } else { None };
            let args = vec![SArg { v: Val::s(&ev), t: Some(As::Str) }, self.uarg()];
            p.server.push(SrvOp::Send { pkt: SPkt { kind: PK::Event, ns: ns.clone(), id, args }, style: Style::default(), frames: 1, ctl: false, mid: vec![] });
            calm(self, &mut p);
        }
        let names = [(ns, ev)];
        let o = self.opts();
        if self.c(200) {
            self.partial(&mut p, &names);
        }
        if self.c(300) {
            p.on_close = self.on_close(&o, &names);
        }
        p.net = Net { lat_us: *self.r.pick(&[1, 100, 1_000]), jitter_us: 0, chunk: 0, gap_us: 0, read_max: 0, write_max: 0, cap: *self.r.pick(&[0, 0, 0, 300]), spurious: 0, flush_waits: self.c(150), batch: self.c(600), faults: vec![] };
        let mut p = self.plan(vec![p]);
        p.execs = 2;
        p
    }

    fn small_burst(&mut self, n: u32) -> Op {
        let (ns, ev) = self.name();
        let emit = Emit { ns, ev, binary: false, args: vec![], by_ref: true, abandon: 0, ack: None };
        Op::Burst { emit, n: self.n(1, n as u64) as u32, raw: self.c(600) }
    }

    fn heap(&mut self, p: &mut ClientPlan) {
        let (ns, ev) = self.name();
        let emit = Emit { ns, ev, binary: false, args: vec![], by_ref: false, abandon: 0, ack: None };
        let n = *self.r.pick(&[130, 260, 520, 1030, 1030, 2050, 4100]);
        let at = p.owner.iter().position(|x| *x == Op::Gate(0)).map_or(0, |x| x + 1);
        p.owner.insert(at, Op::Burst { emit, n, raw: self.c(400) });
        p.net.spurious = 0;
        if self.c(500) {
            p.net.cap = *self.r.pick(&[0, 300, 5000]);
            p.server.insert(0, SrvOp::PauseRead(*self.r.pick(&[100_000, 5_000_000])));
        }
        if p.net.cap > 0 && p.net.cap < 300 {
            p.net.cap = 300;
        }
        if p.net.write_max > 0 && p.net.write_max < 30 {
            p.net.write_max = 30;
        }
    }

    fn c02(&mut self) -> Plan {
        let mut o = self.opts();
        o.srv = self.n(1, 12);
        o.mid_pm = *self.r.pick(&[0, 200, 700]);
        o.emits = self.n(0, 2);
        o.settle_pm = 700;
        o.noise_pm = 150;
        let mut p = self.talk(&o);
        if self.c(60) {
            let (ns, ev) = self.name();
            p.server.push(SrvOp::Flood { ns, ev, n: self.n(5, 60) as u32, pause_us: *self.r.pick(&[0, 0, 10]) });
        } else if self.c(5) {
            return self.long_flood(p);
        }
        self.plan(vec![p])
    }

    fn c03(&mut self) -> Plan {
        let mut o = self.opts();
        o.ack_pm = 900;
        o.emits = self.n(1, 7);
        o.threads = self.n(0, 3);
        o.odd_acks_pm = if self.c(300) { 400 } else { 0 };
        o.srv = self.n(0, 3);
        o.settle_pm = 800;
        o.abandon_pm = 80;
        let mut p = self.talk(&o);
        if self.c(25) {
            // Many emissions await their acks at the same time.
            let (ns, ev) = self.name();
            let emit = Emit { ns, ev, binary: false, args: vec![], by_ref: false, abandon: 0, ack: Some(Cb { acts: vec![] }) };
            let n = *self.r.pick(&[40, 70, 140, 300, 600, 1100]);
            if self.r.below(200) == 0 {
                // One waits while very many come and go.
                return self.many_acks(p, emit);
            }
            p.owner.insert(0, Op::Burst { emit, n, raw: false });
            let slow = *self.r.pick(&[700_000, 3_000_000]);
            for (k, a) in p.acks.iter_mut().enumerate() {
                if let AckPlan::Yes { delay_us, .. } = a {
                    *delay_us = if k == 0 { slow } else { *self.r.pick(&[0, slow, slow / 2]) };
                }
            }
            if n >= 300 {
                // The acks are answered over and over: keep them small.
                for a in p.acks.iter_mut() {
                    match a {
                        AckPlan::Yes { args, mid, .. } => {
                            args.truncate(1);
                            args.retain(|v| v.v.atts() < 2 && v.v.size() < 40);
                            mid.clear();
                        }
                        AckPlan::Twice { args, second, .. } => {
                            args.clear();
                            second.clear();
                        }
                        _ => (),
                    }
                }
                p.net.chunk = if p.net.chunk == 0 { 0 } else { p.net.chunk.max(64) };
                p.net.read_max = if p.net.read_max == 0 { 0 } else { p.net.read_max.max(64) };
            }
        }
        self.plan(vec![p])
    }

    /// A plan for very many messages: nothing in it makes each of them expensive.
    fn bulk(&mut self, mut p: ClientPlan) -> Plan {
        let close = p.owner.contains(&Op::Close) && self.c(500);
        p.owner.retain(|x| !matches!(x, Op::Close | Op::Settle));
        p.owner.push(Op::Settle);
        if close {
            p.owner.push(Op::Close);
        }
        p.net = Net { lat_us: 1_000, jitter_us: 0, chunk: 0, gap_us: 0, read_max: 0, write_max: 0, cap: 0, spurious: 0, flush_waits: false, batch: true, faults: vec![] };
        let mut p = self.plan(vec![p]);
        p.log = 0;
        p.execs = 1;
        p.spurious = 0;
        p.stall_pm = 0;
        p.policy = Policy::Random(3);
        p.window_us = 0;
        p
    }

    fn many_acks(&mut self, mut p: ClientPlan, emit: Emit) -> Plan {
        let old = std::mem::take(&mut p.owner);
        let keep = old.iter().position(|x| *x == Op::Gate(0)).unwrap();
        p.owner = old[..=keep].to_vec();
        p.server.clear();
        p.threads.clear();
        let yes = |delay_us| AckPlan::Yes { delay_us, args: vec![], style: Style::default(), mid: vec![] };
        p.acks = vec![yes(900_000_000)];
        p.acks.extend((0..70_000).map(|_| yes(0)));
        p.owner.push(Op::Burst { emit: emit.clone(), n: 3, raw: false });
        p.owner.push(Op::Sleep(1_000_000));
        p.owner.push(Op::Burst { emit, n: 66_000, raw: false });
        p.owner.push(Op::Settle);
        self.bulk(p)
    }

    /// Far more events than in any other conversation.
    fn long_flood(&mut self, mut p: ClientPlan) -> Plan {
        let sets: Vec<(String, String)> = p.owner.iter().filter_map(|x| if let Op::Set { ns, ev, .. } = x { Some((ns.clone(), ev.clone())) } else { None }).collect();
        let (ns, ev) = self.r.pick(&sets).clone();
        p.threads.clear();
        let n = if self.c(100) { 66_000 } else { *self.r.pick(&[270, 600, 1_100, 3_000]) };
        for x in p.owner.iter_mut() {
            if let Op::Set { cb, .. } | Op::SetFb { cb, .. } = x {
                cb.acts.clear();
            }
        }
        p.server.push(SrvOp::Flood { ns, ev, n, pause_us: 0 });
        let o = self.opts();
        for _ in 0..self.n(0, 3) {
            let op = self.srv_op(&o, &sets);
            p.server.push(op);
        }
        self.bulk(p)
    }

    fn c04(&mut self) -> Plan {
        if self.c(30) {
            return self.parting();
        }
        if self.c(60) {
            return self.crowd();
        }
        let mut o = self.opts();
        o.srv = self.n(1, 8);
        o.srv_id_pm = *self.r.pick(&[500, 900]);
        o.cb_stash_pm = *self.r.pick(&[0, 900]);
        o.cb_reply_pm = *self.r.pick(&[100, 500, 900]);
        o.emits = self.n(0, 3);
        o.settle_pm = 700;
        let mut p = self.talk(&o);
        if self.c(4) {
            // Very many requests.
            let (ns, ev) = p.owner.iter().find_map(|x| if let Op::Set { ns, ev, .. } = x { Some((ns.clone(), ev.clone())) } else { None }).unwrap();
            let o = Opts { rich: Rich { depth: 0, big: false, bytes: false, odd: false }, srv_id_pm: 1000, ..o.clone() };
            for _ in 0..*self.r.pick(&[140, 270, 600]) {
                let mut op = self.send_event(&o, &ns, &ev);
                if let SrvOp::Send { frames, mid, pkt, .. } = &mut op {
                    *frames = 1;
                    mid.clear();
                    pkt.args.truncate(2);
                }
                p.server.push(op);
            }
            return self.bulk(p);
        }
        for _ in 0..self.n(0, 2) {
            let mut ops = Vec::new();
            for _ in 0..self.n(1, 4) {
                let r = self.reply(&o);
                ops.push(Op::Reply(r, *self.r.pick(&[10, 500, 3_000])));
            }
            p.threads.push(ops);
        }
        if o.cb_stash_pm > 0 && self.c(100) {
            // Much later.
            let mut ops = vec![Op::Sleep(*self.r.pick(&[11_000_000, 31_000_000, 61_000_000, 301_000_000, 4_000_000_000]))];
            for _ in 0..self.n(1, 2) {
                let r = self.reply(&o);
                ops.push(Op::Reply(r, 10));
            }
            ops.push(Op::Settle);
            let at = p.owner.iter().position(|x| *x == Op::Close).unwrap_or(p.owner.len());
            p.owner.splice(at..at, ops);
        }
        if self.c(200) {
            // After the connection has gone.
            p.owner.push(Op::Close);
            let r = self.reply(&o);
            p.owner.push(Op::Reply(r, 0));
        }
        if self.c(100) {
            p.net.faults.push(NetFault { trig: Trig::At(self.n(0, 300_000)), kind: self.r.pick(&[NetKind::Eof, NetKind::Reset]).clone() });
        }
        self.plan(vec![p])
    }

    fn c05(&mut self) -> Plan {
        if self.c(40) {
            return self.parting();
        }
        if self.c(30) {
            return self.crowd();
        }
        let mut o = self.opts();
        o.ping_pm = 400;
        o.wsping_pm = 200;
        o.srv = self.n(2, 10);
        o.mid_pm = *self.r.pick(&[0, 300, 900]);
        o.close_pm = 100;
        o.settle_pm = 900;
        o.cb_sleep_pm = 100;
        o.burst = if self.c(300) { 100 } else { 0 };
        if self.c(300) {
            o.emits = 0;
            o.threads = 0;
            o.cb_op_pm = 0;
            o.cb_reply_pm = 0;
        }
        let mut p = self.talk(&o);
        if self.c(700) {
            let f = self.open_net();
            p.net = f;
        }
        if self.c(200) {
            let (ns, ev) = self.name();
            let at = self.r.below(p.server.len() + 1);
            p.server.insert(at, SrvOp::Flood { ns, ev, n: self.n(5, 120) as u32, pause_us: *self.r.pick(&[0, 0, 10]) });
        }
        if self.c(5) {
            // The heartbeats of hours or days.
            let n = if self.c(100) { 66_000 } else { *self.r.pick(&[140, 270, 1_100]) };
            let gap = *self.r.pick(&[0, 1_000, 25_000_000]);
            for _ in 0..n {
                if gap > 0 {
                    p.server.push(SrvOp::Delay(gap));
                }
                p.server.push(SrvOp::EPing);
            }
            return self.bulk(p);
        }
        self.plan(vec![p])
    }

    fn delay10(&mut self) -> u64 {
        *self.r.pick(&[0, 0, 1_000, 3_000_000, 4_900_000, 6_000_000, 9_000_000, 9_800_000, 9_999_000, 10_000_000, 10_001_000, 12_000_000, 30_000_000])
    }

    fn garbage(&mut self) -> Vec<u8> {
        let n = *self.r.pick(&[1usize, 4, 20, 200, 5000]);
        match self.r.below(3) {
            0 => (0..n).map(|_| self.r.u64() as u8).collect(),
            1 => b"\r\n".iter().cycle().take(n).cloned().collect(),
            _ => b"HTTP/1.1 101 \xff\xfe: x\r\nA: ".iter().cycle().take(n).cloned().collect(),
        }
    }

    fn c06(&mut self) -> Plan {
        let o = self.opts();
        let mut p = self.client();
        p.owner = vec![Op::Set { ns: "/".into(), ev: "msg".into(), cb: Cb { acts: vec![] } }, Op::Gate(0)];
        if self.c(300) {
            p.factory = if self.c(150) { Factory::Fails { delay_us: self.n(0, 3_000_000) } } else { Factory::Dial { delay_us: *self.r.pick(&[0, 1_000, 5_000_000, 15_000_000]) } };
        }
        if self.c(30) {
            p.spawn_fails = true;
        }
        p.hs.resp_delay_us = self.delay10();
        p.hs.open_delay_us = self.delay10();
        if self.c(300) {
            let g = self.garbage();
            p.hs.resp = self
                .r
                .pick(&[
                    Resp::Silent,
                    Resp::Status(200),
                    Resp::Status(301),
                    Resp::Status(400),
                    Resp::Status(403),
                    Resp::Status(500),
                    Resp::WrongAccept,
                    Resp::NoUpgrade,
                    Resp::Garbage(g.clone()),
                    Resp::Garbage(g),
                ])
                .clone();
        } else if self.c(500) {
            p.hs.open = match self.r.below(9) {
                0 => Open::Missing,
                1 => Open::BadJson(self.r.pick(&["", "{", "[]", "{\"sid\":1}", "{\"sid\":\"x\",\"upgrades\":[],\"pingInterval\":-1,\"pingTimeout\":1}", "null", "{}x"]).to_string()),
                2 => Open::Text(self.r.pick(&["", "1", "2", "3", "4", "42[\"msg\"]", "40", "9", "x", "6"]).to_string()),
                3 => {
                    let g = self.garbage();
                    Open::Binary(g)
                }
                4 => Open::Close,
                5 => Open::Eof,
                _ => Open::Reset,
            };
        }
        if self.c(200) {
            p.hs.cut = Some((self.n(0, 300), self.r.pick(&[Cut::Stall, Cut::Eof, Cut::Reset]).clone()));
        }
        if self.c(100) {
            // Drop by drop, for longer than there is time.
            p.net.chunk = 1;
            p.net.gap_us = *self.r.pick(&[30_000, 100_000, 1_000_000]);
        }
        if self.c(120) {
            p.hs.pings = self.n(1, 30) as u32;
            p.hs.ping_gap_us = *self.r.pick(&[1_000, 500_000, 2_000_000]);
        }
        if self.c(250) {
            let trig = match self.r.below(3) {
                0 => Trig::At(*self.r.pick(&[0, 10, 30_000, 5_000_000, 9_999_999])),
                1 => Trig::Written(self.n(0, 300)),
                _ => Trig::Delivered(self.n(0, 300)),
            };
            let kind = self.hard_fault();
            p.net.faults.push(NetFault { trig, kind });
        }
        if self.c(150) {
            p.abandon = Some(if self.c(500) { Abandon::Polls(self.n(1, 8) as u32) } else { Abandon::At(*self.r.pick(&[0, 10, 1_000, 40_000, 3_000_000])) });
        }
        if self.c(60) {
            p.net.lat_us = *self.r.pick(&[1_000_000, 3_000_000, 6_000_000]);
        }
        if self.c(300) {
            p.server = vec![self.send_event(&o, "/", "msg")];
            p.owner.push(Op::Settle);
        }
        if self.c(200) {
            p.owner.push(Op::Close);
        }
        self.timed(vec![p])
    }

    fn hard_fault(&mut self) -> NetKind {
        self.r
            .pick(&[NetKind::Eof, NetKind::Reset, NetKind::ReadErr, NetKind::WriteErr, NetKind::WriteZero, NetKind::FlushErr, NetKind::StallIn, NetKind::StallOut])
            .clone()
    }

    fn c07(&mut self) -> Plan {
        let o = self.opts();
        let mut p = self.client();
        p.url = self.url();
        p.owner = vec![Op::Set { ns: "/".into(), ev: "msg".into(), cb: Cb { acts: vec![] } }, Op::Gate(0)];
        p.factory = if self.c(700) { Factory::Dial { delay_us: *self.r.pick(&[0, 1_000, 2_000_000, 20_000_000]) } } else { Factory::FromStream };
        p.net = self.net();
        p.net.lat_us = *self.r.pick(&[0, 100, 50_000, 1_000_000, 2_000_000]);
        p.net.gap_us = if self.c(300) { *self.r.pick(&[10, 1_000, 10_000]) } else { 0 };
        p.hs.resp_delay_us = *self.r.pick(&[0, 0, 1_000, 3_000_000, 5_000_000, 9_000_000, 9_700_000]);
        p.hs.open_delay_us = *self.r.pick(&[0, 0, 1_000, 3_000_000, 5_000_000, 9_000_000, 9_700_000]);
        if p.hs.resp_delay_us + p.hs.open_delay_us > 9_800_000 {
            if self.c(500) {
                p.hs.resp_delay_us = 0;
            } else {
                p.hs.open_delay_us = 0;
            }
        }
        if self.c(100) {
            p.hs.pings = self.n(1, 12) as u32;
            p.hs.ping_gap_us = *self.r.pick(&[1_000, 500_000, 1_000_000]);
        }
        for _ in 0..self.n(0, 3) {
            let op = self.send_event(&o, "/", "msg");
            p.server.push(op);
        }
        if self.c(500) {
            p.server.insert(0, SrvOp::WaitGate(0));
        }
        if self.c(500) {
            p.owner.push(Op::Settle);
        }
        if self.c(300) {
            p.owner.push(Op::Close);
        }
        self.timed(vec![p])
    }

    /// 0 is a close without a code.
    fn close_code(&mut self) -> u16 {
        *self.r.pick(&[1000, 1000, 1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 3000, 4000, 4999, 0, 0])
    }

    fn on_close(&mut self, o: &Opts, names: &[(String, String)]) -> OnClose {
        match self.r.below(10) {
            0 => OnClose::Ignore,
            1 => OnClose::Eof,
            2 => OnClose::Reset,
            _ => {
                let delay_us = *self.r.pick(&[0, 0, 1_000, 500_000, 5_000_000, 9_000_000, 9_999_000, 10_001_000, 20_000_000]);
                let mut more = Vec::new();
                for _ in 0..self.n(0, 3) {
                    let op = match self.srv_op(o, names) {
                        SrvOp::Delay(_) => SrvOp::EPing,
                        x => x,
                    };
                    more.push(op);
                }
                OnClose::Reply { delay_us, code: self.close_code(), more }
            }
        }
    }

    fn c08(&mut self) -> Plan {
        if self.c(60) {
            return self.parting();
        }
        let mut o = self.opts();
        o.close_pm = 0;
        o.settle_pm = 200;
        o.emits = self.n(0, 3);
        o.cb_sleep_pm = *self.r.pick(&[0, 100]);
        let mut p = self.talk(&o);
        if self.c(700) {
            let f = self.open_net();
            p.net = f;
        }
        let names: Vec<(String, String)> = p.owner.iter().filter_map(|x| if let Op::Set { ns, ev, .. } = x { Some((ns.clone(), ev.clone())) } else { None }).collect();
        p.on_close = self.on_close(&o, &names);
        if self.c(60) {
            self.partial(&mut p, &names);
        }
        if self.c(250) {
            // The server comes first, or nearly.
            p.server.push(match self.r.below(4) {
                0 | 1 => SrvOp::Close(self.close_code()),
                2 => SrvOp::Eof,
                _ => SrvOp::Reset,
            });
        }
        if self.c(150) {
            let kind = self.hard_fault();
            p.net.faults.push(NetFault { trig: Trig::At(*self.r.pick(&[0, 1_000, 100_000, 1_000_000, 5_000_000])), kind });
        }
        if self.c(300) {
            p.owner.push(Op::Sleep(*self.r.pick(&[10, 1_000, 300_000])));
        }
        if self.c(100) {
            // The server goes on for a long time, whatever it does about the close.
            let (ns, ev) = names[0].clone();
            if self.c(500) {
                p.server.push(SrvOp::Flood { ns, ev, n: self.n(20, 60) as u32, pause_us: *self.r.pick(&[100_000, 300_000, 500_000]) });
            } else {
                for _ in 0..self.n(3, 15) {
                    p.server.push(SrvOp::Delay(*self.r.pick(&[300_000, 1_000_000, 3_000_000])));
                    let op = self.srv_op(&o, &names);
                    p.server.push(op);
                }
            }
            if self.c(400) {
                p.on_close = OnClose::Ignore;
            }
        }
        if self.c(60) {
            // Much is left to send.
            let (ns, ev) = self.name();
            let emit = Emit { ns, ev, binary: false, args: vec![], by_ref: false, abandon: 0, ack: None };
            p.owner.push(Op::Burst { emit, n: *self.r.pick(&[20, 100, 200]), raw: false });
            p.net.flush_waits = true;
            p.net.lat_us = *self.r.pick(&[1_000, 20_000, 40_000]);
            for _ in 0..self.n(0, 3) {
                p.server.push(SrvOp::WaitRecv(self.n(1, 100) as u32, 3_000));
                let op = self.srv_op(&o, &names);
                p.server.push(op);
            }
        }
        p.owner.push(Op::Close);
        for _ in 0..self.n(0, 2) {
            if self.c(300) {
                p.owner.push(Op::Sleep(3_000_000));
            }
            p.owner.push(Op::Close);
        }
        self.timed(vec![p])
    }

    fn c09(&mut self) -> Plan {
        let mut o = self.opts();
        o.emits = self.n(1, 8);
        o.close_pm = 1000;
        o.settle_pm = 50;
        o.burst = if self.c(300) { 40 } else { 0 };
        o.raw_pm = 300;
        o.threads = self.n(0, 2);
        let mut p = self.talk(&o);
        if self.c(300) {
            p.server.push(SrvOp::PauseRead(*self.r.pick(&[1_000, 500_000, 3_000_000])));
        }
        if self.c(300) {
            p.owner.insert(p.owner.len() - 1, Op::WaitCalls(1, 100));
        }
        self.plan(vec![p])
    }

    fn c10(&mut self) -> Plan {
        let mut o = self.opts();
        o.srv = self.n(0, 8);
        o.emits = self.n(0, 5);
        o.settle_pm = 300;
        o.close_pm = 0;
        let mut p = self.talk(&o);
        for _ in 0..self.n(1, 2) {
            let trig = match self.r.below(3) {
                0 => Trig::At(*self.r.pick(&[10, 1_000, 30_000, 60_000, 200_000, 2_000_000])),
                1 => Trig::Written(self.n(150, 900)),
                _ => Trig::Delivered(self.n(130, 900)),
            };
            let kind = self.hard_fault();
            p.net.faults.push(NetFault { trig, kind });
        }
        if self.c(300) {
            p.net.faults.clear();
            p.server.push(self.r.pick(&[SrvOp::Eof, SrvOp::Eof, SrvOp::Reset, SrvOp::Close(1000), SrvOp::Close(1001), SrvOp::Close(1011), SrvOp::Close(4001)]).clone());
        }
        if self.c(700) {
            p.owner.push(Op::Sleep(*self.r.pick(&[1_000, 300_000, 3_000_000])));
            let names = vec![("/".to_string(), "msg".to_string())];
            for _ in 0..self.n(0, 3) {
                let mut o2 = o.clone();
                o2.dynamic_pm = 300;
                let op = self.user_op(&o2, &names);
                p.owner.push(op);
            }
        }
        if self.c(700) {
            p.owner.push(Op::Close);
        }
        self.timed(vec![p])
    }

    fn hostile(&mut self, ns: &str, ev: &str) -> SrvOp {
        let evj = serde_json::to_string(ev).unwrap();
        let pre = if ns == "/" { String::new() } else { format!("{},", ns) };
        let maybe = |args: Vec<Option<Val>>, id: Option<u64>| Effect::MaybeEvent { ns: ns.into(), ev: ev.into(), id, args };
        let name = Some(Val::s(ev));
        let t = |s: String| Hostile::Text(s);
        let (what, effect) = match self.r.below(12) {
            // Not even a packet.
            0 | 1 => {
                let s = self
                    .r
                    .pick(&[
                        "", "x", "9", "7foo", "4", "48", "4x", "40x", "42", "42{", "42[}", "42[", "42]", "42[1", "5", "6", "1", "4-", "42-[]", "45", "45-", "451", "42 [\"msg\"]", "\u{0}",
                        "é", "4é", "42é", "0", "0{", "0{}", "0[]", "03", "2probe", "3probe", "3x", "44\"error\"", "44{\"message\":\"x\"}", "40{\"sid\":\"x\"}", "41", "40", "451-", "461-", "46", "46-", "43", "4,", "42/", "42/,", "42/a", "42/a,", "4200[\"msg\"]",
                    ])
                    .to_string();
                (t(s), Effect::Nothing)
            }
            // Numbers out of range.
            2 => {
                let n = *self.r.pick(&["18446744073709551615", "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456", "9999999999999999999999999999999999999999999999999999999999"]);
                match self.r.below(5) {
                    0 => (t(format!("42{}{}[{}]", pre, n, evj)), if n == "18446744073709551615" { maybe(vec![name], Some(u64::MAX)) } else { Effect::Nothing }),
                    1 => (t(format!("43{}{}[]", pre, n)), Effect::Nothing),
                    2 => (t(format!("45{}-{}[{},{{\"_placeholder\":true,\"num\":0}}]", n, pre, evj)), Effect::Nothing),
                    3 => (Hostile::Multi(format!("451-{}{}[{}]", pre, n, evj), vec![Ok(vec![4, 1])]), if n == "18446744073709551615" { maybe(vec![name], Some(u64::MAX)) } else { Effect::Nothing }),
                    _ => (t(format!("46{}-{}0[]", n, pre)), Effect::Nothing),
                }
            }
            // Arguments that are no good.
            3 | 4 => {
                let deep = format!("{}{}", "[".repeat(200), "]".repeat(200));
                let deepo = format!("{}1{}", "{\"a\":".repeat(150), "}".repeat(150));
                let bad: Vec<String> = vec![
                    "1e999".into(),
                    "-1e999".into(),
                    "\"\\ud800\"".into(),
                    "\"\\udc00x\"".into(),
                    "{\"\\ud800\":1}".into(),
                    "[1e400]".into(),
                    deep,
                    deepo,
                    "{\"_placeholder\":true,\"num\":0}".into(),
                    "{\"_placeholder\":true,\"num\":18446744073709551615}".into(),
                    "[{\"_placeholder\":true,\"num\":-1}]".into(),
                    "{\"_placeholder\":true,\"num\":\"0\"}".into(),
                    "{\"_placeholder\":true,\"num\":0.5}".into(),
                    "{\"_placeholder\":true,\"num\":1e99}".into(),
                    "{\"_placeholder\":true,\"num\":{\"_placeholder\":true,\"num\":0}}".into(),
                    "{\"_placeholder\":true}".into(),
                    "{\"_placeholder\":null,\"num\":null}".into(),
                ];
                let b = self.r.pick(&bad).clone();
                let after = self.c(300);
                let mut args = vec![name, None];
                if after {
                    args.push(Some(Val::U(3)));
                }
                let tail = if after { ",3" } else { "" };
                let id = if self.c(300) { Some(self.next_id + 500) } else { None };
                let ids = id.map_or(String::new(), |i| i.to_string());
                let kind = if self.c(300) { "450-" } else { "42" };
                (t(format!("{}{}{}[{},{}{}]", kind, pre, ids, evj, b, tail)), maybe(args, id))
            }
            // The name is no good.
            5 => {
                let n = *self.r.pick(&["", "1", "null", "[\"msg\"]", "{}", "\"\\ud800\"", "true", "1e999", "{\"_placeholder\":true,\"num\":0}", "{\"_placeholder\":true,\"num\":9}"]);
                let k = *self.r.pick(&["42", "450-", "421", "43", "460-"]);
                let s = if k == "421" { format!("42{}1[{}]", pre, n) } else { format!("{}{}[{}]", k, pre, n) };
                (t(s), Effect::Nothing)
            }
            // Attachments.
            6 | 7 => {
                let p0 = "{\"_placeholder\":true,\"num\":0}";
                match self.r.below(9) {
                    0 => (Hostile::Multi(format!("451-{}[{},{}]", pre, evj, p0), vec![Err("4x".into())]), Effect::Nothing),
                    1 => (Hostile::Multi(format!("451-{}[{},{}]", pre, evj, p0), vec![Err("42[\"msg\",1]".into())]), Effect::Nothing),
                    2 => (Hostile::Multi(format!("451-{}[{},{}]", pre, evj, p0), vec![Ok(vec![])]), Effect::Nothing),
                    3 => (Hostile::Multi(format!("451-{}[{},{}]", pre, evj, p0), vec![Ok(vec![9, 1, 2])]), Effect::Nothing),
                    4 => (Hostile::Binary(vec![4, 1, 2, 3]), Effect::Nothing),
                    5 => {
                        let g = self.garbage();
                        (Hostile::Binary(g), Effect::Nothing)
                    }
                    6 => (
                        Hostile::Multi(format!("451-{}[{},{{\"_placeholder\":true,\"num\":1}}]", pre, evj), vec![Ok(vec![4, 1])]),
                        maybe(vec![name, None], None),
                    ),
                    7 => (Hostile::Multi(format!("452-{}[{},{}]", pre, evj, p0), vec![Ok(vec![4, 1])]), Effect::Nothing),
                    _ => (Hostile::Multi(format!("451-{}[{},{}]", pre, evj, p0), vec![Ok(vec![4, 1]), Ok(vec![4, 2])]), maybe(vec![name, Some(Val::Bytes(vec![1]))], None)),
                }
            }
            // Acks nobody asked for.
            8 => {
                let s = match self.r.below(4) {
                    0 => format!("43{}987654321[1]", pre),
                    1 => format!("43{}987654321[]", pre),
                    2 => format!("460-{}987654321[]", pre),
                    _ => format!("43{}[1]", pre),
                };
                (t(s), Effect::Nothing)
            }
            // Broken WebSocket frames.
            9 => {
                let h = match self.r.below(12) {
                    0 => Hostile::Frame { fin: true, op: 3, payload: vec![1, 2] },
                    1 => Hostile::Frame { fin: true, op: 11, payload: vec![] },
                    2 => Hostile::Frame { fin: false, op: 9, payload: vec![1] },
                    3 => Hostile::Frame { fin: true, op: 9, payload: vec![1; 126] },
                    4 => Hostile::Frame { fin: true, op: 0, payload: vec![b'2'] },
                    5 => Hostile::Frame { fin: true, op: 1, payload: vec![0xff, 0xfe, 0x80] },
                    6 => Hostile::Frame { fin: true, op: 8, payload: vec![3] },
                    7 => Hostile::Frame { fin: true, op: 8, payload: vec![0, 1, 0xff] },
                    8 => Hostile::Raw(vec![0xf1, 1, b'x']),
                    9 => Hostile::Raw(vec![0x81, 0x81, 1, 2, 3, 4, 5]),
                    10 => Hostile::Raw(vec![0x81, 127, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
                    _ => Hostile::Raw(vec![0x82, 127, 0, 0, 0, 0x10, 0, 0, 0, 0, 1]),
                };
                (h, Effect::Nothing)
            }
            10 => {
                let g = self.garbage();
                (Hostile::Raw(g), Effect::Nothing)
            }
            // An interrupted fragmented message.
            _ => {
                let mut v = crate::wire::frame(false, 1, b"42[\"ms");
                v.extend(crate::wire::frame(true, 1, b"g\"]"));
                (Hostile::Raw(v), Effect::Nothing)
            }
        };
        SrvOp::Hostile { what, effect }
    }

    fn c11(&mut self) -> Plan {
        let mut o = self.opts();
        o.srv = self.n(0, 5);
        o.emits = self.n(0, 2);
        o.settle_pm = 700;
        o.close_pm = 600;
        o.odd_acks_pm = if self.c(200) { 300 } else { 0 };
        let mut p = self.talk(&o);
        let names: Vec<(String, String)> = p.owner.iter().filter_map(|x| if let Op::Set { ns, ev, .. } = x { Some((ns.clone(), ev.clone())) } else { None }).collect();
        for _ in 0..self.n(1, 2) {
            let (ns, ev) = self.r.pick(&names).clone();
            let lo = p.server.iter().position(|x| *x == SrvOp::WaitGate(0)).map_or(0, |x| x + 1);
            let at = lo + self.r.below(p.server.len() - lo + 1);
            let h = self.hostile(&ns, &ev);
            p.server.insert(at, h);
        }
        if self.c(60) {
            p.net.faults.push(NetFault { trig: Trig::Delivered(self.n(130, 900)), kind: NetKind::Corrupt(1 << self.r.below(8)) });
        }
        self.plan(vec![p])
    }

    fn c12(&mut self) -> Plan {
        let mut o = self.opts();
        o.srv = self.n(1, 5);
        o.emits = self.n(0, 3);
        o.threads = self.n(0, 2);
        o.cb_op_pm = 600;
        o.cb_reg_pm = 500;
        o.dynamic_pm = 300;
        o.ack_pm = 600;
        o.settle_pm = 700;
        o.cb_sleep_pm = 0;
        let mut p = self.talk(&o);
        let names: Vec<(String, String)> = p.owner.iter().filter_map(|x| if let Op::Set { ns, ev, .. } = x { Some((ns.clone(), ev.clone())) } else { None }).collect();
        let mode = self.r.below(4);
        if mode == 0 {
            // A callback waits until another thread has used the client.
            let g = 5;
            let wait = Cb { acts: vec![Act::Op(Op::Gate(g + 1)), Act::Op(Op::WaitGate(g))] };
            let mut ops = vec![Op::WaitGate(g + 1)];
            for _ in 0..self.n(1, 3) {
                let mut o2 = o.clone();
                o2.dynamic_pm = 600;
                let op = match self.user_op(&o2, &names) {
                    Op::WaitCalls(..) | Op::Sleep(_) | Op::Reply(..) => self.reg_op(&o2, &names, 0),
                    x => x,
                };
                ops.push(op);
            }
            ops.push(Op::Gate(g));
            if self.c(500) {
                let (ns, ev) = names[0].clone();
                p.owner.insert(0, Op::Set { ns: ns.clone(), ev: format!("w{}", ev), cb: wait });
                let s = self.send_event(&o, &ns, &format!("w{}", ev));
                p.server.push(s);
            } else {
                let (ns, ev) = names[0].clone();
                let mut e = self.emit(&o, &ns, &ev);
                e.ack = Some(wait);
                e.abandon = 0;
                e.args = vec![Ser::U64(self.u())];
                p.owner.push(Op::Emit(e));
                p.acks = vec![AckPlan::Yes { delay_us: 0, args: vec![], style: Style::default(), mid: vec![] }];
            }
            p.threads.push(ops);
        } else if mode == 1 {
            // A callback panics.
            let n = self.n(1, 2) as u32;
            let cb = Cb { acts: vec![Act::Panic(n)] };
            let (ns, ev) = names[0].clone();
            if self.c(600) {
                p.owner.insert(0, Op::Set { ns: ns.clone(), ev: "boom".into(), cb });
                for _ in 0..self.n(1, 3) {
                    let s = self.send_event(&o, &ns, "boom");
                    let at = 1 + self.r.below(p.server.len().max(1));
                    p.server.insert(at.min(p.server.len()), s);
                }
            } else {
                let mut e = self.emit(&o, &ns, &ev);
                e.ack = Some(Cb { acts: vec![Act::Panic(1)] });
                e.abandon = 0;
                p.owner.push(Op::Emit(e));
            }
            p.owner.push(Op::Sleep(*self.r.pick(&[1_000, 2_000_000])));
            for _ in 0..self.n(1, 3) {
                let mut o2 = o.clone();
                o2.dynamic_pm = 500;
                let op = self.user_op(&o2, &names);
                p.owner.push(op);
            }
            if self.c(500) {
                p.owner.push(Op::Close);
            }
        }
        let mut p = self.plan(vec![p]);
        p.window_us = p.window_us.min(2_000);
        p
    }

    fn c13(&mut self) -> Plan {
        let mut o = self.opts();
        o.srv = self.n(3, 14);
        o.rich = Rich { depth: 0, big: false, bytes: false, odd: false };
        o.ping_pm = 20;
        o.wsping_pm = 20;
        o.noise_pm = 60;
        o.emits = self.n(1, 6);
        o.threads = self.n(0, 2);
        o.dynamic_pm = 800;
        o.cb_reg_pm = *self.r.pick(&[0, 200]);
        o.cb_op_pm = 0;
        o.ack_pm = 0;
        o.early_events_pm = 300;
        o.settle_pm = 800;
        o.cb_sleep_pm = 0;
        let mut p = self.talk(&o);
        if self.c(12) {
            // Many names.
            let n = *self.r.pick(&[20, 70, 140, 300]);
            let spread = self.r.below(3);
            for k in 0..n {
                let ns = if spread == 0 { "/".to_string() } else { format!("/{}", if spread == 1 { k } else { k % 7 }) };
                let ev = if spread == 1 { "msg".to_string() } else { format!("n{}", k) };
                p.owner.insert(0, Op::Set { ns, ev, cb: Cb { acts: vec![] } });
            }
        }
        if self.c(700) {
            // Many events on few names.
            let names: Vec<(String, String)> = p.owner.iter().filter_map(|x| if let Op::Set { ns, ev, .. } = x { Some((ns.clone(), ev.clone())) } else { None }).collect();
            for s in p.server.iter_mut() {
                if let SrvOp::Send { pkt, .. } = s {
                    if pkt.kind == PK::Event {
                        let (ns, ev) = self.r.pick(&names).clone();
                        pkt.ns = ns;
                        pkt.args[0] = SArg { v: Val::s(&ev), t: Some(As::Str) };
                    }
                }
            }
        }
        for _ in 0..self.n(0, 3) {
            let at = self.r.below(p.server.len() + 1);
            p.server.insert(at, SrvOp::Delay(*self.r.pick(&[10, 1_000, 20_000])));
        }
        self.plan(vec![p])
    }

    fn c14(&mut self) -> Plan {
        let mut o = self.opts();
        o.close_pm = 0;
        o.settle_pm = 100;
        o.cb_stash_pm = 900;
        o.cb_reply_pm = 100;
        o.srv_id_pm = 700;
        o.srv = self.n(0, 6);
        o.ack_pm = 600;
        let mut p = self.talk(&o);
        if self.c(300) {
            p.acks = vec![AckPlan::No];
        }
        match self.r.below(6) {
            0 => p.abandon = Some(if self.c(500) { Abandon::Polls(self.n(1, 6) as u32) } else { Abandon::At(*self.r.pick(&[0, 10, 1_000, 20_000, 40_000])) }),
            1 => {
                p.on_close = self.r.pick(&[OnClose::Ignore, OnClose::Reply { delay_us: 2_000_000, code: 0, more: vec![] }]).clone();
                p.owner.push(Op::CloseAbandon(*self.r.pick(&[0, 10, 1_000, 100_000, 3_000_000])));
                if self.c(300) {
                    p.owner.push(Op::Close);
                }
                if self.c(500) {
                    p.owner.push(Op::Sleep(3_000_000));
                }
                p.owner.push(Op::Drop);
            }
            2 => {
                p.owner.push(Op::Close);
                p.owner.push(Op::Drop);
            }
            3 => {
                let kind = self.hard_fault();
                p.net.faults.push(NetFault { trig: Trig::At(*self.r.pick(&[0, 1_000, 100_000])), kind });
                p.owner.push(Op::Sleep(*self.r.pick(&[10, 1_000, 100_000])));
                p.owner.push(Op::Drop);
            }
            _ => {
                let lo = p.owner.iter().position(|x| *x == Op::Gate(0)).unwrap();
                let at = lo + self.r.below(p.owner.len() - lo + 1);
                p.owner.insert(at, Op::Drop);
                if self.c(300) {
                    p.owner.insert(at, Op::Sleep(*self.r.pick(&[10, 1_000, 100_000])));
                }
            }
        }
        if self.c(500) {
            // What the threads keep holding.
            let r = self.reply(&o);
            p.threads.push(vec![Op::Sleep(*self.r.pick(&[10, 100_000, 4_000_000])), Op::Reply(r, 0)]);
        }
        self.timed(vec![p])
    }

    fn c15(&mut self) -> Plan {
        let mut o = self.opts();
        o.rich = Rich { depth: 0, big: false, bytes: false, odd: false };
        o.srv = 1;
        o.emits = 0;
        o.threads = 0;
        o.close_pm = 0;
        o.settle_pm = 0;
        o.cb_op_pm = 0;
        o.cb_reg_pm = 0;
        o.cb_sleep_pm = 0;
        o.cb_reply_pm = *self.r.pick(&[0, 0, 900]);
        o.cb_stash_pm = 0;
        o.fail_pm = 0;
        let mut p = self.talk(&o);
        let mut net = self.open_net();
        net.read_max = 0;
        net.write_max = 0;
        net.chunk = 0;
        net.gap_us = 0;
        net.spurious = 0;
        p.net = net;
        p.owner.retain(|x| matches!(x, Op::Set { .. } | Op::SetFb { .. } | Op::Gate(_)));
        let (ns, ev) = p.owner.iter().find_map(|x| if let Op::Set { ns, ev, .. } = x { Some((ns.clone(), ev.clone())) } else { None }).unwrap();
        p.owner.insert(0, Op::SetFb { ns: ns.clone(), cb: Cb { acts: vec![] } });
        let small = |g: &mut G| Emit { ns: ns.clone(), ev: ev.clone(), binary: g.c(200), args: vec![Ser::U64(g.u())], by_ref: false, abandon: 0, ack: None };
        let flood = self.n(500, 1500) as u32;
        let pause = *self.r.pick(&[0, 0, 1, 50]);
        let mode = self.r.below(4);
        if mode != 1 {
            p.server.push(SrvOp::Flood { ns: ns.clone(), ev: ev.clone(), n: flood, pause_us: pause });
        }
        if mode != 0 {
            let e = small(self);
            let raw = self.c(500);
            p.threads.push(vec![Op::Burst { emit: e, n: self.n(500, 1200) as u32, raw }]);
            if mode == 1 {
                for _ in 0..self.n(1, 5) {
                    p.server.push(SrvOp::Delay(*self.r.pick(&[0, 10, 100])));
                    let s = self.send_event(&o, &ns, &ev);
                    p.server.push(s);
                }
            }
        }
        p.owner.push(Op::WaitCalls(self.n(1, 300) as u32, 100));
        for _ in 0..self.n(0, 3) {
            let e = small(self);
            p.owner.push(if self.c(500) { Op::Emit(e) } else { Op::Raw(e) });
        }
        if self.c(600) {
            p.owner.push(Op::Close);
        }
        let mut p = self.plan(vec![p]);
        p.log = 0;
        p.stall_pm = 0;
        p.spurious = 0;
        p.execs = 1;
        p.policy = Policy::Random(*self.r.pick(&[3, 20, 60]));
        p
    }

    fn c16(&mut self) -> Plan {
        let mut o = self.opts();
        o.fail_pm = *self.r.pick(&[200, 500, 800]);
        o.abandon_pm = 120;
        o.bin_pm = *self.r.pick(&[0, 500, 1000]);
        o.rich.bytes = self.c(800);
        o.emits = self.n(1, 6);
        o.srv = self.n(0, 4);
        o.srv_id_pm = 700;
        o.settle_pm = 900;
        let p = self.talk(&o);
        self.plan(vec![p])
    }

    fn tls(&mut self, p: &mut ClientPlan, good: bool) {
        let host = if good || self.c(800) {
            *self.r.pick(&["sim.example", "sim.example", "a.wild.example", "SIM.Example"])
        } else {
            *self.r.pick(&["localhost", "127.0.0.1", "[::1]", "a.b.wild.example", "wild.example", "xsim.example", "example", "x.localhost"])
        };
        let scheme = *self.r.pick(&["https", "wss"]);
        let port = *self.r.pick(&["", ":8443", ":80"]);
        p.url = format!("{}://{}{}/secret-path?token=secret", scheme, host, port);
        p.net.read_max = if p.net.read_max < 50 { 0 } else { p.net.read_max };
        p.net.write_max = if p.net.write_max < 50 { 0 } else { p.net.write_max };
        p.net.chunk = if p.net.chunk < 50 { 0 } else { p.net.chunk };
        let peer = if good {
            TlsPeer::Tls
        } else {
            let g = self.garbage();
            match self.r.below(9) {
                0 => TlsPeer::Plain,
                1 => TlsPeer::Garbage(g),
                2 => TlsPeer::Silent,
                3 => TlsPeer::Eof,
                4 => TlsPeer::Cut(*self.r.pick(&[0, 5, 100, 500, 1000, 1500])),
                _ => TlsPeer::Tls,
            }
        };
        let cert = if good || self.c(150) { Cert::Good } else { *self.r.pick(&[Cert::WrongHost, Cert::Expired, Cert::Future, Cert::Untrusted, Cert::ClientOnly]) };
        p.tls = Some(Tls { cert, peer });
    }

    fn c17(&mut self) -> Plan {
        if self.c(500) {
            let mut o = self.opts();
            o.settle_pm = 800;
            let mut p = self.talk(&o);
            self.tls(&mut p, true);
            return self.plan(vec![p]);
        }
        let mut p = self.client();
        p.owner = vec![Op::Set { ns: "/".into(), ev: "msg".into(), cb: Cb { acts: vec![] } }, Op::Gate(0)];
        self.tls(&mut p, false);
        if self.c(200) {
            let kind = self.hard_fault();
            let trig = match self.r.below(3) {
                0 => Trig::At(*self.r.pick(&[0, 10, 30_000])),
                1 => Trig::Written(self.n(0, 900)),
                _ => Trig::Delivered(self.n(0, 2500)),
            };
            p.net.faults.push(NetFault { trig, kind });
        }
        if self.c(200) {
            p.hs.resp_delay_us = self.delay10();
        }
        if self.c(100) {
            p.abandon = Some(Abandon::Polls(self.n(1, 8) as u32));
        }
        if self.c(300) {
            p.owner.push(Op::Settle);
        }
        if self.c(300) {
            p.owner.push(Op::Close);
        }
        self.timed(vec![p])
    }

    fn c18(&mut self) -> Plan {
        let n = if self.c(6) { *self.r.pick(&[20, 40]) } else if self.c(100) { 6 } else { self.n(2, 3) };
        let victim = self.r.below(n as usize);
        let mut v = Vec::new();
        for k in 0..n as usize {
            let mut o = self.opts();
            o.settle_pm = 800;
            o.emits = self.n(0, 4);
            o.srv = self.n(0, 5);
            o.threads = self.n(0, 1);
            // Ids collide between the clients.
            self.next_id = 0;
            if n > 6 {
                o.rich = Rich { depth: 0, big: false, bytes: o.rich.bytes, odd: false };
            }
            let mut p = self.talk(&o);
            if n > 6 {
                p.net = Net { lat_us: p.net.lat_us, jitter_us: p.net.jitter_us, chunk: 0, gap_us: 0, read_max: 0, write_max: 0, cap: 0, spurious: 0, flush_waits: false, batch: p.net.batch, faults: vec![] };
            }
            p.url = "http://sim.example/".into();
            p.start_us = if self.c(300) { *self.r.pick(&[10, 100_000, 3_000_000, 40_000_000]) } else { 0 };
            if k == victim {
                let names = vec![("/".to_string(), "msg".to_string())];
                match self.r.below(6) {
                    0 => {
                        let kind = self.hard_fault();
                        p.net.faults.push(NetFault { trig: Trig::At(*self.r.pick(&[1_000, 50_000])), kind });
                    }
                    1 => {
                        let h = self.hostile("/", "msg");
                        p.server.push(h);
                    }
                    2 => {
                        p.owner.insert(0, Op::Set { ns: "/".into(), ev: "boom".into(), cb: Cb { acts: vec![Act::Panic(1)] } });
                        let s = self.send_event(&o, "/", "boom");
                        p.server.push(s);
                    }
                    3 => p.owner.push(Op::Drop),
                    4 => {
                        p.on_close = self.on_close(&o, &names);
                        p.owner.push(Op::Close);
                    }
                    _ => {}
                }
            }
            v.push(p);
        }
        self.plan(v)
    }
}

/// Whether a plan (for instance a shrunk one) still describes something the oracle may judge.
pub fn sensible(p: &Plan) -> bool {
    !p.clients.is_empty()
        && p.clients.iter().all(|c| {
            c.server.iter().all(|s| match s {
                SrvOp::Send { pkt, .. } => pkt.kind != PK::Event || matches!(pkt.args.first(), Some(SArg { v: Val::Str(_), .. })),
                _ => true,
            })
        })
}
