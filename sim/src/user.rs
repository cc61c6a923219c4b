//! The users of the simulated clients: what application code does with the public interface.

use std::future::Future;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client, Error};
use socket_io_protocol::socket::PacketBuilder;

use crate::plan::*;
use crate::val::{read_as, Arg, Ser, Val, ALL_AS};
use crate::world::*;

pub const CALLBACK_PANIC: &str = "sim-callback-panic";

fn plan(c: usize) -> &'static ClientPlan {
    unsafe { &*(&w().plan.clients[c] as *const ClientPlan) }
}

struct SimDelay {
    at: u64,
    armed: Option<Arc<Mutex<Option<Waker>>>>,
}

impl Future for SimDelay {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let _c = simrt::closed();
        if simrt::now() >= self.at {
            return Poll::Ready(());
        }
        match &self.armed {
            Some(a) => *a.lock().unwrap() = Some(cx.waker().clone()),
            None => {
                let a = Arc::new(Mutex::new(Some(cx.waker().clone())));
                self.armed = Some(a.clone());
                simrt::at(self.at, move || {
                    if let Some(x) = a.try_lock().ok().and_then(|mut x| x.take()) {
                        x.wake();
                    }
                });
            }
        }
        Poll::Pending
    }
}

/// Notices when a callback is freed.
struct Token {
    c: usize,
    inst: usize,
}

impl Drop for Token {
    fn drop(&mut self) {
        let _c = simrt::closed();
        if have_world() {
            let seq = simrt::next_seq();
            cw(self.c).insts[self.inst].freed = Some(seq);
        }
    }
}

fn new_inst(c: usize, kind: InstKind) -> Token {
    let made = simrt::next_seq();
    cw(c).insts.push(InstRec { kind, calls: 0, made, freed: None, handed: false });
    Token { c, inst: cw(c).insts.len() - 1 }
}

/// Code under test, which may be preempted wherever it uses the heap.
fn sut<R>(f: impl FnOnce() -> R) -> R {
    let _o = simrt::open();
    f()
}

fn with_client<R>(c: usize, f: impl FnOnce(&mut Client) -> R) -> Option<R> {
    let h = cw(c).handle.clone();
    let mut g = h.lock().unwrap_or_else(|e| e.into_inner());
    match g.as_mut() {
        Some(cl) => catch_unwind(AssertUnwindSafe(|| f(cl))).ok(),
        None => {
            probe("client-busy-or-gone");
            None
        }
    }
}

fn err_name(e: &Error) -> String {
    let s = match e {
        Error::UrlError(..) => "url",
        Error::WebsocketError(_) => "websocket",
        Error::ConnectionError(_) => "connection",
        Error::SpawnError(_) => "spawn",
        Error::ProcessingError(_) => "processing",
        Error::Timeout(_) => "timeout",
        Error::AlreadyClosed => "already-closed",
    };
    // Errors are for showing; that must not panic either.
    format!("{}: {} / {:?}", s, e, e).chars().take(200).collect()
}

pub fn owner(c: usize) {
    let p = plan(c);
    if p.start_us > 0 {
        cw(c).cur_op = "not started".into();
        simrt::sleep(p.start_us * US);
    }
    let inv = simrt::next_seq();
    cw(c).conn =
        Some(ConnRec { inv, t0: simrt::now(), ret: None, t1: 0, result: None, abandoned: false, dialled: Vec::new(), panicked: false });
    cw(c).cur_op = "connect".into();
    let deadline = match &p.abandon {
        Some(Abandon::At(us)) => Some(simrt::now() + us * US),
        _ => None,
    };
    let give_up = |polls: u32| matches!(&p.abandon, Some(Abandon::Polls(n)) if polls >= *n);
    let spawner = SimSpawner(c);
    let r = catch_unwind(AssertUnwindSafe(|| match &p.factory {
        Factory::FromStream => {
            let s = SimStream::new(c);
            simrt::block_on(Client::from_stream(&p.url, s, &spawner), give_up, deadline)
        }
        f => {
            let f = f.clone();
            let dial = move |host: String, port: u16| {
                let _c = simrt::closed();
                simrt::trace(|| format!("c{} dial {}:{}", c, host, port));
                cw(c).conn.as_mut().unwrap().dialled.push((host, port));
                let f = f.clone();
                async move {
                    let (us, fails) = match f {
                        Factory::Dial { delay_us } => (delay_us, false),
                        Factory::Fails { delay_us } => (delay_us, true),
                        Factory::FromStream => unreachable!(),
                    };
                    SimDelay { at: simrt::now() + us * US, armed: None }.await;
                    if fails {
                        fault("dial-fails");
                        Err(io::Error::from(io::ErrorKind::ConnectionRefused))
                    } else {
                        let _c = simrt::closed();
                        Ok(SimStream::new(c))
                    }
                }
            };
            simrt::block_on(Client::connect(&p.url, dial, &spawner), give_up, deadline)
        }
    }));
    let seq = simrt::next_seq();
    let rec = cw(c).conn.as_mut().unwrap();
    rec.ret = Some(seq);
    rec.t1 = simrt::now();
    let client = match r {
        Err(_) => {
            rec.panicked = true;
            None
        }
        Ok(None) => {
            rec.abandoned = true;
            fault("connect-abandoned");
            None
        }
        Ok(Some(Err(e))) => {
            rec.result = Some(Err(err_name(&e)));
            None
        }
        Ok(Some(Ok(cl))) => {
            rec.result = Some(Ok(()));
            Some(cl)
        }
    };
    simrt::trace(|| format!("c{} connect: {:?}", c, cw(c).conn.as_ref().unwrap().result));
    cw(c).progress += 1;
    if let Some(cl) = client {
        cw(c).sender = Some(cl.send.clone());
        let h = cw(c).handle.clone();
        *h.lock().unwrap() = Some(cl);
        for (k, ops) in p.threads.iter().enumerate() {
            cw(c).threads_left += 1;
            simrt::spawn(&format!("c{}.t{}", c, k), move || {
                for op in ops {
                    exec_op(c, op, false);
                }
                cw(c).threads_left -= 1;
                cw(c).progress += 1;
                simrt::notify();
            });
        }
        for op in &p.owner {
            cw(c).cur_op = format!("{:?}", op).chars().take(120).collect();
            exec_op(c, op, true);
        }
    }
    cw(c).cur_op.clear();
    cw(c).owner_done = true;
    simrt::notify();
}

fn reg(c: usize, kind: RegKind, f: impl FnOnce(&mut Client)) {
    let mut f = Some(f);
    with_client(c, |cl| {
        let inv = simrt::next_seq();
        let k = cw(c).regs.len();
        if let RegKind::Set(_, _, i) | RegKind::SetFb(_, i) = &kind {
            cw(c).insts[*i].handed = true;
        }
        simrt::trace(|| format!("c{} {:?}", c, kind));
        cw(c).regs.push(RegRec { kind: kind.clone(), inv, ret: None, t_inv: simrt::now(), t_ret: 0 });
        {
            let f = f.take().unwrap();
            let _o = simrt::open();
            f(cl);
        }
        let ret = simrt::next_seq();
        let r = &mut cw(c).regs[k];
        r.ret = Some(ret);
        r.t_ret = simrt::now();
        simrt::point("registered");
    });
}

fn event_cb(c: usize, cb: &Cb) -> (usize, impl FnMut(&Args, Option<AckBuilder>) + Send + 'static) {
    let token = new_inst(c, InstKind::Event);
    let inst = token.inst;
    let cb = cb.clone();
    (inst, move |args: &Args, ack: Option<AckBuilder>| {
        let t = &token;
        callback(t.c, t.inst, &cb, args, ack);
    })
}

fn ack_cb(c: usize, emit: usize, cb: &Cb) -> (usize, impl FnOnce(&Args) + Send + 'static) {
    let token = new_inst(c, InstKind::Ack(emit));
    let inst = token.inst;
    let cb = cb.clone();
    (inst, move |args: &Args| {
        let t = token;
        callback(t.c, t.inst, &cb, args, None);
    })
}

fn callback(c: usize, inst: usize, cb: &Cb, args: &Args, ack: Option<AckBuilder>) {
    let _c = simrt::closed();
    let seq = simrt::next_seq();
    let call = cw(c).calls.len();
    cw(c).insts[inst].calls += 1;
    let nth = cw(c).insts[inst].calls;
    cw(c).progress += 1;
    cw(c).calls.push(CallRec {
        inst,
        seq,
        t: simrt::now(),
        ret: None,
        args: Vec::new(),
        typed: Vec::new(),
        has_ack: ack.is_some(),
        oddity: None,
        panicked: false,
        thread: simrt::co_name(),
    });
    simrt::mix(0xCA00 + inst as u64);
    simrt::point("callback");
    read_args(c, call, args);
    simrt::trace(|| {
        let v: Vec<String> =
            cw(c).calls[call].args.iter().map(|a| a.as_ref().map_or_else(|e| format!("<{}>", e), |v| v.to_string())).collect();
        format!("c{} callback #{} runs, args [{}], responder {}", c, inst, v.join(", "), ack.is_some())
    });
    simrt::notify();
    let mut ack = ack;
    for a in &cb.acts {
        match a {
            Act::Reply(r) => {
                if let Some(b) = ack.take() {
                    reply(c, b, call, r);
                }
            }
            Act::Stash => {
                if let Some(b) = ack.take() {
                    cw(c).pool.push_back((b, call));
                    simrt::notify();
                }
            }
            Act::Op(op) => exec_op(c, op, false),
            Act::Panic(n) => {
                if nth == *n {
                    fault("callback-panics");
                    cw(c).calls[call].panicked = true;
                    cw(c).inst_panics += 1;
                    std::panic::panic_any(CALLBACK_PANIC);
                }
            }
        }
    }
    let seq = simrt::next_seq();
    cw(c).calls[call].ret = Some(seq);
}

fn read_args(c: usize, call: usize, args: &Args) {
    let n = args.len();
    let mut odd = None;
    if args.is_empty() != (n == 0) {
        odd = Some("is_empty disagrees with len".to_string());
    }
    if args.get(usize::MAX).is_some() || args.get(n + 1).is_some() {
        odd = Some("there is an argument far beyond len".into());
    }
    if args.get(n).is_some() {
        odd = Some(format!("there is an argument at {}, beyond len", n));
    }
    let mut vals = Vec::new();
    let mut typed = Vec::new();
    for i in 0..n {
        let Some(a) = args.get(i) else {
            odd = Some(format!("no argument {} of {}", i, n));
            break;
        };
        let v = a.to_json_value().map(|v| Val::from_json(&v)).map_err(|e| format!("{} / {:?}", e, e));
        if call < 60 || call % 16 == 0 {
            let shown = format!("{} {:?}", a, a).len();
            if shown == 0 {
                odd = Some("empty display".into());
            }
            typed.push(ALL_AS.iter().map(|t| read_as(&a, *t)).collect());
        }
        vals.push(v);
    }
    if call < 60 {
        if format!("{}", args).is_empty() {
            odd = Some("empty display".into());
        }
        let it: Vec<_> = args.iter().map(|a| a.to_json_value().map(|v| Val::from_json(&v)).ok()).collect();
        if it.len() != n || it.iter().zip(&vals).any(|(a, b)| *a != b.as_ref().ok().cloned()) {
            odd = Some("iter disagrees with get".into());
        }
    }
    let r = &mut cw(c).calls[call];
    r.args = vals;
    r.typed = typed;
    r.oddity = odd;
}

fn note_arg(r: Result<(), String>, s: &Ser, trouble: &mut Option<String>) -> bool {
    match (&r, s.fails()) {
        (Ok(()), true) => *trouble = Some(format!("adding {:?} succeeded although its serialization failed", s)),
        (Err(e), false) => *trouble = Some(format!("adding {:?} failed: {}", s, e)),
        _ => {}
    }
    r.is_ok()
}

macro_rules! add_args {
    ($b:ident, $args:expr, $by_ref:expr, $binary:expr, $rec:ident) => {
        for s in $args {
            if $by_ref || s.fails() {
                let r = sut(|| $b.arg_ref(&Arg(s)).map_err(|e| e.to_string()));
                if note_arg(r, s, &mut $rec.arg_trouble) {
                    $rec.args.push(s.denotes($binary).canon());
                } else {
                    $rec.fail_args += 1;
                    fault("argument-fails");
                }
            } else {
                match sut(|| $b.arg(&Arg(s))) {
                    Ok(x) => {
                        $b = x;
                        $rec.args.push(s.denotes($binary).canon());
                    }
                    Err(e) => {
                        note_arg(Err(e.to_string()), s, &mut $rec.arg_trouble);
                        cw_push($rec);
                        return;
                    }
                }
            }
        }
    };
}

struct Rec {
    c: usize,
    kind: EK,
    ns: String,
    args: Vec<Val>,
    has_id: bool,
    binary: bool,
    inst: Option<usize>,
    arg_trouble: Option<String>,
    t0: u64,
    fail_args: u32,
}

/// A builder that was never handed over.
fn cw_push(r: Rec) {
    let c = r.c;
    push_emit(r, false);
    cw(c).progress += 1;
}

fn push_emit(r: Rec, sent: bool) -> usize {
    let inv = simrt::next_seq();
    let c = r.c;
    simrt::trace(|| {
        format!(
            "c{} {} {:?} ns={:?} args={} id={} binary={}",
            c,
            if sent { "hands over" } else { "abandons" },
            r.kind,
            r.ns,
            crate::val::show(&r.args),
            r.has_id,
            r.binary
        )
    });
    let calls_at = cw(c).calls.len();
    cw(c).emits.push(EmitRec {
        kind: r.kind,
        ns: r.ns,
        args: r.args,
        has_id: r.has_id,
        inv,
        ret: None,
        t_inv: r.t0,
        t_ret: 0,
        sent,
        inst: r.inst,
        calls_at,
        binary: r.binary,
        arg_trouble: r.arg_trouble,
        fail_args: r.fail_args,
    });
    cw(c).emits.len() - 1
}

fn handed(c: usize, k: usize) {
    let seq = simrt::next_seq();
    let calls = cw(c).calls.len();
    let e = &mut cw(c).emits[k];
    e.calls_at = calls;
    e.ret = Some(seq);
    e.t_ret = simrt::now();
    cw(c).progress += 1;
    simrt::notify();
    simrt::point("handed-over");
}

fn emit(c: usize, e: &Emit) {
    with_client(c, |cl| {
        let mut rec = Rec {
            c,
            kind: EK::Event,
            ns: e.ns.clone(),
            args: vec![Val::s(&e.ev)],
            has_id: e.ack.is_some(),
            binary: e.binary,
            inst: None,
            arg_trouble: None,
            t0: simrt::now(),
            fail_args: 0,
        };
        let mut b = sut(|| if e.ns == "/" && !e.by_ref { cl.emit(&e.ev) } else { cl.namespace_emit(&e.ns, &e.ev) });
        let slot = cw(c).emits.len();
        if e.binary || !e.by_ref {
            b = b.binary(e.binary);
        }
        if let Some(cb) = &e.ack {
            let (inst, f) = ack_cb(c, slot, cb);
            cw(c).insts[inst].handed = true;
            rec.inst = Some(inst);
            b = sut(|| b.callback(f));
        }
        if e.abandon == 1 {
            sut(|| drop(b));
            fault("builder-abandoned");
            cw_push(rec);
            return;
        }
        let mut b = sut(|| b.args());
        add_args!(b, &e.args, e.by_ref, e.binary, rec);
        if e.abandon == 2 {
            sut(|| drop(b));
            fault("builder-abandoned");
            cw_push(rec);
            return;
        }
        // A callback or a reply may have recorded something meanwhile.
        let k = push_emit(rec, true);
        if let Some(i) = cw(c).emits[k].inst {
            cw(c).insts[i].kind = InstKind::Ack(k);
        }
        simrt::point("hand-over");
        sut(|| b.send());
        handed(c, k);
    });
}

fn raw(c: usize, e: &Emit) {
    let Some(tx) = cw(c).sender.clone() else { return };
    let mut rec = Rec {
        c,
        kind: EK::Event,
        ns: e.ns.clone(),
        args: vec![Val::s(&e.ev)],
        has_id: false,
        binary: e.binary,
        inst: None,
        arg_trouble: None,
            t0: simrt::now(),
        fail_args: 0,
    };
    let mut b = PacketBuilder::new_event(&e.ev, e.ns.clone(), None, e.binary);
    for s in &e.args {
        let r = sut(|| b.serialize_arg(&Arg(s)).map_err(|e| e.to_string()));
        if note_arg(r, s, &mut rec.arg_trouble) {
            rec.args.push(s.denotes(e.binary).canon());
        } else {
            rec.fail_args += 1;
        }
    }
    let msgs = sut(|| b.finish());
    let k = push_emit(rec, true);
    simrt::point("hand-over");
    let _ = sut(|| tx.unbounded_send(msgs));
    handed(c, k);
}

fn reply(c: usize, b: AckBuilder, call: usize, r: &Reply) {
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let mut rec = Rec {
            c,
            kind: EK::Reply(call),
            ns: String::new(),
            args: Vec::new(),
            has_id: true,
            binary: r.binary,
            inst: None,
            arg_trouble: None,
            t0: simrt::now(),
            fail_args: 0,
        };
        if r.abandon == 1 {
            sut(|| drop(b));
            cw_push(rec);
            return;
        }
        let b = if r.binary || !r.by_ref { b.binary(r.binary) } else { b };
        let mut b = sut(|| b.args());
        add_args!(b, &r.args, r.by_ref, r.binary, rec);
        if r.abandon == 2 {
            sut(|| drop(b));
            cw_push(rec);
            return;
        }
        let k = push_emit(rec, true);
        simrt::point("hand-over");
        sut(|| b.send());
        handed(c, k);
    }));
}

pub fn exec_op(c: usize, op: &Op, owner: bool) {
    simrt::point("op");
    match op {
        Op::Set { ns, ev, cb } => {
            let (inst, f) = event_cb(c, cb);
            reg(c, RegKind::Set(ns.clone(), ev.clone(), inst), |cl| {
                if ns == "/" && inst % 2 == 0 {
                    cl.set_event_callback(ev, f)
                } else {
                    cl.set_namespace_event_callback(ns, ev, f)
                }
            });
        }
        Op::SetFb { ns, cb } => {
            let (inst, f) = event_cb(c, cb);
            reg(c, RegKind::SetFb(ns.clone(), inst), |cl| {
                if ns == "/" && inst % 2 == 0 {
                    cl.set_fallback_callback(f)
                } else {
                    cl.set_namespace_fallback_callback(ns, f)
                }
            });
        }
        Op::SetMany { names, cb } => {
            let (inst, f) = event_cb(c, cb);
            let f: socket_io_client::EventCallback = f.into();
            for (ns, ev) in names {
                let f = f.clone();
                match ev {
                    Some(ev) => reg(c, RegKind::Set(ns.clone(), ev.clone(), inst), |cl| cl.set_namespace_event_callback(ns, ev, f)),
                    None => reg(c, RegKind::SetFb(ns.clone(), inst), |cl| cl.set_namespace_fallback_callback(ns, f)),
                }
            }
        }
        Op::Clear { ns, ev } => {
            let odd = cw(c).regs.len() % 2 == 0;
            reg(c, RegKind::Clear(ns.clone(), ev.clone()), |cl| {
                if ns == "/" && odd {
                    cl.clear_event_callback(ev)
                } else {
                    cl.clear_namespace_event_callback(ns, ev)
                }
            });
        }
        Op::ClearFb { ns } => {
            let odd = cw(c).regs.len() % 2 == 0;
            reg(c, RegKind::ClearFb(ns.clone()), |cl| {
                if ns == "/" && odd {
                    cl.clear_fallback_callback()
                } else {
                    cl.clear_namespace_fallback_callback(ns)
                }
            });
        }
        Op::Emit(e) => emit(c, e),
        Op::Burst { emit: e, n, raw: r } => {
            for k in 0..*n {
                let mut e = e.clone();
                e.args.push(Ser::U64(k as u64));
                if *r {
                    raw(c, &e)
                } else {
                    emit(c, &e)
                }
            }
        }
        Op::Raw(e) => raw(c, e),
        Op::Reply(r, ms) => {
            simrt::wait("responder", Some(ms * MS), move || !cw(c).pool.is_empty());
            if let Some((b, call)) = cw(c).pool.pop_front() {
                reply(c, b, call, r);
            }
        }
        Op::Sleep(us) => simrt::sleep(us * US),
        Op::Gate(g) => {
            cw(c).gates[*g as usize % 32] = true;
            cw(c).progress += 1;
            simrt::notify();
            poke(c);
        }
        Op::WaitGate(g) => {
            let g = *g as usize % 32;
            simrt::wait("gate", Some(60 * SEC), move || cw(c).gates[g]);
        }
        Op::WaitCalls(n, ms) => {
            let n = *n as usize;
            simrt::wait("calls", Some(ms * MS), move || cw(c).calls.len() >= n);
        }
        Op::WaitRecv(n, ms) => {
            let n = *n;
            simrt::wait("recv", Some(ms * MS), move || cw(c).srv.recv_pkts >= n);
        }
        Op::Settle => settle(c),
        Op::Close if owner => close(c, None),
        Op::CloseAbandon(us) if owner => close(c, Some(*us)),
        Op::Drop if owner => drop_client(c),
        Op::Close | Op::CloseAbandon(_) | Op::Drop => {}
    }
}

/// Let the simulation run until nothing moves any more.
pub fn settle(c: usize) {
    let inv = simrt::next_seq();
    let t0 = simrt::now();
    let mut last = u64::MAX;
    let mut same = 0;
    let mut capped = true;
    while simrt::now() < t0 + 3000 * SEC {
        simrt::sleep(SEC);
        let p = cw(c).progress;
        if p == last && quiet(c) {
            same += 1;
        } else {
            same = 0;
        }
        last = p;
        if same >= 2 {
            capped = false;
            break;
        }
    }
    let ret = simrt::next_seq();
    let (r, s) = (cw(c).recv.len(), cw(c).sent.len());
    simrt::trace(|| format!("c{} settled{}", c, if capped { " (not)" } else { "" }));
    cw(c).settles.push(SettleRec { inv, ret, t: simrt::now(), recv_len: r, sent_len: s, capped, calls_len: cw(c).calls.len() });
}

fn take_client(c: usize) -> Option<Client> {
    let h = cw(c).handle.clone();
    let x = h.lock().unwrap_or_else(|e| e.into_inner()).take();
    x
}

fn close(c: usize, abandon_us: Option<u64>) {
    let Some(mut cl) = take_client(c) else { return };
    let first = cw(c).closes.is_empty();
    let inv = simrt::next_seq();
    simrt::trace(|| format!("c{} close()", c));
    let k = cw(c).closes.len();
    let (calls_at, inq) = (cw(c).calls.len(), cw(c).sent.iter().filter(|s| s.avail.is_some()).count());
    cw(c).closes.push(CloseRec {
        inv,
        t0: simrt::now(),
        ret: None,
        t1: 0,
        result: None,
        abandoned: false,
        rethrown: false,
        panicked: false,
        first,
        calls_at,
        inq,
    });
    let deadline = simrt::now() + abandon_us.map_or(200 * SEC, |us| us * US);
    let r = catch_unwind(AssertUnwindSafe(|| simrt::block_on(asked(c, k, cl.close()), |n| n == u32::MAX, Some(deadline))));
    let seq = simrt::next_seq();
    let rec = &mut cw(c).closes[k];
    rec.ret = Some(seq);
    rec.t1 = simrt::now();
    match r {
        Ok(Some(r)) => rec.result = Some(r.map_err(|e| err_name(&e))),
        Ok(None) => {
            rec.abandoned = true;
            if abandon_us.is_some() {
                fault("close-abandoned");
            }
        }
        Err(e) => {
            rec.rethrown = simrt::payload_str(&*e) == CALLBACK_PANIC;
            rec.panicked = !rec.rethrown;
        }
    }
    simrt::trace(|| format!("c{} close: {:?}", c, cw(c).closes[k].result));
    cw(c).progress += 1;
    let h = cw(c).handle.clone();
    *h.lock().unwrap_or_else(|e| e.into_inner()) = Some(cl);
}

/// Notes when the close has been asked for.
async fn asked<F: std::future::Future>(c: usize, k: usize, f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut first = true;
    std::future::poll_fn(|cx| {
        let r = f.as_mut().poll(cx);
        if first {
            first = false;
            cw(c).closes[k].calls_at = cw(c).calls.len();
        }
        r
    })
    .await
}

pub fn drop_client(c: usize) {
    let Some(cl) = take_client(c) else { return };
    cw(c).drop_inv = Some((simrt::next_seq(), simrt::now()));
    simrt::trace(|| format!("c{} client dropped", c));
    let _ = catch_unwind(AssertUnwindSafe(move || sut(|| drop(cl))));
    cw(c).drop_at = Some((simrt::next_seq(), simrt::now()));
    cw(c).progress += 1;
    simrt::point("dropped");
}

// ---- the run ---------------------------------------------------------------------------------------

struct SimLogger;

impl log::Log for SimLogger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if !simrt::in_sim() {
            return;
        }
        // What the code under test does to show its values is not closed.
        let s = format!("{}", r.args());
        if r.target().starts_with("socket_io") {
            simrt::trace(|| format!("log {}: {}", r.level(), s.chars().take(160).collect::<String>()));
            simrt::point("log");
        }
    }
    fn flush(&self) {}
}

static LOGGER: SimLogger = SimLogger;

pub fn process_setup() {
    let _ = log::set_logger(&LOGGER);
    std::panic::set_hook(Box::new(|i| {
        let msg = simrt::payload_str_ref(i.payload());
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if simrt::in_sim() {
            if msg != CALLBACK_PANIC {
                simrt::record_panic(msg, loc);
            }
        } else {
            eprintln!("panic: {} at {}", msg, loc);
        }
    }));
    #[cfg(feature = "hooks")]
    socket_io_client::sync::set_lock_hook(|| simrt::point("lock"));
    // Thread-locals that std makes on first use are made now.
    let _ = (std::thread::current().id(), std::collections::HashMap::<u8, u8>::new());
}

/// The whole of a simulated run, as its first coroutine.
pub fn main(plan: Rc<Plan>) {
    let n = plan.clients.len();
    let (log, execs) = (plan.log, plan.execs.max(1));
    install(plan);
    log::set_max_level(match log {
        0 => log::LevelFilter::Off,
        1 => log::LevelFilter::Info,
        _ => log::LevelFilter::Trace,
    });
    for k in 0..execs {
        simrt::spawn(&format!("exec{}", k), executor);
    }
    for c in 0..n {
        simrt::spawn(&format!("c{}", c), move || owner(c));
    }
    let all_done = move || (0..n).all(|c| cw(c).owner_done && cw(c).threads_left == 0);
    if !simrt::wait("everybody", Some(9000 * SEC), all_done) {
        let who: Vec<String> = simrt::blocked_coroutines().into_iter().filter(|s| s.starts_with('c') || s.contains("futex")).collect();
        violate("stuck", format!("after {} s of simulated time these have not come to an end: {}", simrt::now() / SEC, who.join("; ")));
        return;
    }
    // Everything still connected comes to rest; then the user lets go of it.
    for c in 0..n {
        let h = cw(c).handle.clone();
        let there = h.lock().unwrap_or_else(|e| e.into_inner()).is_some();
        if there {
            settle(c);
        }
    }
    for c in 0..n {
        drop_client(c);
    }
    simrt::sleep(15 * SEC);
    for c in 0..n {
        cw(c).end_check = Some(EndCheck {
            transport_held: cw(c).created.is_some() && cw(c).dropped.is_none(),
            tasks: w().tasks.iter().filter(|t| t.client == c && t.state != TState::Done).count(),
            not_freed: cw(c).insts.iter().enumerate().filter(|(_, i)| i.freed.is_none()).map(|(k, _)| k).collect(),
        });
        // What is left of it can still be used, to no effect.
        let before = cw(c).recv.len();
        while let Some((b, call)) = cw(c).pool.pop_front() {
            probe("leftover-responder");
            reply(c, b, call, &Reply { binary: false, args: vec![Ser::U8(1)], by_ref: true, abandon: 0 });
        }
        if let Some(tx) = cw(c).sender.take() {
            let m = PacketBuilder::new_event("late", "/", None, false).finish();
            let _ = catch_unwind(AssertUnwindSafe(|| tx.unbounded_send(m).is_err()));
        }
        cw(c).before_leftovers = before;
    }
    simrt::sleep(SEC);
    w().finished = true;
    simrt::notify();
}
