//! Judges the recorded history of a run. Nothing here looks at how the client works: only at what
//! its users called and saw, and at what arrived at its peers.

use std::collections::{HashMap, HashSet};

use crate::plan::*;
use crate::val::{expect_as, Val, ALL_AS};
use crate::wire::{Packet, PK};
use crate::world::*;

const INF: u64 = u64::MAX;

/// Most messages in one direction that may pass while one in the other is waiting.
const STARVE: usize = 200;

struct Ctx<'a> {
    c: usize,
    x: &'a CW,
    p: &'a ClientPlan,
    plan: &'a Plan,
    out: Vec<Violation>,
    /// Simulated time that threads of the client's side may have been held up for.
    slack: u64,
    multi: bool,
    tls: bool,
    corrupt: bool,
    hostile: bool,
}

impl Ctx<'_> {
    fn report(&mut self, props: &[&str], what: &str, msg: impl Into<String>) {
        let msg = format!("client {}: {}", self.c, msg.into());
        let mut all: Vec<String> = props.iter().map(|s| s.to_string()).collect();
        let behaviour = props.iter().any(|p| ["C01", "C02", "C03", "C04", "C05", "C07", "C08"].contains(p));
        if self.multi && behaviour {
            all.push("C18".into());
        }
        if self.tls && behaviour {
            all.push("C17".into());
        }
        for p in all {
            self.out.push(Violation { class: format!("{}:{}", p, what), msg: msg.clone() });
        }
    }
}

pub fn judge(world: &World) -> Vec<Violation> {
    let mut out = world.violations.clone();
    let panics = simrt::panics();
    for p in &panics {
        out.push(Violation { class: "panic".into(), msg: format!("{} panicked: {} at {}", p.co, p.message, p.location) });
    }
    let stuck = out.iter().any(|v| v.class == "stuck");
    for (c, x) in world.clients.iter().enumerate() {
        let p = &world.plan.clients[c];
        let mut ctx = Ctx {
            c,
            x,
            p,
            plan: &world.plan,
            out: Vec::new(),
            slack: slack(&world.plan, p),
            multi: world.plan.clients.len() > 1,
            tls: p.tls.is_some(),
            corrupt: x.hard.iter().any(|h| h.2 == "corrupt"),
            hostile: x.sent.iter().any(|s| matches!(s.kind, SK::Hostile(_))),
        };
        ctx.connect(world);
        let recv_of = ctx.outbound();
        let call_item = ctx.inbound(&recv_of);
        ctx.replies(&call_item);
        ctx.heartbeat(&call_item);
        ctx.close(world, &recv_of);
        ctx.starvation(&recv_of, &call_item);
        ctx.blocking();
        if !stuck {
            ctx.release(world);
        }
        ctx.tls_stream();
        out.extend(ctx.out);
    }
    if world.clients.len() > 1 {
        let extra: Vec<Violation> = panics
            .iter()
            .map(|p| Violation { class: "C18:panic".into(), msg: format!("{} panicked: {} at {}", p.co, p.message, p.location) })
            .collect();
        out.extend(extra);
    }
    out
}

fn sleeps(ops: &[Op]) -> u64 {
    ops.iter()
        .map(|o| match o {
            Op::Sleep(us) => us * US,
            Op::WaitGate(_) => 60 * SEC,
            Op::Reply(_, ms) | Op::WaitCalls(_, ms) | Op::WaitRecv(_, ms) => ms * MS,
            _ => 0,
        })
        .sum()
}

fn slack(plan: &Plan, p: &ClientPlan) -> u64 {
    // A callback that sleeps holds up its connection, and with few executors also others.
    let mut cb = 0;
    let events: u64 = plan
        .clients
        .iter()
        .flat_map(|c| &c.server)
        .map(|o| match o {
            SrvOp::Flood { n, .. } => *n as u64,
            SrvOp::Send { .. } | SrvOp::Hostile { .. } => 1,
            _ => 0,
        })
        .sum();
    for (_, o) in plan.all_ops() {
        let f = |cb: &Cb| -> u64 {
            cb.acts.iter().map(|a| if let Act::Op(o) = a { sleeps(std::slice::from_ref(o)) } else { 0 }).sum()
        };
        cb += match o {
            Op::Set { cb, .. } | Op::SetFb { cb, .. } | Op::SetMany { cb, .. } => f(cb) * events.max(20),
            Op::Emit(Emit { ack: Some(cb), .. }) => f(cb) * 4,
            _ => 0,
        };
    }
    let stalls = if plan.stall_pm > 0 { plan.stall_max_us * US * plan.stall_budget as u64 } else { 0 };
    cb + stalls + 100 * MS + plan.window_us * US * 50 + p.net.lat_us * US / 100
}

fn opt_min(a: u64, b: u64) -> u64 {
    a.min(b)
}

impl Ctx<'_> {
    // ---- connecting ------------------------------------------------------------------------------

    fn connect(&mut self, world: &World) {
        let Some(conn) = self.x.conn.clone() else { return };
        let p = self.p;
        let (host, port, target) = split_url(&p.url);
        for d in &conn.dialled {
            if *d != (host.clone(), port) {
                self.report(&["C07"], "dial", format!("dialled {:?} instead of {:?} for {}", d, (&host, port), p.url));
            }
        }
        if p.factory != Factory::FromStream && conn.dialled.len() != 1 {
            self.report(&["C07"], "dial", format!("dialled {} times for {}", conn.dialled.len(), p.url));
        }
        if let Some(req) = &self.x.srv.request {
            let want_path = target.split('?').next().unwrap().to_string();
            let want_q: Vec<String> = target.split_once('?').map_or(Vec::new(), |x| x.1.split('&').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect());
            let mut it = req.line.split(' ');
            let (m, t, v) = (it.next().unwrap_or(""), it.next().unwrap_or("").to_string(), it.next().unwrap_or(""));
            let path = t.split('?').next().unwrap().to_string();
            let q: Vec<String> = t.split_once('?').map_or(Vec::new(), |x| x.1.split('&').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect());
            let mut rest = q.clone();
            let mut missing = Vec::new();
            for w in want_q.iter().cloned().chain(["EIO=4".to_string(), "transport=websocket".to_string()]) {
                match rest.iter().position(|x| *x == w) {
                    Some(i) => {
                        rest.remove(i);
                    }
                    None => missing.push(w),
                }
            }
            let order: Vec<&String> = q.iter().filter(|x| want_q.contains(x)).collect();
            let bad_order = want_q.iter().collect::<std::collections::BTreeSet<_>>().len() == want_q.len()
                && !want_q.contains(&"EIO=4".to_string())
                && !want_q.contains(&"transport=websocket".to_string())
                && order.into_iter().ne(want_q.iter());
            if m != "GET" || v != "HTTP/1.1" || path != want_path || !missing.is_empty() || bad_order {
                self.report(&["C07"], "request", format!("requested {:?} for {} (missing {:?})", req.line, p.url, missing));
            }
        }
        let Some(ret) = conn.ret else {
            self.report(&["C06"], "connect-hangs", format!("connecting has not come to an end by {} s", simrt::now() / SEC));
            return;
        };
        if conn.panicked {
            self.report(&["C06"], "connect-panics", "connecting panicked");
        }
        let created = self.x.created;
        if let Some((_, t)) = created {
            let took = conn.t1 - t.max(conn.t0);
            if took > 10 * SEC + self.slack {
                self.report(&["C06", "C17"][..1 + self.tls as usize], "connect-late", format!("connecting took {:.3} s after the transport existed", took as f64 / 1e9));
            }
        }
        let open = self.x.sent.iter().find(|s| matches!(s.kind, SK::Open)).cloned();
        let open_ok = open.as_ref().and_then(|o| o.avail).is_some_and(|a| a < ret);
        match &conn.result {
            Some(Ok(())) => {
                if !open_ok && !self.corrupt {
                    self.report(&["C06"], "connected-without-open", "connecting succeeded although no Open message had arrived");
                }
            }
            _ => {
                // It must have worked if nothing was in the way.
                let undisturbed = p.hs.conforming()
                    && !conn.abandoned
                    && !p.spawn_fails
                    && !self.x.hard.iter().any(|h| h.0 < ret)
                    && !self.x.sent.iter().any(|s| s.seq < ret && disturbs(&s.kind))
                    && p.tls.as_ref().is_none_or(|t| t.trusted(&p.url))
                    && !matches!(p.factory, Factory::Fails { .. });
                let in_time = match (&open, created) {
                    (Some(o), Some((_, t))) if o.avail.is_some() => o.avail_t < t + 10 * SEC - 100 * MS - self.slack.min(5 * SEC),
                    _ => false,
                };
                if undisturbed && in_time {
                    self.report(
                        &["C07"],
                        "not-connected",
                        format!("connecting failed ({:?}) although the server did everything right within {:.3} s", conn.result, (open.unwrap().avail_t - created.unwrap().1) as f64 / 1e9),
                    );
                } else if !conn.abandoned && undisturbed && created.is_some() && conn.t1 + 200 * MS + self.slack < created.unwrap().1 + 10 * SEC && open.as_ref().is_none_or(|o| o.avail.is_none()) {
                    self.report(&["C07"], "gave-up-early", format!("connecting gave up after {:.3} s: {:?}", (conn.t1 - created.unwrap().1) as f64 / 1e9, conn.result));
                }
                // Nothing is left behind.
                let limit = self.held(world, conn.t1) + SEC + self.slack;
                if created.is_some() && self.x.dropped.is_none_or(|d| d.1 > limit) {
                    self.report(&["C06", "C14"], "transport-leaked", format!("the transport is not released after connecting ended with {:?} (abandoned {})", conn.result, conn.abandoned));
                }
                if world.tasks.iter().any(|t| t.client == self.c && t.ended.is_none_or(|e| e.1 > limit)) {
                    self.report(&["C06", "C14"], "task-leaked", format!("a task keeps running after connecting ended with {:?} (abandoned {})", conn.result, conn.abandoned));
                }
            }
        }
    }

    // ---- what the server received -----------------------------------------------------------------

    /// The first thing after which the connection need not work any more; `close` itself apart.
    fn disruption(&self) -> u64 {
        let x = self.x;
        let mut d = x.hard.iter().map(|h| h.0).min().unwrap_or(INF);
        d = opt_min(d, x.calls.iter().filter(|k| k.panicked).map(|k| k.seq).min().unwrap_or(INF));
        d = opt_min(d, x.drop_inv.map_or(INF, |v| v.0));
        d = opt_min(d, x.sent.iter().filter(|s| disturbs(&s.kind)).map(|s| s.seq).min().unwrap_or(INF));
        d
    }

    fn close_inv(&self) -> u64 {
        self.x.closes.first().map_or(INF, |c| c.inv)
    }

    /// For every emission, by which received message it arrived.
    fn outbound(&mut self) -> Vec<Option<usize>> {
        let x = self.x;
        let mut of: Vec<Option<usize>> = vec![None; x.emits.len()];
        let mut matched: Vec<Option<usize>> = vec![None; x.recv.len()];
        let mut by_content: HashMap<String, Vec<usize>> = HashMap::new();
        let key = |ns: &str, id: bool, args: &[Val]| format!("{}|{}|{:?}", ns, id, args);
        for (k, e) in x.emits.iter().enumerate() {
            if e.sent && matches!(e.kind, EK::Event) {
                by_content.entry(key(&e.ns, e.has_id, &e.args)).or_default().push(k);
            }
        }
        let tricky = x.emits.iter().any(|e| e.fail_args > 0 || !e.sent);
        let extra16: &[&str] = if tricky { &["C01", "C16"] } else { &["C01"] };
        let mut closed = false;
        for (r, rec) in x.recv.iter().enumerate() {
            match &rec.item {
                RI::Pkt(p) if p.kind == PK::Event => {
                    let cands = by_content.get(&key(&p.ns, p.id.is_some(), &p.args)).cloned().unwrap_or_default();
                    // Of several alike, the one that was handed over first: one whose
                    // hand-over hasn't ended may not have happened at all.
                    match cands.iter().filter(|k| of[**k].is_none() && x.emits[**k].inv < rec.seq).min_by_key(|k| x.emits[**k].ret.unwrap_or(INF)) {
                        Some(k) => {
                            of[*k] = Some(r);
                            matched[r] = Some(*k);
                        }
                        None if r >= x.before_leftovers && x.end_check.is_some() => {}
                        None => {
                            let what = if cands.iter().any(|k| of[*k].is_some()) { "duplicated" } else { "not-emitted" };
                            self.report(extra16, what, format!("the server received {} which {}", p.show(), if what == "duplicated" { "was emitted less often" } else { "was not emitted so" }));
                        }
                    }
                }
                RI::Pkt(p) if p.kind == PK::Ack => {}
                RI::Pkt(p) => {
                    self.report(&["C01"], "not-emitted", format!("the server received {}", p.show()));
                }
                RI::Bad(e) if closed => self.report(&["C09"], "after-close", format!("the client wrote {}", e)),
                RI::Bad(e) => {
                    let mut v = extra16.to_vec();
                    if e.contains("ack without") || e.contains("\"3") || e.contains("\"6") || e.contains("\"43") || e.contains("\"46") {
                        v.push("C04");
                    }
                    if e.contains("binary packet") {
                        v.push("C09");
                    }
                    self.report(&v, "malformed", format!("the server received something malformed: {}", e));
                }
                RI::Close(_) => closed = true,
                _ => {}
            }
        }
        for e in &x.emits {
            if let Some(t) = &e.arg_trouble {
                self.report(&["C01", "C16"], "argument", t.clone());
            }
        }
        // Ids that belong to two emissions at a time.
        let mut ids: HashMap<(String, u64), usize> = HashMap::new();
        for (r, rec) in x.recv.iter().enumerate() {
            if let (RI::Pkt(p), Some(k)) = (&rec.item, matched[r]) {
                if let Some(id) = p.id {
                    if let Some(old) = ids.insert((p.ns.clone(), id), k) {
                        let acked = x.emits[old].inst.is_some_and(|i| x.calls.iter().any(|c| c.inst == i && c.seq < x.emits[k].inv));
                        if !acked {
                            self.report(&["C03"], "ack-id-reused", format!("two pending emissions share ack id {} in {:?}: {} and {}", id, p.ns, show_emit(&x.emits[old]), show_emit(&x.emits[k])));
                        }
                    }
                }
            }
        }
        // Replies are matched later; here by content only, as far as that is unique.
        let mut reps: Vec<usize> = (0..x.emits.len()).filter(|k| x.emits[*k].sent && matches!(x.emits[*k].kind, EK::Reply(_))).collect();
        for (r, rec) in x.recv.iter().enumerate() {
            if let RI::Pkt(p) = &rec.item {
                if p.kind == PK::Ack {
                    if let Some(k) = reps.iter().copied().filter(|k| x.emits[*k].args == p.args && x.emits[*k].inv < rec.seq).min_by_key(|k| x.emits[*k].ret.unwrap_or(INF)) {
                        reps.retain(|i| *i != k);
                        of[k] = Some(r);
                        matched[r] = Some(k);
                    } else if !(r >= x.before_leftovers && x.end_check.is_some()) {
                        let dup = x.emits.iter().any(|e| matches!(e.kind, EK::Reply(_)) && e.args == p.args && e.sent);
                        let mut v = vec!["C04", "C01"];
                        if tricky {
                            v.push("C16");
                        }
                        self.report(&v, if dup { "duplicated" } else { "not-emitted" }, format!("the server received {} which was not replied so", p.show()));
                    }
                }
            }
        }
        // Order.
        let uniq: HashMap<String, usize> = x.emits.iter().filter(|e| e.sent).fold(HashMap::new(), |mut m, e| {
            *m.entry(key(&e.ns, e.has_id, &e.args)).or_insert(0) += 1;
            m
        });
        let mut worst: Option<usize> = None;
        for (r, rec) in x.recv.iter().enumerate() {
            let Some(k) = matched[r] else { continue };
            let e = &x.emits[k];
            if uniq[&key(&e.ns, e.has_id, &e.args)] > 1 {
                continue;
            }
            // `worst`: the one received so far that was handed over last.
            if let Some(wk) = worst {
                if e.ret.is_some_and(|t| t < x.emits[wk].inv) {
                    let mut v = vec!["C01"];
                    if rec.seq > self.close_inv() {
                        v.push("C09");
                    }
                    self.report(&v, "reordered", format!("{} was handed over before {} but arrived after it", show_emit(e), show_emit(&x.emits[wk])));
                    break;
                }
            }
            if worst.is_none_or(|wk| x.emits[wk].inv < e.inv) {
                worst = Some(k);
            }
        }
        // Nothing is missing in front of something that arrived.
        // (Of several alike it is open which one arrived: at least the first.)
        let alike = |e: &EmitRec| format!("{:?}|{:?}", matches!(e.kind, EK::Reply(_)), e.args);
        let mut first: HashMap<String, u64> = HashMap::new();
        for e in x.emits.iter().filter(|e| e.sent) {
            let f = first.entry(alike(e)).or_insert(INF);
            *f = (*f).min(e.inv);
        }
        let last_inv = (0..x.emits.len()).filter(|k| of[*k].is_some()).map(|k| first[&alike(&x.emits[k])]).max().unwrap_or(0);
        let dis = self.disruption();
        let cinv = self.close_inv();
        let close_recv = x.recv.iter().find(|r| matches!(r.item, RI::Close(_))).map(|r| r.seq);
        for (k, e) in x.emits.iter().enumerate() {
            if !e.sent || of[k].is_some() {
                continue;
            }
            let Some(ret) = e.ret else { continue };
            let is_reply = matches!(e.kind, EK::Reply(_));
            let mut v = vec![if is_reply { "C04" } else { "C01" }];
            if is_reply {
                v.push("C01");
            }
            if e.fail_args > 0 {
                v.push("C16");
            }
            let settled = x.settles.iter().find(|s| !s.capped && ret < s.inv && s.ret < dis.min(cinv));
            let before_close = ret < cinv && close_recv.is_some_and(|r| r < dis) && !x.closes[0].abandoned;
            if before_close {
                v.push("C09");
            }
            if settled.is_some() || before_close || (ret < last_inv && self.x.recv.last().is_some()) {
                let why = if settled.is_some() {
                    "although all had come to rest"
                } else if before_close {
                    "although it was handed over before close()"
                } else {
                    "although something handed over later did"
                };
                self.report(&v, "lost", format!("{} did not reach the server {}", show_emit(e), why));
                break;
            }
        }
        // Emitted on what is left after the client was dropped.
        if x.end_check.is_some() && x.recv[x.before_leftovers.min(x.recv.len())..].iter().any(|r| !matches!(r.item, RI::Eof)) {
            self.report(&["C14"], "revived", "something used after the client was dropped reached the server");
        }
        of
    }

    // ---- what the callbacks were given -----------------------------------------------------------

    /// For every call, the item of the server it was for.
    fn inbound(&mut self, of: &[Option<usize>]) -> Vec<Option<usize>> {
        let x = self.x;
        let mut call_item = vec![None; x.calls.len()];
        for k in &x.calls {
            if let Some(o) = &k.oddity {
                self.report(&["C02", "C11"], "arguments", o.clone());
            }
        }
        if self.corrupt {
            return call_item;
        }
        // Tables after each registration.
        type Table = (HashMap<(String, String), usize>, HashMap<String, usize>);
        let mut tables: Vec<Table> = vec![Default::default()];
        for r in &x.regs {
            let mut t = tables.last().unwrap().clone();
            match &r.kind {
                RegKind::Set(ns, ev, i) => {
                    t.0.insert((ns.clone(), ev.clone()), *i);
                }
                RegKind::Clear(ns, ev) => {
                    t.0.remove(&(ns.clone(), ev.clone()));
                }
                RegKind::SetFb(ns, i) => {
                    t.1.insert(ns.clone(), *i);
                }
                RegKind::ClearFb(ns) => {
                    t.1.remove(ns);
                }
            }
            tables.push(t);
        }
        let lookup = |v: usize, ns: &str, ev: &str| -> Option<usize> {
            let t = &tables[v];
            t.0.get(&(ns.to_string(), ev.to_string())).or_else(|| t.1.get(ns)).copied()
        };
        let n_regs = x.regs.len();
        // The instance an ack belongs to.
        let mut ack_inst: HashMap<(String, u64), Vec<(usize, usize)>> = HashMap::new();
        for (k, e) in x.emits.iter().enumerate() {
            if let (Some(r), Some(i), EK::Event) = (of[k], e.inst, &e.kind) {
                if let RI::Pkt(Packet { ns, id: Some(id), .. }) = &x.recv[r].item {
                    ack_inst.entry((ns.clone(), *id)).or_default().push((r, i));
                }
            }
        }
        // Which items had to be dispatched, and by when.
        let items: Vec<usize> = (0..x.sent.len()).filter(|i| x.sent[*i].avail.is_some()).collect();
        let general = {
            let mut d = x.hard.iter().filter(|h| h.2 != "Eof").map(|h| h.0).min().unwrap_or(INF);
            d = d.min(x.calls.iter().filter(|k| k.panicked).map(|k| k.seq).min().unwrap_or(INF));
            d.min(x.drop_inv.map_or(INF, |v| v.0))
        };
        let mut may_stop = vec![true; items.len() + 1];
        let mut deadline = vec![INF; items.len()];
        let mut before = INF;
        let mut stops = Vec::new();
        for (n, i) in items.iter().enumerate() {
            let s = &x.sent[*i];
            stops.push(before);
            if disturbs(&s.kind) && !matches!(s.kind, SK::Eof) {
                before = before.min(s.avail.unwrap());
            }
            let _ = n;
        }
        let connected = x.conn.as_ref().is_some_and(|c| c.result == Some(Ok(())));
        let out_pieces = x.emits.iter().map(|e| 1 + e.args.iter().map(Val::atts).sum::<usize>() as u64).sum::<u64>();
        for (n, i) in items.iter().enumerate() {
            let s = &x.sent[*i];
            let excuse = stops[n].min(general);
            let cl = x.closes.first();
            let mut d = INF;
            if connected {
                for st in &x.settles {
                    let closed = cl.is_some_and(|c| c.inv < st.ret);
                    if !st.capped && s.avail.unwrap() < st.inv && st.ret < excuse && !closed {
                        d = d.min(st.ret);
                    }
                }
                if let Some(c) = cl {
                    if let (Some(ret), Some(res)) = (c.ret, &c.result) {
                        // With a message on its way out, others wait for it.
                        let net = &self.p.net;
                        let way = if net.flush_waits { net.lat_us + net.jitter_us + net.gap_us } else { 0 };
                        let turn = (s.pieces * 4 + 2 * out_pieces) * (way + self.plan.window_us) * US;
                        let timely = s.avail_t + 1500 * MS + self.slack + turn < c.t1;
                        let ended = x.dropped.is_some_and(|v| v.0 < c.inv);
                        let orderly = !ended || s.avail.unwrap() < c.inv;
                        if ret < excuse && (res.is_ok() || timely && !x.blocked_ever) && orderly && s.avail.unwrap() < ret {
                            d = d.min(ret);
                        }
                    }
                }
            }
            deadline[n] = d;
        }
        let mut need = false;
        for n in (0..items.len()).rev() {
            need |= deadline[n] != INF;
            may_stop[n] = !need;
        }
        // Search for an explanation, item by item.
        struct Node {
            j: usize,
            v: usize,
            parent: usize,
            called: Option<usize>,
        }
        let mut nodes: Vec<Node> = vec![Node { j: 0, v: 0, parent: usize::MAX, called: None }];
        let mut frontier: Vec<usize> = vec![0];
        let calls = &x.calls;
        let mut best: Option<usize> = None;
        let mut failed_at = None;
        let regs_before = |seq: u64| x.regs.iter().take_while(|r| r.inv < seq).count();
        let regs_done = |seq: u64| x.regs.iter().take_while(|r| r.ret.is_some_and(|t| t < seq)).count();
        let mut acked: HashSet<usize> = HashSet::new();
        for (n, i) in items.iter().enumerate() {
            let s = &x.sent[*i];
            if may_stop[n] {
                for f in &frontier {
                    if nodes[*f].j == calls.len() {
                        best = Some(*f);
                    }
                }
            }
            let avail = s.avail.unwrap();
            let lo = regs_done(avail);
            let mut next: Vec<(usize, usize, usize, Option<usize>)> = Vec::new();
            for f in &frontier {
                let (j, v) = (nodes[*f].j, nodes[*f].v);
                let call = calls.get(j).filter(|k| k.seq > avail && k.seq < deadline[n]);
                // A call that panicked is the last one.
                let over = j > 0 && calls[j - 1].panicked;
                let mut step = |called: Option<usize>, v: usize| {
                    next.push((if called.is_some() { j + 1 } else { j }, v, *f, called));
                };
                if over {
                    step(None, v);
                    continue;
                }
                let from = v.max(lo);
                match &s.kind {
                    SK::Event { ns, args, id } => {
                        let ev = if let Some(Val::Str(e)) = args.first().map(|a| &a.v) { e.as_str() } else { "" };
                        if let Some(v2) = (from..=n_regs).find(|v| lookup(*v, ns, ev).is_none()) {
                            step(None, v2);
                        }
                        if let Some(k) = call {
                            let hi = regs_before(k.seq);
                            if let Some(v2) = (from..=hi).find(|v| lookup(*v, ns, ev) == Some(k.inst)) {
                                if args_ok(k, args) && k.has_ack == id.is_some() {
                                    step(Some(j), v2);
                                }
                            }
                        }
                    }
                    SK::Ack { ns, id, args, bad } => {
                        let want = if *bad {
                            None
                        } else {
                            ack_inst.get(&(ns.clone(), *id)).and_then(|v| v.iter().rev().find(|(r, _)| x.recv[*r].seq < s.seq)).map(|v| v.1)
                        };
                        match want {
                            Some(inst) if !acked.contains(&inst) => {
                                if let Some(k) = call {
                                    if k.inst == inst && args_ok(k, args) && !k.has_ack {
                                        step(Some(j), v);
                                    }
                                }
                            }
                            _ => step(None, v),
                        }
                    }
                    SK::Hostile(Effect::MaybeEvent { ns, ev, id, args }) => {
                        step(None, v);
                        // Its end may be garbage that follows the event.
                        if let Some(k) = calls.get(j).filter(|k| k.seq > s.seq && k.seq < deadline[n]) {
                            let from = v.max(regs_done(s.seq));
                            let hi = regs_before(k.seq);
                            let fits = k.args.len() == args.len()
                                && k.has_ack == id.is_some()
                                && k.args.iter().zip(args).all(|(got, want)| match (got, want) {
                                    (Ok(g), Some(w)) => g.canon() == w.flat().canon(),
                                    // What is read from a broken argument is not prescribed.
                                    (_, None) => true,
                                    _ => false,
                                });
                            if fits {
                                if let Some(v2) = (from..=hi).find(|v| lookup(*v, ns, ev) == Some(k.inst)) {
                                    step(Some(j), v2);
                                }
                            }
                        }
                    }
                    k => {
                        step(None, v);
                        // One piece of garbage may complete what another began.
                        let after = matches!(k, SK::Hostile(_)) && items[..n].iter().any(|q| matches!(x.sent[*q].kind, SK::Hostile(_)));
                        if after && calls.get(j).is_some_and(|c| c.seq > s.seq && c.seq < deadline[n]) {
                            step(Some(j), from);
                        }
                    }
                }
            }
            if let SK::Ack { ns, id, bad: false, .. } = &s.kind {
                if let Some((_, i)) = ack_inst.get(&(ns.clone(), *id)).and_then(|v| v.iter().rev().find(|(r, _)| x.recv[*r].seq < s.seq)) {
                    acked.insert(*i);
                }
            }
            // Keep, for each number of calls used, the smallest table version.
            next.sort();
            let mut nf: Vec<usize> = Vec::new();
            let mut seen = usize::MAX;
            for (j, v, parent, called) in next {
                if j == seen {
                    continue;
                }
                seen = j;
                nodes.push(Node { j, v, parent, called });
                nf.push(nodes.len() - 1);
            }
            if nf.is_empty() {
                failed_at = Some(n);
                break;
            }
            frontier = nf;
        }
        if failed_at.is_none() {
            for f in &frontier {
                if nodes[*f].j == calls.len() {
                    best = Some(*f);
                }
            }
        }
        // The items of the calls, as far as the explanation goes.
        let explain = |end: usize, nodes: &Vec<Node>, call_item: &mut Vec<Option<usize>>| {
            let mut path = Vec::new();
            let mut f = end;
            while f != usize::MAX && nodes[f].parent != usize::MAX {
                path.push(f);
                f = nodes[f].parent;
            }
            path.reverse();
            for (n, f) in path.iter().enumerate() {
                if let Some(j) = nodes[*f].called {
                    call_item[j] = Some(items[n]);
                }
            }
        };
        if let Some(b) = best {
            explain(b, &nodes, &mut call_item);
            return call_item;
        }
        // No explanation: say what went wrong.
        let f = *frontier.iter().max_by_key(|f| nodes[**f].j).unwrap();
        explain(f, &nodes, &mut call_item);
        let (j, v) = (nodes[f].j, nodes[f].v);
        let call = calls.get(j);
        let shown = call.map_or("nothing".to_string(), |k| format!("callback #{} with {}", k.inst, show_call(k)));
        let dynamic = x.regs.iter().any(|r| items.first().is_some_and(|i| r.ret.unwrap_or(INF) > x.sent[*i].avail.unwrap()));
        let faulty = !x.hard.is_empty() || x.sent.iter().any(|s| matches!(s.kind, SK::Eof | SK::Close));
        let mut props: Vec<&str> = Vec::new();
        if self.hostile || x.sent.iter().any(|s| matches!(s.kind, SK::Ack { bad: true, .. })) {
            props.push("C11");
        }
        if faulty {
            props.push("C10");
        }
        if self.close_inv() != INF && call.map_or(true, |k| k.seq > self.close_inv()) {
            props.push("C08");
        }
        let call_is_ack = call.is_some_and(|k| matches!(x.insts[k.inst].kind, InstKind::Ack(_)));
        if call_is_ack {
            props.push("C03");
        }
        match failed_at {
            Some(n) => {
                let s = &x.sent[items[n]];
                match &s.kind {
                    SK::Event { ns, args, id } => {
                        props.insert(0, "C02");
                        let ev = if let Some(Val::Str(e)) = args.first().map(|a| &a.v) { e.as_str() } else { "" };
                        let pk = Packet { kind: PK::Event, ns: ns.clone(), id: *id, args: args.iter().map(|a| a.v.clone()).collect() };
                        let lo = regs_done(s.avail.unwrap()).max(v);
                        let want: Vec<Option<usize>> = (lo..=n_regs).map(|v| lookup(v, ns, ev)).collect();
                        if dynamic {
                            props.push("C13");
                        }
                        if call.is_some_and(|k| k.has_ack != id.is_some() && args_ok(k, args)) {
                            props.push("C04");
                        }
                        let late = call.is_some_and(|k| k.seq >= deadline[n]);
                        self.report(
                            &props,
                            "event",
                            format!(
                                "the server sent {}, for callback {:?}, but what ran {}was {}{}",
                                pk.show(),
                                want.first().unwrap_or(&None),
                                if late { "(too late) " } else { "next " },
                                shown,
                                call.map_or(String::new(), |k| diff(k, args))
                            ),
                        );
                    }
                    SK::Ack { ns, id, args, .. } => {
                        props.insert(0, "C03");
                        let pk = Packet { kind: PK::Ack, ns: ns.clone(), id: Some(*id), args: args.iter().map(|a| a.v.clone()).collect() };
                        if call.is_some_and(|k| matches!(x.insts[k.inst].kind, InstKind::Event)) && !props.contains(&"C02") {
                            props.push("C02");
                        }
                        self.report(&props, "ack", format!("the server sent {}, but what ran next was {}{}", pk.show(), shown, call.map_or(String::new(), |k| diff(k, args))));
                    }
                    k => self.report(&["C02"], "event", format!("no explanation at {:?}: {}", k, shown)),
                }
            }
            None => {
                if !call_is_ack {
                    props.insert(0, "C02");
                    if dynamic {
                        props.push("C13");
                    }
                }
                match call {
                    Some(_) => self.report(&props, "extra-call", format!("{} ran, which nothing the server sent accounts for", shown)),
                    None => self.report(&props, "event", "callbacks are missing"),
                }
            }
        }
        call_item
    }

    // ---- replies --------------------------------------------------------------------------------

    fn replies(&mut self, call_item: &[Option<usize>]) {
        let x = self.x;
        if self.corrupt {
            return;
        }
        // Each received ack has an event with that id and namespace, a reply with those arguments,
        // and each reply is used once.
        let mut used = vec![false; x.emits.len()];
        for rec in &x.recv {
            let RI::Pkt(p) = &rec.item else { continue };
            if p.kind != PK::Ack {
                continue;
            }
            let fits = |k: usize| -> bool {
                let e = &x.emits[k];
                let EK::Reply(call) = e.kind else { return false };
                let Some(item) = call_item[call] else { return false };
                // Which of two alike items the callback ran for may be open.
                let shape = &x.calls[call].args;
                let alike = x.sent.iter().any(|s| matches!(&s.kind, SK::Hostile(Effect::MaybeEvent { ns, id, args, .. }) if *ns == p.ns && *id == p.id && args.len() == shape.len()));
                if alike && e.sent && !used[k] && e.args == p.args && e.inv < rec.seq {
                    return true;
                }
                let (ns, id) = match &x.sent[item].kind {
                    SK::Event { ns, id, .. } => (ns, id),
                    SK::Hostile(Effect::MaybeEvent { ns, id, .. }) => (ns, id),
                    _ => return false,
                };
                e.sent && !used[k] && e.args == p.args && *ns == p.ns && *id == p.id && e.inv < rec.seq
            };
            match (0..x.emits.len()).find(|k| fits(*k)) {
                Some(k) => used[k] = true,
                None => {
                    if call_item.iter().zip(&x.calls).any(|(i, c)| i.is_none_or(|i| matches!(x.sent[i].kind, SK::Hostile(_))) && c.has_ack) {
                        continue;
                    }
                    self.report(&["C04"], "wrong-reply", format!("the server received {}, which is no reply to any of its events", p.show()));
                    return;
                }
            }
        }
    }

    // ---- heartbeat --------------------------------------------------------------------------------

    /// Each message ahead takes its time to arrive, and network events may come early and take the
    /// clock with them.
    fn queueing(&self) -> u64 {
        let net = &self.p.net;
        let way = if net.flush_waits { 2 * (net.lat_us + net.jitter_us + net.gap_us) } else { 0 };
        let ahead: usize = self.x.recv.iter().map(|r| if let RI::Pkt(p) = &r.item { 1 + p.args.iter().map(Val::atts).sum::<usize>() } else { 1 }).sum();
        ahead as u64 * (way + self.plan.window_us) * US
    }

    fn heartbeat(&mut self, call_item: &[Option<usize>]) {
        let x = self.x;
        let pings: Vec<&SentItem> = x.sent.iter().filter(|s| matches!(s.kind, SK::EPing)).collect();
        let pongs: Vec<&RecvRec> = x.recv.iter().filter(|r| matches!(r.item, RI::Pong)).collect();
        for (k, p) in pongs.iter().enumerate() {
            if pings.get(k).and_then(|q| q.avail).is_none_or(|a| a > p.seq) && !self.corrupt && !self.hostile {
                self.report(&["C05"], "pong-unasked", format!("{} pongs by {:.3} s but fewer pings", k + 1, p.t as f64 / 1e9));
                return;
            }
        }
        let wpings: Vec<(&SentItem, &Vec<u8>)> =
            x.sent.iter().filter_map(|s| if let SK::WsPing(p) = &s.kind { Some((s, p)) } else { None }).collect();
        let wpongs: Vec<(&RecvRec, &Vec<u8>)> = x.recv.iter().filter_map(|r| if let RI::WsPong(p) = &r.item { Some((r, p)) } else { None }).collect();
        let mut at = 0;
        for (r, pl) in &wpongs {
            if pl.as_slice() == b"in-between" || pl.as_slice() == b"hi" || self.corrupt || self.hostile {
                continue;
            }
            match wpings[at..].iter().position(|(s, q)| q == pl && s.avail.is_some_and(|a| a < r.seq)) {
                Some(i) => at += i + 1,
                None => {
                    self.report(&["C05"], "ws-pong", format!("unasked or repeated WebSocket pong {:?}", String::from_utf8_lossy(pl)));
                    return;
                }
            }
        }
        let dis = self.disruption().min(self.close_inv());
        let connected = x.conn.as_ref().is_some_and(|c| c.result == Some(Ok(())));
        if !connected {
            return;
        }
        // A ping that was taken in before close() was called is answered before the close.
        let closing = x.recv.iter().find(|r| matches!(r.item, RI::Close(_))).map_or(INF, |r| r.seq);
        if closing < self.disruption() && !self.corrupt && !self.hostile {
            let taken_in = x.calls.iter().zip(call_item).filter(|(c, _)| c.seq < self.close_inv().min(closing)).filter_map(|(_, i)| *i).max();
            let n = taken_in.map_or(0, |i| x.sent[..i].iter().filter(|s| matches!(s.kind, SK::EPing)).count());
            let m = pongs.iter().filter(|p| p.seq < closing).count();
            if m < n {
                self.report(&["C05"], "pong-missing", format!("{} pings had been taken in when close() was called, but only {} pongs came before the close", n, m));
                return;
            }
        }
        for s in &x.settles {
            if s.capped || s.ret >= dis {
                continue;
            }
            let n = pings.iter().filter(|p| p.avail.is_some_and(|a| a < s.inv)).count();
            let m = pongs.iter().filter(|p| p.seq < s.ret).count();
            if m < n {
                self.report(&["C05"], "pong-missing", format!("{} pings arrived but only {} pongs came back, although all had come to rest", n, m));
                return;
            }
            // An answer to a later one will do.
            if let Some(n) = wpings.iter().rposition(|p| p.0.avail.is_some_and(|a| a < s.inv)) {
                if !wpongs.iter().any(|(r, p)| r.seq < s.ret && wpings[n..].iter().any(|q| q.1 == *p)) {
                    self.report(&["C05"], "ws-pong-missing", format!("WebSocket ping {:?} was not answered, although all had come to rest", String::from_utf8_lossy(wpings[n].1)));
                    return;
                }
            }
        }
        // Promptness, where the way back is open.
        let net = &self.p.net;
        if x.blocked_ever || self.plan.clients.iter().flat_map(|c| &c.server).any(|o| matches!(o, SrvOp::PauseRead(_))) {
            return;
        }
        let mut allow = 2 * SEC + self.slack + 8 * (net.lat_us + net.jitter_us) * US;
        allow += self.queueing();
        for (k, p) in pings.iter().enumerate() {
            let Some(a) = p.avail else { continue };
            if a > dis {
                break;
            }
            if let Some(q) = pongs.get(k) {
                if q.t > p.avail_t + allow && q.seq < dis {
                    self.report(&["C05"], "pong-late", format!("ping {} was answered after {:.3} s", k, (q.t - p.avail_t) as f64 / 1e9));
                    return;
                }
            }
        }
        for (r, pl) in &wpongs {
            if let Some((s, _)) = wpings.iter().find(|(_, q)| q == pl) {
                if r.t > s.avail_t + allow && r.seq < dis {
                    self.report(&["C05"], "ws-pong-late", format!("a WebSocket ping was answered after {:.3} s", (r.t - s.avail_t) as f64 / 1e9));
                    return;
                }
            }
        }
    }

    // ---- closing -----------------------------------------------------------------------------------

    fn close(&mut self, world: &World, of: &[Option<usize>]) {
        let x = self.x;
        let close_recv = x.recv.iter().find(|r| matches!(r.item, RI::Close(_)));
        let srv_close = x.sent.iter().find(|s| matches!(s.kind, SK::Close));
        // The client closes only if told to, or in answer to the server, or in trouble.
        if let Some(r) = close_recv {
            if r.seq < self.close_inv() && r.seq < self.disruption() && self.x.conn.as_ref().is_some_and(|c| c.result == Some(Ok(()))) {
                self.report(&["C01", "C08"], "closed-unasked", "the client closed the connection without being told to");
            }
        }
        for (k, cl) in x.closes.iter().enumerate() {
            let Some(ret) = cl.ret else {
                self.report(&["C08"], "close-hangs", "close() has not returned");
                continue;
            };
            if cl.panicked {
                self.report(&["C08", "C12"], "close-panics", "close() panicked");
            }
            let took = cl.t1 - cl.t0;
            let planned = self.plan.all_ops().iter().any(|(_, o)| matches!(o, Op::CloseAbandon(_)));
            if cl.abandoned && took >= 200 * SEC && !planned || took > 10 * SEC + self.slack {
                self.report(&["C08", "C11", "C10"], "close-late", format!("close() took {:.3} s", took as f64 / 1e9));
                continue;
            }
            let Some(res) = &cl.result else { continue };
            if !cl.first {
                let before = &x.closes[k - 1];
                if !before.abandoned && !before.rethrown && !matches!(res, Err(e) if e.starts_with("already-closed")) {
                    self.report(&["C08"], "second-close", format!("a further close() returned {:?}", res));
                }
                continue;
            }
            let timeout = matches!(res, Err(e) if e.starts_with("timeout"));
            if matches!(res, Err(e) if e.starts_with("already-closed")) {
                self.report(&["C08"], "first-close", "the first close() reports that the client is closed already");
            }
            let hard_before = x.hard.iter().any(|h| h.0 < ret);
            let panicked = x.calls.iter().any(|c| c.panicked && c.seq < ret);
            let bad_before = x.sent.iter().any(|s| matches!(s.kind, SK::Hostile(ref e) if *e != Effect::Harmless) || matches!(s.kind, SK::Ack { bad: true, .. }));
            let srv_closed = srv_close.is_some_and(|s| s.avail.is_some_and(|a| a < ret));
            match res {
                Ok(()) => {
                    if !srv_closed && !self.hostile && !self.corrupt {
                        self.report(&["C08", "C10"], "close-ok", "close() reports success although the server never completed the closing handshake");
                    }
                }
                Err(e) => {
                    let eof = x.sent.iter().find(|s| matches!(s.kind, SK::Eof)).and_then(|s| s.avail);
                    let done = srv_closed && eof.is_some_and(|a| a < ret) && close_recv.is_some_and(|r| r.seq < ret);
                    // What could not be sent any more is something to report.
                    let unsent = x.emits.iter().zip(of).any(|(e, o)| e.sent && e.inv < ret && o.is_none())
                        || x.recv.iter().filter(|r| matches!(r.item, RI::Pong)).count() < x.sent.iter().filter(|s| matches!(s.kind, SK::EPing)).count();
                    if done && !hard_before && !panicked && !bad_before && !timeout && !unsent {
                        self.report(&["C08"], "close-err", format!("close() reports {} although the closing handshake was completed", e));
                    }
                    if timeout && !self.excused_timeout(cl, hard_before || panicked || bad_before) {
                        self.report(&["C08"], "close-timeout", "close() timed out although the server answered in time");
                    }
                }
            }
            // The WebSocket close goes out.
            let healthy = !hard_before && !panicked && !bad_before && srv_close.is_none_or(|s| s.avail.is_none_or(|a| a > cl.inv)) && !x.sent.iter().any(|s| matches!(s.kind, SK::Eof) && s.avail.is_some_and(|a| a < cl.inv));
            let draining = timeout && x.emits.iter().zip(of).any(|(e, o)| e.sent && e.inv < cl.inv && o.is_none_or(|r| x.recv[r].t + 2 * SEC > cl.t1));
            let slow = draining || x.blocked_ever || self.p.net.lat_us > 2_000_000 || self.p.server.iter().any(|o| matches!(o, SrvOp::PauseRead(_)));
            if healthy && !slow && close_recv.is_none() && !x.sent.iter().any(|s| matches!(s.kind, SK::Eof)) {
                self.report(&["C08"], "no-close-frame", "the server received no WebSocket close");
            }
            // Nothing runs afterwards.
            for c in &x.calls {
                let lenient = timeout && c.t <= self.held(world, cl.t1) + SEC;
                if (c.seq > ret || c.ret.is_none_or(|r| r > ret) && !c.panicked) && !lenient {
                    self.report(&["C08"], "callback-after-close", format!("callback #{} runs after close() returned", c.inst));
                    break;
                }
            }
            let limit = self.held(world, cl.t1) + SEC + self.slack;
            if x.dropped.is_none_or(|d| d.1 > limit) {
                self.report(&["C08"], "transport-after-close", "the transport is not released after close()");
            }
            if world.tasks.iter().any(|t| t.client == self.c && t.ended.is_none_or(|e| e.1 > limit)) {
                self.report(&["C08"], "task-after-close", "a task keeps running after close()");
            }
        }
    }

    /// A task that is being polled does not notice before the end of that that it is cancelled.
    fn held(&self, world: &World, t: u64) -> u64 {
        world.long_polls.iter().filter(|p| p.0 == self.c && p.1 <= t && t <= p.2).map(|p| p.2).max().unwrap_or(t)
    }

    fn excused_timeout(&self, cl: &CloseRec, trouble: bool) -> bool {
        let x = self.x;
        if trouble || x.blocked_ever {
            return true;
        }
        // The server's answer and end of stream must have been there clearly in time.
        let end = x.sent.iter().find(|s| matches!(s.kind, SK::Eof)).filter(|s| s.avail.is_some());
        match end {
            Some(s) => s.avail_t + 500 * MS + self.slack > cl.t0 + 10 * SEC,
            None => true,
        }
    }

    // ---- fairness ---------------------------------------------------------------------------------

    fn starvation(&mut self, of: &[Option<usize>], call_item: &[Option<usize>]) {
        let x = self.x;
        if x.blocked_ever || self.corrupt {
            return;
        }
        // Outgoing: calls between the hand-over and the write.
        for (k, e) in x.emits.iter().enumerate() {
            let (Some(r), Some(ret)) = (of[k], e.ret) else { continue };
            let rec = &x.recv[r];
            if rec.seq < ret {
                continue;
            }
            let passed = rec.calls_at.saturating_sub(e.calls_at);
            if passed <= STARVE {
                continue;
            }
            let ahead = x.emits.iter().enumerate().filter(|(k2, f)| f.sent && f.inv < ret && of[*k2].is_none_or(|q| q <= r && x.recv[q].calls_at + 1 >= e.calls_at)).count();
            let pings = x.sent.iter().filter(|s| matches!(s.kind, SK::EPing)).count();
            if passed > STARVE + 4 * (ahead + pings) {
                self.report(&["C15"], "emission-starved", format!("{} incoming messages were dispatched before {} was written", passed, show_emit(e)));
                return;
            }
        }
        // The close request.
        if let (Some(cl), Some(r)) = (x.closes.first(), x.recv.iter().find(|r| matches!(r.item, RI::Close(_)))) {
            if r.seq > cl.inv && self.disruption() > r.seq {
                let queued = x.emits.iter().enumerate().filter(|(k, f)| f.sent && f.inv < r.seq && of[*k].is_none_or(|q| x.recv[q].seq > cl.inv)).count();
                let passed = r.calls_at.saturating_sub(cl.calls_at);
                if passed > STARVE + 4 * queued {
                    self.report(&["C15"], "close-starved", format!("{} incoming messages were dispatched before close() was acted on", passed));
                    return;
                }
            }
        }
        // Incoming: messages written between arrival and dispatch.
        let mut first_call: HashMap<usize, usize> = HashMap::new();
        for (j, i) in call_item.iter().enumerate() {
            if let Some(i) = i {
                first_call.entry(*i).or_insert(j);
            }
        }
        for (i, j) in &first_call {
            let s = &x.sent[*i];
            // What is left to send when the client is closed comes first, and there is an end to it.
            if x.calls[*j].seq > self.close_inv() {
                continue;
            }
            // Both grow from one to the next.
            let (a, b) = (x.recv.partition_point(|r| r.end <= s.avail_written), x.recv.partition_point(|r| r.calls_at <= *j));
            let passed = if a < b { x.recv[a..b].iter().filter(|r| matches!(r.item, RI::Pkt(_))).take(STARVE * 50).count() } else { 0 };
            if passed <= STARVE {
                continue;
            }
            // A packet is as many messages as it has parts.
            let weight = |q: usize| (x.sent[q].pieces - if q > 0 { x.sent[q - 1].pieces } else { 0 }) as usize;
            let ahead = weight(*i)
                + x.sent
                    .iter()
                    .take(*i)
                    .enumerate()
                    .filter(|(q, t)| t.avail.is_some_and(|a| a <= s.avail.unwrap()) && first_call.get(q).is_none_or(|jj| x.calls[*jj].seq >= s.avail.unwrap()))
                    .map(|(q, _)| weight(q))
                    .sum::<usize>();
            if passed > STARVE + 4 * ahead {
                self.report(&["C15"], "event-starved", format!("{} outgoing messages were written before an event that had arrived was dispatched ({} ahead of it)", passed, ahead));
                return;
            }
        }
    }

    // ---- being held up --------------------------------------------------------------------------

    /// Using the client takes no time, but for the stalls that the simulator itself causes.
    fn blocking(&mut self) {
        let x = self.x;
        let stalls = if self.plan.stall_pm > 0 { self.plan.stall_max_us * US * self.plan.stall_budget as u64 } else { 0 };
        let limit = SEC + stalls + self.plan.window_us * US * 100;
        let busy = |t: u64| x.calls.iter().any(|k| k.t <= t);
        for r in &x.regs {
            if r.ret.is_some() && r.t_ret > r.t_inv + limit && busy(r.t_ret) {
                self.report(&["C12"], "blocked", format!("{:?} took {:.3} s", r.kind, (r.t_ret - r.t_inv) as f64 / 1e9));
                return;
            }
        }
        for e in &x.emits {
            if e.sent && e.ret.is_some() && e.t_ret > e.t_inv + limit && busy(e.t_ret) {
                self.report(&["C12"], "blocked", format!("handing over {} took {:.3} s", show_emit(e), (e.t_ret - e.t_inv) as f64 / 1e9));
                return;
            }
        }
    }

    // ---- release ----------------------------------------------------------------------------------

    fn release(&mut self, world: &World) {
        let x = self.x;
        let now = simrt::now();
        // The user let go of it.
        if let Some((_, t)) = x.drop_inv {
            let limit = self.held(world, t) + SEC + self.slack;
            if x.created.is_some() && x.dropped.map_or(now > limit, |d| d.1 > limit) {
                self.report(&["C14"], "transport-leaked", "the transport is not released after the client was dropped");
            }
            if world.tasks.iter().any(|k| k.client == self.c && k.ended.map_or(now > limit, |e| e.1 > limit)) {
                self.report(&["C14"], "task-leaked", "a task keeps running after the client was dropped");
            }
        }
        if let Some(e) = &x.end_check {
            if e.transport_held {
                self.report(&["C14"], "transport-leaked", "the transport is still held at the end");
            }
            if e.tasks > 0 {
                self.report(&["C14"], "task-leaked", format!("{} tasks are left at the end", e.tasks));
            }
            if !e.not_freed.is_empty() {
                let v: Vec<String> = e.not_freed.iter().map(|i| format!("#{} ({:?})", i, x.insts[*i].kind)).collect();
                self.report(&["C14"], "callback-leaked", format!("callbacks {} are not freed after everything was dropped", v.join(", ")));
            }
        }
        for c in x.closes.iter().filter(|c| c.abandoned) {
            if let Some((_, _)) = c.ret.map(|r| (r, c.t1)) {
                let limit = self.held(world, c.t1) + SEC + self.slack;
                if x.dropped.is_none_or(|d| d.1 > limit) || world.tasks.iter().any(|k| k.client == self.c && k.ended.is_none_or(|e| e.1 > limit)) {
                    self.report(&["C14"], "close-abandoned", "a task or transport is left after a close in progress was dropped");
                }
            }
        }
        // A broken transport is let go of without the user.
        // An end of stream or a read error comes after what was sent before it.
        let last = x.sent.iter().filter(|s| s.avail.is_some()).map(|s| s.avail_t).max().unwrap_or(0);
        let noticed = x.hard.iter().find(|h| matches!(h.2.as_str(), "Eof" | "Reset" | "ReadErr" | "reset"));
        let connected = x.conn.as_ref().is_some_and(|c| c.result == Some(Ok(())));
        let by_script = x.sent.iter().find(|s| matches!(s.kind, SK::Eof)).filter(|s| s.avail.is_some()).map(|s| s.avail_t);
        let stalled = x.hard.iter().any(|h| matches!(h.2.as_str(), "StallIn" | "StallOut"));
        let broke = match (noticed.map(|h| if matches!(h.2.as_str(), "Eof" | "ReadErr") { h.1.max(last) } else { h.1 }), by_script) {
            (Some(a), Some(b)) => Some(a.max(b)),
            (Some(a), None) => Some(a),
            (None, Some(b)) => Some(b),
            (None, None) => None,
        };
        let panic_t = x.calls.iter().filter(|c| c.panicked).map(|c| c.t).min();
        if let (Some(t), true) = (broke, connected && !stalled) {
            // Reading byte by byte takes its time.
            let limit = t.max(x.i.read_t) + SEC + self.slack + self.queueing() + 4 * (self.p.net.lat_us + self.p.net.jitter_us) * US;
            if now > limit && !x.blocked_ever && x.dropped.is_none_or(|d| d.1 > limit) && !self.p.server.iter().any(|o| matches!(o, SrvOp::PauseRead(_))) {
                self.report(&["C10"], "transport-held", format!("the transport broke at {:.3} s and is not released", t as f64 / 1e9));
            }
        }
        // A write that failed ends it too.
        let closed_at = x.sent.iter().filter(|s| matches!(s.kind, SK::Close | SK::Hostile(_))).filter_map(|s| s.avail).min().unwrap_or(u64::MAX);
        let unwritable = x.o.failed.filter(|f| connected && f.0 < closed_at && f.0 < self.close_inv());
        if let Some((_, t)) = unwritable {
            let limit = t + SEC + self.slack;
            if now > limit && x.dropped.is_none_or(|d| d.1 > limit) {
                self.report(&["C10"], "transport-held", format!("a write failed at {:.3} s and the transport is not released", t as f64 / 1e9));
            }
            if let Some(Some(Ok(()))) = x.closes.first().map(|c| &c.result) {
                self.report(&["C10"], "not-reported", "close() reports success although a write had failed before");
            }
        }
        if let (Some(t), true) = (panic_t, connected) {
            let limit = t + SEC + self.slack;
            if now > limit && x.dropped.is_none_or(|d| d.1 > limit) {
                self.report(&["C12"], "transport-held", "a callback panicked and the transport is not released");
            }
        }
        // And that is reported.
        if let Some(cl) = x.closes.first() {
            let srv_close = x.sent.iter().any(|s| matches!(s.kind, SK::Close));
            if let (Some((_, t, what)), Some(Ok(()))) = (noticed, &cl.result) {
                if *t < cl.t0 && !srv_close {
                    self.report(&["C10"], "not-reported", format!("close() reports success although the transport failed ({})", what));
                }
            }
        }
    }

    // ---- TLS ------------------------------------------------------------------------------------

    fn tls_stream(&mut self) {
        let Some(t) = &self.p.tls else { return };
        let x = self.x;
        let raw = &x.o.raw;
        let mut i = 0;
        while i + 5 <= raw.len() {
            let ok = (20..=24).contains(&raw[i]) && raw[i + 1] == 3;
            if !ok {
                self.report(&["C17"], "plaintext", format!("the client wrote something that is not TLS: {:?}", String::from_utf8_lossy(&raw[i..raw.len().min(i + 60)])));
                break;
            }
            i += 5 + ((raw[i + 3] as usize) << 8 | raw[i + 4] as usize);
        }
        if i < raw.len() && i + 5 > raw.len() && !(20..=24).contains(&raw[i]) {
            self.report(&["C17"], "plaintext", "the client wrote something that is not TLS");
        }
        let trusted = Tls { peer: if matches!(t.peer, TlsPeer::Cut(_)) { TlsPeer::Tls } else { t.peer.clone() }, ..t.clone() }.trusted(&self.p.url);
        if !trusted {
            let shown = x.srv.request.is_some() || (!x.srv.head.is_empty() && x.srv.head[0] != 0x16);
            if shown {
                self.report(&["C17"], "disclosed", format!("the client disclosed its request to a peer that is not authenticated ({:?}, {:?})", t.cert, t.peer));
            }
            if let Some(c) = &x.conn {
                if c.result == Some(Ok(())) {
                    self.report(&["C17"], "connected", format!("connected to a peer that is not authenticated ({:?}, {:?})", t.cert, t.peer));
                }
                if c.panicked {
                    self.report(&["C17"], "panicked", "connecting panicked");
                }
            }
        }
    }
}

/// After this the connection need not go on.
fn disturbs(k: &SK) -> bool {
    match k {
        SK::Hostile(e) => *e != Effect::Harmless,
        SK::Ack { bad, .. } => *bad,
        SK::Close | SK::Eof => true,
        _ => false,
    }
}

fn show_emit(e: &EmitRec) -> String {
    format!("{:?} in {:?} {}", e.kind, e.ns, crate::val::show(&e.args))
}

fn show_call(k: &CallRec) -> String {
    let v: Vec<String> = k.args.iter().map(|a| a.as_ref().map_or_else(|e| format!("<{}>", e), |v| v.to_string())).collect();
    format!("[{}]", v.join(", "))
}

fn args_ok(k: &CallRec, args: &[SArg]) -> bool {
    diff(k, args).is_empty()
}

/// What differs between what was sent and what the callback saw.
fn diff(k: &CallRec, args: &[SArg]) -> String {
    if k.args.len() != args.len() {
        return format!(" ({} arguments instead of {})", k.args.len(), args.len());
    }
    for (i, (got, want)) in k.args.iter().zip(args).enumerate() {
        match got {
            Ok(g) if g.canon() == want.v.flat().canon() => {}
            Ok(g) => return format!(" (argument {} is {} instead of {})", i, g, want.v),
            Err(e) => return format!(" (argument {} gives error {} instead of {})", i, e, want.v),
        }
        if let Some(t) = k.typed.get(i) {
            for (n, a) in ALL_AS.iter().enumerate() {
                let Some(exp) = expect_as(&want.v, *a) else { continue };
                match &t[n] {
                    Some(g) if *g == exp => {}
                    Some(g) => return format!(" (argument {} read as {:?} is {} instead of {})", i, a, g, exp),
                    None if want.t == Some(*a) => return format!(" (argument {} cannot be read as {:?}: {})", i, a, want.v),
                    None => {}
                }
            }
        }
    }
    String::new()
}

/// Host, port and request target of a URL, read off its text.
pub fn split_url(url: &str) -> (String, u16, String) {
    let (scheme, rest) = url.split_once("://").unwrap_or(("http", url));
    let port = if matches!(scheme.to_ascii_lowercase().as_str(), "https" | "wss") { 443 } else { 80 };
    let rest = rest.split('#').next().unwrap();
    let cut = rest.find(['/', '?']).unwrap_or(rest.len());
    let (auth, path) = rest.split_at(cut);
    let auth = auth.rsplit_once('@').map_or(auth, |x| x.1);
    let (host, port) = match auth.rfind(':') {
        Some(i) if !auth[i..].contains(']') => (&auth[..i], auth[i + 1..].parse().unwrap_or(port)),
        _ => (auth, port),
    };
    let target = if path.starts_with('/') { path.to_string() } else { format!("/{}", path) };
    (host.to_ascii_lowercase(), port, target)
}
