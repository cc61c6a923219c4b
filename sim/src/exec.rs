//! One run: a process of its own, in it a fresh thread, in it the simulation.

use std::collections::BTreeMap;
use std::rc::Rc;

use serde::{Deserialize, Serialize};
use simrt::{Config, Outcome, Tail, Tape, TapeSink};

use crate::oracle;
use crate::plan::*;
use crate::sys::{self, End, Shared};
use crate::user;
use crate::world::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum TailSpec {
    Zero,
    Rng(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub plan: Plan,
    pub tape: Vec<u16>,
    pub tail: TailSpec,
    pub entropy: u64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Res {
    pub violations: Vec<(String, String)>,
    /// The harness itself failed.
    pub harness: Option<String>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub steps: u64,
    pub draws: u64,
    pub draws_by_kind: [u64; 5],
    pub switches: u64,
    pub preemptions: u64,
    pub early_events: u64,
    pub stalls: u64,
    pub events: u64,
    pub futex_waits: u64,
    #[serde(default)]
    pub heap_points: u64,
    pub sim_time: u64,
    pub interleaving: u64,
    pub connected: u32,
    pub calls: u64,
    pub recv: u64,
    pub subjects: BTreeMap<String, u64>,
    pub trace: Vec<String>,
    /// What the run did, as a hash: everything users and servers saw.
    pub history: u64,
}

const MAX_STEPS: u64 = 3_000_000;
const TAPE_CAP: usize = 8 << 20;
const RES_CAP: usize = 64 << 20;

pub struct Arena {
    tape: Shared,
    res: Shared,
}

impl Arena {
    pub fn new() -> Arena {
        Arena { tape: Shared::new(TAPE_CAP * 2 + 16), res: Shared::new(RES_CAP) }
    }

    fn tape_len(&self) -> *mut u64 {
        self.tape.ptr as *mut u64
    }

    fn tape_ptr(&self) -> *mut u16 {
        unsafe { self.tape.ptr.add(16) as *mut u16 }
    }

    /// The tape of the last run.
    pub fn tape(&self) -> Vec<u16> {
        unsafe {
            let n = (*self.tape_len() as usize).min(TAPE_CAP);
            std::slice::from_raw_parts(self.tape_ptr(), n).to_vec()
        }
    }

    pub fn run(&self, spec: &Spec, trace: bool) -> Res {
        // Gives back what the last run left, which may still have been asked for its tape.
        if unsafe { *self.tape_len() } > 500_000 {
            self.tape.trim();
        }
        let res_len = self.res.ptr as *mut u64;
        unsafe {
            *self.tape_len() = 0;
            *res_len = 0;
        }
        let cpu = if trace { 120 } else { 40 };
        let pid = sys::fork_child(|| {
            sys::limits(cpu, 600, 6 << 30);
            let (tape, res) = (self.tape_ptr() as usize, self.res.ptr as usize);
            let tl = self.tape_len() as usize;
            let spec = spec.clone();
            let t = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let r = in_thread(&spec, trace, TapeSink { ptr: tape as *mut u16, cap: TAPE_CAP, len: tl as *mut u64 });
                    let mut v = serde_json::to_vec(&r).unwrap();
                    if v.len() > RES_CAP - 8 {
                        let mut r = r;
                        r.trace.truncate(20_000);
                        v = serde_json::to_vec(&r).unwrap();
                    }
                    unsafe {
                        std::ptr::copy_nonoverlapping(v.as_ptr(), (res as *mut u8).add(8), v.len());
                        *(res as *mut u64) = v.len() as u64;
                    }
                    // Nothing of the run is cleaned up; the process just ends.
                    sys::exit(0);
                })
                .unwrap();
            let _ = t.join();
            sys::exit(102);
        });
        let end = sys::wait_child(pid);
        let n = unsafe { *res_len } as usize;
        let mut r = if n > 0 {
            let b = unsafe { std::slice::from_raw_parts(self.res.ptr.add(8), n) };
            serde_json::from_slice::<Res>(b).unwrap_or_default()
        } else {
            Res::default()
        };
        match end {
            End::Code(0) if n > 0 => {}
            End::Code(c) => r.harness = Some(format!("the run's process ended with {}", c)),
            // CPU or wall limit
            End::Signal(24) | End::Signal(14) => r.violations.push(("hang".into(), "a run does not come to an end: it computes without ever yielding".into())),
            End::Signal(9) => r.harness = Some("the run's process was killed".into()),
            End::Signal(s) => r.violations.push(("crash".into(), format!("the process died of signal {} (stack overflow, memory exhausted or abort)", s))),
        }
        r
    }
}

fn fnv(h: &mut u64, s: &str) {
    for b in s.bytes() {
        *h = (*h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
}

fn in_thread(spec: &Spec, trace: bool, sink: TapeSink) -> Res {
    simrt::prewarm();
    simrt::set_entropy_seed(spec.entropy);
    user::process_setup();
    let p = &spec.plan;
    simrt::set_clock_jumps(p.jumps.iter().map(|(at, by)| (at * US, *by)).collect());
    let bursts: u64 = p.all_ops().iter().map(|(_, o)| if let Op::Burst { n, .. } = o { *n as u64 } else { 0 }).sum();
    let floods: u64 = p.clients.iter().flat_map(|c| &c.server).map(|o| if let SrvOp::Flood { n, .. } = o { *n as u64 } else { 1 }).sum();
    let max_steps = MAX_STEPS + 300 * (bursts + floods);
    let cfg = Config {
        tape: Tape {
            fixed: spec.tape.clone(),
            tail: match spec.tail {
                TailSpec::Zero => Tail::Zero,
                TailSpec::Rng(s) => Tail::Rng(s),
            },
        },
        policy: match p.policy {
            Policy::Random(n) => simrt::Policy::Random { per_mille: n },
            Policy::Pct(d, s) => simrt::Policy::Pct { depth: d, span: s },
        },
        window: p.window_us * US,
        stall_per_mille: p.stall_pm,
        stall_max: p.stall_max_us * US,
        stall_budget: p.stall_budget,
        heap_every: p.heap_every,
        heap_seed: spec.entropy,
        max_steps,
        trace,
    };
    let plan = Rc::new(p.clone());
    let judged: Rc<std::cell::RefCell<Option<Res>>> = Default::default();
    let j2 = judged.clone();
    let (outcome, report) = simrt::run(
        cfg,
        Some(sink),
        Box::new(move || {
            user::main(plan);
            let mut r = Res::default();
            r.violations = oracle::judge(w()).into_iter().map(|v| (v.class, v.msg)).collect();
            collect(&mut r);
            *j2.borrow_mut() = Some(r);
        }),
    );
    let mut r = judged.borrow_mut().take().unwrap_or_default();
    match outcome {
        Outcome::Done => {}
        Outcome::Deadlock(who) => r.violations.push(("deadlock".into(), format!("nothing can run any more: {}", who.join("; ")))),
        Outcome::StepLimit(who) => r.violations.push(("livelock".into(), format!("no end after {} steps: {}", max_steps, who.join("; ")))),
        Outcome::MainPanicked(m) => {
            let at: Vec<String> = report.panics.iter().map(|p| format!("{} at {}", p.message, p.location)).collect();
            r.harness = Some(format!("the harness panicked: {} ({})", m, at.join(", ")));
        }
    }
    for p in &report.panics {
        if p.location.starts_with("src/") || p.location.starts_with("simrt/") {
            r.harness = Some(format!("the harness panicked: {} at {}", p.message, p.location));
        } else if r.violations.iter().all(|v| v.0 != "panic") {
            r.violations.push(("panic".into(), format!("{} panicked: {} at {}", p.co, p.message, p.location)));
        }
    }
    let s = &report.stats;
    r.steps = s.steps;
    r.draws = s.draws;
    r.draws_by_kind = s.draws_by_kind;
    r.switches = s.switches;
    r.preemptions = s.preemptions;
    r.early_events = s.early_events;
    r.stalls = s.stalls;
    r.events = s.events;
    r.futex_waits = s.futex_waits;
    r.heap_points = s.heap_points;
    r.sim_time = s.sim_time;
    r.interleaving = s.interleaving;
    r.trace = report.trace;
    r
}

/// Measures of what a run exercised.
fn collect(r: &mut Res) {
    let x = w();
    for (k, v) in &x.faults {
        r.faults.insert(k.to_string(), *v);
    }
    let jumps = x.plan.jumps.iter().filter(|(at, _)| at * US <= simrt::now()).count();
    if jumps > 0 {
        r.faults.insert("wall-clock-jump".into(), jumps as u64);
    }
    for (k, v) in &x.probes {
        r.probes.insert(k.to_string(), *v);
    }
    let mut sub: BTreeMap<&str, u64> = BTreeMap::new();
    let mut h = 0xcbf2_9ce4_8422_2325;
    let mut up = 0;
    for (c, k) in x.clients.iter().enumerate() {
        let p = &x.plan.clients[c];
        let ok = k.conn.as_ref().is_some_and(|c| c.result == Some(Ok(())));
        up += ok as u64;
        let mut add = |p: &'static str, n: u64| *sub.entry(p).or_insert(0) += n;
        let got = k.recv.iter().filter(|r| matches!(r.item, RI::Pkt(_))).count() as u64;
        r.recv += got;
        r.calls += k.calls.len() as u64;
        add("C01", got);
        add("C02", k.calls.iter().filter(|c| matches!(k.insts[c.inst].kind, InstKind::Event)).count() as u64);
        add("C03", k.sent.iter().filter(|s| matches!(s.kind, SK::Ack { .. })).count() as u64);
        add("C04", k.emits.iter().filter(|e| matches!(e.kind, EK::Reply(_))).count() as u64);
        add("C05", k.sent.iter().filter(|s| s.avail.is_some() && matches!(s.kind, SK::EPing | SK::WsPing(_))).count() as u64);
        add("C06", k.created.is_some() as u64);
        add("C07", (p.hs.conforming() && k.created.is_some()) as u64);
        add("C08", k.closes.len() as u64);
        add("C09", k.closes.first().map_or(0, |c| k.emits.iter().filter(|e| e.sent && e.inv < c.inv).count() as u64));
        add("C10", (ok && (!k.hard.is_empty() || k.sent.iter().any(|s| matches!(s.kind, SK::Eof | SK::Close)))) as u64);
        add("C11", k.sent.iter().filter(|s| s.avail.is_some() && matches!(s.kind, SK::Hostile(_) | SK::Ack { bad: true, .. })).count() as u64);
        // Something the client was used for by a callback, or during one.
        let during = |seq: u64| {
            let n = k.calls.partition_point(|c| c.seq < seq);
            k.calls[n.saturating_sub(4)..n].iter().any(|c| c.ret.is_none_or(|t| t > seq))
        };
        add("C12", k.regs.iter().filter(|e| during(e.inv)).count() as u64 + k.emits.iter().filter(|e| during(e.inv)).count() as u64 + k.inst_panics as u64);
        let first = k.sent.iter().filter(|s| matches!(s.kind, SK::Event { .. })).map(|s| s.seq).min().unwrap_or(u64::MAX);
        add("C13", k.regs.iter().filter(|e| e.inv > first).count() as u64);
        add("C14", (k.drop_at.is_some() || k.conn.as_ref().is_some_and(|c| c.abandoned)) as u64 + k.closes.iter().filter(|c| c.abandoned).count() as u64);
        add("C15", ((k.calls.len() as u64 + got) / 300).min(1));
        add("C16", k.emits.iter().map(|e| e.fail_args as u64 + !e.sent as u64).sum());
        add("C17", (p.tls.is_some() && k.created.is_some()) as u64);
        for e in &k.calls {
            fnv(&mut h, &format!("{} {} {:?};", e.inst, e.t, e.args));
        }
        for e in &k.recv {
            fnv(&mut h, &format!("{:?} {};", e.item, e.t));
        }
        fnv(&mut h, &format!("{:?} {:?}", k.conn, k.closes));
    }
    sub.insert("C18", if x.clients.len() > 1 { up.saturating_sub(1) } else { 0 });
    r.connected = up as u32;
    r.subjects = sub.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    r.history = h;
}
