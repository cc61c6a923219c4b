//! A deterministic runtime: stackful coroutines on one OS thread, a simulated clock, an event
//! queue, and one recorded tape from which every choice is drawn.
//!
//! One (tape source, program) pair is one execution. Nothing in here reads a real clock, a real
//! random source or an address.

use std::any::Any;
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

mod coro;
mod heap;
mod posix;
pub mod rng;

pub use heap::{closed, open, Heap, Region};
pub use posix::{prewarm, set_clock_jumps, set_entropy_seed};
use rng::Rng;

pub type CoId = usize;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

/// What a draw was for; only used to keep the statistics apart.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Kind {
    Sched = 0,
    Select = 1,
    Net = 2,
    Fault = 3,
    Other = 4,
}

#[derive(Clone, Debug)]
pub enum Tail {
    /// After the tape runs out every draw is 0, the simplest choice.
    Zero,
    /// After the tape runs out draws come from this seed.
    Rng(u64),
}

#[derive(Clone, Debug)]
pub struct Tape {
    pub fixed: Vec<u16>,
    pub tail: Tail,
}

#[derive(Clone, Debug)]
pub enum Policy {
    /// Preempt at a yield point with probability per_mille/1000, then choose uniformly.
    Random { per_mille: u32 },
    /// Priorities with `depth` priority-change points spread over about `span` yield points.
    Pct { depth: u32, span: u32 },
}

#[derive(Clone, Debug)]
pub struct Config {
    pub tape: Tape,
    pub policy: Policy,
    /// A pending event at most this far in the future may fire although coroutines are runnable.
    pub window: u64,
    /// Per-mille probability of a stall at a yield point, its longest duration and the budget.
    pub stall_per_mille: u32,
    pub stall_max: u64,
    pub stall_budget: u32,
    /// Mean number of heap operations of the code under test between two that are yield points;
    /// 0 for none.
    pub heap_every: u32,
    pub heap_seed: u64,
    pub max_steps: u64,
    pub trace: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    /// The main coroutine returned.
    Done,
    /// Nothing can run and the main coroutine has not returned.
    Deadlock(Vec<String>),
    /// The step budget ran out.
    StepLimit(Vec<String>),
    /// The main coroutine panicked (a harness error).
    MainPanicked(String),
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub points: u64,
    pub draws: u64,
    pub draws_by_kind: [u64; 5],
    pub switches: u64,
    pub preemptions: u64,
    pub early_events: u64,
    pub stalls: u64,
    pub events: u64,
    pub futex_waits: u64,
    pub futex_wakes: u64,
    pub heap_points: u64,
    pub sim_time: u64,
    pub interleaving: u64,
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum State {
    Ready,
    Running,
    Blocked,
    Done,
}

struct Co {
    name: String,
    state: State,
    coro: Option<coro::Coro>,
    why: &'static str,
    futex: usize,
    /// Set when the coroutine was made ready by its timeout and not by what it waited for.
    timed_out: bool,
    timeout: Option<(u64, u64)>,
    pred: Option<Box<dyn FnMut() -> bool>>,
    prio: u64,
    immune: bool,
}

type EventFn = Box<dyn FnOnce()>;

struct Rt {
    cfg: Config,
    cos: Vec<Co>,
    ready: Vec<CoId>,
    current: Option<CoId>,
    events: BTreeMap<(u64, u64), EventFn>,
    next_event: u64,
    now: u64,
    seq: u64,
    rng: Rng,
    tape_pos: usize,
    record: Vec<u16>,
    sink: Option<TapeSink>,
    stats: Stats,
    hash: u64,
    trace: Vec<String>,
    notified: bool,
    fire_requested: bool,
    next_direct: Option<CoId>,
    stalls_left: u32,
    pct_points: Vec<u64>,
    pct_step: u64,
    pct_low: u64,
    run_len: u32,
    step_limit_hit: bool,
    panics: Vec<PanicInfo>,
    quiet_time: bool,
    spinning: u32,
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub message: String,
    pub location: String,
    pub co: String,
}

/// Where the tape is mirrored while the run goes on, so that it survives a crash of the process.
pub struct TapeSink {
    pub ptr: *mut u16,
    pub cap: usize,
    pub len: *mut u64,
}

struct Global(UnsafeCell<Option<Rt>>);
unsafe impl Sync for Global {}
static RT: Global = Global(UnsafeCell::new(None));

thread_local! {
    static IS_SIM: Cell<bool> = const { Cell::new(false) };
}

pub fn in_sim() -> bool {
    IS_SIM.try_with(|x| x.get()).unwrap_or(false)
}

fn active() -> bool {
    in_sim() && unsafe { (*RT.0.get()).is_some() }
}

// The runtime is only ever touched from the one simulated OS thread and no reference obtained here
// is kept across a switch or a call to foreign code.
#[allow(clippy::mut_from_ref)]
fn rt() -> &'static mut Rt {
    debug_assert!(in_sim());
    unsafe { (*RT.0.get()).as_mut().expect("no simulation is running") }
}

impl Rt {
    fn mix(&mut self, x: u64) {
        self.hash = (self.hash ^ x).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(7);
    }

    fn push_draw(&mut self, v: u16, kind: Kind) {
        self.stats.draws += 1;
        self.stats.draws_by_kind[kind as usize] += 1;
        self.record.push(v);
        if let Some(s) = &self.sink {
            let n = self.record.len();
            if n <= s.cap {
                unsafe {
                    *s.ptr.add(n - 1) = v;
                    *s.len = n as u64;
                }
            }
        }
    }

    /// A draw in 0..n; `gen` is only asked when the tape does not say.
    fn draw(&mut self, n: usize, kind: Kind, gen: impl FnOnce(&mut Rng) -> usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = if self.tape_pos < self.cfg.tape.fixed.len() {
            let v = self.cfg.tape.fixed[self.tape_pos] as usize;
            if v >= n {
                v % n
            } else {
                v
            }
        } else {
            match self.cfg.tape.tail {
                Tail::Zero => 0,
                Tail::Rng(_) => gen(&mut self.rng).min(n - 1),
            }
        };
        self.tape_pos += 1;
        self.push_draw(v as u16, kind);
        v
    }

    fn due(&self) -> bool {
        match self.events.keys().next() {
            Some((t, _)) => *t <= self.now.saturating_add(if self.quiet_time { 0 } else { self.cfg.window }),
            None => false,
        }
    }

    fn make_ready(&mut self, id: CoId) {
        let co = &mut self.cos[id];
        if co.state == State::Blocked {
            co.state = State::Ready;
            co.pred = None;
            co.futex = 0;
            if let Some(k) = co.timeout.take() {
                self.events.remove(&k);
            }
            self.ready.push(id);
        }
    }

    fn blocked_report(&self) -> Vec<String> {
        self.cos
            .iter()
            .filter(|c| c.state != State::Done)
            .map(|c| format!("{}: {:?} ({})", c.name, c.state, c.why))
            .collect()
    }
}

/// Run `main` as the first coroutine of a simulation on the calling OS thread, to its end.
pub fn run(cfg: Config, sink: Option<TapeSink>, main: Box<dyn FnOnce()>) -> (Outcome, Report) {
    IS_SIM.with(|x| x.set(true));
    let seed = match cfg.tape.tail {
        Tail::Zero => 0,
        Tail::Rng(s) => s,
    };
    let mut rng = Rng::new(seed);
    let pct_points = match (&cfg.policy, &cfg.tape.tail) {
        (Policy::Pct { depth, span }, Tail::Rng(_)) => (0..*depth).map(|_| rng.below(*span as usize + 1) as u64).collect(),
        _ => Vec::new(),
    };
    let stalls_left = cfg.stall_budget;
    heap::start(cfg.heap_every, cfg.heap_seed);
    unsafe {
        *RT.0.get() = Some(Rt {
            cfg,
            cos: Vec::new(),
            ready: Vec::new(),
            current: None,
            events: BTreeMap::new(),
            next_event: 0,
            now: 0,
            seq: 0,
            rng,
            tape_pos: 0,
            record: Vec::new(),
            sink,
            stats: Stats::default(),
            hash: 0xcbf2_9ce4_8422_2325,
            trace: Vec::new(),
            notified: false,
            fire_requested: false,
            next_direct: None,
            stalls_left,
            pct_points,
            pct_step: 0,
            pct_low: 1 << 20,
            run_len: 0,
            step_limit_hit: false,
            panics: Vec::new(),
            quiet_time: false,
            spinning: 0,
        });
    }
    let main_panic: Arc<std::sync::Mutex<Option<String>>> = Arc::new(std::sync::Mutex::new(None));
    let mp = main_panic.clone();
    let main_id = spawn("main", move || {
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(main)) {
            *mp.lock().unwrap() = Some(payload_str(&*e));
        }
    });
    rt().cos[main_id].immune = true;
    let outcome = schedule_loop(main_id);
    heap::start(0, 0);
    let outcome = match (outcome, main_panic.lock().unwrap().take()) {
        (Outcome::Done, Some(p)) => Outcome::MainPanicked(p),
        (o, _) => o,
    };
    let r = unsafe { (*RT.0.get()).take().unwrap() };
    let mut stats = r.stats;
    stats.sim_time = r.now;
    stats.interleaving = r.hash;
    let report = Report { stats, tape: r.record, trace: r.trace, panics: r.panics };
    // Coroutines that never finished are abandoned with their stacks; the process ends soon.
    std::mem::forget(r.cos);
    std::mem::forget(r.events);
    IS_SIM.with(|x| x.set(false));
    (outcome, report)
}

pub struct Report {
    pub stats: Stats,
    pub tape: Vec<u16>,
    pub trace: Vec<String>,
    pub panics: Vec<PanicInfo>,
}

pub fn payload_str(e: &(dyn Any + Send)) -> String {
    payload_str_ref(e)
}

pub fn payload_str_ref(e: &dyn Any) -> String {
    if let Some(s) = e.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic payload>".to_string()
    }
}

fn schedule_loop(main_id: CoId) -> Outcome {
    loop {
        check_preds();
        let r = rt();
        if r.cos[main_id].state == State::Done {
            return Outcome::Done;
        }
        if r.step_limit_hit || r.stats.steps > r.cfg.max_steps {
            return Outcome::StepLimit(r.blocked_report());
        }
        if r.fire_requested {
            r.fire_requested = false;
            // It may have been a timeout that is no longer wanted.
            if r.due() {
                fire_next();
            }
            continue;
        }
        if let Some(id) = r.next_direct.take() {
            if let Some(p) = r.ready.iter().position(|x| *x == id) {
                r.ready.remove(p);
                resume(id);
                continue;
            }
        }
        if r.ready.is_empty() {
            if r.events.is_empty() {
                return Outcome::Deadlock(r.blocked_report());
            }
            r.stats.steps += 1;
            fire_next();
            continue;
        }
        let n_ready = r.ready.len();
        let n = n_ready + r.due() as usize;
        r.stats.steps += 1;
        let idx = pick_blocked(n, n_ready);
        if idx == n_ready {
            let r = rt();
            r.stats.early_events += 1;
            fire_next();
        } else {
            let id = rt().ready.remove(idx);
            resume(id);
        }
    }
}

fn pick_blocked(n: usize, n_ready: usize) -> usize {
    let r = rt();
    let pct = matches!(r.cfg.policy, Policy::Pct { .. });
    let best = if pct && r.run_len < 400 {
        (0..n_ready).max_by_key(|i| r.cos[r.ready[*i]].prio)
    } else {
        None
    };
    r.draw(n, Kind::Sched, |rng| match best {
        // Even under priorities the network gets its turn now and then.
        Some(b) => {
            if n > n_ready && rng.below(8) == 0 {
                n_ready
            } else {
                b
            }
        }
        None => rng.below(n),
    })
}

fn check_preds() {
    loop {
        let r = rt();
        if !r.notified {
            return;
        }
        r.notified = false;
        for id in 0..rt().cos.len() {
            let r = rt();
            if r.cos[id].state != State::Blocked {
                continue;
            }
            if let Some(mut p) = r.cos[id].pred.take() {
                let ok = p();
                let r = rt();
                if ok {
                    r.make_ready(id);
                } else if r.cos[id].state == State::Blocked {
                    r.cos[id].pred = Some(p);
                }
            }
        }
    }
}

fn fire_next() {
    let r = rt();
    let k = *r.events.keys().next().unwrap();
    let f = r.events.remove(&k).unwrap();
    if k.0 > r.now {
        r.now = k.0;
    }
    r.stats.events += 1;
    r.current = None;
    r.mix(0xE000 + k.1);
    f();
}

fn resume(id: CoId) {
    let r = rt();
    r.stats.switches += 1;
    r.mix(0xC000 + id as u64);
    r.cos[id].state = State::Running;
    r.current = Some(id);
    r.run_len += 1;
    let co: *mut coro::Coro = r.cos[id].coro.as_mut().unwrap();
    let done = unsafe { (*co).resume() };
    let r = rt();
    r.current = None;
    if done {
        r.cos[id].state = State::Done;
        let c = r.cos[id].coro.take();
        drop(c);
        r.notified = true;
    }
}

/// Start a coroutine. A panic in it is contained and recorded by the panic hook.
pub fn spawn(name: &str, f: impl FnOnce() + 'static) -> CoId {
    let _c = closed();
    let r = rt();
    let id = r.cos.len();
    let prio = (1 << 20) + r.rng.below(1 << 20) as u64;
    let c = coro::Coro::new(Box::new(move || {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    }));
    r.cos.push(Co {
        name: name.to_string(),
        state: State::Ready,
        coro: Some(c),
        why: "start",
        futex: 0,
        timed_out: false,
        timeout: None,
        pred: None,
        prio,
        immune: false,
    });
    r.ready.push(id);
    id
}

pub fn is_done(id: CoId) -> bool {
    rt().cos[id].state == State::Done
}

pub fn blocked_coroutines() -> Vec<String> {
    rt().blocked_report()
}

pub fn blocked_on(id: CoId) -> &'static str {
    rt().cos[id].why
}

pub fn co_name() -> String {
    if !active() {
        return String::new();
    }
    let r = rt();
    match r.current {
        Some(c) => r.cos[c].name.clone(),
        None => "event".to_string(),
    }
}

pub fn now() -> u64 {
    if active() {
        rt().now
    } else {
        0
    }
}

/// The global sequence number of the simulation, increased by each call.
pub fn next_seq() -> u64 {
    let r = rt();
    r.seq += 1;
    r.seq
}

pub fn cur_seq() -> u64 {
    rt().seq
}

pub fn steps() -> u64 {
    rt().stats.steps
}

/// Events may no longer fire ahead of time while something is runnable, and nothing stalls.
pub fn set_quiet(q: bool) {
    rt().quiet_time = q;
}

pub fn at(time: u64, f: impl FnOnce() + 'static) -> (u64, u64) {
    let _c = closed();
    let r = rt();
    r.next_event += 1;
    let k = (time.max(r.now), r.next_event);
    r.events.insert(k, Box::new(f));
    k
}

pub fn after(delay: u64, f: impl FnOnce() + 'static) -> (u64, u64) {
    at(now().saturating_add(delay), f)
}

pub fn cancel(k: (u64, u64)) {
    let _c = closed();
    if active() {
        let f = rt().events.remove(&k);
        drop(f);
    }
}

pub fn pending_events() -> usize {
    rt().events.len()
}

/// Tell waiting predicates that something has changed.
pub fn notify() {
    rt().notified = true;
}

/// Mix a value into the interleaving hash.
pub fn mix(x: u64) {
    rt().mix(x)
}

pub fn trace(f: impl FnOnce() -> String) {
    let _c = closed();
    if !active() {
        return;
    }
    let r = rt();
    if r.cfg.trace {
        let who = match r.current {
            Some(c) => r.cos[c].name.clone(),
            None => "net".to_string(),
        };
        let t = r.now;
        let s = f();
        let r = rt();
        r.trace.push(format!("[{:>12.6}s #{:<5} {:<8}] {}", t as f64 / 1e9, r.stats.steps, who, s));
    }
}

pub fn tracing() -> bool {
    active() && rt().cfg.trace
}

pub fn record_panic(message: String, location: String) {
    let _c = closed();
    if active() {
        let co = co_name();
        trace(|| format!("PANIC {} at {}", message, location));
        rt().panics.push(PanicInfo { message, location, co });
    }
}

pub fn panics() -> Vec<PanicInfo> {
    let _c = closed();
    rt().panics.clone()
}

/// A uniform choice in 0..n. 0 is the simplest.
pub fn choose(n: usize, kind: Kind) -> usize {
    let _c = closed();
    if !active() {
        return 0;
    }
    rt().draw(n, kind, |rng| rng.below(n))
}

/// True with the given probability.
pub fn chance(per_mille: u32, kind: Kind) -> bool {
    let _c = closed();
    if per_mille == 0 || !active() {
        return false;
    }
    rt().draw(2, kind, |rng| (rng.below(1000) < per_mille as usize) as usize) == 1
}

fn can_yield() -> bool {
    active() && rt().current.is_some() && !std::thread::panicking()
}

/// A yield point: the scheduler may run something else here.
pub fn point(tag: &'static str) {
    if can_yield() {
        let _c = closed();
        yield_point(tag, 0);
    }
}

/// A heap operation of the code under test.
fn heap_point() {
    if can_yield() {
        rt().stats.heap_points += 1;
        yield_point("heap", 400);
    }
}

fn yield_point(tag: &'static str, least: usize) {
    rt().spinning = 0;
    let r = rt();
    let id = r.current.unwrap();
    if r.cos[id].immune {
        return;
    }
    let (sp, left, quiet) = (r.cfg.stall_per_mille, r.stalls_left, r.quiet_time);
    if sp > 0 && left > 0 && !quiet && chance(sp, Kind::Fault) {
        let r = rt();
        r.stalls_left -= 1;
        r.stats.stalls += 1;
        let max = r.cfg.stall_max;
        let d = max / 8 * (1 + choose(8, Kind::Fault) as u64);
        trace(|| format!("stall {} at {}", d, tag));
        sleep(d);
        return;
    }
    let r = rt();
    r.stats.points += 1;
    if r.stats.steps > r.cfg.max_steps || r.stats.points > 8 * r.cfg.max_steps {
        r.step_limit_hit = true;
        r.cos[id].why = tag;
        r.cos[id].state = State::Blocked;
        switch_out(id);
        return;
    }
    let n_ready = r.ready.len();
    let due = r.due() as usize;
    let n = 1 + n_ready + due;
    if n == 1 {
        return;
    }
    r.stats.steps += 1;
    r.pct_step += 1;
    let step = r.pct_step;
    let mut pct_target = None;
    if let Policy::Pct { .. } = r.cfg.policy {
        if r.pct_points.contains(&step) {
            r.pct_low -= 1;
            r.cos[id].prio = r.pct_low;
        }
        let mine = r.cos[id].prio;
        let best = (0..n_ready).max_by_key(|i| r.cos[r.ready[*i]].prio);
        pct_target = Some(match best {
            Some(b) if r.cos[r.ready[b]].prio > mine => b + 1,
            _ => 0,
        });
    }
    let per_mille = match r.cfg.policy {
        Policy::Random { per_mille } => per_mille as usize,
        _ => 20,
    }
    .max(least);
    let run_len = r.run_len;
    let idx = r.draw(n, Kind::Sched, |rng| {
        if let Some(t) = pct_target {
            if run_len < 400 && rng.below(1000) >= per_mille {
                return t;
            }
        }
        if rng.below(1000) < per_mille || run_len >= 2000 {
            1 + rng.below(n - 1)
        } else {
            0
        }
    });
    if idx == 0 {
        rt().run_len += 1;
        return;
    }
    let r = rt();
    r.run_len = 0;
    r.stats.preemptions += 1;
    r.mix(tag.len() as u64 ^ (tag.as_bytes()[0] as u64) << 8);
    trace(|| format!("preempted at {}", tag));
    let r = rt();
    r.cos[id].state = State::Ready;
    r.cos[id].why = tag;
    if idx == n_ready + 1 {
        r.stats.early_events += 1;
        r.fire_requested = true;
        r.next_direct = Some(id);
    } else {
        r.next_direct = Some(r.ready[idx - 1]);
    }
    r.ready.push(id);
    switch_out(id);
}

/// What a spinning thread does: the others go first, and in the end time passes.
pub fn spin() {
    if !active() || rt().current.is_none() {
        return;
    }
    let r = rt();
    r.spinning += 1;
    if r.spinning > 20 {
        sleep(100_000);
    } else {
        yield_now("sched_yield");
    }
}

/// A yield point that always lets the others go first.
pub fn yield_now(tag: &'static str) {
    let _c = closed();
    if !active() || rt().current.is_none() {
        return;
    }
    let r = rt();
    let id = r.current.unwrap();
    r.cos[id].state = State::Ready;
    r.cos[id].why = tag;
    r.ready.push(id);
    switch_out(id);
}

fn switch_out(id: CoId) {
    let _c = closed();
    let co: *mut coro::Coro = rt().cos[id].coro.as_mut().unwrap();
    unsafe { (*co).suspend() };
}

/// Block the current coroutine until `make_ready`, or until the timeout. True if woken in time.
fn block(why: &'static str, futex: usize, pred: Option<Box<dyn FnMut() -> bool>>, timeout: Option<u64>) -> bool {
    let _c = closed();
    let r = rt();
    let id = r.current.expect("blocking outside of a coroutine");
    r.run_len = 0;
    let co = &mut r.cos[id];
    co.state = State::Blocked;
    co.why = why;
    co.futex = futex;
    co.pred = pred;
    co.timed_out = false;
    if let Some(t) = timeout {
        let k = at(t, move || {
            let r = rt();
            r.cos[id].timeout = None;
            if r.cos[id].state == State::Blocked {
                r.cos[id].timed_out = true;
                r.make_ready(id);
            }
        });
        rt().cos[id].timeout = Some(k);
    }
    switch_out(id);
    !rt().cos[id].timed_out
}

pub fn sleep(ns: u64) {
    let t = now().saturating_add(ns);
    block("sleep", 0, None, Some(t));
}

pub fn sleep_until(t: u64) {
    if t > now() {
        block("sleep", 0, None, Some(t));
    }
}

/// Wait until the predicate holds (re-evaluated after `notify`); false after the timeout.
pub fn wait(why: &'static str, timeout: Option<u64>, mut pred: impl FnMut() -> bool + 'static) -> bool {
    if pred() {
        return true;
    }
    let t = timeout.map(|t| now().saturating_add(t));
    block(why, 0, Some(Box::new(pred)), t)
}

struct CoWaker {
    id: CoId,
    woken: Arc<std::sync::atomic::AtomicBool>,
}

impl Wake for CoWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if !active() {
            return;
        }
        let _c = closed();
        use std::sync::atomic::Ordering::SeqCst;
        self.woken.store(true, SeqCst);
        let r = rt();
        if r.cos[self.id].state == State::Blocked && r.cos[self.id].why == "future" {
            r.make_ready(self.id);
        }
        point("wake");
    }
}

/// Drive a future on the current coroutine. `on_pending` is called after each Pending poll and may
/// ask to give up, in which case the future is dropped and None returned.
pub fn block_on<F: Future>(fut: F, mut on_pending: impl FnMut(u32) -> bool, deadline: Option<u64>) -> Option<F::Output> {
    use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
    let mut fut = Box::pin(fut);
    let id = rt().current.expect("block_on outside of a coroutine");
    let woken = Arc::new(AtomicBool::new(false));
    let waker = Waker::from(Arc::new(CoWaker { id, woken: woken.clone() }));
    let mut cx = Context::from_waker(&waker);
    let mut polls = 0;
    loop {
        woken.store(false, SeqCst);
        point("poll");
        let r = {
            let _o = open();
            Pin::as_mut(&mut fut).poll(&mut cx)
        };
        if let Poll::Ready(x) = r {
            return Some(x);
        }
        polls += 1;
        if on_pending(polls) {
            return None;
        }
        if woken.load(SeqCst) {
            continue;
        }
        if !block("future", 0, None, deadline) && deadline.is_some_and(|d| now() >= d) {
            return None;
        }
    }
}

// ---- futex -------------------------------------------------------------------------------------

pub(crate) fn futex_wait(addr: *const u32, expected: u32, timeout: Option<u64>) -> i32 {
    let _c = closed();
    let cur = unsafe { std::ptr::read_volatile(addr) };
    if cur != expected {
        return -11; // EAGAIN
    }
    let r = rt();
    if r.current.is_none() {
        panic!("an event handler blocked on a futex");
    }
    r.stats.futex_waits += 1;
    r.mix(0xF0);
    if block("futex", addr as usize, None, timeout) {
        0
    } else {
        -110 // ETIMEDOUT
    }
}

pub(crate) fn futex_wake(addr: *const u32, n: u32) -> i32 {
    let _c = closed();
    let r = rt();
    r.stats.futex_wakes += 1;
    let mut woken = 0;
    while woken < n {
        let r = rt();
        let waiters: Vec<CoId> = (0..r.cos.len())
            .filter(|i| r.cos[*i].state == State::Blocked && r.cos[*i].futex == addr as usize && r.cos[*i].why == "futex")
            .collect();
        if waiters.is_empty() {
            break;
        }
        let i = if std::thread::panicking() { 0 } else { choose(waiters.len(), Kind::Sched) };
        rt().make_ready(waiters[i]);
        woken += 1;
    }
    point("futex-wake");
    woken as i32
}

pub(crate) fn sim_now_for_clock() -> Option<u64> {
    if active() {
        Some(rt().now)
    } else {
        None
    }
}

pub(crate) fn can_block() -> bool {
    active() && rt().current.is_some()
}

/// Called from the patched `futures-util` for the branch order of `select!`.
#[no_mangle]
pub extern "C" fn sio_sim_select_index(n: usize) -> usize {
    choose(n, Kind::Select)
}
