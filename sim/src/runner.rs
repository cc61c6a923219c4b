//! Search over many runs, shrinking, replay files and evidence.

use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::exec::*;
use crate::gen::{self, G};
use crate::plan::*;
use crate::sys::{self, Shared};

/// Classes that are broken promises whatever the property under test.
const GENERIC: [&str; 6] = ["panic", "stuck", "deadlock", "livelock", "crash", "hang"];

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_add(b.wrapping_mul(0x9e37_79b9_7f4a_7c15)).wrapping_add(0x1234_5678_9abc_def1);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

fn prop_no(p: &str) -> u64 {
    p[1..].parse().unwrap()
}

/// The run with that number. One run in eight comes from another property's family.
pub fn spec_of(prop: &str, base: u64, i: u64) -> Spec {
    let seed = mix(mix(base, prop_no(prop)), i);
    let family = if mix(seed, 1) % 8 == 0 { gen::PROPS[(mix(seed, 2) % gen::PROPS.len() as u64) as usize] } else { prop };
    spec_from(family, seed)
}

pub fn spec_from(family: &str, seed: u64) -> Spec {
    let plan = G::new(mix(seed, 3)).gen(family);
    Spec { plan, tape: Vec::new(), tail: TailSpec::Rng(mix(seed, 4)), entropy: mix(seed, 5) }
}

fn counts(prop: &str, class: &str) -> bool {
    class.starts_with(prop) || GENERIC.contains(&class)
}

fn hit(prop: &str, r: &Res) -> Option<(String, String)> {
    // What is wrong with the property itself is said first.
    r.violations
        .iter()
        .find(|v| v.0.starts_with(prop))
        .or_else(|| r.violations.iter().find(|v| counts(prop, &v.0)))
        .cloned()
}

#[derive(Default, Clone, Serialize, Deserialize)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    hashes: Vec<u64>,
    histories: Vec<u64>,
    faults: BTreeMap<String, u64>,
    fault_runs: u64,
    probes: BTreeMap<String, u64>,
    families: BTreeMap<String, u64>,
    sums: BTreeMap<String, u64>,
    max_steps: u64,
    other: BTreeMap<String, u64>,
    samples: Vec<Value>,
    /// (run, class, message)
    found: Option<(u64, String, String)>,
    harness: Option<(u64, String)>,
    replayed: u64,
    diverged: Vec<u64>,
}

fn add(m: &mut BTreeMap<String, u64>, k: &str, n: u64) {
    *m.entry(k.to_string()).or_insert(0) += n;
}

impl Agg {
    fn take(&mut self, prop: &str, i: u64, r: &Res) {
        self.runs += 1;
        let subject = r.subjects.get(prop).copied().unwrap_or(0);
        if subject > 0 {
            self.nontrivial += 1;
            self.hashes.push(r.interleaving);
            self.histories.push(r.history);
            if self.samples.len() < 2 {
                self.samples.push(json!({
                    "run": i, "steps": r.steps, "draws": r.draws, "preemptions": r.preemptions, "simulated_ms": r.sim_time / 1_000_000,
                    "faults": r.faults, "clients_connected": r.connected, "callbacks": r.calls, "packets_received_by_server": r.recv,
                    "instances_of_the_property": subject, "interleaving": format!("{:016x}", r.interleaving),
                }));
            }
        }
        for (k, v) in &r.faults {
            add(&mut self.faults, k, *v);
        }
        self.fault_runs += !r.faults.is_empty() as u64;
        for (k, v) in &r.probes {
            add(&mut self.probes, k, *v);
        }
        for (k, v) in [
            ("steps", r.steps),
            ("draws", r.draws),
            ("context_switches", r.switches),
            ("preemptions", r.preemptions),
            ("events_fired_early", r.early_events),
            ("thread_stalls", r.stalls),
            ("timer_and_network_events", r.events),
            ("blocking_lock_waits", r.futex_waits),
            ("heap_yield_points", r.heap_points),
            ("simulated_ns", r.sim_time),
            ("clients_connected", r.connected as u64),
            ("callbacks", r.calls),
            ("packets_received_by_server", r.recv),
            ("instances_of_the_property", subject),
        ] {
            add(&mut self.sums, k, v);
        }
        for (k, v) in ["draws_scheduling", "draws_select", "draws_network", "draws_faults", "draws_other"].iter().zip(r.draws_by_kind) {
            add(&mut self.sums, k, v);
        }
        self.max_steps = self.max_steps.max(r.steps);
        for v in &r.violations {
            if !counts(prop, &v.0) {
                add(&mut self.other, &v.0, 1);
            }
        }
        if let Some(h) = &r.harness {
            if self.harness.is_none() {
                self.harness = Some((i, h.clone()));
            }
        } else if let Some((c, m)) = hit(prop, r) {
            if self.found.is_none() {
                self.found = Some((i, c, m));
            }
        }
    }

    fn join(&mut self, o: Agg) {
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.hashes.extend(o.hashes);
        self.histories.extend(o.histories);
        for (a, b) in [(&mut self.faults, o.faults), (&mut self.probes, o.probes), (&mut self.families, o.families), (&mut self.sums, o.sums), (&mut self.other, o.other)] {
            for (k, v) in b {
                add(a, &k, v);
            }
        }
        self.fault_runs += o.fault_runs;
        self.max_steps = self.max_steps.max(o.max_steps);
        self.samples.extend(o.samples);
        self.replayed += o.replayed;
        self.diverged.extend(o.diverged);
        let first = |a: &(u64, String, String), b: &(u64, String, String)| a.0 <= b.0;
        if let Some(f) = o.found {
            if self.found.as_ref().is_none_or(|g| !first(g, &f)) {
                self.found = Some(f);
            }
        }
        if let Some(f) = o.harness {
            if self.harness.as_ref().is_none_or(|g| g.0 > f.0) {
                self.harness = Some(f);
            }
        }
    }
}

pub struct Check {
    pub prop: String,
    pub base: u64,
    pub runs: u64,
    pub secs: u64,
    pub workers: u64,
    pub keep_going: bool,
}

const WORKER_CAP: usize = 512 << 20;

/// Every run goes into `f` in the worker that made it.
fn search(c: &Check) -> Agg {
    let stop = Shared::new(4096);
    let lowest = unsafe { &*(stop.ptr as *const AtomicU64) };
    lowest.store(u64::MAX, Ordering::SeqCst);
    let outs: Vec<Shared> = (0..c.workers).map(|_| Shared::new(WORKER_CAP)).collect();
    let start = Instant::now();
    let mut pids = Vec::new();
    for w in 0..c.workers {
        let out = outs[w as usize].ptr;
        pids.push(sys::fork_child(|| {
            let arena = Arena::new();
            let mut agg = Agg::default();
            let mut i = w;
            while i < c.runs && start.elapsed().as_secs() < c.secs && i < lowest.load(Ordering::SeqCst) {
                let spec = spec_of(&c.prop, c.base, i);
                let r = arena.run(&spec, false);
                let before = agg.found.is_some();
                agg.take(&c.prop, i, &r);
                // An error of the harness does not end the search for a violation.
                if !before && agg.found.is_some() && !c.keep_going {
                    lowest.fetch_min(i, Ordering::SeqCst);
                }
                // Now and then the same run once more, from its own recorded tape: it must be the same.
                if i % 97 == 5 && r.harness.is_none() {
                    let s2 = Spec { tape: arena.tape(), tail: TailSpec::Zero, ..spec };
                    let r2 = arena.run(&s2, false);
                    agg.replayed += 1;
                    if !same(&r, &r2) {
                        agg.diverged.push(i);
                    }
                }
                i += c.workers;
            }
            let v = serde_json::to_vec(&agg).unwrap();
            assert!(v.len() < WORKER_CAP - 8);
            unsafe {
                std::ptr::copy_nonoverlapping(v.as_ptr(), out.add(8), v.len());
                *(out as *mut u64) = v.len() as u64;
            }
        }));
    }
    let mut agg = Agg::default();
    for (w, pid) in pids.into_iter().enumerate() {
        let end = sys::wait_child(pid);
        let n = unsafe { *(outs[w].ptr as *const u64) } as usize;
        if end != sys::End::Code(0) || n == 0 {
            agg.harness = Some((0, format!("worker {} ended with {:?}", w, end)));
            continue;
        }
        let b = unsafe { std::slice::from_raw_parts(outs[w].ptr.add(8), n) };
        agg.join(serde_json::from_slice(b).unwrap());
    }
    agg
}

pub fn same(a: &Res, b: &Res) -> bool {
    a.interleaving == b.interleaving && a.history == b.history && a.steps == b.steps && a.draws == b.draws && a.sim_time == b.sim_time && a.violations == b.violations
}

// ---------------------------------------------------------------- shrinking

/// Every way to make a value a little smaller, as functions of the path to a place in it.
/// A smaller value in the place of another.
enum Less {
    Without(std::ops::Range<usize>),
    Is(Value),
}

impl Less {
    /// One at a time: they may be large.
    fn of(self, v: &Value) -> Value {
        match (self, v) {
            (Less::Without(r), Value::Array(a)) => Value::Array(a[..r.start].iter().chain(&a[r.end..]).cloned().collect()),
            (Less::Is(v), _) => v,
            (_, v) => v.clone(),
        }
    }
}

fn candidates(v: &Value) -> Vec<Less> {
    let mut out: Vec<Value> = Vec::new();
    match v {
        Value::Array(a) => {
            // Not byte strings element by element beyond a point: chunks suffice.
            let n = a.len();
            let mut cuts = Vec::new();
            let mut chunk = n;
            while chunk > 0 {
                let mut i = 0;
                let mut made = 0;
                while i < n && made < 24 {
                    cuts.push(Less::Without(i..(i + chunk).min(n)));
                    i += chunk;
                    made += 1;
                }
                chunk /= 2;
            }
            return cuts;
        }
        Value::Number(n) => {
            if let Some(u) = n.as_u64() {
                for c in [0, 1, u / 16, u / 2, u.saturating_sub(1)] {
                    if c < u && !out.contains(&json!(c)) {
                        out.push(json!(c));
                    }
                }
            }
        }
        Value::String(s) => {
            let c: Vec<char> = s.chars().collect();
            if c.len() > 1 {
                out.push(json!(c[..c.len() / 2].iter().collect::<String>()));
                out.push(json!(c[1..].iter().collect::<String>()));
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        Value::Object(_) => out.push(Value::Null),
        _ => {}
    }
    out.into_iter().map(Less::Is).collect()
}

fn places(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate().take(200) {
                at.push(i.to_string());
                places(x, at, out);
                at.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                places(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn get<'a>(v: &'a mut Value, at: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in at {
        v = match v {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(m) => m.get_mut(k)?,
            _ => return None,
        };
    }
    Some(v)
}

struct Shrinker<'a> {
    arena: Arena,
    prop: &'a str,
    class: String,
    until: Instant,
    tried: u64,
    kept: u64,
}

impl Shrinker<'_> {
    fn bad(&mut self, s: &Spec) -> bool {
        self.tried += 1;
        let r = self.arena.run(s, false);
        r.harness.is_none() && r.violations.iter().any(|v| v.0 == self.class)
    }

    fn time(&self) -> bool {
        Instant::now() < self.until
    }

    fn try_plan(&mut self, s: &Spec, v: &Value) -> Option<Spec> {
        let plan: Plan = serde_json::from_value(v.clone()).ok()?;
        if !gen::sensible(&plan) {
            return None;
        }
        // The schedule goes its own way in a smaller plan; a few of them are tried.
        let seeds: Vec<u64> = match s.tail {
            TailSpec::Rng(t) => vec![t, mix(t, 1), mix(t, 2)],
            TailSpec::Zero => vec![],
        };
        for t in seeds {
            let n = Spec { plan: plan.clone(), tape: Vec::new(), tail: TailSpec::Rng(t), entropy: s.entropy };
            if self.bad(&n) {
                self.kept += 1;
                return Some(n);
            }
            if !self.time() {
                break;
            }
        }
        None
    }

    fn plan(&mut self, mut s: Spec) -> Spec {
        loop {
            let mut better = false;
            let mut v = serde_json::to_value(&s.plan).unwrap();
            let mut at = 0;
            loop {
                let mut all = Vec::new();
                places(&v, &mut Vec::new(), &mut all);
                // Big things first.
                all.sort_by_key(|p| p.len());
                if at >= all.len() || !self.time() {
                    break;
                }
                let p = all[at].clone();
                let mut changed = false;
                let here = get(&mut v, &p).unwrap().clone();
                for c in candidates(&here) {
                    if !self.time() {
                        break;
                    }
                    let mut v2 = v.clone();
                    *get(&mut v2, &p).unwrap() = c.of(&here);
                    if let Some(n) = self.try_plan(&s, &v2) {
                        s = n;
                        v = serde_json::to_value(&s.plan).unwrap();
                        changed = true;
                        better = true;
                        break;
                    }
                }
                if !changed {
                    at += 1;
                }
            }
            if !better || !self.time() {
                return s;
            }
        }
    }

    /// Fewer choices: as short a tape as possible, then as many zeros in it as possible.
    fn tape(&mut self, s: Spec) -> Spec {
        self.arena.run(&s, false);
        let full = self.arena.tape();
        let mut best = Spec { tape: full.clone(), tail: TailSpec::Zero, ..s.clone() };
        if self.prop == "C15" {
            // Fairness is about fair choices; all zeros are none.
            return best;
        }
        let (mut lo, mut hi) = (0, full.len());
        while lo < hi && self.time() {
            let mid = (lo + hi) / 2;
            let n = Spec { tape: full[..mid].to_vec(), ..best.clone() };
            if self.bad(&n) {
                hi = mid;
                best = n;
            } else {
                lo = mid + 1;
            }
        }
        let mut chunk = best.tape.len();
        while chunk > 0 && self.time() {
            let mut i = 0;
            while i < best.tape.len() && self.time() {
                let j = (i + chunk).min(best.tape.len());
                if best.tape[i..j].iter().any(|x| *x != 0) {
                    let mut n = best.clone();
                    n.tape[i..j].iter_mut().for_each(|x| *x = 0);
                    if self.bad(&n) {
                        best = n;
                    }
                }
                i = j;
            }
            chunk /= 2;
        }
        while best.tape.last() == Some(&0) {
            best.tape.pop();
        }
        best
    }
}

#[derive(Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub class: String,
    pub message: String,
    /// Where it was found, before it was made smaller.
    pub found: Value,
    pub seed: u64,
    pub spec: Spec,
    pub faults: BTreeMap<String, u64>,
    pub interleaving: u64,
    pub history: u64,
    pub steps: u64,
    pub trace: Vec<String>,
}

fn minimise(prop: &str, base: u64, i: u64, class: &str, secs: u64) -> ReplayFile {
    let orig = spec_of(prop, base, i);
    let now = Instant::now();
    let budget = std::time::Duration::from_secs(secs);
    let mut s = Shrinker { arena: Arena::new(), prop, class: class.to_string(), until: now + budget * 2 / 3, tried: 0, kept: 0 };
    let small = s.plan(orig.clone());
    s.until = now + budget;
    let mut small = s.tape(small);
    if !s.bad(&small) {
        small = orig;
    }
    let r = s.arena.run(&small, true);
    let message = r.violations.iter().find(|v| v.0 == class).map(|v| v.1.clone()).unwrap_or_default();
    ReplayFile {
        property: prop.into(),
        class: class.into(),
        message,
        found: json!({"base_seed": base, "run": i, "executions_while_minimising": s.tried, "reductions": s.kept}),
        seed: mix(mix(base, prop_no(prop)), i),
        spec: small,
        faults: r.faults,
        interleaving: r.interleaving,
        history: r.history,
        steps: r.steps,
        trace: r.trace,
    }
}

// ---------------------------------------------------------------- commands

pub fn default_runs(prop: &str, tier: &str) -> (u64, u64) {
    // The number of runs decides; the seconds are a bound for slow machines.
    match (tier, prop) {
        ("thorough", _) => (3_000_000, 600),
        // Its runs are long.
        (_, "C15") => (18_000, 90),
        _ => (90_000, 90),
    }
}

pub fn check(prop: &str, tier: &str, base: u64, root: &Path, over: (Option<u64>, Option<u64>, Option<u64>)) -> i32 {
    let start = Instant::now();
    let (runs, secs) = default_runs(prop, tier);
    let (runs, secs) = (over.0.unwrap_or(runs), over.1.unwrap_or(secs));
    let workers = over.2.unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 16));
    let c = Check { prop: prop.into(), base, runs, secs, workers, keep_going: false };
    let mut agg = search(&c);
    let searched = start.elapsed().as_secs_f64();
    let mut out: Vec<String> = Vec::new();
    let mut code = 0;
    let mut violations = 0;
    if let Some((i, class, msg)) = agg.found.clone() {
        violations = 1;
        let f = minimise(prop, base, i, &class, if tier == "thorough" { 120 } else { 40 });
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", prop, i));
        std::fs::write(&path, serde_json::to_vec_pretty(&f).unwrap()).expect("replay file");
        println!("{}: run {}: {}: {}", prop, i, class, printable(&msg));
        if f.message != msg {
            println!("minimised: {}", printable(&f.message));
        }
        out.push(format!("VIOLATION property={} replay={}", prop, path.display()));
        code = 1;
    } else if let Some((i, h)) = &agg.harness {
        println!("{}: run {}: error of the harness: {}", prop, i, h);
        code = 2;
    } else if !agg.diverged.is_empty() {
        println!("{}: runs that were not the same again: {:?}", prop, agg.diverged);
        code = 2;
    } else if agg.nontrivial == 0 {
        println!("{}: no run exercised the property", prop);
        code = 2;
    }
    let hashes: HashSet<u64> = agg.hashes.iter().copied().collect();
    let histories: HashSet<u64> = agg.histories.iter().copied().collect();
    agg.samples.sort_by_key(|s| s["run"].as_u64());
    agg.samples.truncate(4);
    let wall = start.elapsed().as_secs_f64();
    let sim_s = agg.sums.get("simulated_ns").copied().unwrap_or(0) as f64 / 1e9;
    let ev = json!({
        "property": prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": base,
        "level": "exploration",
        "wall_s": wall,
        "violations": violations,
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": hashes.len(),
            "rule": format!("One run is one simulated execution: plan, schedule and faults all drawn from seed hash(VERIF_SEED, property, run number); seven in eight plans come from the family made for this property, the rest from the families of all the others. A run is non-trivial if it exercised the property at least once ({}). Distinct means a different hash over the sequence of (thread switched to, yield point, event fired) of the whole execution.", subject_text(prop)),
            "samples": agg.samples,
            "non_trivial_runs": agg.nontrivial,
            "distinct_histories": histories.len(),
            "history_measure": "hash over everything callbacks and servers saw with its simulated time, and over the results of connecting and closing",
            "runs_per_hour": (agg.runs as f64 / searched * 3600.0) as u64,
            "seeds_per_hour": (agg.runs as f64 / searched * 3600.0) as u64,
            "simulated_seconds": sim_s,
            "simulated_seconds_per_wall_second": sim_s / searched,
            "workers": workers,
            "totals": agg.sums,
            "longest_run_steps": agg.max_steps,
            "faults_injected": agg.faults,
            "runs_with_faults": agg.fault_runs,
            "reached": agg.probes,
            "replays_checked_identical": agg.replayed,
            "other_classes_seen": agg.other,
            "real_code": ["socket-io-client", "socket-io-protocol", "engine-io (all of /repo)", "async-tungstenite and tungstenite", "futures channels, mutexes and select! (its random choice drawn from the tape)", "std::sync::Mutex and Condvar (futex calls served by the simulator)", "rustls and webpki for wss://"],
            "stubs": ["TCP (in-memory byte streams)", "the clock and futures-timer", "the operating system's threads (coroutines)", "getrandom", "the async executor", "the server (a reference model with its own packet encoder and parser)", "webpki-roots (a test root certificate)"],
        },
        "assumptions": [
            "Preemption happens at calls that can block or be seen by others: lock and channel operations, polls, transport calls, timers, callbacks; not between arbitrary instructions, so data races on plain memory (excluded by safe Rust) and weak memory orderings are not explored.",
            "A search: what was not drawn was not seen."
        ],
    });
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_vec_pretty(&ev).unwrap()) {
        println!("evidence: {}", e);
        code = code.max(2);
    }
    println!(
        "{}: {} runs, {} non-trivial, {} distinct interleavings, {:.1} s simulated, {:.1} s",
        prop,
        agg.runs,
        agg.nontrivial,
        hashes.len(),
        sim_s,
        wall
    );
    for l in out {
        println!("{}", l);
    }
    code
}

fn subject_text(p: &str) -> &'static str {
    match p {
        "C01" => "a server received a Socket.IO packet of the client",
        "C02" => "an event callback ran",
        "C03" => "a server sent an ack",
        "C04" => "a callback's responder was used",
        "C05" => "a ping reached a client",
        "C06" => "connecting was attempted",
        "C07" => "a client dialled a conforming server",
        "C08" => "close() was called",
        "C09" => "close() was called after an emission",
        "C10" => "a connected client's transport broke or the server ended the connection",
        "C11" => "a malformed or out-of-place message reached a client",
        "C12" => "a client was used while one of its callbacks ran, or a callback panicked",
        "C13" => "a callback was registered or removed after the server had begun to send events",
        "C14" => "a client, a connection attempt or a pending close was dropped",
        "C15" => "at least 300 messages went through a client",
        "C16" => "an argument failed to serialise or an emission was given up",
        "C17" => "a wss:// URL was dialled",
        "C18" => "two clients were connected",
        _ => "",
    }
}

pub fn replay(path: &Path, quiet: bool) -> i32 {
    let f: ReplayFile = serde_json::from_slice(&std::fs::read(path).expect("replay file")).expect("replay file");
    let a = Arena::new();
    let r = a.run(&f.spec, true);
    if !quiet {
        for l in &r.trace {
            println!("{}", l);
        }
    }
    for v in &r.violations {
        println!("{}: {}", v.0, v.1);
    }
    if let Some(h) = &r.harness {
        println!("error of the harness: {}", h);
        return 2;
    }
    let exact = r.interleaving == f.interleaving && r.history == f.history && r.steps == f.steps && r.trace == f.trace;
    println!("{} steps, {} simulated ns, {} the recorded execution", r.steps, r.sim_time, if exact { "exactly" } else { "NOT" });
    if r.violations.iter().any(|v| v.0 == f.class) {
        println!("VIOLATION property={} replay={}", f.property, path.display());
        1
    } else {
        println!("{} does not happen in the present tree", f.class);
        0
    }
}

/// One run of a family, for working on the harness.
pub fn one(prop: &str, base: u64, i: u64, trace: bool, dump: bool) -> i32 {
    let spec = spec_of(prop, base, i);
    if dump {
        println!("{}", serde_json::to_string_pretty(&spec.plan).unwrap());
    }
    let r = Arena::new().run(&spec, trace);
    for l in &r.trace {
        println!("{}", l);
    }
    for v in &r.violations {
        println!("{}: {}", v.0, v.1);
    }
    println!("harness {:?}", r.harness);
    println!("steps {} draws {} sim {} ms faults {:?} probes {:?} subjects {:?}", r.steps, r.draws, r.sim_time / 1_000_000, r.faults, r.probes, r.subjects);
    0
}

/// Classes seen over many runs, for working on the harness.
pub fn survey(prop: &str, base: u64, runs: u64, workers: u64) -> i32 {
    let outs: Vec<Shared> = (0..workers).map(|_| Shared::new(WORKER_CAP)).collect();
    let start = Instant::now();
    let mut pids = Vec::new();
    for w in 0..workers {
        let out = outs[w as usize].ptr;
        pids.push(sys::fork_child(|| {
            let arena = Arena::new();
            let mut all: Vec<(String, u64, String)> = Vec::new();
            let (mut steps, mut non) = (0u64, 0u64);
            let mut i = w;
            while i < runs {
                let r = arena.run(&spec_of(prop, base, i), false);
                steps += r.steps;
                non += (r.subjects.get(prop).copied().unwrap_or(0) > 0) as u64;
                if let Some(h) = &r.harness {
                    all.push(("HARNESS".into(), i, h.clone()));
                }
                for v in &r.violations {
                    all.push((v.0.clone(), i, v.1.clone()));
                }
                i += workers;
            }
            let v = serde_json::to_vec(&(all, steps, non)).unwrap();
            unsafe {
                std::ptr::copy_nonoverlapping(v.as_ptr(), out.add(8), v.len());
                *(out as *mut u64) = v.len() as u64;
            }
        }));
    }
    let mut all: Vec<(String, u64, String)> = Vec::new();
    let (mut steps, mut non) = (0, 0);
    for (w, pid) in pids.into_iter().enumerate() {
        let end = sys::wait_child(pid);
        let n = unsafe { *(outs[w].ptr as *const u64) } as usize;
        if n == 0 {
            println!("worker {} {:?}", w, end);
            continue;
        }
        let b = unsafe { std::slice::from_raw_parts(outs[w].ptr.add(8), n) };
        let (a, s, t): (Vec<(String, u64, String)>, u64, u64) = serde_json::from_slice(b).unwrap();
        all.extend(a);
        steps += s;
        non += t;
    }
    all.sort_by_key(|x| x.1);
    let mut by: BTreeMap<String, Vec<(u64, String)>> = BTreeMap::new();
    for (c, i, m) in all {
        by.entry(c).or_default().push((i, m));
    }
    let t = start.elapsed().as_secs_f64();
    println!("== {}: {} runs, {} non-trivial, {:.1} s, {:.0} runs/s, {:.0} steps/run", prop, runs, non, t, runs as f64 / t, steps as f64 / runs as f64);
    for (c, v) in by {
        let runs: HashSet<u64> = v.iter().map(|x| x.0).collect();
        println!("   {} in {} runs", c, runs.len());
        for (i, m) in v.iter().take(2) {
            println!("      {}: {:.300}", i, m);
        }
    }
    0
}

/// Every family: the same run twice from its seed and once from its tape.
pub fn determinism(base: u64, n: u64) -> i32 {
    let a = Arena::new();
    let mut bad = 0;
    for p in gen::PROPS {
        for i in 0..n {
            let s = spec_of(p, base, i);
            let r1 = a.run(&s, true);
            let tape = a.tape();
            let r2 = a.run(&s, true);
            let r3 = a.run(&Spec { tape, tail: TailSpec::Zero, ..s }, true);
            for r in [&r2, &r3] {
                if !same(&r1, r) || r1.trace != r.trace {
                    bad += 1;
                    let at = r1.trace.iter().zip(&r.trace).position(|(a, b)| a != b);
                    println!("{} run {}: not the same again, trace lines {} and {}, first difference {:?}", p, i, r1.trace.len(), r.trace.len(), at);
                }
            }
        }
    }
    println!("{} families, {} runs each, {} differences", gen::PROPS.len(), n, bad);
    (bad > 0) as i32
}

pub fn root() -> PathBuf {
    std::env::var_os("SIOSIM_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Without control characters (other than line breaks they would make the output binary).
fn printable(s: &str) -> String {
    s.chars().map(|c| if c.is_control() && c != '\n' { format!("\\u{{{:x}}}", c as u32) } else { c.to_string() }).collect()
}
