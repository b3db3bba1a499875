//! Check context: options, worker pool, statistics, violations, evidence.
use crate::engine::Viol;
use crate::world::World;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Found { pub prop: String, pub props: Vec<&'static str>, pub msg: String, pub trace: Vec<String>, pub replay: Value }

#[derive(Default)]
pub struct Stats {
    /// distinct states (hash of disk + clock + what readers saw)
    pub states: HashSet<[u8; 32]>,
    /// executed runs of krill-sync
    pub transitions: u64,
    /// runs whose result was compared with the reference model
    pub compared: u64,
    /// instants at which the monitors were evaluated
    pub instants: u64,
    /// operations of krill-sync that went through the explorer
    pub ops: u64,
    pub crash_points: u64, pub faults: u64, pub schedules: u64, pub cases: u64,
    /// runs executed twice with identical results
    pub replayed: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub campaigns: BTreeMap<String, Value>,
    pub incomplete: Vec<String>, pub times: BTreeMap<String, f64>,
}
pub struct Cx {
    pub prop: String, pub thorough: bool, pub bin: String, pub shim: String, pub work: String, pub jobs: usize, pub seed: u64,
    pub start: Instant, pub budget: Duration, pub st: Mutex<Stats>, pub found: Mutex<Vec<Found>>, pool: Mutex<Vec<World>>, made: AtomicUsize,
    pub stop: AtomicBool, pub verbose: bool,
    /// replay: only this case
    pub only: Option<String>, deadline: Mutex<Option<Instant>>,
}
impl Cx {
    pub fn new(prop: &str, thorough: bool, bin: &str, shim: &str, work: &str, jobs: usize) -> Cx {
        Cx { prop: prop.into(), thorough, bin: bin.into(), shim: shim.into(), work: work.into(), jobs, seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(), budget: Duration::from_secs(if thorough { 780 } else { 240 }), st: Default::default(), found: Default::default(), pool: Default::default(), made: AtomicUsize::new(0),
            stop: AtomicBool::new(false), verbose: std::env::var("MC_VERBOSE").is_ok(), only: None, deadline: Mutex::new(None) }
    }
    pub fn over(&self) -> bool { self.stop.load(Ordering::Relaxed) || self.deadline.lock().unwrap().map(|d| Instant::now() > d).unwrap_or(false) }
    /// share the remaining time among the remaining campaigns
    pub fn set_deadline(&self, left: usize) {
        let rest = self.budget.saturating_sub(self.start.elapsed());
        *self.deadline.lock().unwrap() = Some(Instant::now() + rest / left.max(1) as u32);
    }
    pub fn note_time(&self, name: &str, s: f64) { self.st.lock().unwrap().times.insert(name.into(), (s * 10.0).round() / 10.0); }
    /// is this case to be run (replays select one)?
    pub fn case(&self, id: &str) -> bool { self.only.as_deref().map(|o| o == id).unwrap_or(true) }
    pub fn capped(&self, what: &str) { let mut s = self.st.lock().unwrap(); if !s.incomplete.iter().any(|x| x == what) { s.incomplete.push(what.into()); } }
    pub fn world(&self) -> World {
        if let Some(w) = self.pool.lock().unwrap().pop() { return w; }
        let id = self.made.fetch_add(1, Ordering::SeqCst);
        World::new(&self.work, id, &self.bin, &self.shim)
    }
    pub fn give(&self, mut w: World) { w.extra_env.clear(); w.cfg_env.clear(); self.pool.lock().unwrap().push(w); }
    /// run `f` on all items, in parallel, each worker with a world of its own; results in order
    pub fn par<T: Send, R: Send>(&self, items: Vec<T>, f: impl Fn(&mut World, T) -> R + Sync) -> Vec<R> {
        let n = items.len();
        let q: Mutex<Vec<Option<T>>> = Mutex::new(items.into_iter().map(Some).collect());
        let next = AtomicUsize::new(0);
        let out: Mutex<Vec<Option<R>>> = Mutex::new((0..n).map(|_| None).collect());
        std::thread::scope(|s| {
            for _ in 0..self.jobs.min(n.max(1)) {
                s.spawn(|| {
                    let mut w = self.world();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n { break; }
                        let it = q.lock().unwrap()[i].take().unwrap();
                        let r = f(&mut w, it);
                        out.lock().unwrap()[i] = Some(r);
                    }
                    self.give(w);
                });
            }
        });
        out.into_inner().unwrap().into_iter().map(|r| r.unwrap()).collect()
    }
    pub fn wants(&self, props: &[&'static str]) -> bool { self.prop == "ALL" || props.iter().any(|p| *p == "*" || *p == self.prop) }
    pub fn report(&self, v: &Viol, trace: Vec<String>, replay: Value) {
        if !self.wants(&v.props) { return; }
        let mut f = self.found.lock().unwrap();
        if self.verbose && f.len() < 200 { eprintln!("found {:?}: {}\n    {}", v.props, v.msg, trace.join("\n    ")); }
        f.push(Found { prop: self.prop.clone(), props: v.props.clone(), msg: v.msg.clone(), trace, replay });
        if f.len() > if std::env::var_os("MC_FIRST").is_some() { 0 } else { 400 } { self.stop.store(true, Ordering::Relaxed); }
    }
    pub fn outcome(&self, k: &str) { *self.st.lock().unwrap().outcomes.entry(k.to_string()).or_default() += 1; }
    pub fn sample(&self, s: String) { let mut st = self.st.lock().unwrap(); if st.samples.len() < 12 { st.samples.push(s); } }
    pub fn campaign(&self, name: &str, v: Value) { self.st.lock().unwrap().campaigns.insert(name.into(), v); }

    pub fn evidence(&self, level: &str, assumptions: &[&str], n_viol: usize) -> Value {
        let s = self.st.lock().unwrap();
        let mut cov = json!({
            "states": s.states.len(), "transitions": s.transitions, "traces_validated_against_impl": s.compared,
            "samples": s.samples, "exhaustive": s.incomplete.is_empty(),
            "instants_monitored": s.instants, "operations_intercepted": s.ops, "outcomes": s.outcomes, "campaigns": s.campaigns, "campaign_seconds": s.times,
        });
        let m = cov.as_object_mut().unwrap();
        if s.crash_points > 0 { m.insert("crash_points".into(), json!(s.crash_points)); }
        if s.faults > 0 { m.insert("faults_injected".into(), json!(s.faults)); }
        if s.schedules > 0 { m.insert("schedules".into(), json!(s.schedules)); }
        if s.cases > 0 { m.insert("input_cases".into(), json!(s.cases)); }
        if s.replayed > 0 { m.insert("runs_repeated_with_identical_result".into(), json!(s.replayed)); }
        if level == "fault_enumeration" {
            m.insert("evaluations".into(), json!(s.transitions));
            m.insert("distinct_nontrivial".into(), json!(s.states.len()));
            m.insert("rule".into(), json!("every operation of every base run fails once per errno, resp. is the last one before a kill (with every write also cut in half), each followed by the listed further runs; distinct = distinct states of disk, clock and what readers saw that resulted"));
        }
        if !s.incomplete.is_empty() { m.insert("capped".into(), json!(s.incomplete)); }
        json!({ "property": self.prop, "tier": if self.thorough { "thorough" } else { "quick" }, "seed": self.seed, "level": level,
            "coverage": cov, "assumptions": assumptions, "wall_s": self.start.elapsed().as_secs_f64(), "violations": n_viol })
    }
}
/// one line per kind of violation: digits and hex removed
pub fn shape(m: &str) -> String {
    let mut o = String::new();
    for w in m.split(' ') { if w.chars().any(|c| c.is_ascii_digit()) { o.push('#') } else { o.push_str(w) } o.push(' '); }
    o
}
pub fn distinct(f: &[Found]) -> Vec<Found> {
    let mut v: Vec<Found> = f.to_vec();
    v.sort_by_key(|x| (x.trace.len(), x.msg.len()));
    let mut seen = BTreeSet::new();
    v.retain(|x| seen.insert(shape(&x.msg)));
    v
}
