//! Campaigns over histories: sequences of (clock advance, upstream version, configuration), with crash
//! points and I/O faults.
use crate::cx::*;
use crate::engine::*;
use crate::proc::*;
use crate::up::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Arc;

/// A set-up that a replay can name: upstream universe and configurations.
#[derive(Clone)]
pub struct Setup { pub name: String, pub u: Arc<Universe>, pub cfgs: Arc<Vec<Cfg>>, pub foreign: Arc<Vec<String>>, /** what there was when the histories start, and before: times and images */ pub from: Arc<Vec<(i64, Image)>> }

#[derive(Clone)]
pub struct St { pub img: Arc<Image>, pub now: i64, pub g: Ghost, pub path: Vec<Step> }
impl St {
    pub fn init(s: &Setup) -> St {
        let mut img = Image::new();
        for f in s.foreign.iter() {
            let mut p = String::new();
            let parts: Vec<&str> = f.split('/').collect();
            for (i, c) in parts.iter().enumerate() {
                if i > 0 { p.push('/'); }
                p.push_str(c);
                if i + 1 < parts.len() { img.entry(p.clone()).or_insert(Ent::Dir); }
            }
            img.insert(f.clone(), Ent::File(FileData::new(b"not krill-sync's\n".to_vec(), Some(1_111_111_111))));
        }
        let mut st = St { img: Arc::new(img), now: T0, g: Ghost::default(), path: vec![] };
        for (now, img) in s.from.iter() {
            let mut v = vec![];
            // what happened in between is not known
            let cfg = Cfg { delay: 0, ..s.cfgs[0].clone() };
            observe(&mut st.g, img, &Obs { cfg: &cfg, univ: &s.u, now: *now, now_ns: now * 1_000_000_000, cleanup: s.cfgs[0].cleanup }, &mut v);
            if !v.is_empty() { crate::die(&format!("{}: {}", s.name, v[0].msg)); }
            st.img = Arc::new(img.clone());
            st.now = *now;
        }
        st
    }
    pub fn key(&self) -> [u8; 32] {
        let mut b = image_hash(&self.img).to_vec();
        b.extend(self.now.to_ne_bytes());
        b.extend(self.g.key());
        sha(&b)
    }
}
pub fn enter(w: &mut World, s: &Setup, st: &St) {
    if w.installed != s.name { s.u.install(w); w.installed = s.name.clone(); }
    w.restore(&st.img);
    w.set_now(st.now);
}
pub struct Res { pub next: St, pub out: StepOut, pub viols: Vec<Viol>, pub ex: Option<Expect> }

/// Execute and judge one step from `st`.
pub fn exec(w: &mut World, s: &Setup, st: &St, step: &Step, ro: RunOpts) -> Res {
    enter(w, s, st);
    let mut g = st.g.clone();
    let mut out = run_step(w, &s.u, &s.cfgs, step, &mut g, ro);
    let mut v = std::mem::take(&mut out.viols);
    let cfg = &s.cfgs[step.cfg];
    let mut ex = None;
    let up = &s.u.vers[step.ver];
    let killed = out.exit.killed;
    if !killed {
        match step.mode {
            Mode::Strict => ex = Some(check_run(&st.img, &st.g, w, &g, cfg, &s.u, step, st.now + step.adv, &out, &s.foreign, &mut v)),
            Mode::AfterCrash | Mode::AfterFail => {
                let mut tags = vec![];
                if st.path.iter().any(|p| p.kill.is_some()) { tags.push("C07"); }
                if st.path.iter().any(|p| p.fault.is_some()) || step.mode == Mode::AfterFail { tags.push("C08"); }
                let behind = matches!(st.g.published(cfg), Some((ss, n)) if ss == up.session && n > up.serial);
                if up.ok && !behind {
                    if !out.exit.ok() { v.push(Viol { props: tags.clone(), msg: format!("the run that should recover failed: {}", out.exit.text()) }); }
                    else {
                        let mut x = vec![];
                        check_synced(&w.img, &g, cfg, &s.u, step.ver, st.g.notif(cfg).as_deref(), &mut x, &[]);
                        for y in x { v.push(Viol { props: if y.props == ["C16"] { vec!["C16"] } else { tags.clone() }, msg: format!("after recovery: {}", y.msg) }); }
                    }
                }
            }
            Mode::Faulty => {
                if out.exit.ok() {
                    let behind = matches!(st.g.published(cfg), Some((ss, n)) if ss == up.session && n > up.serial);
                    let mut x = vec![];
                    if up.ok && !behind { check_synced(&w.img, &g, cfg, &s.u, step.ver, st.g.notif(cfg).as_deref(), &mut x, &[]); }
                    for y in x { if y.props != ["C16"] { v.push(Viol { props: vec!["C08"], msg: format!("exit 0 in spite of the failure of {}: {}", out.faulted.clone().unwrap_or_default(), y.msg) }); } }
                } else if out.exit.code.is_none() || out.exit.code == Some(101) || out.exit.err.trim().is_empty() {
                    v.push(Viol { props: vec!["C08"], msg: format!("failure of {} ends in {} rather than an error exit with a message", out.faulted.clone().unwrap_or_default(), out.exit.text()) });
                }
            }
            Mode::Watch => {}
            Mode::Moving => {
                let ends = [step.ver, step.to.unwrap()];
                // the first access is the notification file: a move before that is no move
                let from = if step.switch.iter().any(|x| x.0 == 0 && x.1.starts_with('v')) { 1 } else { 0 };
                if out.exit.ok() {
                    let all: Vec<Vec<Viol>> = ends[from..].iter().map(|e| { let mut x = vec![]; check_synced(&w.img, &g, cfg, &s.u, *e, st.g.notif(cfg).as_deref(), &mut x, &[]); x }).collect();
                    if let Some(x) = all.into_iter().min_by_key(|x| x.len()) { for y in x { v.push(Viol { props: vec!["C21"], msg: format!("upstream moved from {} to {} during the run, which was successful: {}", up.label, s.u.vers[ends[1]].label, y.msg) }); } }
                } else {
                    if out.exit.err.trim().is_empty() { v.push(Viol { props: vec!["C21", "C08"], msg: "failed without a message".into() }); }
                    let d = image_diff(&part(&st.img, &[&cfg.rrdp, &cfg.rsync]), &part(&w.img, &[&cfg.rrdp, &cfg.rsync]));
                    if !d.is_empty() { v.push(Viol { props: vec!["C21"], msg: format!("upstream moved on during the run, which failed, but published data changed: {:?}", &d[..d.len().min(4)]) }); }
                }
            }
        }
        if step.mode != Mode::Faulty && (out.exit.signal.is_some() || out.exit.code == Some(101)) {
            v.push(Viol { props: vec!["*"], msg: format!("krill-sync crashed: {}", out.exit.text()) });
        }
    }
    // no promise on leftovers if directories were changed
    if st.path.iter().any(|p| { let c = &s.cfgs[p.cfg]; c.state != cfg.state || c.rrdp != cfg.rrdp || c.rsync != cfg.rsync }) { v.retain(|x| x.props != ["C06"]); }
    if step.mode == Mode::Moving || st.path.iter().any(|p| p.mode == Mode::Moving) { for x in v.iter_mut() { if x.props != ["C16"] { x.props.push("C21"); } } }
    if s.name.starts_with("up-") { for x in v.iter_mut() { x.props.push("C24"); } }
    if s.name.starts_with("reconf") || s.name == "spelt" || s.name == "placed" { for x in v.iter_mut() { x.props.push("C18"); } }
    let mut path = st.path.clone();
    path.push(step.clone());
    Res { next: St { img: Arc::new(w.img.clone()), now: w.now(), g, path }, out, viols: v, ex }
}
pub fn trace(s: &Setup, path: &[Step]) -> Vec<String> { path.iter().map(|p| p.text(&s.u, &s.cfgs)).collect() }
pub fn replay_val(s: &Setup, path: &[Step]) -> Value { json!({"kind": "history", "setup": s.name, "steps": path.iter().map(|p| p.json()).collect::<Vec<_>>(), "trace": trace(s, path)}) }
pub fn account(cx: &Cx, s: &Setup, r: &Res, kind: &str) {
    let key = r.next.key();
    {
        let mut st = cx.st.lock().unwrap();
        st.states.insert(key);
        st.transitions += 1;
        st.instants += r.out.bounds;
        st.ops += r.out.nops;
        if r.ex.is_some() || kind != "strict" { st.compared += 1; }
        let e = if r.out.exit.killed { "killed".to_string() } else if r.out.exit.ok() { "ok".into() } else { "error".into() };
        *st.outcomes.entry(format!("{kind}:{}{e}", r.ex.map(|x| format!("{x:?}:")).unwrap_or_default())).or_default() += 1;
        if st.samples.len() < 3 && r.next.path.len() >= 2 { let t = trace(s, &r.next.path).join(" ; "); st.samples.push(format!("{}: {t} => {}", s.name, clip1(&r.out.exit.text()))); }
    }
    for v in &r.viols { cx.report(v, { let mut t = trace(s, &r.next.path); t.insert(0, format!("universe {}", s.name)); t }, replay_val(s, &r.next.path)); }
}
fn clip1(s: &str) -> String { s.chars().take(80).collect() }

/// can this version be found under the configured notification URI?
pub fn compat(s: &Setup, v: usize, c: usize) -> bool { s.u.vers[v].base == s.cfgs[c].base() && s.u.vers[v].files.contains_key(s.cfgs[c].notif_name()) }
pub struct HistOpts { pub advs: Vec<i64>, pub vers: Vec<usize>, pub cfgs: Vec<usize>, pub depth: usize, pub mode: Mode, pub tick: i64 }
/// breadth-first search over all histories up to a depth; returns all distinct states by depth
pub fn bfs(cx: &Cx, s: &Setup, o: &HistOpts) -> Vec<Vec<St>> {
    bfs_from(cx, s, o, vec![St::init(s)])
}
pub fn bfs_from(cx: &Cx, s: &Setup, o: &HistOpts, start: Vec<St>) -> Vec<Vec<St>> {
    let mut seen: HashSet<[u8; 32]> = start.iter().map(|x| x.key()).collect();
    let mut layers = vec![start];
    let mut trans = 0u64;
    for d in 0..o.depth {
        let mut items = vec![];
        for st in layers.last().unwrap() {
            for &a in &o.advs {
                if d == 0 && st.path.is_empty() && a != o.advs[0] { continue; }
                for &v in &o.vers { for &c in &o.cfgs { if !compat(s, v, c) { continue; } items.push((st.clone(), Step { adv: a, ver: v, cfg: c, mode: o.mode, tick_ms: o.tick, ..Default::default() })); } }
            }
        }
        if cx.over() { cx.capped(&format!("histories of {} stopped at depth {d}", s.name)); break; }
        trans += items.len() as u64;
        let last = d + 1 == o.depth;
        let res = cx.par(items, |w, (st, step)| {
            if cx.over() { cx.capped(&format!("histories of {} stopped in depth {}", s.name, d + 1)); return None; }
            let r = exec(w, s, &st, &step, RunOpts::default());
            account(cx, s, &r, "strict");
            if w.runs % 61 == 0 { w.self_check(true); }
            if w.runs % 97 == 0 {
                // same step from the same state once more: must be identical
                let r2 = exec(w, s, &st, &step, RunOpts::default());
                if r2.next.key() != r.next.key() || r2.out.exit.code != r.out.exit.code {
                    crate::die(&format!("not deterministic: {:?}", image_diff(&r.next.img, &r2.next.img)));
                }
                cx.st.lock().unwrap().replayed += 1;
            }
            Some(r.next)
        });
        let mut nl = vec![];
        for n in res.into_iter().flatten() { if seen.insert(n.key()) { nl.push(n); } }
        let _ = last;
        layers.push(nl);
    }
    cx.campaign(&format!("histories/{}{}{}", s.name, if o.tick > 0 { "/tick" } else { "" }, if o.cfgs.len() > 1 { format!("/cfgs{}", o.cfgs.len()) } else { s.cfgs[o.cfgs[0]].name.clone() }), json!({
        "depth": o.depth, "alphabet": { "advances_s": o.advs, "versions": o.vers.iter().map(|v| s.u.vers[*v].label.clone()).collect::<Vec<_>>(), "configs": o.cfgs.iter().map(|c| s.cfgs[*c].name.clone()).collect::<Vec<_>>() },
        "states_by_depth": layers.iter().map(|l| l.len()).collect::<Vec<_>>(), "runs": trans }));
    layers
}
/// run a fixed sequence of steps
pub fn walk(cx: &Cx, w: &mut World, s: &Setup, from: &St, steps: &[Step], kind: &str) -> St {
    let mut st = from.clone();
    for p in steps {
        let r = exec(w, s, &st, p, RunOpts::default());
        account(cx, s, &r, kind);
        st = r.next;
    }
    st
}

/// Crash campaign: from each base state, run the step; stop it at every operation (and half-way every
/// write); then recover, in each of the given ways.
pub fn crashes(cx: &Cx, s: &Setup, bases: Vec<(St, Step)>, follow: &(dyn Fn(&Step) -> Vec<Vec<Step>> + Sync), verify_kill: usize, double: bool) {
    let pts: Vec<(St, Step, usize, CrashPt)> = cx.par(bases, |w, (st, step)| {
        let step = Step { split: true, mode: Mode::Watch, ..step };
        let r = exec(w, s, &st, &step, RunOpts { crash: true, ..Default::default() });
        account(cx, s, &r, "base");
        let mut out = r.out;
        std::mem::take(&mut out.crash).into_iter().map(|c| (st.clone(), step.clone(), c.at, c)).collect::<Vec<_>>()
    }).into_iter().flatten().collect();
    cx.st.lock().unwrap().crash_points += pts.len() as u64;
    let n = pts.len();
    let items: Vec<_> = pts.into_iter().enumerate().collect();
    cx.par(items, |w, (i, (st, step, at, c))| {
        if cx.over() { cx.capped(&format!("crash points of {}", s.name)); return; }
        let kill = Step { kill: Some(at), ..step.clone() };
        let mut path = st.path.clone();
        path.push(kill.clone());
        let mut from = St { img: Arc::new(c.img), now: c.now, g: c.ghost, path };
        if verify_kill > 0 && i % verify_kill == 0 {
            let r = exec(w, s, &st, &kill, RunOpts::default());
            if !r.out.exit.killed || *r.next.img != *from.img { crate::die(&format!("a real kill at {at} differs from the captured image: {:?}", image_diff(&from.img, &r.next.img))); }
            from.g = r.next.g.clone();
            account(cx, s, &r, "killed");
        }
        { let mut st = cx.st.lock().unwrap(); st.states.insert(from.key()); if st.samples.len() < 8 && i % 17 == 5 { st.samples.push(format!("{}: {} killed {} (operation {at})", s.name, trace(s, &from.path).join(" ; "), c.desc)); } }
        for seq in follow(&step) { walk(cx, w, s, &from, &seq, "recover"); }
        if double {
            for seq in follow(&step).into_iter().take(1) {
                let st2 = Step { split: true, mode: Mode::Watch, ..seq[0].clone() };
                let r = exec(w, s, &from, &st2, RunOpts { crash: true, ..Default::default() });
                account(cx, s, &r, "base2");
                for c2 in r.out.crash {
                    if cx.over() { cx.capped(&format!("double crashes of {}", s.name)); return; }
                    cx.st.lock().unwrap().crash_points += 1;
                    let mut path = from.path.clone();
                    path.push(Step { kill: Some(c2.at), ..st2.clone() });
                    let f2 = St { img: Arc::new(c2.img), now: c2.now, g: c2.ghost, path };
                    for seq2 in follow(&step) { walk(cx, w, s, &f2, &seq2, "recover2"); }
                }
            }
        }
    });
    let _ = n;
}
/// Fault campaign: every operation of the step fails once with each errno; then repeat.
pub fn faults(cx: &Cx, s: &Setup, bases: Vec<(St, Step)>, errnos: &[(i32, Stick)], reads: bool, follow: &(dyn Fn(&Step) -> Vec<Vec<Step>> + Sync)) {
    let items: Vec<(St, Step, usize, (i32, Stick))> = cx.par(bases, |w, (st, step)| {
        let watch = Step { mode: Mode::Watch, ..step.clone() };
        let r = exec(w, s, &st, &watch, RunOpts { record: true, reads, ..Default::default() });
        account(cx, s, &r, "base");
        let mut v = vec![];
        for (i, o) in r.out.ops.iter().enumerate() {
            for e in errnos { v.push((st.clone(), watch.clone(), i, *e)); }
            // a short write or read is no failure: the run must do all that it would have done otherwise
            if matches!(o.0, Op::Write | Op::Copy | Op::Read) && o.2 > 1 { v.push((st.clone(), Step { mode: if step.mode == Mode::Strict { Mode::Strict } else { Mode::Watch }, ..step.clone() }, i, (SHORT, Stick::No))); }
        }
        v
    }).into_iter().flatten().collect();
    cx.st.lock().unwrap().faults += items.len() as u64;
    cx.par(items, |w, (st, step, i, (e, stick))| {
        if cx.over() { cx.capped(&format!("faults of {}", s.name)); return; }
        let p = Step { fault: Some((i, e)), stick, mode: if e == SHORT { step.mode } else { Mode::Faulty }, reads, ..step.clone() };
        let mut r = exec(w, s, &st, &p, RunOpts { reads, ..Default::default() });
        // krill-sync may put up with a modification time that cannot be set
        let put_up = s.name.starts_with("mt-") && r.out.exit.ok();
        if put_up { r.viols.retain(|x| x.props != ["C16"]); }
        account(cx, s, &r, "fault");
        if r.out.faulted.is_none() { crate::die("fault was not reached: run is not deterministic"); }
        if e == SHORT && !r.out.exit.ok() && step.mode != Mode::Strict { r.viols.push(Viol { props: vec!["C08"], msg: format!("run fails because {} is done in two parts", r.out.faulted.as_deref().unwrap_or("")) }); }
        if put_up || e == SHORT { return; }
        for seq in follow(&step) { walk(cx, w, s, &r.next, &seq, "repeat"); }
    });
}

/// Histories of mishaps: from each base state, every run (of the same or the next step) that is stopped
/// at an operation, suffers a fault at one, or runs out of room from one on; again from every state this
/// leads to; and healthy runs from all of them.
pub fn mishaps(cx: &Cx, s: &Setup, bases: Vec<(St, Step)>, depth: usize, sticks: &[(Stick, i32)], other: &(dyn Fn(usize) -> usize + Sync), follow: &(dyn Fn(&Step) -> Vec<Vec<Step>> + Sync)) {
    let kinds = |st: &St| (st.path.iter().any(|p| p.kill.is_some()), st.path.iter().any(|p| p.fault.is_some()));
    let mut seen: HashSet<([u8; 32], usize, (bool, bool))> = HashSet::new();
    let mut layer: Vec<(St, Step)> = bases;
    let mut sizes = vec![];
    for d in 0..depth {
        if cx.over() { cx.capped(&format!("mishaps of {} stopped at depth {d}", s.name)); break; }
        // stops, and which operations there are
        let mut items = vec![];
        for (st, step) in &layer { for v in [step.ver, other(step.ver)] { if v == step.ver || d > 0 { items.push((st.clone(), Step { ver: v, adv: if d > 0 { 0 } else { step.adv }, ..step.clone() }, step.ver)); } } }
        let found: Vec<(Vec<St>, Vec<(St, Step)>, usize)> = cx.par(items, |w, (st, step, orig)| {
            let watch = Step { split: true, mode: Mode::Watch, ..step.clone() };
            let r = exec(w, s, &st, &watch, RunOpts { crash: true, ..Default::default() });
            account(cx, s, &r, "base");
            let kills: Vec<St> = r.out.crash.into_iter().map(|c| { let mut path = st.path.clone(); path.push(Step { kill: Some(c.at), ..watch.clone() }); St { img: Arc::new(c.img), now: c.now, g: c.ghost, path } }).collect();
            cx.st.lock().unwrap().crash_points += kills.len() as u64;
            let r = exec(w, s, &st, &Step { mode: Mode::Watch, ..step.clone() }, RunOpts { record: true, ..Default::default() });
            let mut f = vec![];
            for (i, o) in r.out.ops.iter().enumerate() {
                for (k, e) in sticks {
                    // what does not need room does not fail for lack of it
                    let hit = match k { Stick::Blocks => matches!(o.0, Op::Write | Op::Copy), Stick::Room => matches!(o.0, Op::Write | Op::Copy | Op::Mkdir | Op::Symlink), Stick::Any => o.0.mutates(), Stick::No | Stick::Same | Stick::Path => true };
                    if hit { f.push((st.clone(), Step { fault: Some((i, *e)), stick: *k, mode: Mode::Faulty, ..step.clone() })); }
                }
            }
            (kills, f, orig)
        });
        let mut next: Vec<(St, Step)> = vec![];
        let mut fl = vec![];
        for (kills, f, orig) in found {
            for k in kills { let st = Step { ver: orig, adv: 0, ..Default::default() }; let key = (k.key(), orig, kinds(&k)); let cfg = k.path.last().unwrap().cfg; if seen.insert(key) { next.push((k, Step { cfg, ..st })); } }
            fl.extend(f.into_iter().map(|x| (x, orig)));
        }
        cx.st.lock().unwrap().faults += fl.len() as u64;
        let res = cx.par(fl, |w, ((st, p), orig)| {
            if cx.over() { cx.capped(&format!("mishaps of {}", s.name)); return None; }
            let r = exec(w, s, &st, &p, RunOpts::default());
            account(cx, s, &r, "fault");
            if r.out.faulted.is_none() { crate::die("fault was not reached: run is not deterministic"); }
            Some((r.next, Step { ver: orig, cfg: p.cfg, ..Default::default() }))
        });
        for (n, p) in res.into_iter().flatten() { if seen.insert((n.key(), p.ver, kinds(&n))) { next.push((n, p)); } }
        cx.par(next.clone(), |w, (st, step)| {
            if cx.over() { cx.capped(&format!("mishaps of {}", s.name)); return; }
            for seq in follow(&step) { walk(cx, w, s, &st, &seq, "recover"); }
        });
        sizes.push(next.len());
        layer = next;
    }
    cx.campaign(&format!("mishaps/{}", s.name), json!({"depth": depth, "states_by_depth": sizes, "kinds": sticks.iter().map(|x| format!("{:?} {}", x.0, x.1)).collect::<Vec<_>>()}));
}

/// Moving upstream: from each base state, the upstream goes from one version to another one at every
/// possible moment - its notification file before access `k2`, removal of its old files before `k3`.
pub fn moving(cx: &Cx, s: &Setup, bases: Vec<(St, usize, usize)>, cfgs: &[usize], more: bool) {
    let n = s.u.vers.len();
    let items: Vec<(St, usize, usize, usize)> = bases.into_iter().flat_map(|(st, i, j)| cfgs.iter().map(move |c| (st.clone(), i, j, *c)).collect::<Vec<_>>()).collect();
    cx.par(items, |w, (st, i, j, c)| {
        let base = Step { ver: i, cfg: c, mode: Mode::Moving, to: Some(j), ..Default::default() };
        // number of accesses grows if the new version needs more files: explore until no switch is reached
        let mut k2 = 0;
        loop {
            let mut reached2 = false;
            let mut k3 = k2;
            loop {
                if cx.over() { cx.capped(&format!("moving upstream of {}", s.name)); return; }
                let sw = if k3 == k2 { vec![(k2, format!("v{j}"))] } else { vec![(k2, format!("m{i}_{j}")), (k3, format!("v{j}"))] };
                let step = Step { switch: sw, ..base.clone() };
                let r = exec(w, s, &st, &step, RunOpts::default());
                let acc = r.out.source.len();
                if acc > k2 { reached2 = true; }
                if acc <= k2 && k3 > k2 { break; }
                account(cx, s, &r, "moving");
                cx.st.lock().unwrap().schedules += 1;
                cx.outcome(&format!("moving: accesses={acc}"));
                walk(cx, w, s, &r.next, &[Step { adv: 0, ver: j, cfg: c, ..Default::default() }], "then");
                if acc <= k3 { break; }
                k3 += 1;
            }
            if !reached2 { break; }
            if more {
                // upstream moves twice
                for l in 0..n {
                    if l == j { continue; }
                    let mut k3 = k2 + 1;
                    loop {
                        if cx.over() { cx.capped(&format!("moving upstream of {}", s.name)); return; }
                        let step = Step { switch: vec![(k2, format!("v{j}")), (k3, format!("v{l}"))], to: Some(j), ..base.clone() };
                        let r = exec(w, s, &st, &step, RunOpts::default());
                        if r.out.source.len() <= k3 { break; }
                        account(cx, s, &r, "moving twice");
                        cx.st.lock().unwrap().schedules += 1;
                        walk(cx, w, s, &r.next, &[Step { adv: 0, ver: l, cfg: c, ..Default::default() }], "then");
                        k3 += 1;
                    }
                }
            }
            k2 += 1;
        }
    });
}

/// run the steps of a replay file again
pub fn replay(cx: &Cx, v: &Value) {
    let s = crate::setups::setup(v["setup"].as_str().unwrap_or(""));
    let steps: Vec<Step> = v["steps"].as_array().unwrap().iter().map(Step::from_json).collect();
    let mut w = cx.world();
    let mut st = St::init(&s);
    for p in &steps {
        let r = exec(&mut w, &s, &st, p, RunOpts { reads: p.reads, ..Default::default() });
        println!("{} => {}", p.text(&s.u, &s.cfgs), r.out.exit.text());
        for x in &r.viols { println!("    {:?} {}", x.props, x.msg); }
        account(cx, &s, &r, "replay");
        st = r.next;
    }
    cx.give(w);
}
