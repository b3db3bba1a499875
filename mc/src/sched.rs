//! Several krill-sync processes at once: schedules of their operations (C10).
use crate::cx::*;
use crate::engine::*;
use crate::hist::*;
use crate::proc::*;
use crate::setups::*;
use crate::up::*;
use crate::world::*;
use serde_json::json;
use std::sync::Arc;

/// one process of a schedule
struct Actor { name: char, cfg: Cfg, proc: Option<Proc>, pending: Option<Req>, exit: Option<Exit>, ops: usize, first: Option<usize>, last: Option<usize>, work: Vec<String>, mutated: bool, locked_out_ok: bool }
struct Sched<'a> { w: &'a mut World, u: &'a Universe, g: Ghost, t: usize, act: Vec<Actor>, v: Vec<Viol>, instants: u64 }

/// which operations are work? (all but creating the state directory and the lock file itself)
fn is_work(w: &World, c: &Cfg, r: &Req) -> bool {
    let rel = match w.rel(&r.p1) { Some(x) => x, None => return false };
    let st = c.state.trim_end_matches("/.").to_string();
    let st = if st == "statelink" { "state".to_string() } else { st };
    match r.op {
        Op::OpenR => rel == "up" || rel.starts_with("up/") || rel.ends_with("-state.json"),
        // creating the state dir and its parents
        Op::Mkdir => !(rel == st || st.starts_with(&format!("{rel}/"))),
        // a lock file (whatever its name): directly in the state directory, not a state file
        Op::OpenW | Op::Unlink | Op::Trunc | Op::Write | Op::Chmod | Op::Link | Op::Rename | Op::Utimes => {
            let in_state = rel.strip_prefix(&format!("{st}/")).map(|x| !x.contains('/')).unwrap_or(false);
            !(in_state && !rel.contains(".json"))
        }
        o => o.mutates(),
    }
}
impl<'a> Sched<'a> {
    fn new(w: &'a mut World, u: &'a Universe, g: Ghost) -> Self { Sched { w, u, g, t: 0, act: vec![], v: vec![], instants: 0 } }
    fn start(&mut self, name: char, cfg: &Cfg) -> usize {
        let args = cfg.args(self.w);
        let p = self.w.proc_n(&args, FL_READS, &format!("-{name}"));
        // it is refused legitimately only if another one is there
        let others = self.act.iter().any(|a| a.exit.is_none());
        for a in self.act.iter_mut() { if a.exit.is_none() { a.locked_out_ok = true; } }
        self.act.push(Actor { name, cfg: cfg.clone(), proc: Some(p), pending: None, exit: None, ops: 0, first: None, last: None, work: vec![], mutated: false, locked_out_ok: others });
        let i = self.act.len() - 1;
        self.fetch(i);
        i
    }
    /// wait for the next operation of this process
    fn fetch(&mut self, i: usize) {
        let a = &mut self.act[i];
        if a.exit.is_some() || a.pending.is_some() { return; }
        let p = a.proc.as_mut().unwrap();
        // the others stand still: if this one waits for them, it will not come back
        if !p.ready(5000) {
            a.exit = Some(p.kill_now());
            self.v.push(Viol { props: vec!["C10"], msg: format!("process {} waits for the other one instead of being refused", a.name) });
            return;
        }
        match p.next() {
            Ev::Exit(e) => { a.exit = Some(e); }
            Ev::Req(r) => a.pending = Some(r),
        }
    }
    /// let the process do one operation
    fn step(&mut self, i: usize) -> bool {
        if self.act[i].exit.is_some() { return false; }
        let r = match self.act[i].pending.take() { Some(r) => r, None => return false };
        self.w.steps += 1;
        self.t += 1;
        let work = is_work(self.w, &self.act[i].cfg, &r);
        let rel = self.w.rel(&r.p1).unwrap_or(&r.p1).to_string();
        if work {
            // somebody else in the middle of work?
            let t = self.t;
            let a = &mut self.act[i];
            if a.first.is_none() { a.first = Some(t); }
            a.last = Some(t);
            if r.op.mutates() { a.mutated = true; }
            if a.work.len() < 4 { a.work.push(format!("{:?} {rel}", r.op)); }
            let f = a.first.unwrap();
            let name = a.name;
            for (j, b) in self.act.iter().enumerate() {
                if j == i { continue; }
                // it worked after this one had begun, and this one goes on now
                if b.last.map(|l| l > f).unwrap_or(false) {
                    self.v.push(Viol { props: vec!["C10"], msg: format!("processes {name} and {} work at the same time: {} did {:?}, then {name} goes on with {:?} {rel}", b.name, b.name, b.work, r.op) });
                    break;
                }
            }
        }
        if r.op == Op::Escape { self.v.push(Viol { props: vec!["C11"], msg: format!("operation outside of the scratch root: {}", r.p1) }); self.act[i].proc.as_mut().unwrap().reply(Act::Fail(libc::EACCES)); }
        else {
            if r.op == Op::Sleep { self.w.add_ns(r.a); }
            self.act[i].proc.as_mut().unwrap().reply(Act::Go);
        }
        self.act[i].ops += 1;
        self.fetch(i);
        if r.op.mutates() {
            self.w.after(&r);
            self.observe(i);
        }
        true
    }
    fn observe(&mut self, i: usize) {
        self.instants += 1;
        let cfg = &self.act[i].cfg;
        let (now, now_ns) = (self.w.now(), self.w.now_ns());
        let mut v = vec![];
        observe(&mut self.g, &self.w.img, &Obs { cfg, univ: self.u, now, now_ns, cleanup: cfg.cleanup }, &mut v);
        for mut x in v { x.props.push("C10"); self.v.push(x); }
    }
    fn upto(&mut self, i: usize, n: usize) { while self.act[i].ops < n && self.step(i) {} }
    fn finish(&mut self, i: usize) {
        while self.step(i) {}
        self.judge(i);
    }
    fn kill(&mut self, i: usize) {
        if self.act[i].exit.is_none() { let e = self.act[i].proc.as_mut().unwrap().kill_now(); self.act[i].exit = Some(e); self.act[i].pending = None; }
    }
    /// a finished process
    fn judge(&mut self, i: usize) {
        let a = &self.act[i];
        let e = a.exit.as_ref().unwrap();
        if e.killed { return; }
        let mut add = |m: String| self.v.push(Viol { props: vec!["C10"], msg: m });
        if e.hung || e.signal.is_some() || e.code == Some(101) { add(format!("process {} ended in {}", a.name, e.text())); return; }
        if !e.ok() {
            if e.err.trim().is_empty() { add(format!("process {} was refused without a message", a.name)); }
            if a.mutated { add(format!("process {} failed after it had begun to work ({:?}): {}", a.name, a.work, e.text())); }
            else if a.first.is_none() && !a.locked_out_ok { add(format!("process {} was refused although no other one was active: {}", a.name, e.text())); }
        }
    }
}
struct Plan { id: String, prior: usize, pc: usize, qc: usize, kind: u8, a: usize, b: usize, c: usize }

fn cfgs() -> Vec<Cfg> {
    let d = Cfg::default;
    vec![d().n("P"), Cfg { link: "cur2".into(), ..d() }.n("Q"), Cfg { link: "cur3".into(), ..d() }.n("R"),
        Cfg { link: "cur2".into(), state: "state/.".into(), ..d() }.n("Q, other spelling of the state dir"),
        Cfg { link: "cur2".into(), state: "statelink".into(), ..d() }.n("Q, state dir by a symbolic link"),
        Cfg { link: "cur2".into(), rrdp: "rrdp2".into(), rsync: "rsync2".into(), ..d() }.n("Q, other rrdp and rsync dirs"),
        Cfg { delay: 30, ..d() }.n("P, delay"),
        Cfg { state: "state/deep/er".into(), ..d() }.n("P, deep state dir"), Cfg { state: "state/deep/er".into(), link: "cur2".into(), ..d() }.n("Q, deep state dir")]
}
pub fn lock(cx: &Cx) {
    let s = setup("basic");
    let cf = cfgs();
    let t = |v: &str, c: usize| Step { ver: s.u.ix(v), cfg: c, ..Default::default() };
    let s2 = Setup { name: "basic".into(), u: s.u.clone(), cfgs: Arc::new(cf.clone()), foreign: s.foreign.clone(), from: Default::default() };
    // prior state, P's version, Q's version, R's version
    let mut w = cx.world();
    let mut priors = vec![];
    for (h, p, q, r) in [(vec![], "A1", "A2", "A4"), (vec![t("A1", 0)], "A2", "A4", "B1"), (vec![t("A2", 0)], "A2", "B1", "A4"), (vec![t("A1", 0)], "B1", "A2", "A4")] {
        let st = walk(cx, &mut w, &s2, &St::init(&s2), &h, "prefix");
        priors.push((st, s.u.ix(p), s.u.ix(q), s.u.ix(r)));
    }
    let np = if cx.thorough { priors.len() } else { 2 };
    // length of P's run alone
    let mut plans = vec![];
    for prior in 0..np {
        for (pc, qc) in [(0usize, 1usize), (0, 3), (0, 4), (0, 5), (6, 1), (7, 8)] {
            if (qc == 8 && prior > 0) || ((qc == 3 || qc == 4) && prior == 0) || (prior > 0 && (qc == 5 || pc == 6) && !cx.thorough) { continue; }
            let (st, vp, _, _) = &priors[prior];
            prepare(&mut w, &s, st, *vp, *vp, *vp);
            let mut x = Sched::new(&mut w, &s.u, st.g.clone());
            let p = x.start('P', &cf[pc]);
            x.finish(p);
            let n = x.act[p].ops;
            let ok = x.act[p].exit.as_ref().unwrap().ok();
            if !ok { let m = x.act[p].exit.as_ref().unwrap().text(); cx.report(&Viol { props: vec!["C10"], msg: format!("a run alone fails: {m}") }, vec![format!("prior {prior} config {}", cf[pc].name)], json!({"campaign": "lock", "case": "none"})); continue; }
            for a in 0..=n {
                for kind in 0..5u8 { plans.push((prior, pc, qc, kind, a, n)); }
            }
        }
    }
    cx.give(w);
    let priors = &priors;
    let cf = &cf;
    let s = &s;
    cx.par(plans, |w, (prior, pc, qc, kind, a, n)| {
        // kinds:
        //  0: P@a, all of Q, rest of P             1: P@a, Q@b (every b), rest of P, rest of Q
        //  2: P@a, all of Q, P killed, R           3: P@a, Q@b, P killed, R@c, rest of Q, rest of R
        //  4: P@a, Q@b, rest of P, R@c, rest of Q, rest of R
        let (st, vp, vq, vr) = &priors[prior];
        let mut run = |p: &Plan| -> (usize, usize) {
            if !cx.case(&p.id) || cx.over() { if cx.over() { cx.capped("schedules of two processes"); } return (0, 0); }
            prepare(w, s, st, *vp, *vq, *vr);
            let mut x = Sched::new(w, &s.u, st.g.clone());
            let (pi, ri);
            // the earlier run was hours ago, and P takes hours
            let hours = p.kind % 2 == 0;
            if hours { x.w.add_ns(7_200_000_000_000); }
            pi = x.start('P', &cf[p.pc]);
            x.upto(pi, p.a);
            if hours { x.w.add_ns(7_200_000_000_000); }
            let qi = x.start('Q', &cf[p.qc]);
            let mut text = vec![format!("prior state {prior}, P: {} (config {}), Q: {} (config {})", s.u.vers[*vp].label, cf[p.pc].name, s.u.vers[*vq].label, cf[p.qc].name), format!("P does {} of {n} operations{}", p.a, if hours { ", two hours pass" } else { "" })];
            match p.kind {
                0 => { x.finish(qi); text.push("Q runs".into()); x.finish(pi); text.push("P runs on".into()); }
                1 => { x.upto(qi, p.b); x.finish(pi); x.finish(qi); text.extend([format!("Q does {} operations", p.b), "P runs on".into(), "Q runs on".into()]); }
                2 => { x.finish(qi); x.kill(pi); text.extend(["Q runs".into(), "P is killed".into()]); }
                k => {
                    x.upto(qi, p.b);
                    text.push(format!("Q does {} operations", p.b));
                    if k == 3 { x.kill(pi); text.push("P is killed".into()); } else { x.finish(pi); text.push("P runs on".into()); }
                    ri = x.start('R', &cf[2]);
                    x.upto(ri, p.c);
                    x.finish(qi);
                    x.finish(ri);
                    text.extend([format!("R ({}) does {} operations", s.u.vers[*vr].label, p.c), "Q runs on".into(), "R runs on".into()]);
                }
            }
            let (m, mr) = (x.act[qi].ops, x.act.get(2).map(|r| r.ops).unwrap_or(0));
            let outcome: String = x.act.iter().map(|a| format!("{}{}", a.name, match a.exit.as_ref() { Some(e) if e.killed => "k", Some(e) if e.ok() => if a.first.is_some() { "+" } else { "0" }, _ => "-" })).collect();
            // at least one of the uninterrupted ones got through
            if p.kind < 2 && x.act.iter().all(|a| a.exit.as_ref().map(|e| !e.ok()).unwrap_or(true)) { x.v.push(Viol { props: vec!["C10"], msg: "both processes were refused".into() }); }
            // one more run
            let mut v = std::mem::take(&mut x.v);
            let (g, inst) = (std::mem::take(&mut x.g), x.instants);
            drop(x);
            let key = { let mut b = image_hash(&w.img).to_vec(); b.extend(g.key()); sha(&b) };
            let c = cf[2].clone();
            let last = Step { ver: *vr, cfg: 0, mode: Mode::AfterFail, ..Default::default() };
            let mut g2 = g.clone();
            let prev = g.notif(&c);
            let mut out = run_step(w, &s.u, &[Cfg { link: "cur".into(), ..c.clone() }], &last, &mut g2, RunOpts::default());
            for mut y in std::mem::take(&mut out.viols) { y.props.push("C10"); v.push(y); }
            let up = &s.u.vers[*vr];
            let behind = matches!(&prev, Some(n) if n.session == up.session && n.serial > up.serial);
            if p.qc != 5 && !behind && p.pc < 7 {
                if !out.exit.ok() { v.push(Viol { props: vec!["C10"], msg: format!("a later run by itself fails: {}", out.exit.text()) }); }
                else {
                    let mut y = vec![];
                    check_synced(&w.img, &g2, &c, &s.u, *vr, prev.as_deref(), &mut y, &[]);
                    for z in y { if z.props != ["C16"] { v.push(Viol { props: vec!["C10"], msg: format!("after a later run by itself: {}", z.msg) }); } }
                }
            }
            text.push("then a run by itself".into());
            {
                let mut z = cx.st.lock().unwrap();
                z.states.insert(key);
                z.transitions += 1;
                z.compared += 1;
                z.schedules += 1;
                z.instants += inst;
                *z.outcomes.entry(format!("kind {}: {outcome}", p.kind)).or_default() += 1;
            }
            if p.a == 12 && p.b < 3 { cx.sample(format!("{} => {outcome}", text.join(" ; "))); }
            for y in &v { cx.report(y, text.clone(), json!({"campaign": "lock", "case": p.id})); }
            (m, mr)
        };
        let mut plan = |b: usize, c: usize| -> (usize, usize) { run(&Plan { id: format!("{prior}.{pc}.{qc}.{kind}.{a}.{b}.{c}"), prior, pc, qc, kind, a, b, c }) };
        match kind {
            0 | 2 => { if kind == 0 || a < n { plan(0, 0); } }
            _ => {
                if kind == 3 && a == n { return; }
                // Q stops at each operation up to the one where it tries the lock (or is refused)
                let cap = if cx.thorough { 40 } else { 8 };
                for b in 0..=cap {
                    if kind == 1 { let (m, _) = plan(b, 0); if cx.only.is_none() && b >= m { break; } }
                    else {
                        // three processes: only for some a
                        if !(cx.thorough || a % 9 == 4 || a + 2 >= n || a < 4) || qc != 1 || pc != 0 { break; }
                        let mut done = false;
                        for c in 0..=400 {
                            if !cx.thorough && c > 3 && c % 11 != 5 { continue; }
                            let (m, mr) = plan(b, c);
                            if cx.only.is_none() && b > m { done = true; break; }
                            if cx.only.is_none() && c >= mr { break; }
                        }
                        if done { break; }
                    }
                }
            }
        }
    });
    let outs: Vec<String> = cx.st.lock().unwrap().outcomes.keys().cloned().collect();
    cx.campaign("lock", json!({"processes": "P, Q (and R) on one state directory", "preemption points": "every file system operation including opening of files for reading and flock", "kinds": ["P@a Q P", "P@a Q@b P Q", "P@a Q kill(P) run", "P@a Q@b kill(P) R@c Q R", "P@a Q@b P R@c Q R"], "outcomes": outs.len()}));
}
fn prepare(w: &mut World, s: &Setup, st: &St, vp: usize, vq: usize, vr: usize) {
    enter(w, s, st);
    w.link_up("cur", &format!("v{vp}"));
    w.link_up("cur2", &format!("v{vq}"));
    w.link_up("cur3", &format!("v{vr}"));
    if !w.img.contains_key("statelink") {
        let p = w.abs("statelink");
        let _ = std::os::unix::fs::symlink("state", &p);
        w.refresh(&p);
    }
}
