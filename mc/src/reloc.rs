//! Directories that were moved, copied or lost between runs, with validation of all sorts (C18).
use crate::cx::*;
use crate::engine::*;
use crate::hist::*;
use crate::https::Plan;
use crate::hval::hscene_named;
use crate::val::*;
use crate::world::*;
use serde_json::json;
use std::sync::Arc;

#[derive(Clone, Copy)]
struct Mv { name: &'static str, dflt: bool, /** from, to, keep the original */ l: &'static [(&'static str, &'static str, bool)] }
const MV: &[Mv] = &[
    Mv { name: "nothing moved", dflt: false, l: &[] },
    Mv { name: "state moved", dflt: false, l: &[("state", "state2", false)] },
    Mv { name: "state copied", dflt: false, l: &[("state", "state2", true)] },
    Mv { name: "RRDP moved", dflt: false, l: &[("rrdp", "rrdp2", false)] },
    Mv { name: "RRDP copied", dflt: false, l: &[("rrdp", "rrdp2", true)] },
    Mv { name: "rsync moved", dflt: false, l: &[("rsync", "rsync2", false)] },
    Mv { name: "rsync copied", dflt: false, l: &[("rsync", "rsync2", true)] },
    Mv { name: "RRDP and rsync moved", dflt: false, l: &[("rrdp", "rrdp2", false), ("rsync", "rsync2", false)] },
    Mv { name: "all moved", dflt: false, l: &[("state", "state2", false), ("rrdp", "rrdp2", false), ("rsync", "rsync2", false)] },
    Mv { name: "all moved, below one another", dflt: true, l: &[("state-d", "state-d2", false)] },
    Mv { name: "all copied, below one another", dflt: true, l: &[("state-d", "state-d2", true)] },
    // the new directories are empty
    Mv { name: "state elsewhere", dflt: false, l: &[("", "state2", false)] },
    Mv { name: "RRDP elsewhere", dflt: false, l: &[("", "rrdp2", false)] },
    Mv { name: "rsync elsewhere", dflt: false, l: &[("", "rsync2", false)] },
    Mv { name: "all elsewhere, below one another", dflt: true, l: &[("", "state-d2", false)] },
];
#[derive(Clone, Copy, Debug, PartialEq)]
enum V { None, Warn, Reject, Offline, Host, NoRsync }
fn cfg(v: V, dflt: bool) -> Cfg {
    let mut c = match v { V::None | V::NoRsync => Cfg::default(), V::Warn => val_cfg(false), V::Reject => val_cfg(true), V::Offline => Cfg { offline: true, ..val_cfg(true) }, V::Host => Cfg { host: true, ..val_cfg(true) } };
    c.rsync_on = v != V::NoRsync;
    if dflt { c.dflt = true; c.state = "state-d".into(); c.rrdp = "state-d/rrdp".into(); c.rsync = "state-d/rsync".into(); }
    c
}
fn sub(p: &str, from: &str, to: &str) -> Option<String> { if p == from { Some(to.into()) } else { p.strip_prefix(from).filter(|r| r.starts_with('/')).map(|r| format!("{to}{r}")) } }
fn relocate(m: &Mv, c: &mut Cfg, img: &mut Image, g: &mut Ghost) {
    for (from, to, keep) in m.l {
        let old = to.trim_end_matches('2');
        for d in [&mut c.state, &mut c.rrdp, &mut c.rsync] { if let Some(n) = sub(d, old, to) { *d = n; } }
        if from.is_empty() { continue; }
        let l: Vec<(String, Ent)> = img.iter().filter_map(|(k, e)| sub(k, from, to).map(|n| (n, e.clone()))).collect();
        let r: Vec<_> = g.rrdp.iter().filter_map(|(k, x)| sub(&k.0, from, to).map(|n| ((n, k.1.clone()), x.clone()))).collect();
        let s: Vec<_> = g.rsync.iter().filter_map(|(k, x)| sub(k, from, to).map(|n| (n, x.clone()))).collect();
        if !keep {
            img.retain(|k, _| sub(k, from, to).is_none());
            g.rrdp.retain(|k, _| sub(&k.0, from, to).is_none());
            g.rsync.retain(|k, _| sub(k, from, to).is_none());
        }
        img.extend(l);
        g.rrdp.extend(r);
        g.rsync.extend(s);
    }
}
pub fn relocated(cx: &Cx) {
    let shapes: &[&[Option<usize>]] = if cx.thorough { &[&[Some(0), Some(0), Some(0)], &[Some(1), Some(0), Some(0)], &[Some(0), Some(1), Some(0)]] } else { &[&[Some(0), Some(0)], &[Some(1), Some(0)]] };
    // before, after
    let hists: &[(usize, usize)] = if cx.thorough { &[(1, 1), (2, 1), (2, 2), (3, 1)] } else { &[(1, 1), (2, 2)] };
    let all = [V::None, V::Warn, V::Reject, V::Offline, V::Host, V::NoRsync];
    let mut jobs = vec![];
    for (ai, _) in shapes.iter().enumerate() { for (mi, _) in MV.iter().enumerate() { for c1 in all { for c2 in all { for h in hists { for reset in [false, true] {
        if !cx.thorough && (c1 != c2 && !(matches!(c1, V::None | V::Reject) && matches!(c2, V::None | V::Reject | V::Offline)) || reset && h.0 > 1 || ai == 1 && (c1 == V::None || c2 == V::None || c1 == V::NoRsync)) { continue; }
        jobs.push((ai, mi, c1, c2, *h, reset));
    } } } } } }
    let n = jobs.len();
    let runs: Vec<usize> = cx.par(jobs, |w, (ai, mi, c1, c2, (n1, n2), reset)| {
        let m = &MV[mi];
        let id = format!("{}/{}/{n1} runs {c1:?}, then {n2} {c2:?}{}", repos_name(shapes[ai]), m.name, if reset { " with a new session" } else { "" });
        if !cx.case(&id) { return 0; }
        if cx.over() { cx.capped("relocated"); return 0; }
        let mut ks = vec!["Good"; n1 + n2];
        if reset { ks[n1] = "Reset"; }
        let sc = hscene_named(shapes[ai], &ks.join(","));
        let s = Setup { name: sc.u.name.clone(), u: sc.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
        let st = St::init(&s);
        enter(w, &s, &st);
        let mut g = st.g.clone();
        let mut c = cfg(c1, m.dflt);
        let mut path = vec![id.clone()];
        for i in 0..n1 + n2 {
            if i == n1 {
                c = cfg(c2, m.dflt);
                let mut img = w.img.clone();
                relocate(m, &mut c, &mut img, &mut g);
                w.restore(&img);
            }
            w.set_now(st.now + 4000 * i as i64);
            let mut v = vec![];
            // offline from the start: nothing is known of other repositories
            let blind = c.offline && shapes[ai][0] == Some(1) && (i == 0 || c1 == V::None || c1 == V::NoRsync || /* the cache is for one state directory */ m.l.iter().any(|x| x.1 == c.state) || c1 == V::Offline);
            let o = vrun(cx, w, &sc, &c, i, Plan { files: sc.srv[i].clone(), ..Default::default() }, &mut g, "C18", &mut v);
            path.push(format!("run {}: {}", i + 1, o.exit.text()));
            if !blind {
                if !o.exit.ok() { v.push(Viol { props: vec!["C18"], msg: format!("the run failed: {}", o.exit.text()) }); }
                else if !o.published { v.push(Viol { props: vec!["C18"], msg: "the version was not published".into() }); }
            }
            let stop = !v.is_empty();
            for y in &v { cx.report(y, path.clone(), json!({"campaign": "relocated", "case": id})); }
            if stop { w.installed.clear(); return i + 1; }
        }
        cx.outcome(&format!("relocated: {}", m.name));
        { let mut z = cx.st.lock().unwrap(); z.cases += 1; if z.samples.len() < 8 && z.cases % 97 == 5 { z.samples.push(path.join("; ")); } }
        n1 + n2
    });
    cx.campaign("relocated", json!({"cases": n, "runs": runs.iter().sum::<usize>(), "moves": MV.iter().map(|m| m.name).collect::<Vec<_>>()}));
}
