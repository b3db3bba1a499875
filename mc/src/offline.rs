//! Which repositories are contacted, and what is made of their failure (C22).
use crate::cx::*;
use crate::engine::*;
use crate::graph::graph;
use crate::hist::*;
use crate::https::{Body, Plan, Resp};
use crate::val::*;
use crate::world::*;
use serde_json::json;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum He { Ok, Notif404, Notif500, Close, Garbage, Snap404, SnapGarbage, Redirect, Notif304 }
const HEALTH: [He; 9] = [He::Ok, He::Notif404, He::Notif500, He::Close, He::Garbage, He::Snap404, He::SnapGarbage, He::Redirect, He::Notif304];
#[derive(Clone, Copy, Debug)]
struct Sp { dt: i64, he: He, offline: bool, change: bool, reject: bool, direct: bool, /** the other repositories send ETags */ etag: bool, /** and are there */ lay: usize }
fn text(s: &Sp) -> String { format!("+{} min, {}, other repositories: {:?}{}, {}{}", s.dt / 60, if s.offline { "offline" } else { "online" }, s.he, if s.change { " and changed" } else { "" }, if s.reject { "reject" } else { "warn" }, if s.direct { ", source over https" } else { "" }) + if s.etag { ", ETags" } else { "" } + &if s.lay > 0 { format!(", places {}", s.lay) } else { "".into() } }
struct Gr { name: &'static str, n: usize, edges: &'static [(usize, usize, usize)], repos: &'static [usize], /** the way to the source leads through the other repositories */ through: bool }
const GR: &[Gr] = &[
    Gr { name: "source first", n: 6, edges: &[(0, 1, 1), (0, 2, 1), (0, 3, 1), (0, 4, 1), (1, 5, 1)], repos: &[0, 1, 1, 1, 2, 0], through: false },
    Gr { name: "other first", n: 5, edges: &[(0, 1, 1), (0, 2, 1), (1, 3, 1), (2, 3, 1), (0, 4, 1)], repos: &[1, 1, 1, 0, 2], through: true },
    Gr { name: "third first, then other", n: 4, edges: &[(0, 1, 1), (1, 2, 1), (1, 3, 1)], repos: &[2, 1, 1, 0], through: true },
];
#[derive(Clone, Default, Debug)]
struct Model { /** data of the other repositories is in the saved state, retrieved then */ cached: Option<i64> }

/// trees for the first, second, ... version
fn trees(gr: &Gr, changes: &[bool]) -> Scene {
    let mut t = graph(gr.n, gr.edges, gr.repos, 100);
    let mut l = vec![];
    for (i, c) in changes.iter().enumerate() {
        for (k, ca) in t.cas.iter_mut().enumerate() { if gr.repos[k] == 0 || *c { ca.crl.number = 10 + i as u64; } }
        l.push(t.clone());
    }
    scene(&format!("offline/{}/{changes:?}", gr.name), &l)
}
/// do we have what is needed from the other repositories in this run? None: in part
fn have(m: &Model, s: &Sp, now: i64) -> Option<bool> {
    if s.offline { return Some(m.cached.is_some()); }
    match m.cached {
        None => Some(s.he == He::Ok),
        Some(t) if now - t < 3600 => Some(true),
        Some(_) => match s.he {
            He::Ok => Some(true),
            He::Notif304 if s.etag => Some(true),
            // only needed if there are changes
            He::Snap404 | He::SnapGarbage if !s.change => None,
            _ => None,
        },
    }
}
fn run(cx: &Cx, w: &mut World, gr: &Gr, sc: &Scene, i: usize, s: &Sp, g: &mut Ghost, m: &mut Model, now: i64, v: &mut Vec<Viol>) -> String {
    let mut p = Plan { files: sc.srv[i].clone(), etag: s.etag, ..Default::default() };
    for h in [repo_base(1), repo_base(2)] {
        let n = format!("{h}notification.xml");
        let st = |c: u16| Resp::Status(c, vec![], Body::Data(b"no".to_vec()));
        match s.he {
            He::Ok => {}
            He::Notif404 => { p.resp.insert(n, vec![(None, st(404))]); }
            He::Notif500 => { p.resp.insert(n, vec![(None, st(500))]); }
            He::Notif304 => { p.resp.insert(n, vec![(None, st(304))]); }
            He::Close => { p.resp.insert(n, vec![(None, Resp::Close)]); }
            He::Garbage => { p.resp.insert(n, vec![(None, Resp::Status(200, vec![], Body::Data(b"<html/>".to_vec())))]); }
            He::Redirect => { p.resp.insert(n, vec![(None, Resp::Status(302, vec![("Location".into(), format!("https://{h}elsewhere/notification.xml"))], Body::File))]); }
            He::Snap404 | He::SnapGarbage => { let k: Vec<String> = p.files.keys().filter(|k| k.starts_with(h) && !k.ends_with("notification.xml")).cloned().collect(); for f in k { p.resp.insert(f, vec![(None, if s.he == He::Snap404 { st(404) } else { Resp::Status(200, vec![], Body::Data(b"<snapshot/>".to_vec())) })]); } }
        }
    }
    let mut cfg = Cfg { offline: s.offline, ..val_cfg(s.reject) };
    if s.direct {
        cfg.source = Source::Direct;
        for (f, b) in &sc.u.vers[i].files { p.files.insert(format!("{}{f}", repo_base(0)), b.clone()); }
    }
    let o = vrun(cx, w, sc, &cfg, i, p, g, "C22", v);
    if let Some(t) = m.cached {
        if now - t < 3600 { if let Some(h) = o.hits.iter().find(|h| matches!(repo_at(&format!("{}{}", h.host, h.target)), Some(1 | 2))) { v.push(Viol { props: vec!["C22"], msg: format!("{} was requested, although that repository was looked at {} s ago", h.url(), now - t) }); } }
    }
    let h = have(m, s, now);
    let seen = if gr.through { h } else { Some(true) };
    let r = judge(&o, &cfg, &Want { issues: Some(false), seen, about: None }, "C22", v);
    if o.exit.ok() {
        // the state was saved
        m.cached = match (h, m.cached) { (Some(true), Some(t)) if s.offline || now - t < 3600 => Some(t), (Some(true), _) => Some(now), (Some(false), _) => None, (None, c) => c };
    }
    r
}
pub fn offline(cx: &Cx) {
    let mut jobs = vec![];
    for (gi, _) in GR.iter().enumerate() { for he in HEALTH { for offline in [false, true] { for reject in [true, false] { for direct in [false, true] { for etag in [false, true] {
        let x = gi + he as usize + offline as usize + reject as usize;
        if !cx.thorough && (direct != (x % 2 > 0) || reject && he != He::Ok || gi == 2 && he as usize % 2 > 0 || etag == direct) { continue; }
        jobs.push((gi, Sp { dt: 60, he, offline, change: false, reject, direct, etag, lay: if cx.thorough { jobs.len() } else { he as usize + 2 * gi + offline as usize + 3 * direct as usize } % LAYOUTS.len() }));
    } } } } } }
    let n = jobs.len();
    let runs: Vec<usize> = cx.par(jobs, |w, (gi, s1)| {
        let gr = &GR[gi];
        set_layout(s1.lay);
        let mut count = 0;
        let mut first: Option<(St, Model)> = None;
        let mut id1 = String::new();
        for change in [false, true] {
            let sc = trees(gr, &[false, change]);
            let s = Setup { name: sc.u.name.clone(), u: sc.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
            w.installed.clear();
            if first.is_none() {
                let mut st = St::init(&s);
                st.now += s1.dt;
                enter(w, &s, &st);
                let (mut g, mut m, mut v) = (st.g.clone(), Model::default(), vec![]);
                id1 = format!("{}: {}", gr.name, text(&s1));
                let r = run(cx, w, gr, &sc, 0, &s1, &mut g, &mut m, st.now, &mut v);
                count += 1;
                cx.outcome(&format!("offline 1: {r}"));
                if cx.only.as_deref().map(|o| o.starts_with(&id1)).unwrap_or(true) { for y in &v { cx.report(y, vec![id1.clone(), r.clone()], json!({"campaign": "offline", "case": id1})); } }
                first = Some((St { img: Arc::new(w.img.clone()), now: st.now, g, path: vec![] }, m));
            }
            let (st1, m1) = first.clone().unwrap();
            for dt in [60, 2 * H, 40 * 24 * H] { for he in HEALTH { for offline in [false, true] {
                if cx.over() { cx.capped("offline"); set_layout(0); return count; }
                if dt > 24 * H && !cx.thorough && (!offline || !matches!(he, He::Ok | He::Notif500)) { continue; }
                let x = gi + he as usize + dt as usize / 60 + s1.he as usize;
                for reject in if cx.thorough { vec![true, false] } else { vec![x % 3 > 0] } {
                    let s2 = Sp { dt, he, offline, change, reject, direct: s1.direct, etag: s1.etag, lay: s1.lay };
                    let id = format!("{id1}; {}", text(&s2));
                    if !cx.case(&id) { continue; }
                    let mut st = st1.clone();
                    st.now += dt;
                    enter(w, &s, &st);
                    let (mut g, mut m, mut v) = (st.g.clone(), m1.clone(), vec![]);
                    let r = run(cx, w, gr, &sc, 1, &s2, &mut g, &mut m, st.now, &mut v);
                    count += 1;
                    cx.outcome(&format!("offline 2: {r}"));
                    { let mut z = cx.st.lock().unwrap(); z.cases += 1; if z.samples.len() < 8 && z.cases % 157 == 13 { z.samples.push(format!("{id}: {r}")); } }
                    for y in &v { cx.report(y, vec![id1.clone(), format!("{}: {r}", text(&s2)), format!("{m1:?}")], json!({"campaign": "offline", "case": id})); }
                    // a third run, with everything all right, or shortly afterwards, also with other repositories that are down
                    if cx.thorough || x % 4 == 0 {
                        let sc3 = trees(gr, &[false, change, true]);
                        let s = Setup { name: sc3.u.name.clone(), u: sc3.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
                        let img = Arc::new(w.img.clone());
                        for (dt, he, off) in [(2 * H, He::Ok, false), (2 * H, He::Ok, true), (60, He::Ok, false), (60, He::Notif500, false)] {
                            let s3 = Sp { dt, he, offline: off, change: true, reject: true, direct: s1.direct, etag: s1.etag, lay: s1.lay };
                            let st3 = St { img: img.clone(), now: st.now + dt, g: g.clone(), path: vec![] };
                            // what is left after a partial success is not known
                            let vague = have(&m1, &s2, st.now).is_none();
                            if vague && dt < H { continue; }
                            enter(w, &s, &st3);
                            let (mut g3, mut m3, mut v) = (g.clone(), m.clone(), vec![]);
                            let r = run(cx, w, gr, &sc3, 2, &s3, &mut g3, &mut m3, st3.now, &mut v);
                            count += 1;
                            if vague && off { v.retain(|y| !y.msg.contains("report on") && !y.msg.contains("reject")&& !y.msg.contains("the run failed")); }
                            for y in &v { cx.report(y, vec![id1.clone(), text(&s2), format!("{}: {r}", text(&s3)), format!("{m:?}")], json!({"campaign": "offline", "case": id})); }
                        }
                        w.installed.clear();
                    }
                }
            } } }
        }
        set_layout(0);
        count
    });
    cx.campaign("offline", json!({"first runs": n, "runs": runs.iter().sum::<usize>(), "other repositories": HEALTH.iter().map(|h| format!("{h:?}")).collect::<Vec<_>>(), "places": LAYOUTS, "hierarchies": GR.iter().map(|g| g.name).collect::<Vec<_>>()}));
}
