//! Several trust anchors (C13): the verdict is that on all of the trees, in whatever order and way the
//! TALs are given.
use crate::cx::*;
use crate::engine::*;
use crate::hist::*;
use crate::https::{Body, Plan, Resp};
use crate::pki::*;
use crate::pki::Tree;
use crate::val::*;
use crate::world::*;
use serde_json::json;
use std::sync::Arc;

/// where the CAs of the tree publish
const SHAPES: &[(&str, &[usize])] = &[("00", &[0, 0]), ("10", &[1, 0]), ("01", &[0, 1]), ("2", &[2])];
const DEFECTS: &[&str] = &["a.roa missing", "child.cer revoked", "CRL missing", "manifest listing a missing file", "r.cer revoked"];
/// ways to write a TAL
const WAYS: &[&str] = &["plain", "comments", "carriage returns", "wrapped", "rsync first", "two https URIs", "indented", "no end of line"];
fn write(way: &str, tal: &[u8]) -> Vec<u8> {
    let t = String::from_utf8(tal.to_vec()).unwrap();
    let (u, k) = t.trim_end().split_once("\n\n").unwrap();
    match way {
        "comments" => format!("# a trust anchor\n# that is used for tests\n{u}\n\n{k}\n"),
        "carriage returns" => format!("{u}\r\n\r\n{k}\r\n"),
        "wrapped" => format!("{u}\n\n{}\n", k.as_bytes().chunks(64).map(|c| std::str::from_utf8(c).unwrap()).collect::<Vec<_>>().join("\n")),
        "rsync first" => format!("rsync://ta.example/repo/ta.cer\n{u}\n\n{k}\n"),
        "two https URIs" => format!("{u}\nhttps://ta.example/missing.cer\n\n{k}\n"),
        "indented" => format!("{u}\n\n{}\n", k.as_bytes().chunks(64).map(|c| format!(" {}", std::str::from_utf8(c).unwrap())).collect::<Vec<_>>().join("\n")),
        "no end of line" => format!("{u}\n\n{k}"),
        _ => t,
    }.into_bytes()
}
fn tree(i: usize, shape: usize, t: i64) -> Tree {
    let mut x = chain(&SHAPES[shape].1.iter().map(|r| Some(*r)).collect::<Vec<_>>(), t);
    for c in &mut x.cas { c.key += 20 * i; c.dir = c.dir.replace("/repo/", &format!("/repo/t{i}/")); }
    x.ta_uri = format!("https://ta.example/ta{i}.cer");
    x
}
fn perms(n: usize) -> Vec<Vec<usize>> { match n { 1 => vec![vec![0]], 2 => vec![vec![0, 1], vec![1, 0]], _ => vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]] } }
#[derive(Clone)]
struct Case { shapes: Vec<usize>, at: Option<(usize, usize, &'static str)>, order: Vec<usize>, reject: bool, way: usize }
fn cases(thorough: bool) -> Vec<Case> {
    let n = SHAPES.len();
    let mut sets: Vec<Vec<usize>> = (0..n).flat_map(|a| (0..n).map(move |b| vec![a, b])).collect();
    sets.extend(if thorough { (0..n * n * n).map(|x| vec![x / n / n, x / n % n, x % n]).collect() } else { vec![vec![0, 1, 3], vec![2, 2, 2], vec![3, 3, 0]] });
    let mut v = vec![];
    for s in &sets {
        let mut ats = vec![None];
        for (j, sh) in s.iter().enumerate() { for p in 0..SHAPES[*sh].1.len() { for d in DEFECTS { if d.starts_with("child") && p + 1 == SHAPES[*sh].1.len() { continue; } ats.push(Some((j, p, *d))); } } }
        for (ai, at) in ats.into_iter().enumerate() {
            let mut orders = perms(s.len());
            // one of them given twice
            if s.len() == 2 { orders.extend([vec![0, 1, 0], vec![1, 0, 0]]); }
            for (oi, o) in orders.into_iter().enumerate() { for reject in [true, false] {
                if !thorough && (ai + oi) % 3 != reject as usize && !(s.len() == 2 && oi < 2 && reject) { continue; }
                v.push(Case { shapes: s.clone(), at, order: o.clone(), reject, way: 0 });
            } }
        }
    }
    // ways to write them
    for way in 1..WAYS.len() { for at in [None, Some((0, 1, "a.roa missing")), Some((1, 0, "a.roa missing"))] { for reject in [true, false] {
        v.push(Case { shapes: vec![0, 0], at, order: vec![0, 1], reject, way });
        if at.map(|a| a.0 == 0).unwrap_or(true) { v.push(Case { shapes: vec![1], at, order: vec![0], reject, way }); }
    } } }
    v
}
pub fn tals(cx: &Cx) {
    let l = cases(cx.thorough);
    let n = l.len();
    let ds = defects(false);
    cx.par(l, |w, c| {
        let id = format!("{}/{}/order {:?}/{}/{}", c.shapes.iter().map(|s| SHAPES[*s].0).collect::<Vec<_>>().join(","), c.at.map(|(j, p, d)| format!("tree {j} ca{p} {d}")).unwrap_or("none".into()), c.order, if c.reject { "reject" } else { "warn" }, WAYS[c.way]);
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("tals"); return; }
        let now = T0 + 2 * 3600;
        let good: Vec<Tree> = c.shapes.iter().enumerate().map(|(i, s)| tree(i, *s, T0)).collect();
        let mut bad = good.clone();
        let (mut issues, mut about, mut seen) = (false, None, false);
        for (j, t) in bad.iter_mut().enumerate() {
            let mut cut = None;
            if let Some((k, p, name)) = c.at { if k == j {
                let d = ds.iter().find(|d| d.name == name).unwrap_or_else(|| crate::die(&format!("no defect {name}")));
                (d.edit)(t, p, now);
                if d.cut == Cut::Below { cut = Some(p); }
                if t.cas[p].repo == Some(0) { issues = true; about = d.about.map(String::from); }
            } }
            seen |= reach(t, cut).iter().any(|x| t.cas[*x].repo == Some(0));
        }
        // all trees in the same repositories
        let merge = |l: &[Tree]| {
            let b: Vec<Built> = l.iter().map(|t| t.build()).collect();
            let mut m = b[0].clone();
            for x in &b[1..] { for (r, o) in x.repos.iter().enumerate() { m.repos[r].extend(o.iter().map(|(k, v)| (k.clone(), v.clone()))); m.mtimes[r].extend(x.mtimes[r].iter().map(|(k, v)| (k.clone(), *v))); } }
            (m, b)
        };
        let (b1, _) = merge(&good);
        let (b2, parts) = merge(&bad);
        let mut sc = scene_of(&id, &[b1, b2]);
        for s in &mut sc.srv { s.remove("ta.example/ta.cer"); for (i, p) in parts.iter().enumerate() { s.insert(format!("ta.example/ta{i}.cer"), Arc::new(p.ta.clone())); } }
        let cfg = Cfg { tals: c.order.iter().map(|i| format!("up/tal/ta{i}.tal")).collect(), ..val_cfg(c.reject) };
        let s = Setup { name: id.clone(), u: sc.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
        let st = St::init(&s);
        w.installed.clear();
        enter(w, &s, &st);
        let mut g = st.g.clone();
        std::fs::create_dir_all(w.abs("up/tal")).unwrap();
        for (i, p) in parts.iter().enumerate() { std::fs::write(w.abs(&format!("up/tal/ta{i}.tal")), write(WAYS[c.way], &p.tal)).unwrap(); }
        let any = good.iter().any(|t| t.cas.iter().any(|x| x.repo == Some(0)));
        let mut path = vec![id.clone()];
        let mut v = vec![];
        for (i, want) in [Want { issues: Some(false), seen: Some(any), about: None }, Want { issues: Some(issues), seen: Some(seen), about }].into_iter().enumerate() {
            w.set_now(now - 5000 + 5000 * i as i64);
            let o = vrun(cx, w, &sc, &cfg, i, Plan { files: sc.srv[i].clone(), ..Default::default() }, &mut g, "C13", &mut v);
            let r = judge(&o, &cfg, &want, "C13", &mut v);
            path.push(format!("version {}: wanted {want:?}: {r}", i + 1));
        }
        w.installed.clear();
        cx.outcome(&format!("tals: {} trees{}", c.shapes.len(), if issues { ", issues" } else { "" }));
        { let mut z = cx.st.lock().unwrap(); z.cases += 1; if z.samples.len() < 8 && z.cases % 97 == 3 { z.samples.push(path.join(": ")); } }
        for y in &v { cx.report(y, path.clone(), json!({"campaign": "tals", "case": id})); }
    });
    let m = anchors(cx);
    cx.campaign("tals", json!({"cases": n, "trees": SHAPES.iter().map(|s| s.0).collect::<Vec<_>>(), "defects": DEFECTS, "ways to write a TAL": WAYS, "histories with a bad trust anchor": m, "bad trust anchors": BAD}));
}

/// what can be wrong with a trust anchor itself
const BAD: &[&str] = &["not found", "server error", "connection closed", "not modified", "empty", "truncated", "garbage", "another key", "another tree", "expired", "not yet valid", "signature", "no such TAL", "TAL without https", "TAL without key", "TAL garbage", "TAL empty"];
#[derive(Clone)]
struct Anchor { shapes: Vec<usize>, which: usize, bad: &'static str, order: Vec<usize>, reject: bool, offline: bool, /** in this of the runs */ at: usize }
/// one of the trust anchors is of no use: nothing can be decided
fn anchors(cx: &Cx) -> usize {
    let mut l = vec![];
    let sets: &[&[usize]] = if cx.thorough { &[&[0], &[1], &[0, 0], &[0, 3], &[3, 0], &[1, 2], &[0, 3, 0], &[3, 3, 1]] } else { &[&[0], &[0, 3], &[0, 0, 3]] };
    for s in sets { for which in 0..s.len() { for (bi, bad) in BAD.iter().enumerate() { for (oi, order) in perms(s.len()).into_iter().enumerate() { for reject in [true, false] { for offline in [false, true] { for at in [0, 1] {
        if !cx.thorough && (!reject && (bi + oi) % 4 > 0 || offline && (bi + which) % 3 > 0 || s.len() == 3 && (oi + bi + at) % 4 > 0) { continue; }
        l.push(Anchor { shapes: s.to_vec(), which, bad, order: order.clone(), reject, offline, at });
    } } } } } } }
    let n = l.len();
    cx.par(l, |w, c| {
        let id = format!("{}/trust anchor {} {} in run {}/order {:?}/{}{}", c.shapes.iter().map(|s| SHAPES[*s].0).collect::<Vec<_>>().join(","), c.which, c.bad, c.at + 1, c.order, if c.reject { "reject" } else { "warn" }, if c.offline { "/offline" } else { "" });
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("tals"); return; }
        let now = T0 + 2 * 3600;
        let mut trees: Vec<Tree> = c.shapes.iter().enumerate().map(|(i, s)| tree(i, *s, T0)).collect();
        let merge = |l: &[Tree]| {
            let b: Vec<Built> = l.iter().map(|t| t.build()).collect();
            let mut m = b[0].clone();
            for x in &b[1..] { for (r, o) in x.repos.iter().enumerate() { m.repos[r].extend(o.iter().map(|(k, v)| (k.clone(), v.clone()))); m.mtimes[r].extend(x.mtimes[r].iter().map(|(k, v)| (k.clone(), *v))); } }
            (m, b)
        };
        let mut b = vec![];
        let mut parts = vec![];
        for i in 0..3 { for t in &mut trees { for x in &mut t.cas { x.crl.number = 10 + i; } } let (m, p) = merge(&trees); b.push(m); parts = p; }
        let mut sc = scene_of(&id, &b);
        for s in &mut sc.srv { s.remove("ta.example/ta.cer"); for (i, p) in parts.iter().enumerate() { s.insert(format!("ta.example/ta{i}.cer"), Arc::new(p.ta.clone())); } }
        let cfg = Cfg { tals: c.order.iter().map(|i| format!("up/tal/ta{i}.tal")).collect(), offline: c.offline, ..val_cfg(c.reject) };
        let s = Setup { name: id.clone(), u: sc.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
        let st = St::init(&s);
        w.installed.clear();
        enter(w, &s, &st);
        let mut g = st.g.clone();
        std::fs::create_dir_all(w.abs("up/tal")).unwrap();
        // offline, what is in other repositories is not known
        let any = trees.iter().any(|t| reach(t, None).iter().any(|x| t.cas[*x].repo == Some(0) && (!c.offline || t.cas[..*x].iter().all(|y| y.repo == Some(0)))));
        let mut path = vec![id.clone()];
        let mut v = vec![];
        for i in 0..3 {
            w.set_now(now - 5000 + 5000 * i as i64);
            let mut plan = Plan { files: sc.srv[i].clone(), ..Default::default() };
            let mut tals: Vec<Option<Vec<u8>>> = parts.iter().map(|p| Some(p.tal.clone())).collect();
            if i == c.at {
                let k = format!("ta.example/ta{}.cer", c.which);
                let ta = parts[c.which].ta.clone();
                let mut put = |b: Vec<u8>| { plan.files.insert(k.clone(), Arc::new(b)); };
                let with = |f: &dyn Fn(&mut Tree)| { let mut t = trees[c.which].clone(); f(&mut t); t.build().ta };
                let tal = String::from_utf8(parts[c.which].tal.clone()).unwrap();
                let st = |c: u16| Resp::Status(c, vec![], Body::Data(b"no".to_vec()));
                match c.bad {
                    "not found" => { plan.files.remove(&k); }
                    "server error" => { plan.resp.insert(k, vec![(None, st(503))]); }
                    "connection closed" => { plan.resp.insert(k, vec![(None, Resp::Close)]); }
                    "not modified" => { plan.resp.insert(k, vec![(None, st(304))]); }
                    "empty" => put(vec![]),
                    "truncated" => put(ta[..ta.len() - 1].to_vec()),
                    "garbage" => put(b"<html>It works!</html>".to_vec()),
                    "another key" => put(with(&|t| for x in &mut t.cas { x.key += 7; })),
                    "another tree" => put(tree(c.which + 3, 0, T0).build().ta),
                    "expired" => put(with(&|t| t.ta_to = now - 9000)),
                    "not yet valid" => put(with(&|t| t.ta_from = now + 9000)),
                    "signature" => { let mut t = ta.clone(); *t.last_mut().unwrap() ^= 1; put(t) }
                    "no such TAL" => tals[c.which] = None,
                    "TAL without https" => tals[c.which] = Some(tal.replace("https:", "rsync:").into_bytes()),
                    "TAL without key" => tals[c.which] = Some(tal.split("\n\n").next().unwrap().as_bytes().to_vec()),
                    "TAL garbage" => tals[c.which] = Some(tal.replace("\n\n", "\n\n-").into_bytes()),
                    _ => tals[c.which] = Some(vec![]),
                }
            }
            for (j, t) in tals.iter().enumerate() { let f = w.abs(&format!("up/tal/ta{j}.tal")); match t { Some(t) => std::fs::write(f, t).unwrap(), None => { let _ = std::fs::remove_file(f); } } }
            let o = vrun(cx, w, &sc, &cfg, i, plan, &mut g, "C13", &mut v);
            let r = if i == c.at {
                if c.reject && (o.exit.ok() || o.published) { v.push(Viol { props: vec!["C13"], msg: format!("trust anchor {} of {} cannot be used ({}), but the version was {}", c.which + 1, c.shapes.len(), c.bad, if o.published { "published" } else { "accepted" }) }); }
                format!("{}, {}", o.exit.text(), if o.published { "published" } else { "not published" })
            } else { judge(&o, &cfg, &Want { issues: Some(false), seen: Some(any), about: None }, "C13", &mut v) };
            path.push(format!("version {}: {r}", i + 1));
        }
        w.installed.clear();
        cx.outcome(&format!("trust anchors: {}", c.bad));
        { let mut z = cx.st.lock().unwrap(); z.cases += 1; if z.samples.len() < 12 && z.cases % 89 == 3 { z.samples.push(path.join(": ")); } }
        for y in &v { cx.report(y, path.clone(), json!({"campaign": "tals", "case": id})); }
    });
    n
}
