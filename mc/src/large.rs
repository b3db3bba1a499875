//! Trees that are large in some way, with one thing wrong somewhere (C13).
use crate::cx::*;
use crate::engine::*;
use crate::hist::*;
use crate::https::{Plan, DAY};
use crate::pki::{Res, Tree};
use crate::pki::*;
use crate::world::*;
use crate::val::*;
use serde_json::json;
use std::sync::Arc;

const NOW: i64 = T0 + 2 * H;
/// how many, of what, where
pub const SHAPES: &[&str] = &["objects", "children", "revoked", "resources", "prefixes", "bytes"];
pub const DEFECTS: &[&str] = &["none", "missing", "replaced", "revoked", "expired", "overclaiming", "all missing"];

fn obj(f: String, serial: u64) -> Obj { Obj::new(&f, Kind::Roa { asn: 64496, v4: vec![(ip(10, 1, 4, 0), 24, None)], v6: vec![] }, serial, T0 - 10 * DAY, T0 + 300 * DAY) }
fn name(i: usize) -> String { format!("o{i:05}.roa") }

/// trust anchor and one CA (and its children); what should be mentioned, all of it
pub fn large(shape: &str, n: usize, defect: &str, at: usize, repos: [usize; 2]) -> (Tree, Vec<String>) {
    let mut t = chain(&[Some(repos[0]), Some(repos[1])], T0);
    let res = t.cas[0].res.clone();
    t.cas[1].res = res.clone();
    let mut about = vec![];
    let dir = t.cas[1].dir.clone();
    // the one that is defective
    let spoil = |t: &mut Tree, c: usize, k: usize, defect: &str| {
        let f = t.cas[c].objs[k].file.clone();
        match defect {
            "missing" | "all missing" => t.cas[c].objs[k].missing = true,
            "replaced" => t.cas[c].objs[k].stored = Some(Alt::Flip(200)),
            "revoked" => { let s = t.cas[c].objs[k].serial; t.cas[c].crl.revoked.push(s); }
            "expired" => t.cas[c].objs[k].to = NOW - 60,
            "overclaiming" => { let o = &mut t.cas[c].objs[k]; o.skip = vec![]; o.kind = Kind::Roa { asn: 64496, v4: vec![(ip(11, 1, 4, 0), 24, None)], v6: vec![] }; }
            _ => return None,
        }
        Some(format!("{}{f}", t.cas[c].dir))
    };
    match shape {
        "objects" => {
            t.cas[1].objs = (0..n).map(|i| obj(name(i), 10_000 + i as u64)).collect();
            for i in if defect == "all missing" { 0..n } else { at..at + 1 } { about.extend(spoil(&mut t, 1, i, defect)); }
        }
        "children" => {
            t.cas[1].objs.clear();
            for i in 0..n {
                let mut c = ca(2 + i, 2 + i % 90, Some(repos[1]), res.clone(), T0);
                c.objs.push(obj("a.roa".into(), 101));
                t.cas.push(c);
                let mut o = obj(format!("c{i:05}.cer"), 10_000 + i as u64);
                o.kind = Kind::Ca { to: 2 + i };
                o.signing = None;
                t.cas[1].objs.push(o);
            }
            for i in if defect == "all missing" { 0..n } else { at..at + 1 } { about.extend(spoil(&mut t, 2 + i, 0, defect)); }
        }
        "revoked" => {
            let mut l: Vec<u64> = (0..n as u64).map(|i| 1_000_000 + 3 * i).collect();
            if defect == "revoked" { l[at] = t.cas[1].objs[0].serial; about.push(format!("{dir}{}", t.cas[1].objs[0].file)); }
            t.cas[1].crl.revoked = l;
        }
        "resources" => {
            // every other /24, and one of those in between
            let own: Vec<(u32, u8)> = (0..n as u32).map(|i| (ip(10, 0, 0, 0) + (i << 9), 24)).collect();
            t.cas[1].res = Res { v4: Rs::L(own.clone()), ..res };
            let a = own[at].0 + if defect == "overclaiming" { 256 } else { 0 };
            t.cas[1].objs = vec![obj("a.roa".into(), 101), obj("z.roa".into(), 102)];
            t.cas[1].objs[0].kind = Kind::Roa { asn: 64496, v4: vec![(a, 24, None)], v6: vec![] };
            t.cas[1].objs[1].kind = Kind::Roa { asn: 64496, v4: vec![(own[0].0, 24, None)], v6: vec![] };
            if defect == "overclaiming" { about.push(format!("{dir}a.roa")); }
        }
        "prefixes" => {
            let mut p: Vec<(u32, u8, Option<u8>)> = (0..n as u32).map(|i| (ip(10, 0, 0, 0) + (i << 9), 24, None)).collect();
            let all: Vec<(u32, u8)> = p.iter().map(|x| (x.0, x.1)).collect();
            if defect == "overclaiming" { p[at].0 += 256; about.push(format!("{dir}a.roa")); }
            t.cas[1].res = Res { v4: Rs::L(all.clone()), ..res };
            t.cas[1].objs = vec![obj("a.roa".into(), 101)];
            t.cas[1].objs[0].kind = Kind::Roa { asn: 64496, v4: p, v6: vec![] };
            // its certificate is fine, its content is not
            t.cas[1].objs[0].res = Some(Res { v4: Rs::L(all), ..Res::none() });
        }
        _ => {
            t.cas[1].objs = vec![obj("a.roa".into(), 101), Obj { kind: Kind::Raw((0..n).map(|i| (i * 7 + i / 251) as u8).collect()), ..obj("g.gbr".into(), 102) }];
            let f = match defect { "missing" => { t.cas[1].objs[1].missing = true; "g.gbr" } "replaced" => { t.cas[1].objs[1].stored = Some(Alt::Flip(8 * (at + 1) - 1)); "g.gbr" } "expired" => { t.cas[1].objs[0].to = NOW - 60; "a.roa" } _ => "" };
            if !f.is_empty() { about.push(format!("{dir}{f}")); }
        }
    }
    (t, about)
}
fn sizes(shape: &str, thorough: bool) -> Vec<usize> {
    match (shape, thorough) {
        ("objects", false) => vec![40, 300, 1100], ("objects", true) => vec![17, 65, 130, 257, 513, 1025, 4100],
        ("children", false) => vec![40, 300], ("children", true) => vec![17, 65, 130, 257, 1025],
        ("revoked", false) => vec![300, 5_000], ("revoked", true) => vec![65, 257, 1025, 70_000],
        ("resources" | "prefixes", false) => vec![40, 1100], ("resources" | "prefixes", true) => vec![17, 65, 257, 1025, 8_200],
        (_, false) => vec![70_000, 5_000_000], (_, true) => vec![9_000, 70_000, 1_100_000, 20_000_000],
    }
}
fn fits(shape: &str, d: &str) -> bool {
    d == "none" || match shape { "objects" | "children" => true, "revoked" => d == "revoked", "bytes" => ["missing", "replaced", "expired"].contains(&d), _ => d == "overclaiming" }
}
pub fn run(cx: &Cx) {
    let mut cases = vec![];
    for shape in SHAPES { for n in sizes(shape, cx.thorough) { for (di, d) in DEFECTS.iter().enumerate() {
        if !fits(shape, d) { continue; }
        let single = !["none", "all missing"].contains(d);
        let places: Vec<usize> = if !single { vec![0] } else if cx.thorough { vec![0, 1, n / 8, n / 4, n / 3, n / 2, 2 * n / 3, 3 * n / 4, n - 2, n - 1] } else { vec![0, n / 3, 2 * n / 3, n - 1] };
        for (k, at) in places.into_iter().enumerate() { for (ri, repos) in [[0, 0], [1, 0], [0, 1]].into_iter().enumerate() { for reject in [true, false] {
            // quick: places and settings in turn
            if !cx.thorough && ((k + di + n) % 3 != ri || reject != ((k + di + ri) % 2 == 0)) { continue; }
            cases.push((*shape, n, *d, at, repos, reject));
        } } }
    } } }
    let total = cases.len();
    // the largest first
    cases.sort_by_key(|c| std::cmp::Reverse(match c.0 { "objects" => c.1, "children" => 3 * c.1, _ => 0 }));
    cx.par(cases, |w, (shape, n, d, at, repos, reject)| {
        let id = format!("{n} {shape}, {d}{}, in {repos:?}, {}", if ["none", "all missing"].contains(&d) { String::new() } else { format!(" at {at}") }, if reject { "reject" } else { "warn" });
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("large"); return; }
        let t0 = std::time::Instant::now();
        let (t, about) = large(shape, n, d, at, repos);
        // issues are reported for the source only
        let here = repos[1] == 0;
        let bad = here && d != "none";
        let want = Want { issues: Some(bad), seen: Some(true), about: None };
        let sc = scene(&id, &[t]);
        let s = Setup { name: id.clone(), u: sc.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
        let mut st = St::init(&s);
        st.now = NOW;
        w.installed.clear();
        enter(w, &s, &st);
        let mut g = st.g.clone();
        let cfg = val_cfg(reject);
        let mut v = vec![];
        let o = vrun(cx, w, &sc, &cfg, 0, Plan { files: sc.srv[0].clone(), ..Default::default() }, &mut g, "C13", &mut v);
        let r = judge(&o, &cfg, &want, "C13", &mut v);
        if bad {
            let text = format!("{}\n{}", o.exit.out, o.exit.err);
            let silent: Vec<&String> = about.iter().filter(|a| !text.contains(a.as_str())).collect();
            if !silent.is_empty() { v.push(Viol { props: vec!["C13"], msg: format!("of {} defects, {} are not mentioned: {} …", about.len(), silent.len(), silent[0]) }); }
        }
        let dt = t0.elapsed().as_secs_f64();
        if cx.verbose && dt > 2.0 { eprintln!("{dt:.1} s: {id}"); }
        cx.outcome(&format!("large, {}: {}", cfg.name, if o.published { if o.issues.unwrap_or(0) > 0 { "published with issues" } else { "published" } } else { "rejected" }));
        { let mut z = cx.st.lock().unwrap(); z.cases += 1; if z.samples.len() < 8 && at > 0 && n < 100 { z.samples.push(format!("{id}: {r}")); } }
        for y in &v { cx.report(y, vec![id.clone(), format!("wanted {want:?}: {r}")], json!({"campaign": "large", "case": id})); }
    });
    cx.campaign("large", json!({"cases": total, "shapes": SHAPES.iter().map(|s| format!("{s}: {:?}", sizes(s, cx.thorough))).collect::<Vec<_>>()}));
}
