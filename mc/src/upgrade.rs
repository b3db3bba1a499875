//! What earlier releases left behind is taken over (C24). The fixtures hold what is on disk after each run
//! of a history with such a release.
use crate::camp::vs;
use crate::cx::*;
use crate::engine::*;
use crate::hist::*;
use crate::https::Plan;
use crate::hval::hscene_named;
use crate::setups::{self, *};
use crate::up::*;
use crate::val::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};

const FILE: &str = include_str!("../fixtures.json");
fn all() -> &'static Value { static V: OnceLock<Value> = OnceLock::new(); V.get_or_init(|| serde_json::from_str(FILE).unwrap_or_else(|e| crate::die(&format!("fixtures.json: {e}")))) }
fn images(f: &Value) -> Vec<(i64, Image)> {
    let blobs = &all()["blobs"];
    f["images"].as_array().unwrap().iter().map(|i| {
        let img = i["img"].as_object().unwrap().iter().map(|(p, e)| {
            let e = match e[0].as_str().unwrap() {
                "d" => Ent::Dir,
                "l" => Ent::Link(e[1].as_str().unwrap().into()),
                _ => Ent::File(FileData::written(openssl::base64::decode_block(blobs[e[1].as_str().unwrap()].as_str().unwrap()).unwrap(), e[2].as_i64(), e[3].as_i64().unwrap())),
            };
            (p.clone(), e)
        }).collect();
        (i["now"].as_i64().unwrap(), img)
    }).collect()
}
fn cfgs_of(name: &str) -> Vec<Cfg> {
    let c = std_cfgs();
    let mut l: Vec<Cfg> = c.iter().filter(|c| c.name == name).cloned().collect();
    if l.is_empty() { crate::die(&format!("no configuration {name}")); }
    if name != "default" { l.push(c[0].clone()); }
    l
}
/// up-RELEASE/CONFIGURATION/VERSIONS
pub fn setup(name: &str) -> Setup {
    let f = all()["fixtures"].as_array().unwrap().iter().find(|f| f["name"] == name[3..]).unwrap_or_else(|| crate::die(&format!("no fixture {name}")));
    let mut s = setups::setup("basic");
    s.name = name.into();
    s.cfgs = Arc::new(cfgs_of(f["cfg"].as_str().unwrap()));
    s.from = Arc::new(images(f));
    s
}
const SHAPES: [&[Option<usize>]; 2] = [&[Some(0), Some(0)], &[Some(1), Some(0)]];
pub fn upgraded(cx: &Cx) {
    let mut n = 0;
    for f in all()["fixtures"].as_array().unwrap() {
        let name = f["name"].as_str().unwrap();
        if f["shape"].is_u64() { continue; }
        n += 1;
        let s = setup(&format!("up-{name}"));
        let vers = vs(&s, if cx.thorough { &["A1", "A2", "A3nodelta", "A4", "A4all", "B1", "B2empty", "C1"] } else { &["A1", "A2", "A4", "B1"] });
        // the original release did not note whether host names are included: all is written once more
        let unknown = name.starts_with("original/include-host/");
        bfs_from(cx, &s, &HistOpts { advs: if cx.thorough { vec![0, 1, 599, 600] } else { vec![0, 600] }, vers, cfgs: if unknown { vec![0] } else { (0..s.cfgs.len()).collect() }, depth: if cx.thorough { 3 } else { 2 }, mode: if unknown { Mode::AfterFail } else { Mode::Strict }, tick: 0 }, vec![St::init(&s)]);
    }
    let mut jobs = vec![];
    for f in all()["fixtures"].as_array().unwrap() { if let Some(x) = f["shape"].as_u64() { for k in ["Good", "Bad", "Revoked", "RevGap", "Reset", "ResetBad", "Same", "Stale"] { for dt in if x == 0 { vec![600, 4000] } else { vec![4000] } { for c in ["reject", "warn", "offline"] { jobs.push((f, x as usize, k, dt, c)); } } } } }
    let m = jobs.len();
    cx.par(jobs, |w, (f, x, k, dt, c)| {
        let id = format!("{}; +{dt} s, {k}, {c}", f["name"].as_str().unwrap());
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("upgraded"); return; }
        let sc = hscene_named(SHAPES[x], &format!("{},{k}", f["versions"].as_str().unwrap()));
        let i = sc.u.vers.len() - 1;
        let cfg = match c { "reject" => val_cfg(true), "warn" => val_cfg(false), _ => Cfg { offline: true, ..val_cfg(true) } };
        let mut s = Setup { name: sc.u.name.clone(), u: sc.u.clone(), cfgs: Arc::new(vec![cfg.clone()]), foreign: Arc::new(vec![]), from: Default::default() };
        s.from = Arc::new(images(f));
        let st = St::init(&s);
        let run = |w: &mut World, st: &St, v: &mut Vec<Viol>| {
            enter(w, &s, st);
            w.set_now(s.from.last().unwrap().0 + dt);
            let mut g = st.g.clone();
            let o = vrun(cx, w, &sc, &cfg, i, Plan { files: sc.srv[i].clone(), ..Default::default() }, &mut g, "C24", v);
            w.installed.clear();
            (o.exit.code, o.issues, o.published, o.exit.text())
        };
        let mut v = vec![];
        let got = run(w, &st, &mut v);
        let has = st.g.published(&cfg);
        let same = k == "Same";
        // what a fresh installation does; offline it knows nothing of other repositories
        let fresh = St { img: Arc::new(Image::new()), now: st.now, g: Ghost::default(), path: vec![] };
        if has.is_none() { crate::die(&format!("{id}: nothing published")); }
        if same { if got.0 != Some(0) { v.push(Viol { props: vec!["C24"], msg: format!("a run without upstream changes failed: {}", got.3) }); } }
        else if !(c == "offline" && x == 1) {
            let mut x = vec![];
            let want = run(w, &fresh, &mut x);
            if (got.0, got.1, got.2) != (want.0, want.1, want.2) { v.push(Viol { props: vec!["C24"], msg: format!("the run after the upgrade: {}, {:?} issues, published: {}; that of a fresh installation: {}, {:?} issues, published: {}", got.3, got.1, got.2, want.3, want.1, want.2) }); }
        }
        cx.outcome(&format!("upgraded: {k}, {c}: exit {:?}", got.0));
        cx.st.lock().unwrap().cases += 1;
        for y in &v { cx.report(y, vec![id.clone()], json!({"campaign": "upgraded", "case": id})); }
    });
    cx.campaign("upgraded", json!({"states of earlier releases": n, "runs with validation": m}));
}

/// write the fixtures of the release that is `cx`'s binary, and keep those of other releases
pub fn make(cx: &Cx, release: &str, file: &str) {
    let mut blobs: serde_json::Map<String, Value> = Default::default();
    let mut fixtures: Vec<Value> = vec![];
    let mut add = |name: String, extra: Value, l: &[(i64, Image)], blobs: &mut serde_json::Map<String, Value>| {
        let imgs: Vec<Value> = l.iter().map(|(now, img)| {
            let m: BTreeMap<String, Value> = img.iter().map(|(p, e)| (p.clone(), match e {
                Ent::Dir | Ent::Shut(_) => json!(["d"]),
                Ent::Link(t) => json!(["l", t]),
                Ent::File(f) => { let k = hex(f.hash())[..12].to_string(); blobs.insert(k.clone(), json!(b64(&f.bytes))); json!(["f", k, f.mtime, f.at]) }
            })).collect();
            json!({"now": now, "img": m})
        }).collect();
        let mut f = json!({"name": name, "images": imgs});
        for (k, v) in extra.as_object().unwrap() { f[k] = v.clone(); }
        fixtures.push(f);
    };
    let s = setups::setup("basic");
    let mut w = cx.world();
    let hists: &[&[(&str, i64)]] = &[&[("A1", 0)], &[("A1", 0), ("A2", 0)], &[("A1", 0), ("A2", 300), ("A4", 200)], &[("A1", 0), ("B1", 0)], &[("A2", 0), ("B1", 100), ("A4", 300)], &[("B1", 0), ("B2empty", 1)], &[("A3nodelta", 0), ("A3nodelta", 5)]];
    for (ci, c) in s.cfgs.iter().enumerate() {
        if !["default", "max-deltas=1", "include-host", "no-rsync", "delay=30", "state on other device"].contains(&c.name.as_str()) { continue; }
        for h in hists {
            let mut st = St::init(&s);
            let mut l = vec![];
            let mut bad = String::new();
            for (v, adv) in *h {
                let r = exec(&mut w, &s, &st, &Step { adv: *adv, ver: s.u.ix(v), cfg: ci, ..Default::default() }, RunOpts::default());
                if let Some(x) = r.viols.first() { bad = x.msg.clone(); }
                if !r.out.exit.ok() { bad = r.out.exit.text(); }
                st = r.next;
                l.push((st.now, (*st.img).clone()));
            }
            let name = format!("{release}/{}/{}", c.name, h.iter().map(|x| x.0).collect::<Vec<_>>().join(","));
            if !bad.is_empty() { println!("{name}: {bad}"); continue; }
            add(name, json!({"cfg": c.name}), &l, &mut blobs);
        }
    }
    for (x, a) in SHAPES.iter().enumerate() { for ks in ["Good", "Good,Good", "Good,Reset"] {
        let sc = hscene_named(a, ks);
        let cfg = val_cfg(true);
        let s = Setup { name: sc.u.name.clone(), u: sc.u.clone(), cfgs: Arc::new(vec![cfg.clone()]), foreign: Arc::new(vec![]), from: Default::default() };
        let st = St::init(&s);
        enter(&mut w, &s, &st);
        let mut g = st.g.clone();
        let (mut l, mut bad) = (vec![], String::new());
        for i in 0..sc.u.vers.len() {
            w.set_now(T0 + 4000 * i as i64);
            let mut v = vec![];
            let o = vrun(cx, &mut w, &sc, &cfg, i, Plan { files: sc.srv[i].clone(), ..Default::default() }, &mut g, "C24", &mut v);
            if !o.exit.ok() || !o.published { bad = o.exit.text(); }
            if let Some(y) = v.first() { bad = y.msg.clone(); }
            l.push((w.now(), w.img.clone()));
        }
        w.installed.clear();
        let name = format!("{release}/validation {x}/{ks}");
        if !bad.is_empty() { println!("{name}: {bad}"); continue; }
        add(name, json!({"shape": x, "versions": ks}), &l, &mut blobs);
    } }
    println!("{} fixtures of {release}", fixtures.len());
    let old = std::fs::read_to_string(file).ok().and_then(|b| serde_json::from_str::<Value>(&b).ok()).unwrap_or(json!({"blobs": {}, "fixtures": []}));
    let mut keep: Vec<Value> = old["fixtures"].as_array().unwrap().iter().filter(|f| !f["name"].as_str().unwrap().starts_with(&format!("{release}/"))).cloned().collect();
    keep.extend(fixtures);
    // blobs that are still in use
    for (k, b) in old["blobs"].as_object().unwrap() { blobs.entry(k.clone()).or_insert(b.clone()); }
    let text = serde_json::to_string(&keep).unwrap();
    blobs.retain(|k, _| text.contains(k.as_str()));
    std::fs::write(file, format!("{{\"blobs\": {},\n\"fixtures\": [\n{}\n]}}\n", serde_json::to_string(&blobs).unwrap(), keep.iter().map(|f| f.to_string()).collect::<Vec<_>>().join(",\n"))).unwrap();
    cx.give(w);
}
