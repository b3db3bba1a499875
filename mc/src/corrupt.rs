//! Upstream data that is missing, truncated, altered or unparsable (C09).
use crate::cx::*;
use crate::engine::*;
use crate::hist::*;
use crate::setups::*;
use crate::up::*;
use crate::world::*;
use serde_json::json;
use std::collections::BTreeMap;

/// what becomes of a file
#[derive(Clone)]
pub enum Alt { Gone, Dir, Data(Vec<u8>) }
#[derive(Clone)]
pub struct Case { pub id: String, pub prior: usize, pub ver: usize, pub cfg: usize, pub alt: Vec<(String, Alt)>, pub next: Option<usize> }

/// files of the version with one file replaced and the notification adapted to the new hash
fn rehash(v: &Ver, path: &str, bytes: Vec<u8>) -> Vec<(String, Alt)> {
    let h = sha(&bytes);
    let mut snap = v.snap.clone();
    if snap.0 == path { snap.1 = h; }
    let deltas: Vec<_> = v.deltas.iter().map(|d| if d.1 == path { (d.0, d.1.clone(), h) } else { d.clone() }).collect();
    let n = render_notif(&v.base, &v.session, v.serial, &snap, &deltas, "asc");
    vec![(path.to_string(), Alt::Data(bytes)), (v.notif_name.clone(), Alt::Data(n))]
}
fn sub(b: &[u8], from: &str, to: &str) -> Vec<u8> {
    let s = String::from_utf8(b.to_vec()).unwrap();
    assert!(s.contains(from), "{from} not in {s}");
    s.replacen(from, to, 1).into_bytes()
}
/// contents that are not what the notification says, although the hash is right
fn bad(v: &Ver, path: &str, serial: u64, all: bool) -> Vec<(String, Vec<u8>)> {
    let b = v.files[path].as_slice();
    let root = if v.snap.0 == path { "snapshot" } else { "delta" };
    let other = if root == "snapshot" { "delta" } else { "snapshot" };
    let mut l: Vec<(String, Vec<u8>)> = vec![
        ("empty".into(), vec![]), ("garbage".into(), b"this is not XML\n".to_vec()), ("binary".into(), (0..=255).collect()), ("html".into(), b"<html><body>404 not found</body></html>".to_vec()),
        ("root is something else".into(), b"<foo xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\"/>".to_vec()),
        ("a notification".into(), v.notif().to_vec()),
        (format!("a {other}"), String::from_utf8(b.to_vec()).unwrap().replace(&format!("<{root} "), &format!("<{other} ")).replace(&format!("</{root}>"), &format!("</{other}>")).into_bytes()),
        ("other session".into(), sub(b, &v.session, SC)),
        ("no session".into(), sub(b, &format!("session_id=\"{}\"", v.session), "")),
        ("bad session".into(), sub(b, &v.session, "not-a-uuid")),
        ("lower serial".into(), sub(b, &format!("serial=\"{serial}\""), &format!("serial=\"{}\"", serial - 1))),
        ("higher serial".into(), sub(b, &format!("serial=\"{serial}\""), &format!("serial=\"{}\"", serial + 1))),
        ("no serial".into(), sub(b, &format!("serial=\"{serial}\""), "")),
        ("bad serial".into(), sub(b, &format!("serial=\"{serial}\""), "serial=\"-1\"")),
        ("huge serial".into(), sub(b, &format!("serial=\"{serial}\""), "serial=\"99999999999999999999999\"")),
        ("version 2".into(), sub(b, "version=\"1\"", "version=\"2\"")),
        ("other namespace".into(), sub(b, "http://www.ripe.net/rpki/rrdp", "http://www.example.net/rpki/rrdp")),
        ("text after the root".into(), [b, b"<x/>"].concat()),
        ("twice".into(), [b, b].concat()),
        ("unknown element".into(), sub(b, &format!("</{root}>"), &format!("<remove uri=\"rsync://rpki.example/repo/x\"/></{root}>"))),
        ("element without uri".into(), sub(b, &format!("</{root}>"), &format!("<publish>AAAA</publish></{root}>"))),
        ("bad base64".into(), sub(b, &format!("</{root}>"), &format!("<publish uri=\"rsync://rpki.example/repo/zz\">@@@@</publish></{root}>"))),
        ("incomplete base64".into(), sub(b, &format!("</{root}>"), &format!("<publish uri=\"rsync://rpki.example/repo/zz\">AAAAA</publish></{root}>"))),
        ("http uri".into(), sub(b, &format!("</{root}>"), &format!("<publish uri=\"https://rpki.example/repo/zz\">AAAA</publish></{root}>"))),
        ("nested".into(), sub(b, &format!("</{root}>"), &format!("<publish uri=\"rsync://rpki.example/repo/zz\"><publish uri=\"rsync://rpki.example/repo/zy\">AAAA</publish></publish></{root}>"))),
        ("no end tag".into(), sub(b, &format!("</{root}>"), "")),
        ("wrong end tag".into(), sub(b, &format!("</{root}>"), "</notification>")),
        ("bad utf-8".into(), { let mut x = b.to_vec(); let i = x.len() / 2; x[i] = 0xff; x }),
    ];
    if root == "snapshot" { l.push(("withdraw".into(), sub(b, "</snapshot>", &format!("<withdraw uri=\"rsync://rpki.example/repo/x\" hash=\"{}\"/></snapshot>", "0".repeat(64))))); }
    else { l.push(("withdraw without hash".into(), sub(b, "</delta>", "<withdraw uri=\"rsync://rpki.example/repo/x\"/></delta>"))); }
    // cut at every byte (but before the final ">\n")
    let step = if all { 1 } else { 9 };
    for i in (1..b.len() - 2).step_by(step) { l.push((format!("cut after {i} bytes"), b[..i].to_vec())); }
    l
}
/// altered content where the hash is not adapted
fn altered(b: &[u8], masks: &[u8], stride: usize) -> Vec<(String, Alt)> {
    let mut l = vec![("missing".to_string(), Alt::Gone), ("directory".into(), Alt::Dir), ("empty".into(), Alt::Data(vec![])),
        ("appended newline".into(), Alt::Data([b, b"\n"].concat())), ("appended nul".into(), Alt::Data([b, &[0u8][..]].concat())), ("doubled".into(), Alt::Data([b, b].concat()))];
    for i in (0..b.len()).step_by(stride) {
        for m in masks { let mut x = b.to_vec(); x[i] ^= m; l.push((format!("byte {i} ^ {m:#x}"), Alt::Data(x))); }
        let mut x = b.to_vec();
        x.remove(i);
        l.push((format!("byte {i} removed"), Alt::Data(x)));
        if i > 0 { l.push((format!("cut after {i} bytes"), Alt::Data(b[..i].to_vec()))); }
    }
    l
}

pub fn write_up(w: &World, dir: &str, files: &BTreeMap<String, Bytes>, alt: &[(String, Alt)]) {
    let top = w.abs(&format!("{UP}/{dir}"));
    let _ = std::fs::remove_dir_all(&top);
    std::fs::create_dir_all(&top).unwrap();
    for (k, b) in files {
        let p = format!("{top}/{k}");
        if alt.iter().any(|a| a.0 == *k || k.starts_with(&format!("{}/", a.0))) { continue; }
        std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
        std::fs::write(&p, b.as_slice()).unwrap();
    }
    for (k, a) in alt {
        if matches!(a, Alt::Gone) { continue; }
        let p = format!("{top}/{k}");
        std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
        match a { Alt::Gone => {} Alt::Dir => std::fs::create_dir_all(&p).unwrap(), Alt::Data(b) => std::fs::write(&p, b).unwrap() }
    }
}
/// what readers see: notification, current rsync directory
pub fn seen(g: &Ghost, c: &Cfg) -> (Option<Vec<u8>>, Option<String>) {
    (g.rrdp.get(&(c.rrdp.clone(), c.notif_name().to_string())).and_then(|r| r.bytes.as_ref().map(|b| b.bytes.clone())), g.rsync.get(&c.rsync).and_then(|r| r.target.clone()))
}

/// a run with altered upstream data, and one with correct data after it
fn spoilt(cx: &Cx, w: &mut World, s: &Setup, st: &St, ci: usize, c: &Case, before: &[String]) {
    let cfg = &s.cfgs[ci];
    let v = &s.u.vers[c.ver];
    enter(w, s, st);
    write_up(w, "v99", &v.files, &c.alt);
    let mut g = st.g.clone();
    let step = Step { ver: 99, cfg: ci, mode: Mode::Watch, ..Default::default() };
    let out = run_step(w, &s.u, &s.cfgs, &step, &mut g, RunOpts::default());
    let mut viols: Vec<Viol> = vec![];
    for mut y in out.viols { if y.props != ["C16"] { y.props.push("C09"); viols.push(y); } }
    let mut add = |m: String| viols.push(Viol { props: vec!["C09"], msg: m });
    let held = st.g.published(cfg);
    if out.exit.signal.is_some() || out.exit.code == Some(101) { add(format!("crashed: {}", out.exit.text())); }
    let same = seen(&g, cfg) == seen(&st.g, cfg);
    if out.exit.ok() {
        // does the notification say that nothing changed?
        let nn = c.alt.iter().find(|a| a.0 == v.notif_name).and_then(|a| match &a.1 { Alt::Data(b) => parse_notif(b).ok(), _ => None });
        let noop = matches!((&nn, &held), (Some(n), Some(h)) if n.session == h.0 && n.serial == h.1);
        if !(noop && same) && c.next.is_none() {
            let mut y = vec![];
            check_synced(&w.img, &g, cfg, &s.u, c.ver, st.g.notif(cfg).as_deref(), &mut y, &[]);
            if let Some(z) = y.first() { add(format!("corrupt data was accepted: {}", z.msg)); }
        }
    } else {
        if out.exit.err.trim().is_empty() { add("failed without a message".into()); }
        if !same { add(format!("the run failed, but published data changed ({})", out.exit.text())); }
    }
    let kind = if out.exit.ok() { "accepted (in sync)" } else { "refused" };
    // upstream is correct again
    let mut path = vec![format!("published before: {}", held.map(|h| format!("{}/{}", h.0, h.1)).unwrap_or("nothing".into())), format!("config {}", cfg.name), format!("upstream {} with {}", v.label, c.id.splitn(4, '/').nth(3).unwrap()), if c.next.is_some() { "then a later version".into() } else { "then the correct version".into() }];
    path.splice(1..1, before.iter().cloned());
    let ver = c.next.unwrap_or(c.ver);
    let prev = g.notif(cfg);
    let good = Step { ver, cfg: ci, mode: Mode::Watch, ..Default::default() };
    let out2 = run_step(w, &s.u, &s.cfgs, &good, &mut g, RunOpts::default());
    for mut y in out2.viols { if y.props != ["C16"] { y.props.push("C09"); viols.push(y); } }
    let mut add = |m: String| viols.push(Viol { props: vec!["C09"], msg: m });
    if !out2.exit.ok() { add(format!("the next run with correct data failed: {}", out2.exit.text())); }
    else {
        let mut y = vec![];
        check_synced(&w.img, &g, cfg, &s.u, ver, prev.as_deref(), &mut y, &[]);
        for z in y { if z.props != ["C16"] { add(format!("after the next run with correct data: {}", z.msg)); } }
    }
    {
        let mut z = cx.st.lock().unwrap();
        let mut b = image_hash(&w.img).to_vec();
        b.extend(g.key());
        z.states.insert(sha(&b));
        z.transitions += 2;
        z.compared += 2;
        z.cases += 1;
        z.instants += out.bounds + out2.bounds;
        *z.outcomes.entry(format!("corrupt: {kind}")).or_default() += 1;
        if z.samples.len() < 6 && c.id.len() % 7 == 3 { z.samples.push(format!("{} => {kind}", path.join(" ; "))); }
    }
    for y in &viols { cx.report(y, path.clone(), json!({"campaign": "corrupt", "case": c.id})); }
}

pub fn corrupt(cx: &Cx) {
    let mut s = setup("basic");
    s.name = "corrupt".into();
    let t = |v: &str, c: usize| Step { ver: s.u.ix(v), cfg: c, ..Default::default() };
    let cfgs: &[usize] = &[0, 1, 4];
    let mut w = cx.world();
    let mut priors: Vec<Vec<St>> = vec![];
    for h in [vec![], vec!["A1"], vec!["B1"]] {
        priors.push(cfgs.iter().map(|c| walk(cx, &mut w, &s, &St::init(&s), &h.iter().map(|v| t(v, *c)).collect::<Vec<_>>(), "prefix")).collect());
    }
    cx.give(w);
    let (mut cases, mut moved): (Vec<Case>, Vec<Case>) = (vec![], vec![]);
    for (pi, _) in priors.iter().enumerate() {
        for vl in ["A2", "A4all"] {
            let vi = s.u.ix(vl);
            let v = &s.u.vers[vi];
            let small = vl == "A2";
            for (ci, _) in cfgs.iter().enumerate() {
                let main = ci == 0 && small;
                if ci > 0 && pi != 1 && !cx.thorough { continue; }
                let mut add = |what: &str, alt: Vec<(String, Alt)>| cases.push(Case { id: format!("{pi}/{vl}/{ci}/{what}"), prior: pi, ver: vi, cfg: ci, alt, next: None });
                // the notification file
                let masks: &[u8] = if cx.thorough { &[1, 2, 4, 8, 0x10, 0x20, 0x80] } else { &[1, 0x20] };
                for (what, a) in altered(v.notif(), masks, if main || cx.thorough { 1 } else { 23 }) { add(&format!("notification {what}"), vec![(v.notif_name.clone(), a)]); }
                let mut files: Vec<(String, u64)> = vec![(v.snap.0.clone(), v.serial)];
                files.extend(v.deltas.iter().map(|d| (d.1.clone(), d.0)));
                for (f, serial) in files {
                    let b = &v.files[&f];
                    for (what, a) in altered(b, &[1], if cx.thorough { if main { 1 } else { 7 } } else if main { 13 } else { 61 }) { add(&format!("{f} {what}"), vec![(f.clone(), a)]); }
                    for (what, x) in bad(v, &f, serial, cx.thorough || (main && pi == 1)) { add(&format!("{f} {what}, hash adapted"), rehash(v, &f, x)); }
                    // content of another file
                    for (o, x) in &v.files { if *o != f { add(&format!("{f} with content of {o}"), vec![(f.clone(), Alt::Data(x.to_vec()))]); } }
                    // elsewhere, so that a file or a directory is left in the way in the staging area (hash adapted, another file is wrong)
                    let top = f.split('/').next().unwrap().to_string();
                    for deep in [format!("{f}/x.xml"), top, format!("{}.tmp/x.xml", v.notif_name), "krill-sync-move.tmp/x.xml".to_string(), v.notif_name.clone(), format!("{}.tmp", v.notif_name)] {
                        if cfgs[ci] == 1 { continue; }
                        for spoil in [true, false] {
                            // the data is fine, but its place is not: the next version must still be published
                            if !spoil && !(small && f == v.snap.0) { continue; }
                            let next = if spoil { None } else { Some(s.u.ix("A4all")) };
                            let mut snap = v.snap.clone();
                            if snap.0 == f { snap.0 = deep.clone(); }
                            let mut deltas: Vec<_> = v.deltas.iter().map(|d| if d.1 == f { (d.0, deep.clone(), d.2) } else { d.clone() }).collect();
                            // the file that is fetched last (deltas come after the snapshot)
                            if spoil {
                                let other = deltas.iter().rposition(|d| d.1 != deep && (pi != 1 || d.0 > 9));
                                if let Some(i) = other { deltas[i].2 = [1; 32]; } else { snap.1 = [1; 32]; }
                            }
                            let n = render_notif(&v.base, &v.session, v.serial, &snap, &deltas, "asc");
                            let mut alt = vec![(f.clone(), Alt::Gone)];
                            if deep != v.notif_name { alt.push((v.notif_name.clone(), Alt::Data(n.clone()))); }
                            if deep != v.notif_name { alt.push((deep.clone(), Alt::Data(b.to_vec()))); } else { alt.push((deep.clone(), Alt::Data(n))); }
                            moved.push(Case { id: format!("{pi}/{vl}/{ci}/{f} moved to {deep}{}", if spoil { ", other file altered" } else { "" }), prior: pi, ver: vi, cfg: ci, alt, next });
                        }
                    }
                }
            }
        }
    }
    cases.append(&mut moved);
    let n = cases.len();
    let s = &s;
    let priors = &priors;
    cx.par(cases, |w, c| {
        if !cx.case(&c.id) { return; }
        if cx.over() { cx.capped("corrupted files"); return; }
        spoilt(cx, w, s, &priors[c.prior][c.cfg], cfgs[c.cfg], &c, &[]);
    });
    // what a run that was killed has left meets data that is missing: every kill point, every file
    let mut kills: Vec<(usize, usize, usize, CrashPt)> = vec![];
    for (pi, vl) in [(0, "A2"), (1, "A2"), (1, "A4all"), (2, "A4all")] {
        if vl == "A4all" && !cx.thorough && pi != 1 { continue; }
        let mut w = cx.world();
        let step = Step { split: true, ..t(vl, 0) };
        let r = exec(&mut w, s, &priors[pi][0], &Step { mode: Mode::Watch, ..step }, RunOpts { crash: true, ..Default::default() });
        cx.give(w);
        account(cx, s, &r, "base");
        for c in r.out.crash { kills.push((pi, s.u.ix(vl), c.at, c)); }
    }
    cx.st.lock().unwrap().crash_points += kills.len() as u64;
    let points = kills.len();
    cx.par(kills, |w, (pi, vi, at, c)| {
        let v = &s.u.vers[vi];
        let from = St { img: std::sync::Arc::new(c.img), now: c.now, g: c.ghost, path: vec![] };
        let files: Vec<String> = [v.snap.0.clone()].into_iter().chain(v.deltas.iter().map(|d| d.1.clone())).collect();
        let mut sets: Vec<(String, Vec<(String, Alt)>)> = files.iter().map(|f| (format!("{f} missing"), vec![(f.clone(), Alt::Gone)])).collect();
        sets.extend(files.iter().map(|f| (format!("{f} altered"), vec![(f.clone(), Alt::Data(b"something else".to_vec()))])));
        sets.push(("all files missing".into(), files.iter().map(|f| (f.clone(), Alt::Gone)).collect()));
        for (what, alt) in sets {
            let c = Case { id: format!("{pi}/{}/0/killed at {at}, {what}", v.label), prior: pi, ver: vi, cfg: 0, alt, next: None };
            if !cx.case(&c.id) { continue; }
            if cx.over() { cx.capped("corrupted files after a kill"); return; }
            spoilt(cx, w, s, &from, cfgs[0], &c, &[format!("a run for {} is killed at operation {at}", v.label)]);
        }
    });
    // what is left of another version with the same session and serial, that was never published: every kill
    // point before anything else than the state is changed, every file
    let mut kills: Vec<(usize, usize, usize, String, CrashPt)> = vec![];
    for (pi, vl) in [(0, "A2"), (1, "A2"), (1, "A4all")] {
        let (vi, st) = (s.u.ix(vl), &priors[pi][0]);
        let v = &s.u.vers[vi];
        let cfg = &s.cfgs[cfgs[0]];
        let mut w = cx.world();
        for (f, root) in [(v.snap.0.clone(), "snapshot")].into_iter().chain(v.deltas.iter().map(|d| (d.1.clone(), "delta"))) {
            let bytes = sub(&v.files[&f], &format!("</{root}>"), &format!("<publish uri=\"rsync://rpki.example/repo/other.roa\">AAAA</publish></{root}>"));
            enter(&mut w, s, st);
            write_up(&w, "v99", &v.files, &rehash(v, &f, bytes));
            let r = run_step(&mut w, &s.u, &s.cfgs, &Step { ver: 99, cfg: cfgs[0], mode: Mode::Watch, split: true, ..Default::default() }, &mut st.g.clone(), RunOpts { crash: true, ..Default::default() });
            let same = |c: &CrashPt, d: &str| part(&c.img, &[d]) == part(&st.img, &[d]);
            for c in r.crash { if same(&c, &cfg.rrdp) && same(&c, &cfg.rsync) { kills.push((pi, vi, c.at, f.clone(), c)); } }
        }
        cx.give(w);
    }
    cx.st.lock().unwrap().crash_points += kills.len() as u64;
    let others = kills.len();
    cx.par(kills, |w, (pi, vi, at, f, c)| {
        let v = &s.u.vers[vi];
        let from = St { img: std::sync::Arc::new(c.img), now: c.now, g: c.ghost, path: vec![] };
        for (what, alt) in [("missing", Alt::Gone), ("a directory", Alt::Dir), ("empty", Alt::Data(vec![]))] {
            let c = Case { id: format!("{pi}/{}/0/other {f}, killed at {at}, {what}", v.label), prior: pi, ver: vi, cfg: 0, alt: vec![(f.clone(), alt)], next: None };
            if !cx.case(&c.id) { continue; }
            if cx.over() { cx.capped("corrupted files after a kill"); return; }
            spoilt(cx, w, s, &from, cfgs[0], &c, &[format!("a run for {} with another {f} is killed at operation {at}", v.label)]);
        }
    });
    cx.campaign("corrupt", json!({"cases": n, "kill_points_before_missing_data": points, "kill_points_of_another_version_before_missing_data": others, "priors": ["nothing", "A1", "B1"], "versions": ["A2", "A4all"], "configs": cfgs.iter().map(|c| s.cfgs[*c].name.clone()).collect::<Vec<_>>()}));
}
