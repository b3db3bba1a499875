//! Hostile and odd URIs in every place of upstream data (C11).
use crate::corrupt::seen;
use crate::cx::*;
use crate::engine::*;
use crate::hist::*;
use crate::proc::*;
use crate::setups::*;
use crate::up::*;
use crate::world::*;
use serde_json::json;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place { Snap, Delta, Obj, DObj, DGone }
#[derive(Clone)]
struct Case { id: String, prior: usize, cfg: usize, place: Place, uri: String, must_fail: bool }

fn xml(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('"', "&quot;") }
/// (what follows the base URI, leads elsewhere)
pub fn rels(snap: &str) -> Vec<(String, bool)> {
    let mut l: Vec<(String, bool)> = vec![];
    for x in ["../x.xml", "../../x.xml", "a/../../x.xml", "a/b/../../../x.xml", "../../../x.xml", "../../../../../../../../x.xml", "../rrdp/../x.xml", "../rsync/current/x.xml", "../rsync/evil/x.xml", "../state/x.xml",
        "../state/rrdp-state.json", "../state/rsync-state.json", "../state/krill-sync.lock", "../../state/rrdp-state.json", "a/../../x/y/z.xml", "..", "../", "../.."] { l.push((x.into(), true)); }
    for x in ["./x.xml", "a/./x.xml", "a/../x.xml", "../rrdp/x.xml", "../rrdp/notification.xml", "../cur/x.xml", "", ".", "a/..", "a/.", "a/../", "/x.xml", "//x.xml", "a//x.xml", "a/", "/", "%2e%2e/x.xml", "%2E%2E/x.xml", ".%2e/x.xml", "..%2fx.xml",
        "%2e/x.xml", "%2e%2e%2fx.xml", "a/%2e%2e/x.xml", "a/%2e%2e/%2e%2e/x.xml", "notification.xml", "notification.xml.tmp", "notification.tmp", "notification.xml~", ".notification.xml", "notification.xml.new", "notification.new", "tmp", "new.tmp", "./notification.xml", "a/../notification.xml", "krill-sync-move.tmp", "rrdp-state.json", "x.xml?y=../z", "x.xml#../y", "..\\x.xml",
        "x y.xml", ".../x.xml", "..a/x.xml", "a../x.xml", "-rf", "x\u{e9}.xml", "~/x.xml", "$HOME/x.xml", "NOTIFICATION.XML", "notification.xml/", "current", "pre-validate-staging/x.xml", "CON"] { l.push((x.into(), false)); }
    l.push((format!("{}.xml", "n".repeat(300)), false));
    l.push((format!("{}x.xml", "d/".repeat(2500)), false));
    l.push((format!("/@ROOT@/canary/x.xml"), true));
    l.push((format!("@ROOT@/canary/x.xml"), true));
    l.push((format!("@ROOT@/state/rrdp-state.json"), true));
    l.push((format!("{}/../../../../x.xml", snap.rsplit_once('/').map(|x| x.0).unwrap_or("a")), true));
    l
}
pub fn foreign_uris() -> Vec<(String, bool)> {
    ["https://other.example/rrdp/x.xml", "https://pub.example/other/x.xml", "https://pub.example/x.xml", "https://pub.example/rrdp-x/x.xml", "https://pub.example/rrdpx.xml", "http://pub.example/rrdp/x.xml", "rsync://pub.example/rrdp/x.xml", "file:///etc/passwd", "/x.xml", "x.xml", "",
        "https://pub.example", "https://pub.example/", "https://pub.example/rrdp", "https://user@pub.example/rrdp/x.xml", "https://pub.example:8443/rrdp/x.xml", "https://pub.example./rrdp/x.xml", "https:///rrdp/x.xml", "https://", "https://other.example/https://pub.example/rrdp/x.xml"]
        .iter().map(|x| (x.to_string(), true)).collect()
}
/// (URI, leads elsewhere without host, with host)
fn rsync_uris() -> Vec<(String, bool, bool)> {
    let mut l: Vec<(String, bool, bool)> = vec![];
    let m = "rsync://rpki.example/repo/";
    for x in ["../x.roa", "../../x.roa", "a/../../x.roa", "../../../x.roa", "../../../../../../../../x.roa", "../../current/x.roa", "../../../state/rrdp-state.json", "../../../rrdp/notification.xml", ".."] { l.push((format!("{m}{x}"), true, true)); }
    for x in ["./x.roa", "a/./x.roa", "a/../x.roa", "", ".", "a/..", "a/", "/x.roa", "//x.roa", "a//x.roa", "%2e%2e/x.roa", "..%2fx.roa", "a/%2e%2e/%2e%2e/x.roa", "..\\x.roa", "x y.roa", ".../x.roa", "..a", "-rf", "@ROOT@/canary/x.roa", "/@ROOT@/canary/x.roa", "x?y=../z", "x#../y", "current", "~/x.roa"] { l.push((format!("{m}{x}"), false, false)); }
    l.push((format!("{m}{}", "n".repeat(300)), false, false));
    l.push((format!("{m}{}x", "d/".repeat(2500)), false, false));
    for (h, mo) in [("..", "repo"), (".", "repo"), ("..", ".."), (".", "."), (".", ".."), ("h", ".."), ("h", "."), ("%2e%2e", "repo"), ("h", "%2e%2e"), ("", "repo"), ("h", ""), ("", ""), ("..", "current"), ("@ROOT@", "canary"), ("h:873", "repo"), ("h", "new.tmp"), ("...", "repo"), ("-", "-"), ("H\\..", "x"), ("a..b", "repo")] {
        for p in ["x.roa", "y/z.roa"] { l.push((format!("rsync://{h}/{mo}/{p}"), false, (h == ".." && mo != "x") || mo == "..")); }
    }
    for x in ["https://rpki.example/repo/x.roa", "rsync://rpki.example", "rsync://rpki.example/", "rsync://rpki.example/repo", "RSYNC://rpki.example/repo/up.roa", "file:///x", "", "x.roa", "/x.roa"] { l.push((x.into(), false, false)); }
    // collisions: file and directory of the same name, the same object twice
    for x in ["ca/a.roa", "ca/a.roa/x.roa", "ca", "ca/a.roa/"] { l.push((format!("{m}{x}"), false, false)); }
    l
}
/// where this leads on disk, lexically, relative to the scratch root
fn resolve(base: &str, rel: &str, root: &str) -> Option<String> {
    if rel.starts_with('/') { return rel.strip_prefix(root).map(|r| r.trim_start_matches('/').to_string()); }
    let mut p: Vec<&str> = base.split('/').collect();
    for c in rel.split('/') { match c { "" | "." => {} ".." => { p.pop()?; } x => p.push(x) } }
    Some(p.join("/"))
}

pub fn uris(cx: &Cx) {
    let mut s = setup("basic");
    s.name = "uris".into();
    let t = |v: &str, c: usize| Step { ver: s.u.ix(v), cfg: c, ..Default::default() };
    let cfgs: &[usize] = &[0, 3, 6];
    let (a2, a4, b1) = (s.u.ix("A2"), s.u.ix("A4"), s.u.ix("B1"));
    let mut w = cx.world();
    let mut priors: Vec<Vec<St>> = vec![];
    for h in [vec![], vec!["A1"]] { priors.push(cfgs.iter().map(|c| walk(cx, &mut w, &s, &St::init(&s), &h.iter().map(|v| t(v, *c)).collect::<Vec<_>>(), "prefix")).collect()); }
    // names that a run uses below the RRDP directory for a while only: upstream may use them, too
    let mut brief: BTreeSet<String> = BTreeSet::new();
    for (ci, c) in cfgs.iter().enumerate() { for ps in &priors {
        let r = exec(&mut w, &s, &ps[ci], &Step { mode: Mode::Watch, ..t("A2", *c) }, RunOpts::default());
        for p in &r.out.touched { if let Some(x) = p.strip_prefix(&format!("{}/", s.cfgs[*c].rrdp)) { if !r.next.img.contains_key(p) { brief.insert(x.to_string()); } } }
    } }
    cx.give(w);
    let base = s.u.vers[a2].base.clone();
    let mut cases: Vec<Case> = vec![];
    for prior in 0..2 { for cfg in 0..cfgs.len() {
        let mut add = |place: Place, uri: String, must_fail: bool| cases.push(Case { id: format!("{prior}/{cfg}/{place:?}/{}", if uri.len() > 200 { format!("{}..({})", &uri[..60], uri.len()) } else { uri.clone() }), prior, cfg, place, uri, must_fail });
        for place in [Place::Snap, Place::Delta] {
            for (r, f) in rels(&s.u.vers[a2].snap.0) { add(place, format!("{base}{r}"), f); }
            for b in &brief { if !b.ends_with(".xml.tmp") { add(place, format!("{base}{b}"), false); } add(place, format!("{base}{b}/x.xml"), false); }
            for (u, f) in foreign_uris() { add(place, u, f); }
        }
        if cfg == 2 { continue; }
        for (u, f, fh) in rsync_uris() { add(Place::Obj, u.clone(), if cfgs[cfg] == 3 { fh } else { f }); add(Place::DObj, u.clone(), false); add(Place::DGone, u, false); }
    } }
    let n = cases.len();
    let (s, priors) = (&s, &priors);
    cx.par(cases, |w, c| {
        if !cx.case(&c.id) { return; }
        if cx.over() { cx.capped("URIs"); return; }
        let mut st = priors[c.prior][c.cfg].clone();
        let cfg = &s.cfgs[cfgs[c.cfg]];
        let uri = c.uri.replace("@ROOT@", &w.root);
        // bystanders, in the tracked part of the tree
        let mut img = (*st.img).clone();
        for d in ["canary", "x"] { img.insert(d.into(), Ent::Dir); }
        for f in ["canary/x.xml", "canary/x.roa", "canary/keep", "x.xml", "x.roa"] { img.insert(f.into(), Ent::File(FileData::new(b"not krill-sync's\n".to_vec(), Some(1_111_111_111)))); }
        st.img = std::sync::Arc::new(img);
        enter(w, s, &st);
        // upstream with that URI
        let mut v = (*s.u.vers[a2]).clone();
        let old = match c.place { Place::Snap | Place::Obj => v.snap.0.clone(), _ => v.deltas.last().unwrap().1.clone() };
        let mut bytes = v.files[&old].to_vec();
        let mut at = old.clone();
        match c.place {
            Place::Snap | Place::Delta => {
                v.files.remove(&old);
                at = uri.strip_prefix(base.as_str()).unwrap_or("x.xml").to_string();
                if c.place == Place::Snap { v.snap.0 = uri.clone() } else { v.deltas.last_mut().unwrap().1 = uri.clone() }
            }
            _ => {
                let e = match c.place { Place::DGone => format!("<withdraw uri=\"{}\" hash=\"{}\"/>", xml(&uri), "0".repeat(64)), _ => format!("<publish uri=\"{}\">{}</publish>", xml(&uri), b64(b"hostile")) };
                let text = String::from_utf8(bytes).unwrap();
                let i = text.rfind("</").unwrap();
                bytes = format!("{}  {e}\n{}", &text[..i], &text[i..]).into_bytes();
                let h = sha(&bytes);
                if c.place == Place::Obj { v.snap.1 = h } else { v.deltas.last_mut().unwrap().2 = h }
            }
        }
        // our renderer completes relative names only: these are complete, or meant to be as they are
        let mut note = render_notif(&v.base, &v.session, v.serial, &v.snap, &v.deltas, "asc");
        if matches!(c.place, Place::Snap | Place::Delta) {
            let text = String::from_utf8(note).unwrap();
            let wrong = format!("uri=\"{}\"", abs_uri(&v.base, &uri));
            note = text.replacen(&wrong, &format!("uri=\"{}\"", xml(&uri)), 1).into_bytes();
        }
        v.files.insert(v.notif_name.clone(), std::sync::Arc::new(note));
        let _ = std::fs::remove_dir_all(w.abs("up/v99"));
        v.install(w, "v99");
        let mut outside = None;
        if let Some(p) = resolve("up/v99", &at, &w.root) {
            let full = w.abs(&p);
            if p.starts_with("up/v99/") { if let Some(d) = std::path::Path::new(&full).parent() { if std::fs::create_dir_all(d).is_ok() { let _ = std::fs::write(&full, &bytes); } } }
            else if p.starts_with("up/") && p.len() > 3 && !std::path::Path::new(&full).exists() { if let Some(d) = std::path::Path::new(&full).parent() { let _ = std::fs::create_dir_all(d); } let _ = std::fs::write(&full, &bytes); outside = Some(full); }
            else if p.starts_with("x") || p.starts_with("canary/") { w.write_file(&p, &bytes); }
        }
        st.img = std::sync::Arc::new(w.img.clone());
        let mut g = st.g.clone();
        let step = Step { ver: 99, cfg: cfgs[c.cfg], mode: Mode::Watch, ..Default::default() };
        let mut viols: Vec<Viol> = vec![];
        let home = [cfg.state.as_str(), cfg.rrdp.as_str(), cfg.rsync.as_str()];
        let inside = |p: &str| home.iter().any(|h| p == *h || p.starts_with(&format!("{h}/")));
        w.link_up(&cfg.link, "v99");
        let mut reads: Vec<String> = vec![];
        let mut writes: BTreeSet<String> = BTreeSet::new();
        let out = run_step_with(w, &s.u, &s.cfgs, &step, &mut g, RunOpts::default(), &mut |w, r| {
            for p in [&r.p1, &r.p2] {
                if p.is_empty() { continue; }
                let rel = match w.rel(p) { Some(x) => x.to_string(), None => continue };
                if r.op == Op::OpenR || (r.op == Op::Copy && *p == r.p2) { if !inside(&rel) && !rel.starts_with("up/v99/") && !rel.starts_with("up/cur/") { reads.push(rel); } }
                else if r.op.mutates() && !inside(&rel) { writes.insert(rel); }
            }
        });
        for mut y in out.viols {
            // (the tree with the additional object is judged below)
            if y.props == ["C16"] || (c.place == Place::Obj && y.msg.contains("is not one complete snapshot")) { continue; }
            y.props.push("C11");
            viols.push(y);
        }
        let mut add = |m: String| viols.push(Viol { props: vec!["C11"], msg: m });
        if let Some(p) = writes.first() { add(format!("{p}, outside of the configured directories, was changed")); }
        if let Some(p) = reads.first() { add(format!("{p}, outside of the source directory, was read")); }
        if out.exit.signal.is_some() || out.exit.code == Some(101) { add(format!("crashed: {}", out.exit.text())); }
        for (k, e) in st.img.iter() { if !inside(k) && w.img.get(k) != Some(e) { add(format!("{k} was changed")); break; } }
        for k in w.img.keys() { if !inside(k) && !st.img.contains_key(k) { add(format!("{k} was created")); break; } }
        let kind;
        let path = vec![format!("published before: {}", ["nothing", "A1"][c.prior]), format!("config {}", cfg.name), format!("upstream A2 with {:?} URI {}", c.place, c.uri.chars().take(200).collect::<String>())];
        if out.exit.ok() {
            kind = "accepted";
            if c.must_fail { add("upstream data leads elsewhere, but was accepted".into()); }
            // only what belongs there
            let refs: BTreeSet<String> = g.rrdp.get(&(cfg.rrdp.clone(), cfg.notif_name().to_string())).map(|r| r.refs.keys().cloned().collect()).unwrap_or_default();
            for (k, e) in under(&w.img, &cfg.rrdp) {
                if matches!(e, Ent::Dir | Ent::Shut(_)) || k == cfg.notif_name() || refs.contains(k) || st.img.contains_key(&format!("{}/{k}", cfg.rrdp)) { continue; }
                add(format!("{k} in the RRDP directory is not referenced"));
            }
            let cur = g.rsync.get(&cfg.rsync).and_then(|r| r.target.clone());
            if c.place == Place::Obj && cfg.rsync_on {
                let (tree, mut extra) = (&s.u.trees[a2][cfg.host as usize], 0);
                let cd = format!("{}/{}", cfg.rsync, cur.as_deref().unwrap_or("?"));
                for (k, e) in under(&w.img, &cd) {
                    let f = match e { Ent::Dir | Ent::Shut(_) => continue, Ent::File(f) => f, Ent::Link(_) => { add(format!("{k} in the rsync tree is a link")); continue; } };
                    match tree.get(k) { Some((b, _)) if f.bytes == **b => {} _ => { extra += 1; if f.bytes != b"hostile" { add(format!("{k} in the rsync tree has content which is not upstream")); } } }
                }
                if extra != 1 { add(format!("one object is in {extra} places")); }
                for k in tree.keys() { if !w.img.contains_key(&format!("{cd}/{k}")) { add(format!("{k} is missing in the rsync tree")); } }
            }
            for (k, e) in under(&w.img, &cfg.rsync) {
                let top = k.split('/').next().unwrap();
                if k == "current" || cur.as_deref() == Some(top) { continue; }
                if st.img.get(&format!("{}/{k}", cfg.rsync)) != Some(e) { add(format!("{k} in the rsync directory, which is not of this version, was changed")); break; }
            }
        } else {
            kind = "refused";
            if out.exit.err.trim().is_empty() { add("failed without a message".into()); }
            if seen(&g, cfg) != seen(&st.g, cfg) || image_diff(&part(&st.img, &[&cfg.rrdp]), &part(&w.img, &[&cfg.rrdp])).iter().any(|m| !m.starts_with("added")) { add(format!("the run failed, but published data changed ({})", out.exit.text())); }
        }
        if let Some(f) = outside { let _ = std::fs::remove_file(f); }
        // upstream is correct again, and later everything else has expired
        let (mut bounds, mut nops) = (out.bounds, out.nops);
        for (ver, adv) in [(a4, 0), (b1, cfg.cleanup + 1)] {
            let prev = g.notif(cfg);
            let mut writes: BTreeSet<String> = BTreeSet::new();
            let out2 = run_step_with(w, &s.u, &s.cfgs, &Step { ver, adv, cfg: cfgs[c.cfg], mode: Mode::Watch, ..Default::default() }, &mut g, RunOpts::default(), &mut |w, r| {
                for p in [&r.p1, &r.p2] { if let Some(rel) = w.rel(p) { if !p.is_empty() && r.op.mutates() && !inside(rel) { writes.insert(rel.to_string()); } } }
            });
            for mut y in out2.viols { if y.props != ["C16"] { y.props.push("C11"); viols.push(y); } }
            let mut add = |m: String| viols.push(Viol { props: vec!["C11"], msg: m });
            if let Some(p) = writes.first() { add(format!("{p}, outside of the configured directories, was changed by a later run")); }
            for (k, e) in st.img.iter() { if !inside(k) && w.img.get(k) != Some(e) { add(format!("{k} was changed by a later run")); break; } }
            if !out2.exit.ok() { add(format!("a later run with correct data failed: {}", out2.exit.text())); }
            else {
                let mut y = vec![];
                check_synced(&w.img, &g, cfg, &s.u, ver, prev.as_deref(), &mut y, &[]);
                for z in y { if z.props != ["C16"] { add(format!("after a later run with correct data: {}", z.msg)); } }
            }
            bounds += out2.bounds;
            nops += out2.nops;
        }
        {
            let mut z = cx.st.lock().unwrap();
            let mut b = image_hash(&w.img).to_vec();
            b.extend(g.key());
            b.extend(c.id.bytes());
            z.states.insert(sha(&b));
            z.transitions += 3;
            z.compared += 3;
            z.cases += 1;
            z.instants += bounds;
            z.ops += nops;
            *z.outcomes.entry(format!("uris: {kind}")).or_default() += 1;
            if z.samples.len() < 8 && c.id.len() % 5 == 3 { z.samples.push(format!("{} => {kind}", path.join(" ; "))); }
        }
        for y in &viols { cx.report(y, path.clone(), json!({"campaign": "uris", "case": c.id})); }
    });
    cx.campaign("uris", json!({"names_used_for_a_while": brief.iter().collect::<Vec<_>>(), "cases": n, "published_before": ["nothing", "A1"], "configs": cfgs.iter().map(|c| s.cfgs[*c].name.clone()).collect::<Vec<_>>(), "places": ["snapshot URI", "delta URI", "object in snapshot", "object in delta", "withdrawn object"]}));
}
