//! Pre-validation scripts (C15): every short sequence of script outcomes.
use crate::corrupt::{write_up, Alt};
use crate::cx::*;
use crate::engine::*;
use crate::hist::*;
use crate::setups::*;
use crate::up::*;
use crate::world::*;
use serde_json::json;
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Res { Good, Bad, NoStart }
/// name, what it does, result
const KINDS: &[(&str, &str, Res)] = &[
    ("ok", "exit 0", Res::Good),
    ("fail1", "exit 1", Res::Bad),
    ("killed", "kill -9 $$", Res::Bad),
    ("missing", "", Res::NoStart),
    ("fail255", "echo something on stderr >&2; exit 255", Res::Bad),
    ("ok-loud", "i=0; while [ $i -lt 3000 ]; do echo \"line $i ...................................................\"; echo \"err $i ...................................................\" >&2; i=$((i+1)); done; exit 0", Res::Good),
    ("fail-loud", "head -c 200000 /dev/zero; head -c 200000 /dev/zero >&2; printf '\\377\\376'; printf '\\377' >&2; exit 3", Res::Bad),
    ("ok-stderr", "echo only a warning >&2; exit 0", Res::Good),
    ("ok-slow", "sleep 0.04; exit 0", Res::Good),
    ("fail-slow", "sleep 0.04; exit 2", Res::Bad),
    ("ok-stdin", "cat > /dev/null; exit 0", Res::Good),
    ("term", "kill -15 $$", Res::Bad),
    ("not-executable", "exit 0", Res::NoStart),
    ("no-interpreter", "", Res::NoStart),
    ("directory", "", Res::NoStart),
];
fn install(w: &World) {
    use std::os::unix::fs::PermissionsExt;
    let top = w.abs("up/scripts");
    if std::path::Path::new(&top).exists() { return; }
    std::fs::create_dir_all(&top).unwrap();
    for pos in 0..4 {
        for (k, body, _) in KINDS {
            let p = format!("{top}/{pos}-{k}");
            match *k { "missing" => continue, "directory" => { std::fs::create_dir_all(&p).unwrap(); continue; } _ => {} }
            let r = &w.root;
            let int = if *k == "no-interpreter" { "/nonexistent/sh" } else { "/bin/sh" };
            // what the script finds is copied, and its begin and end noted
            let text = format!("#!{int}\nn=0\nwhile ! mkdir {r}/up/log/$n 2>/dev/null; do n=$((n+1)); done\necho {pos}-{k} > {r}/up/log/$n/name\nls {r}/up/log/*/name | while read x; do [ -e \"${{x%name}}end\" ] || echo \"$x\"; done > {r}/up/log/$n/open\ncp -a {r}/state {r}/rrdp {r}/rsync {r}/up/log/$n/ 2>/dev/null\n{}\n",
                body.replace("exit ", &format!("touch {r}/up/log/$n/end; exit ")).replace("kill -", &format!("touch {r}/up/log/$n/end; kill -")));
            std::fs::write(&p, text).unwrap();
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(if *k == "not-executable" { 0o644 } else { 0o755 })).unwrap();
        }
    }
}
fn clear_log(w: &World) {
    let d = w.abs("up/log");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
}
/// files and links below a directory of the real disk
fn files(dir: &str) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    fn go(dir: &str, rel: &str, m: &mut BTreeMap<String, Vec<u8>>) {
        let rd = match std::fs::read_dir(dir) { Ok(r) => r, Err(_) => return };
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            let (p, r) = (format!("{dir}/{n}"), if rel.is_empty() { n.clone() } else { format!("{rel}/{n}") });
            let t = e.file_type().unwrap();
            if t.is_symlink() { m.insert(r, format!("-> {}", std::fs::read_link(&p).unwrap().display()).into_bytes()); }
            else if t.is_dir() { go(&p, &r, m); }
            else { m.insert(r, std::fs::read(&p).unwrap_or_default()); }
        }
    }
    go(dir, "", &mut m);
    m
}
fn image_files(i: &Image, dir: &str) -> BTreeMap<String, Vec<u8>> {
    under(i, dir).filter_map(|(k, e)| match e { Ent::Dir | Ent::Shut(_) => None, Ent::File(f) => Some((k.to_string(), f.bytes.clone())), Ent::Link(t) => Some((k.to_string(), format!("-> {t}").into_bytes())) }).collect()
}
/// one run; returns violations
#[allow(clippy::too_many_arguments)]
fn judge(cx: &Cx, w: &mut World, s: &Setup, cfg: &Cfg, ver: usize, dir: Option<usize>, g: &mut Ghost, kinds: &[usize], v: &mut Vec<Viol>) -> String {
    let before = w.img.clone();
    let held = g.published(cfg);
    let prev = g.notif(cfg);
    clear_log(w);
    let cfgs = [cfg.clone()];
    let step = Step { ver: dir.unwrap_or(ver), cfg: 0, mode: Mode::Watch, ..Default::default() };
    let out = run_step(w, &s.u, &cfgs, &step, g, RunOpts::default());
    for mut y in out.viols { if y.props != ["C16"] { y.props.push("C15"); v.push(y); } }
    let mut add = |m: String| v.push(Viol { props: vec!["C15"], msg: m });
    if out.exit.signal.is_some() || out.exit.code == Some(101) { add(format!("crashed: {}", out.exit.text())); }
    let log: Vec<String> = (0..).map_while(|i| std::fs::read_to_string(w.abs(&format!("up/log/{i}/name"))).ok()).map(|x| x.trim().to_string()).collect();
    let up = &s.u.vers[ver];
    let new = dir.is_none() && !matches!(&held, Some((a, b)) if *a == up.session && *b == up.serial);
    let broken = dir.is_some();
    if !new {
        if !log.is_empty() { add(format!("no new version {}, but scripts ran: {log:?}", if broken { "could be staged" } else { "is there" })); }
    } else {
        let start = kinds.iter().position(|k| KINDS[*k].2 == Res::NoStart).unwrap_or(kinds.len());
        let names: Vec<String> = kinds.iter().enumerate().map(|(p, k)| format!("{p}-{}", KINDS[*k].0)).collect();
        let must = &names[..start];
        let fine = if start == kinds.len() { log == must } else {
            // after one that cannot be started, others may run or not
            let rest: Vec<&String> = names[start..].iter().zip(&kinds[start..]).filter(|x| KINDS[*x.1].2 != Res::NoStart).map(|x| x.0).collect();
            log.len() >= must.len() && log[..must.len()] == *must && (log.len() == must.len() || log[must.len()..].iter().collect::<Vec<_>>() == rest)
        };
        if !fine { add(format!("the scripts {names:?} should run once and in order, but these ran: {log:?}")); }
    }
    for i in 0..log.len() {
        let open = std::fs::read_to_string(w.abs(&format!("up/log/{i}/open"))).unwrap_or_default();
        if open.lines().any(|l| !l.ends_with(&format!("/{i}/name"))) { add(format!("script {} started while another one was running", log[i])); }
        if !std::path::Path::new(&w.abs(&format!("up/log/{i}/end"))).exists() { add(format!("krill-sync ended before script {} was done", log[i])); }
        for d in ["rrdp", "rsync"] {
            if files(&w.abs(&format!("up/log/{i}/{d}"))) != image_files(&before, d) { add(format!("the {d} directory was changed before script {} ran", log[i])); }
        }
        if new {
            let staged: std::collections::BTreeSet<Hash> = files(&w.abs(&format!("up/log/{i}/state"))).values().map(|b| sha(b)).collect();
            if !staged.contains(&up.snap.1) { add(format!("the snapshot was not staged when script {} ran", log[i])); }
            let keep = up.deltas.len().saturating_sub(cfg.max_deltas.unwrap_or(usize::MAX));
            for d in &up.deltas[keep..] {
                let have = matches!(&held, Some((a, b)) if *a == up.session && d.0 <= *b);
                if !have && !staged.contains(&d.2) { add(format!("delta {} was not staged when script {} ran", d.0, log[i])); }
            }
        }
    }
    let reject = new && (kinds.iter().any(|k| KINDS[*k].2 == Res::NoStart) || (cfg.reject && kinds.iter().any(|k| KINDS[*k].2 == Res::Bad)));
    let same = image_files(&before, "rrdp") == image_files(&w.img, "rrdp") && image_files(&before, "rsync") == image_files(&w.img, "rsync");
    let outcome;
    if broken || reject {
        outcome = if broken { "not staged" } else { "rejected" };
        if out.exit.ok() { add(format!("the version must be {outcome}, but the run was successful")); }
        if !same { add(format!("the version must be {outcome}, but published data changed")); }
        if out.exit.err.trim().is_empty() && !out.exit.ok() { add("rejected without a message".into()); }
    } else {
        outcome = if new { "published" } else { "no-op" };
        if !out.exit.ok() { add(format!("the version must be {outcome}, but the run failed: {}", out.exit.text())); }
        else if new {
            let mut y = vec![];
            check_synced(&w.img, g, cfg, &s.u, ver, prev.as_deref(), &mut y, &[]);
            if let Some(z) = y.first() { add(format!("the version must be published: {}", z.msg)); }
        } else if !same { add("published data changed without a new version".into()); }
    }
    let mut z = cx.st.lock().unwrap();
    let mut b = image_hash(&w.img).to_vec();
    b.extend(g.key());
    b.extend(log.join(",").bytes());
    z.states.insert(sha(&b));
    z.transitions += 1;
    z.compared += 1;
    z.instants += out.bounds;
    z.ops += out.nops;
    *z.outcomes.entry(format!("scripts: {outcome}")).or_default() += 1;
    format!("{outcome}{}", if log.is_empty() { String::new() } else { format!(" after {}", log.join(", ")) })
}

pub fn scripts(cx: &Cx) {
    let mut s = setup("basic");
    s.name = "scripts".into();
    let t = |v: &str| Step { ver: s.u.ix(v), cfg: 0, ..Default::default() };
    let mut w = cx.world();
    let priors: Vec<(&str, St)> = [("nothing", vec![]), ("A1", vec!["A1"]), ("B1", vec!["B1"])].into_iter().map(|(n, h)| (n, walk(cx, &mut w, &s, &St::init(&s), &h.iter().map(|v| t(v)).collect::<Vec<_>>(), "prefix"))).collect();
    cx.give(w);
    // sequences of script kinds
    let n = KINDS.len();
    let mut seqs: Vec<Vec<usize>> = vec![];
    for a in 0..n { seqs.push(vec![a]); for b in 0..n { if a < 4 || b < 4 || cx.thorough { seqs.push(vec![a, b]); } } }
    let m = if cx.thorough { 8 } else { 4 };
    for a in 0..m { for b in 0..m { for c in 0..m { seqs.push(vec![a, b, c]); } } }
    if cx.thorough { for x in 0..256usize { seqs.push(vec![x & 3, x >> 2 & 3, x >> 4 & 3, x >> 6]); } }
    let mut cases = vec![];
    for (si, sq) in seqs.iter().enumerate() {
        for reject in [false, true] {
            for pi in 0..priors.len() {
                if pi == 2 && !cx.thorough && sq.len() == 3 { continue; }
                cases.push((si, reject, pi, false));
                // upstream is not complete: nothing to validate
                if pi < 2 && (sq.len() == 1 || cx.thorough) { cases.push((si, reject, pi, true)); }
            }
        }
    }
    let total = cases.len();
    let (s, priors, seqs) = (&s, &priors, &seqs);
    cx.par(cases, |w, (si, reject, pi, broken)| {
        let kinds = &seqs[si];
        let names: Vec<&str> = kinds.iter().map(|k| KINDS[*k].0).collect();
        let id = format!("{}/{}/{}{}", priors[pi].0, names.join("+"), if reject { "reject" } else { "warn" }, if broken { "/delta missing" } else { "" });
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("script sequences"); return; }
        let (pn, st) = &priors[pi];
        enter(w, s, st);
        install(w);
        let mut g = st.g.clone();
        let a2 = s.u.ix("A2");
        let cfg = Cfg { reject, scripts: kinds.iter().enumerate().map(|(p, k)| format!("up/scripts/{p}-{}", KINDS[*k].0)).collect(), ..Cfg::default() }.n(&format!("scripts {}{}", names.join(", "), if reject { ", reject" } else { "" }));
        let mut v = vec![];
        let mut path = vec![format!("published before: {pn}"), cfg.name.clone()];
        if broken {
            let up = &s.u.vers[a2];
            write_up(w, "v99", &up.files, &[(up.deltas.last().unwrap().1.clone(), Alt::Gone)]);
            let o = judge(cx, w, s, &cfg, a2, Some(99), &mut g, kinds, &mut v);
            path.push(format!("A2 with a missing delta: {o}"));
        }
        let o = judge(cx, w, s, &cfg, a2, None, &mut g, kinds, &mut v);
        path.push(format!("A2: {o}"));
        // again: either still to be decided, or a no-op
        let o = judge(cx, w, s, &cfg, a2, None, &mut g, kinds, &mut v);
        path.push(format!("A2: {o}"));
        // with scripts that are content, then the next version with the ones under test
        let good = Cfg { scripts: vec!["up/scripts/3-ok".into()], ..cfg.clone() };
        clear_log(w);
        let out = run_step(w, &s.u, std::slice::from_ref(&good), &Step { ver: a2, mode: Mode::Watch, ..Default::default() }, &mut g, RunOpts::default());
        if !out.exit.ok() { v.push(Viol { props: vec!["C15"], msg: format!("the run with a successful script failed: {}", out.exit.text()) }); }
        let o = judge(cx, w, s, &cfg, s.u.ix("A4"), None, &mut g, kinds, &mut v);
        path.push(format!("then A2 with a script that accepts it, and A4: {o}"));
        { let mut z = cx.st.lock().unwrap(); z.cases += 1; if z.samples.len() < 6 && si % 11 == 7 { z.samples.push(path.join(" ; ")); } }
        for y in &v { cx.report(y, path.clone(), json!({"campaign": "scripts", "case": id})); }
    });
    cx.campaign("scripts", json!({"cases": total, "sequences": seqs.len(), "longest": seqs.iter().map(|q| q.len()).max(), "kinds": KINDS.iter().map(|k| k.0).collect::<Vec<_>>(), "published_before": priors.iter().map(|p| p.0).collect::<Vec<_>>()}));
}
