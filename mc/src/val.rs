//! Runs with TALs: trees with every single defect (C13), and what is needed by the other campaigns on validation.
use crate::cx::*;
use crate::engine::*;
use crate::hist::*;
use crate::http::online;
use crate::https::*;
use crate::pki::*;
use crate::pki::{Res, Tree};
use crate::proc::*;
use crate::up::*;
use crate::world::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const H: i64 = 3600;
/// where the repositories are: on other hosts, on the same one, below one another, ...
pub const LAYOUTS: [[&str; 3]; 6] = [
    ["pub.example/rrdp/", "other.example/rrdp/", "third.example/rrdp/"],
    ["pub.example/rrdp/", "pub.example/other/", "pub.example/rrdp2/"],
    ["pub.example/rrdp/", "pub.example/rrdp/sub/", "pub.example/"],
    ["pub.example/rrdp/", "other.example/rrdp/a/", "other.example/rrdp/b/"],
    ["pub.example/rrdp/", "pub.example:8443/rrdp/", "third.example:444/rrdp/"],
    ["pub.example/rrdp/", "pub.example.third.example/rrdp/", "pub.exampl/rrdp/"],
];
thread_local! { static LAYOUT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// for what this thread does from now on
pub fn set_layout(l: usize) { LAYOUT.with(|x| x.set(l)); }
pub fn repo_base(r: usize) -> &'static str { LAYOUTS[LAYOUT.with(|x| x.get())][r] }
/// the repository that a host and path belong to
pub fn repo_at(hp: &str) -> Option<usize> { (0..3).filter(|r| hp.starts_with(repo_base(*r))).max_by_key(|r| repo_base(*r).len()) }
pub fn notif_uri(r: usize) -> String { format!("https://{}{NOTIF}", repo_base(r)) }
pub const TAL: &str = "up/tal/ta.tal";

// ---- trees
pub fn v4(l: &[(u32, u8)]) -> Rs<(u32, u8)> { Rs::L(l.to_vec()) }
pub const fn ip(a: u8, b: u8, c: u8, d: u8) -> u32 { u32::from_be_bytes([a, b, c, d]) }
pub const V6: u128 = 0x2001_0db8 << 96;
pub fn ca(i: usize, key: usize, repo: Option<usize>, res: Res, t: i64) -> Ca {
    let mut m = Obj::new(&format!("ca{i}.mft"), Kind::Gbr, 9001, t - H, t + 300 * DAY);
    m.ee = 501;
    Ca { spell: 0, key, dir: format!("rsync://rsync{}.example/repo/ca{i}/", repo.unwrap_or(9)), repo, res, objs: vec![],
        crl: Crl { file: format!("ca{i}.crl"), number: 1, this: t - H, next: t + 200 * DAY, revoked: vec![77], by: None, of: None, alt: None, stored: None, missing: false, unlisted: false, bad_sig: false, tbs: None },
        mft: Mft { number: 1, this: t - H, next: t + 200 * DAY, obj: m, more: vec![], dup: false, alg: "2.16.840.1.101.3.4.2.1" } }
}
/// trust anchor, child and grandchild, each with one object of every kind
pub fn chain(repos: &[Option<usize>], t: i64) -> Tree {
    let n = repos.len();
    let (f, e) = (t - 10 * DAY, t + 300 * DAY);
    let mut cas = vec![];
    for (i, r) in repos.iter().enumerate() {
        let res = match i {
            0 => Res { v4: v4(&[(ip(10, 0, 0, 0), 8)]), v6: Rs::L(vec![(V6, 32)]), asn: Rs::L(vec![(64496, 64511), (65000, 65010)]) },
            1 => Res { v4: v4(&[(ip(10, 1, 0, 0), 16), (ip(10, 2, 0, 0), 16)]), v6: Rs::L(vec![(V6 | 1 << 80, 48)]), asn: Rs::L(vec![(64500, 64505)]) },
            _ => Res { v4: v4(&[(ip(10, 1, 4, 0), 22)]), v6: Rs::L(vec![(V6 | 1 << 80 | 1 << 64, 64)]), asn: Rs::L(vec![(64500, 64503)]) },
        };
        let mut c = ca(i, i, *r, res, t);
        let p6 = match i { 0 => (V6, 32), 1 => (V6 | 1 << 80, 48), _ => (V6 | 1 << 80 | 1 << 64, 64) };
        c.objs.push(Obj::new("a.roa", Kind::Roa { asn: 64496, v4: vec![(ip(10, 1, 4, 0), 24, None), (ip(10, 1, 5, 0), 24, Some(26))], v6: vec![] }, 101, f, e));
        c.objs.push(Obj::new("b.roa", Kind::Roa { asn: 0, v4: vec![], v6: vec![(p6.0, p6.1, Some(p6.1 + 8))] }, 102, f, e));
        c.objs.push(Obj { ee: 502, ..Obj::new("c.asa", Kind::Aspa { customer: 64501, providers: vec![64496, 64497] }, 103, f, e) });
        c.objs.push(Obj::new("r.cer", Kind::Router { asn: vec![(64500, 64501)] }, 104, f, e));
        c.objs.push(Obj::new("g.gbr", Kind::Gbr, 105, f, e));
        if i + 1 < n { c.objs.push(Obj::new("child.cer", Kind::Ca { to: i + 1 }, 106, f, e)); }
        cas.push(c);
    }
    Tree { cas, notif: (0..3).map(notif_uri).collect(), ta_from: t - 1000 * DAY, ta_to: t + 1000 * DAY, ta_uri: "https://ta.example/ta.cer".into(), ta_tbs: None }
}

// ---- what is published and served
#[derive(Clone)]
pub struct Scene { pub u: Arc<Universe>, pub srv: Vec<BTreeMap<String, Bytes>>, pub tal: Vec<u8> }
/// the trees one after the other; sources, other repositories and TA certificate for each
pub fn scene(name: &str, trees: &[Tree]) -> Scene {
    let b: Vec<Built> = trees.iter().map(|t| t.build()).collect();
    scene_of(name, &b)
}
pub fn scene_of(name: &str, b: &[Built]) -> Scene {
    let nr = b[0].repos.len();
    let sess = [SA, SB, SC];
    let mut repos: Vec<Repo> = (0..nr).map(|r| { let mut p = Repo::new(sess[r], 1, Style::Krill, b[0].repos[r].clone()); p.base = format!("https://{}", repo_base(r)); p }).collect();
    let (mut vers, mut srv) = (vec![], vec![]);
    for (i, x) in b.iter().enumerate() {
        if i > 0 { for r in 0..nr { if r == 0 || repos[r].objs != x.repos[r] { repos[r].step(x.repos[r].clone()); } } }
        let mut v = repos[0].ver(&format!("V{}", i + 1), 5);
        v.mtimes = x.mtimes[0].clone();
        vers.push(v);
        let mut files: BTreeMap<String, Bytes> = BTreeMap::new();
        files.insert("ta.example/ta.cer".into(), Arc::new(x.ta.clone()));
        for r in 1..nr { for (p, f) in repos[r].ver("o", 5).files { files.insert(format!("{}{p}", repo_base(r)), f); } }
        srv.push(files);
    }
    Scene { u: Universe::new(name, vers), srv, tal: b[0].tal.clone() }
}
pub fn val_cfg(reject: bool) -> Cfg { Cfg { tals: vec![TAL.into()], reject, ..Cfg::default() }.n(if reject { "reject" } else { "warn" }) }

pub struct VOut { pub exit: Exit, pub issues: Option<usize>, pub published: bool, pub hits: Vec<Hit>, pub steps: u64 }
/// one run with version `ver`; `tag`: property that is being checked
#[allow(clippy::too_many_arguments)]
pub fn vrun(cx: &Cx, w: &mut World, sc: &Scene, cfg: &Cfg, ver: usize, plan: Plan, g: &mut Ghost, tag: &'static str, v: &mut Vec<Viol>) -> VOut {
    let srv = online(cx, w);
    srv.set(plan);
    let before = w.img.clone();
    let gb = g.clone();
    let mut net: BTreeSet<String> = BTreeSet::new();
    std::fs::create_dir_all(w.abs("up/tal")).unwrap();
    std::fs::write(w.abs(TAL), &sc.tal).unwrap();
    let cfgs = [cfg.clone()];
    let out = run_step_with(w, &sc.u, &cfgs, &Step { ver, mode: Mode::Watch, ..Default::default() }, g, RunOpts::default(), &mut |_, r| {
        if r.op == Op::Resolve { net.insert(r.p1.clone()); }
        if r.op == Op::Connect && r.a == 0 { net.insert(r.p1.clone()); }
    });
    let hits = srv.log();
    for mut y in out.viols { if y.props != ["C16"] { y.props.push(tag); } v.push(y); }
    let mut add = |t: &'static str, m: String| v.push(Viol { props: vec![t], msg: m });
    if out.exit.signal.is_some() || out.exit.code == Some(101) || out.exit.hung { add("*", format!("crashed: {}", out.exit.text())); }
    // network
    let src = if cfg.source == Source::Cur { None } else { Some(crate::http::base_of(cfg).split('/').next().unwrap().to_string()) };
    net.retain(|h| Some(h) != src.as_ref());
    for h in &net { if cfg.offline && h != "ta.example" { add("C22", format!("offline validation, but {h} was looked up")); } if h != "ta.example" && !(1..3).any(|r| repo_base(r).split(['/', ':']).next() == Some(h)) { add("C22", format!("{h} was looked up")); } }
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    for h in &hits { if h.host != "ta.example" { *count.entry(h.url()).or_default() += 1; } }
    for (u, n) in &count { if *n > 1 { add("C22", format!("{u} was requested {n} times in one run")); } }
    if cfg.offline { for h in &hits { if h.host != "ta.example" && (Some(&h.host) != src.as_ref() || repo_at(&format!("{}{}", h.host, h.target)) != Some(0)) { add("C22", format!("offline validation, but {} was requested", h.url())); } } }
    // the report
    let text = format!("{}\n{}", out.exit.out, out.exit.err);
    let issues = text.lines().find_map(|l| { let p = l.find(&format!("{}: ", cfg.uri))?; let r = &l[p + cfg.uri.len() + 2..]; let (n, t) = r.split_once(' ')?; if t.starts_with("issues") { n.parse().ok() } else { None } });
    // without issues there is nothing to be said at the default log level
    let issues = issues.or(if out.exit.ok() && !text.contains("was not seen") { Some(0) } else { None });
    let up = &sc.u.vers[ver];
    let was = gb.published(cfg) == Some((up.session.clone(), up.serial));
    let published = g.published(cfg) == Some((up.session.clone(), up.serial));
    if out.exit.ok() {
        if !was {
            let mut y = vec![];
            check_synced(&w.img, g, cfg, &sc.u, ver, gb.notif(cfg).as_deref(), &mut y, &[]);
            for z in y { if z.props == ["C16"] { v.push(z); } else { v.push(Viol { props: vec![tag], msg: format!("the run was successful, but: {}", z.msg) }); } }
        }
    } else {
        let d = image_diff(&part(&before, &[&cfg.rrdp, &cfg.rsync]), &part(&w.img, &[&cfg.rrdp, &cfg.rsync]));
        if !d.is_empty() { add(tag, format!("the run failed, but published data changed: {:?}", &d[..d.len().min(4)])); }
        if out.exit.err.trim().is_empty() && out.exit.out.trim().is_empty() && out.exit.code.is_some() { add(tag, "failed without a message".into()); }
    }
    {
        let mut z = cx.st.lock().unwrap();
        let mut b = image_hash(&part(&w.img, &[&cfg.rrdp, &cfg.rsync])).to_vec();
        b.extend(g.key());
        b.extend(text.lines().filter(|l| !l.contains(" ms")).collect::<BTreeSet<_>>().into_iter().collect::<String>().replace(&w.root, "").bytes());
        z.states.insert(sha(&b));
        z.transitions += 1;
        z.compared += 1;
        z.instants += out.bounds;
        z.ops += out.nops;
    }
    VOut { exit: out.exit, issues, published, hits, steps: out.nops }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Want {
    /// issues for the source repository; None: either way
    pub issues: Option<bool>,
    /// part of the tree? None: either way
    pub seen: Option<bool>,
    /// URI that has to be mentioned
    pub about: Option<String> }
/// does the outcome fit?
pub fn judge(o: &VOut, cfg: &Cfg, want: &Want, tag: &'static str, v: &mut Vec<Viol>) -> String {
    let mut add = |m: String| v.push(Viol { props: vec![tag], msg: m });
    let text = format!("{}\n{}", o.exit.out, o.exit.err);
    let wseen = want.seen.unwrap_or(o.issues.is_some());
    if wseen {
        match (o.issues, want.issues) {
            (None, _) => add(format!("no report on the source repository ({})", o.exit.text())),
            (Some(0), Some(true)) => add(format!("issue not found{}", want.about.as_ref().map(|a| format!(": {a}")).unwrap_or_default())),
            (Some(n), Some(false)) if n > 0 => add(format!("{n} issues reported for a correct tree: {}", clip(&text.lines().filter(|l| l.contains(" : ")).collect::<Vec<_>>().join(" "), 300))),
            _ => {}
        }
        if want.issues == Some(true) { if let Some(a) = &want.about { if o.issues.unwrap_or(0) > 0 && !text.contains(a.as_str()) { add(format!("the issue does not mention {a}")); } } }
    } else if o.issues.is_some() { add("the source repository is not part of the tree, but there is a report on it".into()); }
    let bad = match want.issues { Some(b) => Some(b || !wseen), None => if wseen { o.issues.map(|n| n > 0) } else { Some(true) } };
    if cfg.reject {
        match bad {
            Some(true) => if o.exit.ok() || o.published { add("the version has issues (or was not seen) and must be rejected, but it was published".into()); },
            Some(false) => if !o.exit.ok() { add(format!("the version is correct, but the run failed: {}", o.exit.text())); },
            None => {}
        }
    } else if !o.exit.ok() { add(format!("issues are only to be warned about, but the run failed: {}", o.exit.text())); }
    format!("{} issues, {}", o.issues.map(|n| n.to_string()).unwrap_or("?".into()), if o.published { "published" } else { "not published" })
}

// ---- C13: single defects
pub type Edit = Arc<dyn Fn(&mut Tree, usize, i64) + Send + Sync>;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cut { No, Below }
#[derive(Clone)]
pub struct Defect { pub name: String, /** Some(true): invalid; Some(false): fine; None: either way */ pub bad: Option<bool>, pub cut: Cut, pub about: Option<&'static str>, pub edit: Edit, /** needs a child */ child: bool }

fn obj<'a>(t: &'a mut Tree, c: usize, f: &str) -> &'a mut Obj { t.cas[c].objs.iter_mut().find(|o| o.file == f).unwrap() }
fn mid(t: &Tree, c: usize, f: &str, part: usize, num: usize) -> usize {
    let b = t.build();
    let r = b.signed[&format!("{}{f}", t.cas[c].dir)][part];
    r.0 + (r.1 - r.0) * num / 8
}
const SPELLED: &str = "URIs spelled";
pub fn defects(thorough: bool) -> Vec<Defect> {
    let mut l: Vec<Defect> = vec![];
    // every kind of object
    for f in ["a.roa", "b.roa", "c.asa", "r.cer", "child.cer", "g.gbr"] {
        let signed = f.ends_with("roa") || f.ends_with("asa");
        let cer = f.ends_with("cer");
        let gbr = f == "g.gbr";
        let child = f == "child.cer";
        let cut = if child { Cut::Below } else { Cut::No };
        let mut o = |n: &str, bad: Option<bool>, cut: Cut, e: Edit| l.push(Defect { name: format!("{f} {n}"), bad, cut, about: Some(f), edit: e, child });
        let y = Some(true);
        o("missing", y, cut, Arc::new(move |t, c, _| obj(t, c, f).missing = true));
        o("replaced by another", y, cut, Arc::new(move |t, c, _| { let other = t.build(); let b = other.repos.iter().find_map(|r| r.get(&format!("{}{}", t.cas[c].dir, if f == "a.roa" { "b.roa" } else { "a.roa" }))).unwrap().to_vec(); obj(t, c, f).stored = Some(Alt::Data(b)); }));
        o("replaced by an older version of it", y, cut, Arc::new(move |t, c, _| { let x = { let mut t2 = t.clone(); obj(&mut t2, c, f).serial += 50; t2.build() }; let b = x.repos.iter().find_map(|r| r.get(&format!("{}{f}", t.cas[c].dir))).unwrap().to_vec(); obj(t, c, f).stored = Some(Alt::Data(b)); }));
        for (n, a) in [("empty", Alt::Empty), ("cut", Alt::Cut(300)), ("with a byte added", Alt::Append(vec![0])), ("flipped", Alt::Flip(200)), ("garbage", Alt::Data(b"garbage".to_vec()))] {
            let a1 = a.clone();
            o(&format!("{n}, with hash of the original"), y, cut, Arc::new(move |t, c, _| obj(t, c, f).stored = Some(a1.clone())));
            if n == "flipped" { continue; }
            // ghostbuster records are not looked into
            let b = if gbr { Some(false) } else if n == "with a byte added" { None } else { y };
            o(&format!("{n}, with its own hash"), b, if b.is_none() { Cut::No } else { cut }, Arc::new(move |t, c, _| obj(t, c, f).alt = Some(a.clone())));
        }
        if gbr { continue; }
        let parts = if signed { 4 } else { 2 };
        for p in 0..parts { for k in if thorough { vec![0, 1, 2, 3, 4, 5, 6, 7] } else { vec![3] } {
            o(&format!("flipped at {k}/8 of signed part {p}, with its own hash"), y, cut, Arc::new(move |t, c, _| { let i = mid(t, c, f, p, k); obj(t, c, f).alt = Some(Alt::Flip(i)); }));
        } }
        o("signed by another key", y, cut, Arc::new(move |t, c, _| obj(t, c, f).by = Some(400)));
        o("signed by the key of another CA", y, cut, Arc::new(move |t, c, _| { let k = (c + 1) % t.cas.len(); obj(t, c, f).by = Some(t.cas[k].key); }));
        o("issued by another CA", y, cut, Arc::new(move |t, c, _| { let k = (c + 1) % t.cas.len(); obj(t, c, f).of = Some(k); }));
        o("with bad certificate signature", y, cut, Arc::new(move |t, c, _| obj(t, c, f).bad_cert_sig = true));
        o("revoked", y, cut, Arc::new(move |t, c, _| { let s = obj(t, c, f).serial; t.cas[c].crl.revoked.push(s); }));
        o("revoked, first of several", y, cut, Arc::new(move |t, c, _| { let s = obj(t, c, f).serial; t.cas[c].crl.revoked = vec![s, 5, 6, 7]; }));
        o("not revoked, but others are", Some(false), Cut::No, Arc::new(move |t, c, _| { let s = obj(t, c, f).serial; t.cas[c].crl.revoked = vec![s + 1000, s * 256, 1 << 40 | s]; }));
        o("with large serial number", Some(false), Cut::No, Arc::new(move |t, c, _| obj(t, c, f).serial = u64::MAX));
        o("with large serial number, revoked", y, cut, Arc::new(move |t, c, _| { obj(t, c, f).serial = u64::MAX; t.cas[c].crl.revoked.push(u64::MAX); }));
        for (n, a) in [("an hour ago", -H), ("a minute ago", -60), ("10 days ago", -9 * DAY)] { o(&format!("expired {n}"), y, cut, Arc::new(move |t, c, now| obj(t, c, f).to = now + a)); }
        for (n, a) in [("an hour", H), ("a minute", 60), ("a day", DAY)] { o(&format!("valid only in {n}"), y, cut, Arc::new(move |t, c, now| obj(t, c, f).from = now + a)); }
        o("expiring in a minute", Some(false), Cut::No, Arc::new(move |t, c, now| obj(t, c, f).to = now + 60));
        o("valid since a minute ago", Some(false), Cut::No, Arc::new(move |t, c, now| { let o = obj(t, c, f); o.from = now - 60; o.signing = Some(now - 50); }));
        o("valid until after 2050", Some(false), Cut::No, Arc::new(move |t, c, _| obj(t, c, f).to = 2_900_000_000));
        for s in ["ski", "aki", "ku", "crldp"] { o(&format!("without {s}"), y, cut, Arc::new(move |t, c, _| obj(t, c, f).skip = vec![s])); }
        o("without certificate policy", None, Cut::No, Arc::new(move |t, c, _| obj(t, c, f).skip = vec!["cp"]));
        o("without AIA", None, Cut::No, Arc::new(move |t, c, _| obj(t, c, f).skip = vec!["aia"]));
        o("with wrong SKI", y, cut, Arc::new(move |t, c, _| obj(t, c, f).bad_ski = true));
        o("with wrong key usage", y, cut, Arc::new(move |t, c, _| obj(t, c, f).ku = Some(if child { Use::Ee } else { Use::Ca })));
        o("with CRL elsewhere", None, Cut::No, Arc::new(move |t, c, _| obj(t, c, f).crl_uri = Some("rsync://rsync0.example/repo/else.crl".into())));
        o("unlisted", Some(false), Cut::No, Arc::new(move |t, c, _| { if child { return; } obj(t, c, f).unlisted = true; }));
        o("unlisted and invalid", Some(false), Cut::No, Arc::new(move |t, c, _| { if child { return; } let x = obj(t, c, f); x.unlisted = true; x.bad_cert_sig = true; x.stored = Some(Alt::Cut(99)); }));
        // resources
        if !f.ends_with("asa") && f != "r.cer" {
            let fam: &[(&str, Res)] = &[
                ("IPv4 of nobody", Res { v4: v4(&[(ip(11, 0, 0, 0), 8)]), ..Res::none() }), ("one more IPv4", Res { v4: v4(&[(ip(10, 1, 4, 0), 23), (ip(11, 1, 4, 0), 24)]), v6: Rs::Inherit, asn: Rs::No }),
                ("the IPv4 superset", Res { v4: v4(&[(0, 0)]), ..Res::none() }), ("IPv4 range one bit larger", Res { v4: v4(&[(ip(10, 0, 0, 0), 7)]), ..Res::none() }),
                ("IPv6 of nobody", Res { v6: Rs::L(vec![(V6 | 1 << 96, 32)]), ..Res::none() }), ("IPv6 superset", Res { v6: Rs::L(vec![(0, 0)]), ..Res::none() })];
            for (n, r) in fam {
                let r = r.clone();
                // the ROAs have to be covered by it as well, so that it is the only defect
                o(&format!("claiming {n}"), y, cut, Arc::new(move |t, c, _| { let x = obj(t, c, f); let mut r = r.clone(); if let Kind::Roa { v4: a, v6: b, .. } = &mut x.kind { if let Rs::L(z) = &r.v4 { *a = z.iter().map(|q| (q.0, q.1, None)).collect(); } else { a.clear(); } if let Rs::L(z) = &r.v6 { *b = z.iter().map(|q| (q.0, q.1, None)).collect(); } else { b.clear(); } r.asn = Rs::No; if r.v6 == Rs::Inherit { r.v6 = Rs::No; } } x.res = Some(r); }));
            }
        }
        if !f.ends_with("roa") {
            for (n, a) in [("of nobody", vec![(65535, 65535)]), ("one too many", vec![(64500, 64512)]), ("all", vec![(0, u32::MAX)]), ("one before", vec![(64495, 64496)])] {
                o(&format!("claiming AS numbers {n}"), y, cut, Arc::new(move |t, c, _| { let x = obj(t, c, f); x.res = Some(Res { asn: Rs::L(a.clone()), ..Res::none() }); if let Kind::Aspa { customer, .. } = &mut x.kind { *customer = a[0].0; } }));
            }
        }
        if cer { continue; }
        o("with bad signature", y, cut, Arc::new(move |t, c, _| obj(t, c, f).bad_sig = true));
        o("with bad digest", y, cut, Arc::new(move |t, c, _| obj(t, c, f).bad_digest = true));
        o("signed by other EE key", y, cut, Arc::new(move |t, c, _| obj(t, c, f).wrong_key = Some(450)));
        o("signed by the CA key", y, cut, Arc::new(move |t, c, _| { let k = t.cas[c].key; obj(t, c, f).wrong_key = Some(k); }));
        o("with wrong content type attribute", y, cut, Arc::new(move |t, c, _| obj(t, c, f).wrong_ct = true));
        o("with wrong signer identifier", y, cut, Arc::new(move |t, c, _| obj(t, c, f).wrong_sid = true));
        o("without signing time", Some(false), cut, Arc::new(move |t, c, _| obj(t, c, f).signing = None));
        o("without SIA", y, cut, Arc::new(move |t, c, _| obj(t, c, f).skip = vec!["sia11"]));
        for e in ["cer", "asa", "roa", "crl", "mft", "txt", "ROA", "roa.bak"] { if f.ends_with(e) { continue; }
            l.push(Defect { name: format!("{f} as .{e}"), bad: y, cut, about: Some("x."), edit: Arc::new(move |t, c, _| obj(t, c, f).file = format!("{f}x.{e}")), child });
        }
        let mut o = |n: &str, bad: Option<bool>, cut: Cut, e: Edit| l.push(Defect { name: format!("{f} {n}"), bad, cut, about: Some(f), edit: e, child });
        o("as no extension", y, cut, Arc::new(move |t, c, _| obj(t, c, f).file = "plain".into()));
        l.last_mut().unwrap().about = Some("plain");
    }
    let y = Some(true);
    macro_rules! o { ($n:expr, $bad:expr, $cut:expr, $about:expr, $e:expr) => { l.push(Defect { name: $n.to_string(), bad: $bad, cut: $cut, about: $about, edit: Arc::new($e), child: false }) } }
    // ROA payload
    o!("ROA payload not in its certificate", y, Cut::No, Some("a.roa"), |t: &mut Tree, c, _| obj(t, c, "a.roa").res = Some(Res { v4: v4(&[(ip(10, 1, 4, 0), 24)]), ..Res::none() }));
    o!("ROA IPv6 payload not in its certificate", y, Cut::No, Some("b.roa"), |t: &mut Tree, c, _| obj(t, c, "b.roa").res = Some(Res { v4: v4(&[(ip(10, 1, 4, 0), 24)]), ..Res::none() }));
    o!("ROA prefix larger than in its certificate", y, Cut::No, Some("a.roa"), |t: &mut Tree, c, _| obj(t, c, "a.roa").res = Some(Res { v4: v4(&[(ip(10, 1, 4, 0), 25), (ip(10, 1, 5, 0), 24)]), ..Res::none() }));
    o!("ROA with inherited resources", Some(false), Cut::No, None, |t: &mut Tree, c, _| obj(t, c, "b.roa").res = Some(Res { v6: Rs::Inherit, ..Res::none() }));
    o!("ROA max length too small", y, Cut::No, Some("a.roa"), |t: &mut Tree, c, _| obj(t, c, "a.roa").kind = Kind::Roa { asn: 1, v4: vec![(ip(10, 1, 4, 0), 24, Some(23))], v6: vec![] });
    o!("ROA max length too large", y, Cut::No, Some("a.roa"), |t: &mut Tree, c, _| obj(t, c, "a.roa").kind = Kind::Roa { asn: 1, v4: vec![(ip(10, 1, 4, 0), 24, Some(33))], v6: vec![] });
    o!("ROA without prefixes", None, Cut::No, None, |t: &mut Tree, c, _| obj(t, c, "a.roa").kind = Kind::Roa { asn: 1, v4: vec![], v6: vec![] });
    o!("ROA with many prefixes", Some(false), Cut::No, None, |t: &mut Tree, c, _| obj(t, c, "a.roa").kind = Kind::Roa { asn: u32::MAX, v4: (0..200).map(|i| (ip(10, 1, 4, i), 32, None)).collect(), v6: vec![] });
    o!("ASPA content as ROA", y, Cut::No, Some("a.roa"), |t: &mut Tree, c, _| { let k = obj(t, c, "c.asa").kind.clone(); let x = obj(t, c, "a.roa"); x.kind = k; });
    o!("garbage as content of a ROA", y, Cut::No, Some("a.roa"), |t: &mut Tree, c, _| { let x = obj(t, c, "a.roa"); x.kind = Kind::Signed { ct: "1.2.840.113549.1.9.16.1.24", content: b"0123456789".to_vec() }; });
    // ASPA
    o!("ASPA with its customer as provider", None, Cut::No, None, |t: &mut Tree, c, _| obj(t, c, "c.asa").kind = Kind::Aspa { customer: 64501, providers: vec![64496, 64501] });
    o!("ASPA without providers", None, Cut::No, None, |t: &mut Tree, c, _| obj(t, c, "c.asa").kind = Kind::Aspa { customer: 64501, providers: vec![] });
    o!("ASPA with unsorted providers", y, Cut::No, Some("c.asa"), |t: &mut Tree, c, _| obj(t, c, "c.asa").kind = Kind::Aspa { customer: 64501, providers: vec![5, 4] });
    o!("ASPA with IP resources", y, Cut::No, Some("c.asa"), |t: &mut Tree, c, _| obj(t, c, "c.asa").res = Some(Res { v4: v4(&[(ip(10, 1, 4, 0), 24)]), v6: Rs::No, asn: Rs::L(vec![(64501, 64501)]) }));
    o!("ASPA with inherited resources", y, Cut::No, Some("c.asa"), |t: &mut Tree, c, _| obj(t, c, "c.asa").res = Some(Res { asn: Rs::Inherit, ..Res::none() }));
    o!("ASPA customer not in its certificate", y, Cut::No, Some("c.asa"), |t: &mut Tree, c, _| obj(t, c, "c.asa").res = Some(Res { asn: Rs::L(vec![(64502, 64502)]), ..Res::none() }));
    // router certificates
    o!("router certificate without extended key usage", y, Cut::No, Some("r.cer"), |t: &mut Tree, c, _| obj(t, c, "r.cer").skip = vec!["eku"]);
    o!("router certificate with IP resources", y, Cut::No, Some("r.cer"), |t: &mut Tree, c, _| obj(t, c, "r.cer").res = Some(Res { v4: v4(&[(ip(10, 1, 4, 0), 24)]), v6: Rs::No, asn: Rs::L(vec![(64501, 64501)]) }));
    o!("router certificate without AS numbers", y, Cut::No, Some("r.cer"), |t: &mut Tree, c, _| obj(t, c, "r.cer").res = Some(Res::none()));
    o!("router certificate with inherited AS numbers", y, Cut::No, Some("r.cer"), |t: &mut Tree, c, _| obj(t, c, "r.cer").res = Some(Res { asn: Rs::Inherit, ..Res::none() }));
    // child certificates
    let mut cc = |n: &str, bad: Option<bool>, cut: Cut, e: Edit| l.push(Defect { name: format!("child {n}"), bad, cut, about: Some("child.cer"), edit: e, child: true });
    cc("without SIA for the manifest", y, Cut::Below, Arc::new(|t, c, _| obj(t, c, "child.cer").skip = vec!["sia10"]));
    cc("without SIA for the repository", y, Cut::Below, Arc::new(|t, c, _| obj(t, c, "child.cer").skip = vec!["sia5"]));
    cc("without basic constraints", y, Cut::Below, Arc::new(|t, c, _| obj(t, c, "child.cer").skip = vec!["bc"]));
    cc("with inherited resources", Some(false), Cut::No, Arc::new(|t, c, _| obj(t, c, "child.cer").res = Some(Res::inherit())));
    cc("with the parent's resources", Some(false), Cut::No, Arc::new(|t, c, _| { let r = t.cas[c].res.clone(); obj(t, c, "child.cer").res = Some(r); }));
    cc("without IPv6 that its objects need", None, Cut::No, Arc::new(|t, c, _| { let mut r = t.cas[c + 1].res.clone(); r.v6 = Rs::No; obj(t, c, "child.cer").res = Some(r); }));
    // manifests
    let mut m = |n: &str, bad: Option<bool>, e: Edit| l.push(Defect { name: format!("manifest {n}"), bad, cut: if bad == Some(true) { Cut::Below } else { Cut::No }, about: Some(".mft"), edit: e, child: false });
    m("missing", y, Arc::new(|t, c, _| t.cas[c].mft.obj.missing = true));
    for (n, a) in [("empty", Alt::Empty), ("cut", Alt::Cut(400)), ("garbage", Alt::Data(b"garbage".to_vec()))] { m(n, y, Arc::new(move |t, c, _| t.cas[c].mft.obj.stored = Some(a.clone()))); }
    for p in 0..4 { for k in if thorough { vec![0, 1, 2, 3, 4, 5, 6, 7] } else { vec![3] } {
        m(&format!("flipped at {k}/8 of signed part {p}"), y, Arc::new(move |t, c, _| { let f = t.cas[c].mft.obj.file.clone(); let i = mid(t, c, &f, p, k); t.cas[c].mft.obj.stored = Some(Alt::Flip(i)); }));
    } }
    m("signed by another key", y, Arc::new(|t, c, _| t.cas[c].mft.obj.by = Some(400)));
    m("issued by another CA", y, Arc::new(|t, c, _| { let k = (c + 1) % t.cas.len(); t.cas[c].mft.obj.of = Some(k); }));
    m("with bad certificate signature", y, Arc::new(|t, c, _| t.cas[c].mft.obj.bad_cert_sig = true));
    m("with bad signature", y, Arc::new(|t, c, _| t.cas[c].mft.obj.bad_sig = true));
    m("with bad digest", y, Arc::new(|t, c, _| t.cas[c].mft.obj.bad_digest = true));
    m("signed by other EE key", y, Arc::new(|t, c, _| t.cas[c].mft.obj.wrong_key = Some(450)));
    m("with wrong content type attribute", y, Arc::new(|t, c, _| t.cas[c].mft.obj.wrong_ct = true));
    m("revoked", y, Arc::new(|t, c, _| t.cas[c].crl.revoked = vec![9001]));
    l.last_mut().unwrap().about = None;
    let mut m = |n: &str, bad: Option<bool>, e: Edit| l.push(Defect { name: format!("manifest {n}"), bad, cut: if bad == Some(true) { Cut::Below } else { Cut::No }, about: Some(".mft"), edit: e, child: false });
    for (n, a) in [("an hour ago", -H), ("a minute ago", -60)] {
        m(&format!("with certificate expired {n}"), y, Arc::new(move |t, c, now| t.cas[c].mft.obj.to = now + a));
        m(&format!("stale since {n}"), y, Arc::new(move |t, c, now| t.cas[c].mft.next = now + a));
        m(&format!("stale and its certificate expired {n}"), y, Arc::new(move |t, c, now| { t.cas[c].mft.next = now + a; t.cas[c].mft.obj.to = now + a; }));
    }
    m("with certificate valid in an hour", y, Arc::new(|t, c, now| t.cas[c].mft.obj.from = now + H));
    m("of the future", y, Arc::new(|t, c, now| t.cas[c].mft.this = now + H));
    m("about to become stale", Some(false), Arc::new(|t, c, now| t.cas[c].mft.next = now + 60));
    m("issued a minute ago", Some(false), Arc::new(|t, c, now| { t.cas[c].mft.this = now - 60; t.cas[c].mft.obj.from = now - 60; t.cas[c].mft.obj.signing = Some(now - 60); }));
    m("of another CA", y, Arc::new(|t, c, _| { let k = (c + 1) % t.cas.len(); let u = t.mft_uri(k); let b = t.build().repos.iter().find_map(|r| r.get(&u).cloned()).unwrap(); t.cas[c].mft.obj.stored = Some(Alt::Data(b.to_vec())); }));
    m("that is a ROA", y, Arc::new(|t, c, _| { let u = format!("{}a.roa", t.cas[c].dir); let b = t.build().repos.iter().find_map(|r| r.get(&u).cloned()).unwrap(); t.cas[c].mft.obj.stored = Some(Alt::Data(b.to_vec())); }));
    m("with content type of a ROA", y, Arc::new(|t, c, _| { t.cas[c].mft.obj.kind = Kind::Signed { ct: "1.2.840.113549.1.9.16.1.24", content: vec![] }; }));
    m("with other hash algorithm", y, Arc::new(|t, c, _| t.cas[c].mft.alg = "2.16.840.1.101.3.4.2.2"));
    m("listing a missing file", y, Arc::new(|t, c, _| t.cas[c].mft.more.push(("zz.roa".into(), vec![7; 32]))));
    { let d = l.last_mut().unwrap(); d.cut = Cut::No; d.about = Some("zz.roa"); }
    let mut m = |n: &str, bad: Option<bool>, e: Edit| l.push(Defect { name: format!("manifest {n}"), bad, cut: if bad == Some(true) { Cut::Below } else { Cut::No }, about: Some(".mft"), edit: e, child: false });
    m("listing a missing file first", y, Arc::new(|t, c, _| t.cas[c].mft.more.push(("A0.roa".into(), vec![7; 32]))));
    { let d = l.last_mut().unwrap(); d.cut = Cut::No; d.about = Some("A0.roa"); }
    let mut m = |n: &str, bad: Option<bool>, e: Edit| l.push(Defect { name: format!("manifest {n}"), bad, cut: if bad == Some(true) { Cut::Below } else { Cut::No }, about: Some(".mft"), edit: e, child: false });
    m("with an entry twice", None, Arc::new(|t, c, _| t.cas[c].mft.dup = true));
    m("without CRL", y, Arc::new(|t, c, _| t.cas[c].crl.unlisted = true));
    m("with CRL elsewhere", y, Arc::new(|t, c, _| t.cas[c].mft.obj.crl_uri = Some("rsync://rsync0.example/repo/else.crl".into())));
    m("with the CRL of another CA", y, Arc::new(|t, c, _| { let k = (c + 1) % t.cas.len(); t.cas[c].mft.obj.crl_uri = Some(t.crl_uri(k)); }));
    m("with only the CRL", Some(false), Arc::new(|t, c, _| t.cas[c].objs.retain(|o| matches!(o.kind, Kind::Ca { .. }))));
    m("with many entries", Some(false), Arc::new(|t, c, now| for i in 0..120 { let o = Obj::new(&format!("m{i}.roa"), Kind::Roa { asn: i, v4: vec![(ip(10, 1, 4, 0), 24, None)], v6: vec![] }, 1000 + i as u64, now - DAY, now + DAY); t.cas[c].objs.push(o); }));
    m("with many entries, one of them revoked", y, Arc::new(|t, c, now| { for i in 0..120 { let o = Obj::new(&format!("m{i}.roa"), Kind::Roa { asn: i, v4: vec![(ip(10, 1, 4, 0), 24, None)], v6: vec![] }, 1000 + i as u64, now - DAY, now + DAY); t.cas[c].objs.push(o); } t.cas[c].crl.revoked = (1..80).chain([1077]).collect(); }));
    { let d = l.last_mut().unwrap(); d.cut = Cut::No; d.about = Some("m77.roa"); }
    // CRLs
    let mut r = |n: &str, bad: Option<bool>, e: Edit| l.push(Defect { name: format!("CRL {n}"), bad, cut: if bad == Some(true) { Cut::Below } else { Cut::No }, about: Some(".crl"), edit: e, child: false });
    r("missing", y, Arc::new(|t, c, _| t.cas[c].crl.missing = true));
    for (n, a) in [("empty", Alt::Empty), ("cut", Alt::Cut(200)), ("garbage", Alt::Data(b"garbage".to_vec())), ("flipped", Alt::Flip(60))] {
        let b = a.clone();
        r(&format!("{n}, with hash of the original"), y, Arc::new(move |t, c, _| t.cas[c].crl.stored = Some(b.clone())));
        if n != "flipped" { r(&format!("{n}, with its own hash"), y, Arc::new(move |t, c, _| t.cas[c].crl.alt = Some(a.clone()))); }
    }
    for p in 0..2 { for k in if thorough { vec![0, 1, 2, 3, 4, 5, 6, 7] } else { vec![3, 6] } {
        r(&format!("flipped at {k}/8 of signed part {p}, with its own hash"), y, Arc::new(move |t, c, _| { let f = t.cas[c].crl.file.clone(); let i = mid(t, c, &f, p, k); t.cas[c].crl.alt = Some(Alt::Flip(i)); }));
    } }
    r("signed by another key", y, Arc::new(|t, c, _| t.cas[c].crl.by = Some(400)));
    r("of another CA", y, Arc::new(|t, c, _| { let k = (c + 1) % t.cas.len(); t.cas[c].crl.of = Some(k); }));
    r("with bad signature", y, Arc::new(|t, c, _| t.cas[c].crl.bad_sig = true));
    for (n, a) in [("an hour ago", -H), ("a minute ago", -60), ("5 days ago", -5 * DAY)] { r(&format!("stale since {n}"), y, Arc::new(move |t, c, now| { t.cas[c].crl.this = now - 6 * DAY; t.cas[c].crl.next = now + a; })); }
    r("of the future", None, Arc::new(|t, c, now| t.cas[c].crl.this = now + H));
    r("about to become stale", Some(false), Arc::new(|t, c, now| t.cas[c].crl.next = now + 60));
    r("without entries", Some(false), Arc::new(|t, c, _| t.cas[c].crl.revoked.clear()));
    r("with many entries", Some(false), Arc::new(|t, c, _| t.cas[c].crl.revoked = (2000..4000).collect()));
    r("older one, from before a revocation, with its own hash", Some(false), Arc::new(|t, c, _| t.cas[c].crl.number = 0));
    r("that is a manifest", y, Arc::new(|t, c, _| { let u = t.mft_uri(c); let b = t.build().repos.iter().find_map(|r| r.get(&u).cloned()).unwrap(); t.cas[c].crl.alt = Some(Alt::Data(b.to_vec())); }));
    // scheme and authority of a URI are case-insensitive
    for k in 1..32u8 { if thorough || k.count_ones() == 1 || k == 31 { l.push(Defect { name: format!("{SPELLED} {k:05b}"), bad: Some(false), cut: Cut::No, about: None, edit: Arc::new(move |t, c, _| t.cas[c].spell = k), child: false }); } }
    for (f, e) in [("a.roa", false), ("child.cer", true)] { l.push(Defect { name: format!("{SPELLED} 11111, {f} missing"), bad: y, cut: if e { Cut::Below } else { Cut::No }, about: Some(f), edit: Arc::new(move |t, c, _| { t.cas[c].spell = 31; obj(t, c, f).missing = true; }), child: e }); }
    l.push(Defect { name: "none".into(), bad: Some(false), cut: Cut::No, about: None, edit: Arc::new(|_, _, _| {}), child: false });
    l
}

pub fn repos_name(r: &[Option<usize>]) -> String { r.iter().map(|x| match x { None => "-".into(), Some(n) => n.to_string() }).collect::<Vec<_>>().join("") }
/// which CAs are validated, given those whose children are not
pub fn reach(t: &Tree, cut: Option<usize>) -> Vec<usize> { (0..t.cas.len()).filter(|i| cut.map(|c| *i <= c).unwrap_or(true) && t.cas[..*i].iter().all(|c| c.repo.is_some())).collect() }

pub fn defect(cx: &Cx) {
    let ds = defects(cx.thorough);
    let assign: Vec<Vec<Option<usize>>> = if cx.thorough { (0..8).filter(|x| x != &7).map(|x| (0..3).map(|b| Some(x >> b & 1)).collect()).collect() } else { vec![vec![Some(0), Some(0), Some(0)], vec![Some(1), Some(0), Some(0)], vec![Some(1), Some(0), Some(1)], vec![Some(0), Some(1), Some(0)]] };
    let now = T0 + 2 * H;
    let mut cases = vec![];
    for (ai, a) in assign.iter().enumerate() {
        for pos in 0..3 {
            for (di, d) in ds.iter().enumerate() {
                if d.child && pos == 2 || d.name == "none" && pos > 0 { continue; }
                for reject in [true, false] { for fresh in [true, false] {
                    // quick: the whole set in the places of the first assignment, alternating how it is looked at
                    if !cx.thorough && (ai > 0 && ((di + ai + pos) % 4 != reject as usize + 2 * fresh as usize || (di + pos) % 2 > 0) || ai == 0 && fresh != (reject ^ ((di + pos) % 2 == 0))) { continue; }
                    cases.push((ai, pos, di, reject, fresh));
                } }
            }
            let _ = a;
        }
    }
    let total = cases.len();
    // with V1 published
    let lay = |ai: usize, pos: usize, di: usize| if ai == 0 { 0 } else { (ai + pos + di / 2) % LAYOUTS.len() };
    let keys: BTreeSet<(usize, bool, usize)> = cases.iter().filter(|c| !c.4).map(|c| (c.0, c.3, lay(c.0, c.1, c.2))).collect();
    let firsts: BTreeMap<(usize, bool, usize), St> = cx.par(keys.into_iter().collect(), |w, (ai, reject, l)| {
        set_layout(l);
        let t = chain(&assign[ai], T0);
        let sc = scene(&format!("defect/first/{ai}"), std::slice::from_ref(&t));
        let s = Setup { name: sc.u.name.clone(), u: sc.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
        let st = St::init(&s);
        w.installed.clear();
        enter(w, &s, &st);
        let mut g = st.g.clone();
        let cfg = val_cfg(reject);
        let mut v = vec![];
        let o = vrun(cx, w, &sc, &cfg, 0, Plan { files: sc.srv[0].clone(), ..Default::default() }, &mut g, "C13", &mut v);
        judge(&o, &cfg, &Want { issues: Some(false), seen: Some(true), about: None }, "C13", &mut v);
        for y in &v { cx.report(y, vec![format!("first version, {}", cfg.name)], json!({"campaign": "defect", "case": ""})); }
        set_layout(0);
        ((ai, reject, l), St { img: Arc::new(w.img.clone()), now, g, path: vec![] })
    }).into_iter().collect();
    let (ds, assign, firsts) = (&ds, &assign, &firsts);
    cx.par(cases, |w, (ai, pos, di, reject, fresh)| {
        let d = &ds[di];
        let id = format!("{}/{}/ca{pos}/{}/{}", repos_name(&assign[ai]), d.name, if reject { "reject" } else { "warn" }, if fresh { "fresh" } else { "update" });
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("defects"); return; }
        set_layout(lay(ai, pos, di));
        let base = chain(&assign[ai], T0);
        let mut t = base.clone();
        (d.edit)(&mut t, pos, now);
        let cut = if d.cut == Cut::Below { Some(pos) } else { None };
        let ok = reach(&t, cut);
        let seen = if d.bad.is_none() && d.child { None } else { Some(ok.iter().any(|c| t.cas[*c].repo == Some(0))) };
        let here = assign[ai][pos] == Some(0);
        let issues = match d.bad { Some(true) => Some(here), Some(false) => Some(false), None => None };
        let want = Want { issues, seen, about: if d.bad == Some(true) && here { d.about.map(String::from) } else { None } };
        let mut base = base;
        if d.name.starts_with(SPELLED) { base.cas[pos].spell = t.cas[pos].spell & 16; }
        let b1 = base.build();
        let b2 = t.build();
        let sc = scene_of(&id, &[b1, b2]);
        let s = Setup { name: id.clone(), u: sc.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
        let mut st = if fresh { St::init(&s) } else { firsts[&(ai, reject, lay(ai, pos, di))].clone() };
        st.now = now;
        w.installed.clear();
        enter(w, &s, &st);
        let mut g = st.g.clone();
        let cfg = val_cfg(reject);
        let mut v = vec![];
        let mut path = vec![id.clone()];
        let o = vrun(cx, w, &sc, &cfg, 1, Plan { files: sc.srv[1].clone(), ..Default::default() }, &mut g, "C13", &mut v);
        let r = judge(&o, &cfg, &want, "C13", &mut v);
        path.push(format!("wanted {want:?}: {r}"));
        cx.outcome(&format!("defects, {}: {}", cfg.name, if o.published { if o.issues.unwrap_or(0) > 0 { "published with issues" } else { "published" } } else { "rejected" }));
        { let mut z = cx.st.lock().unwrap(); z.cases += 1; if z.samples.len() < 8 && di % 29 == 3 { z.samples.push(path.join(": ")); } }
        for y in &v { cx.report(y, path.clone(), json!({"campaign": "defect", "case": id})); }
        set_layout(0);
    });
    cx.campaign("defect", json!({"cases": total, "defects": ds.len(), "positions": 3, "repositories": assign.iter().map(|a| repos_name(a)).collect::<Vec<_>>()}));
}

/// the scene of one defect, or of a history of versions ("shape/K,K,..."), for demonstrations
pub fn export(spec: &str) -> Scene {
    let named = |f: &str, signing: Option<i64>| { let mut t = chain(&[Some(0), Some(0)], T0); let mut o = t.cas[1].objs[0].clone(); o.file = f.into(); o.serial = 999; if signing.is_some() { o.signing = signing; } t.cas[1].objs.push(o); t };
    if spec == "mtime/early" { return scene(spec, &[named("early.roa", Some(T0 - 20 * DAY))]); }
    if let Some(f) = spec.strip_prefix("name/") { return scene(spec, &[named(f, None)]); }
    if let Some(x) = spec.strip_prefix("many/") { let p: Vec<&str> = x.split('/').collect(); return scene(spec, &[crate::large::large(p[0], p[1].parse().unwrap(), p[2], 0, [0, 0]).0]); }
    let mut f = spec.splitn(4, '/');
    let (kind, shape) = (f.next().unwrap(), f.next().unwrap());
    let a: Vec<Option<usize>> = shape.chars().map(|c| if c == '-' { None } else { Some(c as usize - 48) }).collect();
    let (x, y) = (f.next().unwrap(), f.next());
    if kind == "k" { return crate::hval::hscene_named(&a, x); }
    let base = chain(&a, T0);
    let mut t = base.clone();
    let pos: usize = x.parse().unwrap();
    let name = y.unwrap();
    let d = defects(false).into_iter().find(|d| d.name == name).unwrap_or_else(|| crate::die(&format!("no defect {name}")));
    (d.edit)(&mut t, pos, T0 + H);
    scene(spec, &[base, t])
}
