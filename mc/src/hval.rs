//! Histories of validated runs (C14): the verdict on a version must be that of a fresh installation.
use crate::cx::*;
use crate::hist::*;
use crate::https::{Body, Plan, Resp};
use crate::engine::*;
use crate::pki::{Kind, Tree};
use crate::up::*;
use crate::val::*;
use crate::world::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

/// what the next version of the source (and of the other repositories) is
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum K {
    /// no new version
    Same,
    Good,
    /// ROA missing
    Bad,
    /// ROA expires an hour and a half after the start
    Expires,
    /// manifest stale from then on
    Stale,
    /// ROA valid from then on
    Future,
    /// new session, good
    Reset,
    /// new session, ROA missing
    ResetBad,
    /// ROA missing in the snapshot, but not withdrawn by the delta
    DeltaGood,
    /// good in the snapshot, ROA withdrawn by the delta
    DeltaBad,
    /// good, but the other repository revokes the certificate of the CA that publishes in the source
    Revoked,
    /// the same, and the other repository's notification lists the delta before the last one only
    RevGap,
    /// ... it went back to an older serial
    RevBack,
    /// ... it jumped to the last possible serial
    RevLast,
    /// ... has a new session
    RevReset,
    /// ... has a new session, with a delta that fits the old one by its serial
    RevFork,
    /// ... its delta cannot be retrieved
    RevMissing,
    /// ... its delta does not fit
    RevMismatch,
    /// good / ROA missing, while the other repository is out of order
    Down,
    DownBad,
    /// good, but the other repository answers with this status
    Busy(u16),
}
use K::*;
fn revoked(k: K) -> bool { matches!(k, Revoked | RevGap | RevBack | RevLast | RevReset | RevFork | RevMissing | RevMismatch) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum M { Reject, Warn, NoTal, Script, Offline, TwoTals, /** the TAL file is another one */ Swap, /** rejecting, with few words, in another time zone */ Quiet, /** warning, with many words, in another time zone */ Loud }
const TAL2: &str = "up/tal/ta2.tal";
const FAIL: &str = "up/tal/fail.sh";
fn cfg_of(m: M) -> Cfg {
    match m {
        M::Reject | M::Swap => val_cfg(true),
        M::Warn => val_cfg(false),
        M::Quiet => Cfg { verbose: -1, env: crate::setups::tz("ABC-14:30"), ..val_cfg(true) }.n("quiet"),
        M::Loud => Cfg { verbose: 3, env: crate::setups::tz("XYZ11:15"), ..val_cfg(false) }.n("verbose"),
        M::NoTal => Cfg { reject: true, ..Cfg::default() }.n("no TALs"),
        M::Script => Cfg { scripts: vec![FAIL.into()], ..val_cfg(true) }.n("failing script"),
        M::Offline => Cfg { offline: true, ..val_cfg(true) }.n("offline"),
        M::TwoTals => Cfg { tals: vec![TAL.into(), TAL2.into()], ..val_cfg(true) }.n("two TALs"),
    }
}
pub fn later() -> i64 { T0 + 90 * 60 }
/// trust anchor in the source; two children in the other repository, with one child each in the source
fn fork() -> Tree {
    let mut t = chain(&[Some(0), Some(1), Some(0)], T0);
    for i in [3, 4] {
        let mut c = t.cas[i - 2].clone();
        let old = format!("ca{}", i - 2);
        let new = format!("ca{i}");
        c.key = i;
        c.dir = c.dir.replace(&old, &new);
        c.crl.file = c.crl.file.replace(&old, &new);
        c.mft.obj.file = c.mft.obj.file.replace(&old, &new);
        for o in &mut c.objs { if let Kind::Ca { to } = &mut o.kind { *to = 4; } }
        t.cas.push(c);
    }
    let mut o = t.cas[0].objs.iter().find(|o| o.file == "child.cer").unwrap().clone();
    o.file = "second.cer".into();
    o.serial = 107;
    o.kind = Kind::Ca { to: 3 };
    t.cas[0].objs.push(o);
    t
}
/// the tree for a version
fn tree(a: &[Option<usize>], k: K) -> Tree {
    if a.len() == 5 {
        let mut t = fork();
        if matches!(k, Bad | DownBad) { for c in [2, 4] { t.cas[c].objs.iter_mut().find(|o| o.file == "a.roa").unwrap().missing = true; } }
        return t;
    }
    let mut t = chain(a, T0);
    let c = a.iter().position(|r| *r == Some(0)).unwrap();
    let f = t.cas[c].objs.iter_mut().find(|o| o.file == "a.roa").unwrap();
    match k {
        Bad | ResetBad | DeltaGood | DownBad => f.missing = true,
        Expires => f.to = later(),
        Future => f.from = later(),
        Stale => t.cas[c].mft.next = later(),
        k if revoked(k) => { if c > 0 { t.cas[c - 1].crl.revoked.push(106); } }
        _ => {}
    }
    t
}
/// the second TA: publishes in the third repository, and its child in the second one
fn tree2() -> Tree {
    let mut t = chain(&[Some(2), Some(1)], T0);
    t.cas[0].key = 20;
    t.cas[1].key = 21;
    t.cas[0].dir = "rsync://rsync2.example/repo/second/".into();
    t.cas[1].dir = "rsync://rsync1.example/repo/second/".into();
    t.ta_uri = "https://ta.example/second.cer".into();
    t
}
pub struct Hs { sc: Scene, at: Vec<usize>, tal2: Vec<u8>, etag: bool, /** by version */ ks: Vec<K> }
pub fn hscene(a: &[Option<usize>], ks: &[K]) -> Hs {
    let t2 = tree2().build();
    let sess = [SA, SB, SC];
    let mk = |r: usize, s: &str, o: Objs| { let mut p = Repo::new(s, 9, Style::Krill, o); p.base = format!("https://{}", repo_base(r)); p };
    let (mut vers, mut srv, mut at) = (vec![], vec![], vec![]);
    let mut repos: Vec<Repo> = vec![];
    let mut resets = 0;
    let mut gone: Vec<String> = vec![];
    for k in ks {
        if *k == Same { at.push(vers.len() - 1); continue; }
        let mut b = tree(a, *k).build();
        b.repos[1].extend(t2.repos[1].clone());
        if repos.is_empty() { repos = (0..3).map(|r| mk(r, sess[r], if r == 2 { t2.repos[2].clone() } else { b.repos[r].clone() })).collect(); }
        else {
            if matches!(k, Reset | ResetBad) { resets += 1; repos[0] = mk(0, &format!("dddddddd-0000-4000-8000-00000000000{resets}"), b.repos[0].clone()); }
            else if matches!(k, DeltaGood | DeltaBad) { let d = tree(a, if *k == DeltaGood { Good } else { Bad }).build(); repos[0].step(d.repos[0].clone()); repos[0].objs = b.repos[0].clone(); }
            else { repos[0].step(b.repos[0].clone()); }
            let n = b.repos[1].clone();
            let o = &mut repos[1];
            // there is no serial after the last one
            if o.serial == u64::MAX && *k != RevBack && (o.objs != n || revoked(*k)) { resets += 1; *o = mk(1, &format!("eeeeeeee-0000-4000-8000-00000000000{resets}"), o.objs.clone()); }
            match k {
                RevGap => { let old = o.objs.clone(); o.step(old); o.step(n); o.hist.pop(); }
                RevBack => { o.serial -= 3; o.hist.clear(); o.step(n); }
                RevLast => { o.serial = u64::MAX - 1; o.hist.clear(); o.step(n); }
                RevReset => { resets += 1; *o = mk(1, &format!("eeeeeeee-0000-4000-8000-00000000000{resets}"), n); }
                RevFork => {
                    resets += 1;
                    let mut f = mk(1, &format!("eeeeeeee-0000-4000-8000-00000000000{resets}"), n.clone());
                    f.serial = o.serial;
                    let mut m = n;
                    m.insert(format!("rsync://rsync2.example/repo/extra{resets}.gbr"), Arc::new(b"extra".to_vec()));
                    f.step(m);
                    *o = f;
                }
                RevMissing => { o.step(n); gone.push(format!("{}{}", repo_base(1), o.hist.last().unwrap().1)); }
                RevMismatch => { let mut w = n.clone(); for b in w.values_mut() { *b = Arc::new([&b[..], b"x"].concat()); } let keep = o.objs.clone(); o.objs = w; o.step(n); let _ = keep; }
                _ => if o.objs != n { o.step(n); }
            }
        }
        let mut v = repos[0].ver(&format!("V{}:{k:?}", vers.len() + 1), 5);
        v.mtimes = b.mtimes[0].clone();
        let mut files: BTreeMap<String, Bytes> = BTreeMap::new();
        files.insert("ta.example/ta.cer".into(), Arc::new(b.ta.clone()));
        files.insert("ta.example/second.cer".into(), Arc::new(t2.ta.clone()));
        for (r, p) in repos.iter().enumerate().skip(1) { for (n, f) in p.ver("o", 5).files { files.insert(format!("{}{n}", repo_base(r)), f); } }
        for g in &gone { files.remove(g); }
        if matches!(k, Down | DownBad) { files.retain(|n, _| !n.starts_with(repo_base(1))); }
        at.push(vers.len());
        vers.push(v);
        srv.push(files);
    }
    let name = format!("verdict/{}/{}", repos_name(a), ks.iter().map(|k| format!("{k:?}")).collect::<Vec<_>>().join(","));
    let tal = tree(a, Good).build().tal;
    Hs { sc: Scene { u: Universe::new(&name, vers), srv, tal }, at, tal2: t2.tal, etag: false, ks: ks.iter().filter(|k| **k != Same).copied().collect() }
}
/// what a run said about the version
#[derive(Clone, PartialEq, Debug)]
pub struct Verdict { ok: bool, issues: Option<usize>, lines: Vec<String> }
fn verdict(o: &VOut) -> Verdict {
    let t = format!("{}\n{}", o.exit.out, o.exit.err);
    let lines: BTreeSet<String> = t.lines().filter(|l| l.contains(" : ") && l.contains(":    ")).map(|l| l[l.find("   ").map(|p| p + 3).unwrap_or(0)..].to_string()).collect();
    Verdict { ok: o.exit.ok(), issues: o.issues, lines: lines.into_iter().collect() }
}
#[derive(Clone)]
struct Node { ks: Vec<K>, st: St, path: Vec<String>, hist: Vec<(i64, usize)>, /** when other repositories may have been looked at last, and as of which version */ looks: Vec<Option<(i64, usize)>> }

/// the possible last looks at other repositories after a run
fn look(looks: &[Option<(i64, usize)>], m: M, now: i64, srv: usize) -> Vec<Option<(i64, usize)>> {
    let mut r: Vec<_> = match m {
        M::Offline | M::NoTal => looks.to_vec(),
        _ => looks.iter().map(|l| match l { Some((t, _)) if now - t <= 3600 => *l, _ => Some((now, srv)) }).collect(),
    };
    // these may start all over
    if matches!(m, M::TwoTals | M::Swap) { r.push(Some((now, srv))); }
    if m == M::NoTal { r.push(None); }
    r.sort();
    r.dedup();
    r
}

type Memo = Mutex<HashMap<[u8; 32], Verdict>>;
#[allow(clippy::too_many_arguments)]
fn go(cx: &Cx, w: &mut World, hs: &Hs, st: &St, m: M, i: usize, srv: usize, g: &mut Ghost, v: &mut Vec<Viol>) -> VOut {
    let s = Setup { name: hs.sc.u.name.clone(), u: hs.sc.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
    enter(w, &s, st);
    std::fs::create_dir_all(w.abs("up/tal")).unwrap();
    std::fs::write(w.abs(TAL2), &hs.tal2).unwrap();
    if m == M::Script && !std::path::Path::new(&w.abs(FAIL)).exists() {
        use std::os::unix::fs::PermissionsExt;
        std::fs::write(w.abs(FAIL), "#!/bin/sh\nexit 1\n").unwrap();
        std::fs::set_permissions(w.abs(FAIL), std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    let mut plan = Plan { files: hs.sc.srv[srv].clone(), etag: hs.etag, ..Default::default() };
    if let Some(Busy(n)) = hs.ks.get(srv) { for (f, r) in hs.sc.srv[srv].iter().filter(|x| x.0.starts_with(repo_base(1))).map(|x| (x.0.clone(), Resp::Status(*n, vec![], Body::Data(b"busy".to_vec())))) { plan.resp.insert(f, vec![(None, r)]); } }
    if m == M::Swap {
        let sc = Scene { tal: hs.tal2.clone(), ..hs.sc.clone() };
        return vrun(cx, w, &sc, &cfg_of(m), hs.at[i], plan, g, "C14", v);
    }
    vrun(cx, w, &hs.sc, &cfg_of(m), hs.at[i], plan, g, "C14", v)
}
fn fresh(cx: &Cx, w: &mut World, hs: &Hs, now: i64, m: M, i: usize, srv: usize, memo: &Memo) -> Verdict {
    let mut key = format!("{now}/{m:?}/{:?}", hs.ks.get(srv).filter(|k| matches!(k, Busy(_))));
    for (p, f) in hs.sc.u.vers[hs.at[i]].files.iter().chain(hs.sc.srv[srv].iter()) { key += p; key += &crate::up::hex(&sha(f)); }
    let k = sha(key.as_bytes());
    if let Some(x) = memo.lock().unwrap().get(&k) { return x.clone(); }
    let s = Setup { name: hs.sc.u.name.clone(), u: hs.sc.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
    let mut st = St::init(&s);
    st.now = now;
    let mut g = st.g.clone();
    let mut v = vec![];
    let o = go(cx, w, hs, &st, m, i, srv, &mut g, &mut v);
    for y in &v { cx.report(y, vec![format!("fresh run, {m:?}, {}", hs.sc.u.name)], json!({"campaign": "verdict", "case": ""})); }
    let x = verdict(&o);
    memo.lock().unwrap().insert(k, x.clone());
    x
}
fn explore(cx: &Cx, a: &[Option<usize>], levels: &[(Vec<K>, Vec<i64>, Vec<M>)], memo: &Memo, etag: bool, layout: usize) -> usize {
    let mut nodes = vec![];
    let mut total = 0;
    let z = if etag { "/ETags" } else { "" };
    for (li, (ks, dts, ms)) in levels.iter().enumerate() {
        let last = li + 1 == levels.len();
        let jobs: Vec<(Option<Node>, K)> = if li == 0 { ks.iter().map(|k| (None, *k)).collect() } else { nodes.drain(..).flat_map(|n: Node| ks.iter().map(move |k| (Some(n.clone()), *k)).collect::<Vec<_>>()).collect() };
        total += jobs.len() * dts.len() * ms.len();
        let out = cx.par(jobs, |w, (n, k)| {
            let mut next = vec![];
            set_layout(layout);
            if cx.over() { cx.capped("verdict"); return next; }
            let mut kk = n.as_ref().map(|n| n.ks.clone()).unwrap_or_default();
            kk.push(k);
            let mut hs = hscene(a, &kk);
            hs.etag = etag;
            let i = kk.len() - 1;
            let s = Setup { name: hs.sc.u.name.clone(), u: hs.sc.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
            let base = n.as_ref().map(|n| n.st.clone()).unwrap_or_else(|| St::init(&s));
            for dt in dts { for m in ms {
                let mut st = base.clone();
                st.now += dt;
                let now = st.now;
                let mut path = n.as_ref().map(|n| n.path.clone()).unwrap_or_default();
                path.push(format!("+{} min, {k:?}, {m:?}", dt / 60));
                let id = format!("{}{z}{}/{}", repos_name(a), if layout > 0 { format!("/places {layout}") } else { "".into() }, path.join("; "));
                // replays need the way to the case
                if let Some(o) = &cx.only { if !o.starts_with(&id) { continue; } }
                let mut hist = n.as_ref().map(|n| n.hist.clone()).unwrap_or_default();
                hist.push((now, hs.at[i]));
                let before = n.as_ref().map(|n| n.looks.clone()).unwrap_or_else(|| vec![None]);
                let mut looks = look(&before, *m, now, hs.at[i]);
                let mut g = st.g.clone();
                let mut v = vec![];
                let cfg = cfg_of(*m);
                let up = &hs.sc.u.vers[hs.at[i]];
                let was = g.published(&cfg) == Some((up.session.clone(), up.serial));
                let o = go(cx, w, &hs, &st, *m, i, hs.at[i], &mut g, &mut v);
                let img = Arc::new(w.img.clone());
                let got = verdict(&o);
                let mut kind = "no validation";
                if !was && matches!(m, M::Reject | M::Warn | M::Offline | M::TwoTals | M::Swap | M::Quiet | M::Loud) {
                    // other repositories may be looked at as they were up to an hour ago
                    let mut srvs: Vec<usize> = vec![hs.at[i]];
                    if a.iter().any(|r| *r != Some(0)) { srvs.extend(looks.iter().flatten().map(|x| x.1)); }
                    srvs.sort();
                    srvs.dedup();
                    let mut modes = vec![*m];
                    // offline: what is in the cache may be used
                    if *m == M::Offline && a.iter().any(|r| *r != Some(0)) { modes.push(M::Reject); srvs = hist.iter().map(|x| x.1).collect::<BTreeSet<_>>().into_iter().collect(); }
                    let want: Vec<Verdict> = modes.iter().flat_map(|m| srvs.iter().map(|s| (*m, *s)).collect::<Vec<_>>()).map(|(m, s)| fresh(cx, w, &hs, now, m, i, s, memo)).collect();
                    kind = if want.iter().any(|x| x.ok) { "accepted" } else { "rejected" };
                    if !want.contains(&got) { v.push(Viol { props: vec!["C14"], msg: format!("verdict on {}: {got:?}, but a fresh installation says {:?}", up.label, want[0]) }); }
                    // and it must not be the same wrong one
                    if *m != M::Swap && a.iter().all(|r| *r == Some(0)) {
                        let valid = match kk.iter().rev().find(|k| **k != Same).unwrap() { Bad | ResetBad | DeltaGood => false, Expires | Stale => now < later(), Future => now > later(), _ => true };
                        let says = got.issues == Some(0);
                        if says != valid { v.push(Viol { props: vec!["C14", "C13"], msg: format!("verdict on {}: {got:?}, but it is {}", up.label, if valid { "correct" } else { "not correct" }) }); }
                        if !matches!(m, M::Warn | M::Loud) && got.ok != valid { v.push(Viol { props: vec!["C14", "C13"], msg: format!("{} is {}, but the run ended with {}", up.label, if valid { "correct" } else { "not correct" }, o.exit.text()) }); }
                    }
                }
                cx.outcome(&format!("verdict, {m:?}: {kind}"));
                { let mut z = cx.st.lock().unwrap(); z.cases += 1; if z.samples.len() < 8 && z.cases % 211 == 17 { z.samples.push(format!("{id}: {kind}")); } }
                for y in &v { cx.report(y, path.clone(), json!({"campaign": "verdict", "case": id})); }
                if !last {
                    // what a run saw need not be saved if it published nothing
                    if was || !o.exit.ok() { looks.extend(before); looks.sort(); looks.dedup(); }
                    next.push(Node { ks: kk.clone(), st: St { img, now, g, path: vec![] }, path, hist, looks });
                }
            } }
            set_layout(0);
            next
        });
        nodes = out.into_iter().flatten().collect();
    }
    total
}
pub fn hverdict(cx: &Cx) {
    let memo: Memo = Default::default();
    let (s, h, l) = (60, 50 * 60, 2 * H);
    let v = |k: &[K]| k.to_vec();
    let all = [Same, Good, Bad, Expires, Stale, Future, Reset, ResetBad, DeltaGood, DeltaBad];
    let m0 = || vec![M::Reject, M::Warn, M::NoTal, M::Script, M::Offline, M::TwoTals];
    let end = || vec![M::Quiet, M::Loud];
    let z = [Some(0), Some(0), Some(0)];
    let p = [Some(1), Some(0), Some(0)];
    let mid = [Some(0), Some(1), Some(0)];
    let first = v(&[Good, Bad, Expires, Stale, Future]);
    let oth = [Same, Good, Bad, Expires, Reset, DeltaGood, Revoked];
    let f = [Some(0), Some(1), Some(0), Some(1), Some(0)];
    let down = [Good, Bad, Down, DownBad];
    let odd = [Good, RevGap, RevBack, RevLast, RevReset, RevFork, RevMissing, RevMismatch];
    let busy: Vec<K> = if cx.thorough { vec![200, 201, 202, 203, 204, 206, 300, 301, 302, 307, 400, 401, 403, 404, 408, 410, 412, 416, 418, 429, 451, 500, 501, 502, 503, 504, 505, 511, 599] } else { vec![200, 206, 404, 410, 416, 429, 500, 503] }.into_iter().map(Busy).collect();
    let busy_good = [&busy[..], &[Good]].concat();
    let mut runs: Vec<(Vec<Option<usize>>, Vec<(Vec<K>, Vec<i64>, Vec<M>)>, bool)> = vec![];
    if !cx.thorough {
        runs.push((z.to_vec(), vec![(first.clone(), vec![s], m0()), (v(&all), vec![s, l], end())], false));
        runs.push((p.to_vec(), vec![(v(&[Good, Bad, Revoked]), vec![s], vec![M::Reject, M::Warn, M::NoTal]), (v(&oth), vec![s, l], vec![M::Reject, M::Warn, M::Offline])], false));
        runs.push((z.to_vec(), vec![(v(&[Good, Bad]), vec![s], vec![M::Reject, M::Warn]), (v(&[Same, Good, Bad, Expires]), vec![s, l], vec![M::Reject, M::Warn, M::NoTal]), (v(&[Same, Good, Bad]), vec![s, l], vec![M::Reject])], false));
        runs.push((p.to_vec(), vec![(v(&[Good]), vec![s], vec![M::Reject, M::Warn]), (v(&odd), vec![l], vec![M::Reject, M::Warn]), (v(&[Good, Revoked]), vec![s, l], vec![M::Reject])], false));
        runs.push((p.to_vec(), vec![(v(&[Good]), vec![s], vec![M::Reject]), (v(&[RevLast]), vec![l], vec![M::Warn]), (v(&[Good, RevBack, RevReset]), vec![l], vec![M::Reject])], false));
        runs.push((p.to_vec(), vec![(v(&[Good]), vec![s], vec![M::Reject]), (v(&[Same, Good]), vec![h], vec![M::Reject, M::Warn, M::Offline]), (v(&[Good, Revoked]), vec![s, h], vec![M::Reject, M::Offline]), (v(&[Good, Revoked]), vec![h], vec![M::Reject])], false));
        runs.push((p.to_vec(), vec![(v(&[Good, Revoked]), vec![s], vec![M::Reject, M::Warn]), (v(&[Good, Revoked]), vec![s, l], vec![M::Reject]), (v(&[Good, Bad, Revoked]), vec![s, l], vec![M::Reject])], false));
        runs.push((f.to_vec(), vec![(v(&[Good, Down, DownBad]), vec![s], vec![M::Reject, M::Warn]), (v(&down), vec![s, l], vec![M::Reject, M::Warn]), (v(&[Down, DownBad, Good]), vec![l], vec![M::Reject])], false));
        runs.push((p.to_vec(), vec![(v(&[Good]), vec![s], vec![M::Reject]), (v(&down), vec![s, l], vec![M::Reject, M::Warn, M::Offline]), (v(&[Down, Good]), vec![l], vec![M::Reject])], false));
        runs.push((p.to_vec(), vec![(v(&[Good]), vec![s], vec![M::Reject]), (busy.clone(), vec![l], vec![M::Reject, M::Warn]), (v(&[Good, Busy(503)]), vec![s, l], vec![M::Reject])], true));
        runs.push((p.to_vec(), vec![(v(&[Good, Revoked]), vec![s], vec![M::Reject]), (v(&[Good, Revoked, Same]), vec![s, l], vec![M::Reject, M::Warn]), (v(&[Good, Revoked]), vec![l], vec![M::Reject])], true));
        runs.push((z.to_vec(), vec![(v(&[Good]), vec![s], vec![M::Reject, M::Swap, M::TwoTals]), (v(&[Good]), vec![s], vec![M::Reject, M::Swap, M::TwoTals, M::NoTal]), (v(&[Good]), vec![s], vec![M::Reject, M::Swap, M::TwoTals])], false));
        // other repositories that several trees share
        runs.push((p.to_vec(), vec![(v(&[Good]), vec![s], vec![M::TwoTals, M::Reject]), (v(&[Same, Good, Revoked, Down]), vec![s, l], vec![M::TwoTals]), (v(&[Good, Down]), vec![l], vec![M::TwoTals])], false));
    } else {
        runs.push((p.to_vec(), vec![(v(&[Good]), vec![s], vec![M::TwoTals, M::Reject]), (v(&[Same, Good, Revoked, Down, RevMissing, RevReset]), vec![s, l], vec![M::TwoTals, M::Reject]), (v(&[Good, Down]), vec![s, l], vec![M::TwoTals]), (v(&[Good]), vec![l], vec![M::TwoTals])], true));
        runs.push((p.to_vec(), vec![(v(&[Good]), vec![s], vec![M::Reject, M::Offline]), (busy_good.clone(), vec![s, l], vec![M::Reject, M::Warn, M::Offline]), (busy_good.clone(), vec![l], vec![M::Reject]), (v(&[Good]), vec![s, l], vec![M::Reject])], true));
        runs.push((f.to_vec(), vec![(v(&[Good]), vec![s], vec![M::Reject]), (busy_good.clone(), vec![l], vec![M::Reject, M::Warn, M::Offline]), (v(&[Good, Down]), vec![s, l], vec![M::Reject])], false));
        runs.push((p.to_vec(), vec![(v(&oth), vec![s], vec![M::Reject]), (v(&oth), vec![s, l], vec![M::Reject, M::Warn]), (v(&odd), vec![s, l], vec![M::Reject])], true));
        runs.push((z.to_vec(), vec![(v(&[Good, Bad]), vec![s], vec![M::Reject, M::Swap, M::TwoTals]), (v(&[Good, Bad]), vec![s, l], vec![M::Reject, M::Swap, M::TwoTals, M::NoTal]), (v(&[Good, Bad]), vec![s, l], vec![M::Reject, M::Swap, M::TwoTals, M::Warn])], false));
        runs.push((f.to_vec(), vec![(v(&down), vec![s], vec![M::Reject, M::Warn]), (v(&down), vec![s, l], vec![M::Reject, M::Warn, M::Offline]), (v(&down), vec![s, l], vec![M::Reject, M::Warn])], false));
        runs.push((p.to_vec(), vec![(v(&down), vec![s], vec![M::Reject]), (v(&down), vec![s, l], vec![M::Reject, M::Warn, M::Offline]), (v(&down), vec![s, l], vec![M::Reject, M::Warn])], false));
        runs.push((z.to_vec(), vec![(first.clone(), vec![s], m0()), (v(&all), vec![s, l], m0()), (v(&all), vec![s, l], vec![M::Reject, M::Quiet])], false));
        runs.push((p.to_vec(), vec![(v(&[Good, Bad, Revoked]), vec![s], vec![M::Reject, M::Warn, M::NoTal, M::Offline]), (v(&oth), vec![s, l], vec![M::Reject, M::Warn, M::Offline]), (v(&oth), vec![s, l], vec![M::Reject, M::Warn, M::Offline])], false));
        runs.push((p.to_vec(), vec![(v(&[Good, Revoked]), vec![s], vec![M::Reject, M::Warn]), (v(&odd), vec![s, l], vec![M::Reject, M::Warn, M::Offline]), (v(&odd), vec![s, l], vec![M::Reject, M::Warn]), (v(&[Good, Revoked]), vec![l], vec![M::Reject])], false));
        runs.push((p.to_vec(), vec![(v(&[Good, Revoked]), vec![s], vec![M::Reject, M::Warn, M::Offline]), (v(&[Same, Good, Revoked]), vec![s, h], vec![M::Reject, M::Warn, M::Offline]), (v(&[Good, Revoked]), vec![s, h], vec![M::Reject, M::Warn, M::Offline]), (v(&[Good, Revoked]), vec![h], vec![M::Reject])], true));
        runs.push((mid.to_vec(), vec![(v(&[Good, Bad]), vec![s], vec![M::Reject, M::Warn]), (v(&[Same, Good, Bad, Reset]), vec![s, l], vec![M::Reject, M::Warn, M::NoTal]), (v(&[Same, Good, Bad]), vec![s, l], vec![M::Reject, M::Warn])], false));
        runs.push((z.to_vec(), vec![(v(&[Good, Bad]), vec![s], vec![M::Reject, M::Warn]), (v(&[Same, Good, Bad, Expires]), vec![s, l], vec![M::Reject, M::Warn, M::NoTal]), (v(&[Same, Good, Bad]), vec![s, l], vec![M::Reject, M::Warn]), (v(&[Same, Good, Bad]), vec![s, l], vec![M::Reject])], false));
    }
    let mut d = vec![];
    for (i, (a, lv, etag)) in runs.into_iter().enumerate() {
        let layout = if a.iter().all(|r| *r == Some(0)) { 0 } else { i % LAYOUTS.len() };
        let n = explore(cx, &a, &lv, &memo, etag, layout);
        d.push(json!({"repositories": repos_name(&a), "histories": n, "ETags": etag, "places": LAYOUTS[layout], "steps": lv.iter().map(|(k, t, m)| json!({"versions": format!("{k:?}"), "seconds before": t, "runs": format!("{m:?}")})).collect::<Vec<_>>()}));
    }
    cx.campaign("verdict", json!({"explored": d, "fresh installations": memo.lock().unwrap().len()}));
}

pub fn hscene_named(a: &[Option<usize>], ks: &str) -> Scene {
    let all = [Same, Good, Bad, Expires, Stale, Future, Reset, ResetBad, DeltaGood, DeltaBad, Revoked, RevGap, RevBack, RevLast, RevReset, RevFork, RevMissing, RevMismatch, Down, DownBad];
    let ks: Vec<K> = ks.split(',').map(|n| *all.iter().find(|k| format!("{k:?}") == n).unwrap_or_else(|| crate::die(&format!("no kind {n}")))).collect();
    hscene(a, &ks).sc
}
