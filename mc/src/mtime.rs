//! Modification times of rsync files (C16): every kind of object x times x places, content that is not
//! an object, and histories, crashes and validated runs over repositories of real objects.
use crate::cx::*;
use crate::engine::*;
use crate::hist::*;
use crate::https::*;
use crate::pki::*;
use crate::pki::{Res, Tree};
use crate::setups::*;
use crate::up::*;
use crate::val::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::Arc;

/// none of them within years of the day on which this runs
pub const TIMES: [i64; 16] = [-631152000 /* 1950 */, -315619200 /* 1960 */, -1, 0, 1, 86399, 946684799, 951782400 /* 29 Feb 2000 */, 999999999, 1000000000, 1500000000, 2147483647, 2147483648,
    2524607999 /* end of 2049 */, 2524608000 /* first GeneralizedTime */, 253402300799 /* end of 9999 */];
const CT: &str = "1.2.840.113549.1.9.16.1";

fn other(t: i64) -> i64 { TIMES[(TIMES.iter().position(|x| *x == t).unwrap() + 5) % TIMES.len()] }
/// one certification authority with an object of every kind and flaw, all dated `t`
fn matrix_ca(dir: &str, t: i64, dates: usize) -> Ca {
    let o = other(t);
    let mut c = ca(0, 0, Some(0), Res { v4: v4(&[(ip(10, 0, 0, 0), 8)]), v6: Rs::L(vec![(V6, 32)]), asn: Rs::L(vec![(64496, 64511)]) }, t);
    c.dir = dir.into();
    let roa = || Kind::Roa { asn: 64496, v4: vec![(ip(10, 1, 4, 0), 24, None)], v6: vec![] };
    // certificates: start of validity, and another end
    let cer = |f: &str, k: Kind| Obj::new(f, k, 7, t, o);
    // signed objects: signing time, with another validity of the certificate
    let so = |f: &str, k: Kind| { let mut x = Obj::new(f, k, 8, o, other(o)); x.signing = Some(t); x };
    // ... or start of validity, if there is no signing time
    let ee = |f: &str, k: Kind| { let mut x = Obj::new(f, k, 9, t, o); x.signing = None; x };
    c.objs = vec![
        cer("router.cer", Kind::Router { asn: vec![(64500, 64501)] }), cer("ca.cer", Kind::Ca { to: 0 }), cer("sub/dir.roa/ca.cer", Kind::Ca { to: 0 }),
        Obj { bad_cert_sig: true, ..cer("badsig.cer", Kind::Ca { to: 0 }) },
        so("a.roa", roa()), so("a.asa", Kind::Aspa { customer: 64501, providers: vec![64496] }), so("a.gbr", Kind::Gbr), so("sub/x.cer/a.roa", roa()), so("sub/x.crl/y.cer/a.gbr", Kind::Gbr),
        so("future.sig", Kind::Signed { ct: "1.2.3.4.5", content: b"future content".to_vec() }), so("a.tak", Kind::Signed { ct: "1.2.840.113549.1.9.16.1.50", content: seq(&[int(0)]) }),
        so("notaroa.roa", Kind::Signed { ct: "1.2.840.113549.1.9.16.1.24", content: b"\x30\x00".to_vec() }), so("noextension", roa()),
        Obj { bad_sig: true, ..so("badsig.roa", roa()) }, Obj { bad_cert_sig: true, ..so("badee.roa", roa()) }, Obj { bad_digest: true, ..so("baddigest.roa", roa()) },
        Obj { wrong_key: Some(3), ..so("wrongkey.roa", roa()) }, Obj { nest: 3, ..so("ber.roa", roa()) }, Obj { ee: 0, ..so("casigned.gbr", Kind::Gbr) },
        ee("nosigning.roa", roa()), ee("nosigning.asa", Kind::Aspa { customer: 64501, providers: vec![64496] }), ee("nosigning.gbr", Kind::Gbr), Obj { nest: 2, ..ee("nosigningber.gbr", Kind::Gbr) },
    ];
    if dates % 2 == 1 { c.objs.reverse(); }
    c.crl.this = t;
    c.crl.next = o;
    c.crl.bad_sig = dates == 3;
    c.mft.this = o;
    c.mft.next = other(o);
    c.mft.obj.from = o;
    c.mft.obj.to = other(o);
    c.mft.obj.signing = Some(t);
    if dates == 2 { c.mft.obj.signing = None; c.mft.obj.from = t; }
    c
}
fn built(cas: Vec<Ca>) -> Built { Tree { cas, notif: (0..3).map(notif_uri).collect(), ta_from: TIMES[7], ta_to: TIMES[13], ta_uri: "https://ta.example/ta.cer".into(), ta_tbs: None }.build() }
/// all kinds x all times; in the second version every file has another date
fn matrix() -> Vec<Ver> {
    let dir = |i: usize| match i % 3 { 0 => format!("rsync://rpki.example/repo/t{i}/"), 1 => format!("rsync://rpki.example/other/t{i}/deep/er/"), _ => format!("rsync://second.example:8873/repo/t{i}/") };
    let mut rp: Option<Repo> = None;
    let mut out = vec![];
    for k in 0..4usize {
        let cas = (0..TIMES.len()).map(|i| matrix_ca(&dir(i), TIMES[(i + 3 * k) % TIMES.len()], k)).collect();
        let b = built(cas);
        let (mut o, mut m) = (b.repos[0].clone(), b.mtimes[0].clone());
        o.insert("rsync://rpki.example/ta/ta.cer".into(), Arc::new(b.ta.clone()));
        m.insert("rsync://rpki.example/ta/ta.cer".into(), TIMES[7]);
        match rp.as_mut() { None => rp = Some(Repo::new(SA, 3, Style::Krill, o)), Some(r) => { r.step(o); } }
        let mut v = rp.as_ref().unwrap().ver(&format!("M{}", k + 1), 3);
        v.mtimes = m;
        out.push(v);
    }
    out
}
/// few objects that keep, change, lose and regain their content
fn few() -> Vec<Ver> {
    let pick = |t: i64, dir: &str| -> (Objs, BTreeMap<String, i64>) { let b = built(vec![matrix_ca(dir, t, 0)]); (b.repos[0].clone(), b.mtimes[0].clone()) };
    let d = "rsync://rpki.example/repo/";
    let (x1, m1) = pick(TIMES[9], d);
    let (x2, m2) = pick(TIMES[6], d);
    let garbage: Bytes = Arc::new(b"no object".to_vec());
    // name -> 1: first date, 2: second date, 3: not an object
    let make = |l: &[(&str, u8)]| -> (Objs, BTreeMap<String, i64>) {
        let (mut o, mut m) = (Objs::new(), BTreeMap::new());
        for (f, w) in l {
            let u = format!("{d}{f}");
            match w { 1 => { o.insert(u.clone(), x1[&u].clone()); m.insert(u.clone(), m1[&u]); } 2 => { o.insert(u.clone(), x2[&u].clone()); m.insert(u.clone(), m2[&u]); } _ => { o.insert(u, garbage.clone()); } }
        }
        (o, m)
    };
    let sets = [
        ("F1", make(&[("ca.cer", 1), ("a.roa", 1), ("ca0.crl", 1), ("ca0.mft", 1), ("a.gbr", 3), ("nosigning.roa", 1)])),
        ("F2", make(&[("ca.cer", 1), ("a.roa", 2), ("ca0.crl", 2), ("ca0.mft", 2), ("a.gbr", 1), ("router.cer", 2)])),
        ("F3", make(&[("ca.cer", 3), ("a.roa", 1), ("ca0.crl", 3), ("ca0.mft", 1), ("a.gbr", 3), ("nosigning.roa", 2)])),
    ];
    let mut out = vec![];
    let mut r = Repo::new(SA, 9, Style::Krill, sets[0].1.0.clone());
    for (i, (n, (o, m))) in sets.iter().enumerate() { if i > 0 { r.step(o.clone()); } let mut v = r.ver(n, 3); v.mtimes = m.clone(); out.push(v); }
    let mut r = Repo::new(SB, 1, Style::Krill, sets[1].1.0.clone());
    for (i, k) in [1usize, 0].iter().enumerate() { if i > 0 { r.step(sets[*k].1.0.clone()); } let mut v = r.ver(&format!("G{}", i + 1), 3); v.mtimes = sets[*k].1.1.clone(); out.push(v); }
    out
}
/// content that is not an object: every cut of every kind, other content, wrong extensions
fn garbage(thorough: bool) -> Vec<Ver> {
    let b = built(vec![matrix_ca("rsync://rpki.example/repo/", TIMES[9], 0)]);
    let mut kinds: Vec<(&str, &str)> = vec![("ca.cer", "cer"), ("ca0.crl", "crl"), ("a.roa", "roa"), ("ca0.mft", "mft")];
    if thorough { kinds.extend([("router.cer", "cer"), ("a.asa", "asa"), ("a.gbr", "gbr"), ("ber.roa", "roa"), ("nosigning.roa", "roa")]); }
    let mut sets: Vec<(String, Objs, BTreeMap<String, i64>)> = vec![];
    for (f, x) in &kinds {
        let c = b.repos[0][&format!("rsync://rpki.example/repo/{f}")].clone();
        let t = b.mtimes[0][&format!("rsync://rpki.example/repo/{f}")];
        let mut o = Objs::new();
        let mut m = BTreeMap::new();
        for n in 0..c.len() { o.insert(format!("rsync://rpki.example/repo/cut{n}.{x}"), Arc::new(c[..n].to_vec())); }
        for n in [1, 2, 3, 100] { o.insert(format!("rsync://rpki.example/repo/more{n}.{x}"), Arc::new([&c[..], &vec![0; n]].concat())); }
        let u = format!("rsync://rpki.example/repo/whole.{x}");
        o.insert(u.clone(), c.clone());
        m.insert(u, t);
        sets.push((format!("cuts of {f}"), o, m));
        let mut o = Objs::new();
        for n in 0..c.len() { for bit in [0x01u8, 0x80] { let mut d = c.to_vec(); d[n] ^= bit; o.insert(format!("rsync://rpki.example/repo/b{n}-{bit}.{x}"), Arc::new(d)); } }
        sets.push((format!("changes of {f}"), o, BTreeMap::new()));
    }
    let mut o = Objs::new();
    for (f, _) in &kinds { for x in ["cer", "crl", "roa", "mft", "asa", "gbr", "xyz", "CER", "cer.bak"] {
        if f.rsplit('.').next().unwrap() == x { continue; }
        o.insert(format!("rsync://rpki.example/repo/as-{f}.{x}"), b.repos[0][&format!("rsync://rpki.example/repo/{f}")].clone());
    } }
    for x in ["cer", "crl", "roa", "mft", "asa", "gbr", "tak", "xyz", "x"] {
        let raw: Vec<(&str, Vec<u8>)> = vec![("empty", vec![]), ("zero", vec![0; 64]), ("ff", vec![255; 64]), ("seq", vec![0x30, 0x80]), ("seq0", vec![0x30, 0]), ("long", vec![0x30, 0x84, 0xff, 0xff, 0xff, 0xff]), ("long8", vec![0x30, 0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]),
            ("len127", [&[0x30u8, 0xff][..], &[0; 130]].concat()), ("indef", vec![0x30, 0x80, 0x30, 0x80, 0, 0, 0, 0]), ("text", b"-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n".to_vec()), ("xml", b"<publish/>".to_vec()),
            ("deep", { let mut v = vec![]; for _ in 0..50_000 { v.extend([0x30u8, 0x80]); } v }), ("tag", vec![0x1f; 70]), ("tag2", [&[0x3fu8][..], &[0x81; 40]].concat())];
        for (n, c) in raw { o.insert(format!("rsync://rpki.example/repo/{n}.{x}"), Arc::new(c)); }
    }
    sets.push(("odd content".into(), o, BTreeMap::new()));
    let mut out = vec![];
    let mut r: Option<Repo> = None;
    // small versions: the monitors look at everything after each operation
    let sets: Vec<(String, Objs, BTreeMap<String, i64>)> = sets.into_iter().flat_map(|(n, o, m)| {
        let l: Vec<_> = o.into_iter().collect();
        l.chunks(200).enumerate().map(|(i, c)| (format!("{n} ({i})"), c.iter().cloned().collect::<Objs>(), m.clone())).collect::<Vec<_>>()
    }).collect();
    for (n, o, m) in sets {
        match r.as_mut() { None => r = Some(Repo::new(SA, 1, Style::Flat, o)), Some(r) => { r.step(o); } }
        let mut v = r.as_ref().unwrap().ver(&n, 1);
        v.mtimes = m;
        out.push(v);
    }
    out
}
fn dirs() -> Vec<Cfg> {
    let d = Cfg::default;
    vec![d(), Cfg { host: true, ..d() }.n("include-host"), Cfg { rsync: "rsync-2".into(), ..d() }.n("other rsync dir"), Cfg { rsync_on: false, ..d() }.n("no-rsync"), Cfg { xdev: true, ..d() }.n("state on other device"), Cfg { cleanup: 0, ..d() }.n("cleanup=0"),
        Cfg { state: "state-d".into(), rrdp: "state-d/rrdp".into(), rsync: "state-d/rsync".into(), dflt: true, ..d() }.n("default dirs below state dir"),
        Cfg { verbose: -1, env: crate::setups::tz("ABC-14:30"), ..d() }.n("quiet, 14:30 h ahead of UTC"), Cfg { verbose: 3, env: crate::setups::tz("CET-1CEST,M3.5.0,M10.5.0/3"), ..d() }.n("verbose, with daylight saving time")]
}
pub fn setup_of(name: &str) -> Setup {
    let v = match name { "mt-matrix" => matrix(), "mt-few" => few(), "mt-garbage" => garbage(false), _ => garbage(true) };
    Setup { name: name.into(), u: Universe::new(name, v), cfgs: Arc::new(dirs()), foreign: Arc::new(vec![]), from: Default::default() }
}
fn st(s: &Setup, v: &str, adv: i64, cfg: usize) -> Step { Step { adv, ver: s.u.ix(v), cfg, ..Default::default() } }

pub fn mtimes(cx: &Cx) {
    // histories
    let s = setup("mt-few");
    let all: Vec<usize> = (0..s.u.vers.len()).collect();
    let yrs = 8000 * DAY;
    bfs(cx, &s, &HistOpts { advs: vec![0, 600], vers: all.clone(), cfgs: vec![0], depth: 3, mode: Mode::Strict, tick: 0 });
    bfs(cx, &s, &HistOpts { advs: vec![600, yrs], vers: all.clone(), cfgs: (0..s.cfgs.len()).collect(), depth: 2, mode: Mode::Strict, tick: 0 });
    if cx.thorough {
        bfs(cx, &s, &HistOpts { advs: vec![0, 600, yrs], vers: all.clone(), cfgs: (0..s.cfgs.len()).collect(), depth: 3, mode: Mode::Strict, tick: 0 });
        bfs(cx, &s, &HistOpts { advs: vec![0, 600], vers: all.clone(), cfgs: vec![0], depth: 5, mode: Mode::Strict, tick: 0 });
        bfs(cx, &s, &HistOpts { advs: vec![0, 600], vers: all, cfgs: vec![0, 1], depth: 4, mode: Mode::Strict, tick: 700 });
    }
    // crashes and failures on the way
    let l = vec![vec![st(&s, "F1", 0, 0)], vec![st(&s, "F1", 0, 0), st(&s, "F2", 600, 0)], vec![st(&s, "F2", 0, 1), st(&s, "G1", 0, 1)]];
    let base = || cx.par(l.clone(), |w, mut p| { let last = p.pop().unwrap(); (walk(cx, w, &s, &St::init(&s), &p, "prefix"), last) });
    let go = |mode: Mode| { let s = s.clone(); move |x: &Step| { let t = |v: &str, adv| Step { adv, ver: s.u.ix(v), cfg: x.cfg, mode, ..Default::default() }; let own = s.u.vers[x.ver].label.clone(); vec![vec![t(&own, 0), t("F3", 600)], vec![t("F3", 0), t("G2", 600)]] } };
    crashes(cx, &s, base(), &go(Mode::AfterCrash), 0, cx.thorough);
    faults(cx, &s, base(), &[(libc::EIO, Stick::No)], true, &go(Mode::AfterFail));
    cx.campaign("mtimes", json!({"what": "bounded histories, all crash points and faults over repositories of real objects that keep, change, lose and regain their content", "versions": s.u.vers.iter().map(|v| v.label.clone()).collect::<Vec<_>>()}));
}
/// every kind x time x place, all cuts and changes of content
pub fn kinds(cx: &Cx) {
    let s = setup("mt-matrix");
    let all: Vec<usize> = (0..s.u.vers.len()).collect();
    bfs(cx, &s, &HistOpts { advs: vec![600], vers: all, cfgs: if cx.thorough { vec![0, 1, 6, 7, 8] } else { vec![0, 1, 8] }, depth: 2, mode: Mode::Strict, tick: 0 });
    let g = setup(if cx.thorough { "mt-garbage-more" } else { "mt-garbage" });
    let n = g.u.vers.len();
    let jobs: Vec<(usize, usize, usize)> = (0..n).filter(|v| cx.thorough || v % 2 == 0).flat_map(|v| [0usize, 1].map(|c| (v, (v + 1) % n, c))).filter(|j| cx.thorough || j.2 == 0 || j.0 % 8 == 0).collect();
    cx.par(jobs, |w, (a, b, c)| {
        if cx.over() { cx.capped("garbage"); return; }
        walk(cx, w, &g, &St::init(&g), &[Step { ver: a, cfg: c, ..Default::default() }, Step { adv: 600, ver: b, cfg: c, ..Default::default() }], "garbage");
    });
    cx.campaign("kinds", json!({"what": "kinds of objects x times x places with a known modification time; content that is not an object", "objects": s.u.vers[0].objects.len(), "times": TIMES, "garbage": g.u.vers.iter().map(|v| format!("{}: {}", v.label, v.objects.len())).collect::<Vec<_>>()}));
}
