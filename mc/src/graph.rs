//! Certificates in loops, diamonds, chains, and what else could keep validation from ending (C17).
use crate::cx::*;

use crate::hist::*;
use crate::https::{Plan, DAY};
use crate::pki::*;
use crate::pki::{Res, Tree};
use crate::up::*;
use crate::val::*;
use crate::world::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

struct Case { id: String, make: Box<dyn Fn() -> Built + Send + Sync>, want: Want, reject: bool, tals: usize }

fn all_res() -> Res { Res { v4: v4(&[(ip(10, 0, 0, 0), 8)]), v6: Rs::L(vec![(V6, 32)]), asn: Rs::L(vec![(64496, 64511)]) } }
fn roa(f: &str) -> Obj { Obj::new(f, Kind::Roa { asn: 64496, v4: vec![(ip(10, 1, 4, 0), 24, None)], v6: vec![] }, 101, T0 - 10 * DAY, T0 + 300 * DAY) }
fn cer(to: usize, n: usize) -> Obj { Obj::new(&format!("c{to}-{n}.cer"), Kind::Ca { to }, (1000 + 10 * to + n) as u64, T0 - 10 * DAY, T0 + 300 * DAY) }
/// CAs with the given certificates: from, to, how often
pub fn graph(n: usize, edges: &[(usize, usize, usize)], repos: &[usize], keys: usize) -> Tree {
    let mut cas: Vec<Ca> = (0..n).map(|i| {
        let mut c = ca(i, if i == 0 { 0 } else { 1 + (i - 1) % keys }, Some(repos[i % repos.len()]), all_res(), T0);
        c.mft.obj.serial = 9001;
        c.objs.push(roa("a.roa"));
        c
    }).collect();
    for (a, b, m) in edges { for k in 0..*m { let s = cas[*a].objs.len() as u64; let mut o = cer(*b, k); o.serial = 2000 + s; cas[*a].objs.push(o); } }
    Tree { cas, notif: (0..3).map(notif_uri).collect(), ta_from: T0 - 1000 * DAY, ta_to: T0 + 1000 * DAY, ta_uri: "https://ta.example/ta.cer".into(), ta_tbs: None }
}
fn reachable(n: usize, edges: &[(usize, usize)]) -> BTreeSet<usize> {
    let mut s: BTreeSet<usize> = [0].into();
    for _ in 0..n { for (a, b) in edges { if s.contains(a) { s.insert(*b); } } }
    s
}
/// all graphs of n CAs; canonical ones only (numbers of the CAs other than the trust anchor do not matter)
fn masks(n: usize, canonical: bool) -> Vec<u32> {
    let perms: Vec<Vec<usize>> = { let mut p = vec![vec![]]; for _ in 1..n { p = p.into_iter().flat_map(|v: Vec<usize>| (1..n).filter(|x| !v.contains(x)).map(|x| { let mut w = v.clone(); w.push(x); w }).collect::<Vec<_>>()).collect(); } p };
    (0..1u32 << (n * n)).filter(|m| !canonical || perms.iter().all(|p| { let f = |i: usize| if i == 0 { 0 } else { p[i - 1] }; let mut r = 0; for a in 0..n { for b in 0..n { if m >> (a * n + b) & 1 > 0 { r |= 1 << (f(a) * n + f(b)); } } } r >= *m })).collect()
}
fn edges_of(m: u32, n: usize) -> Vec<(usize, usize)> { (0..n * n).filter(|i| m >> i & 1 > 0).map(|i| (i / n, i % n)).collect() }

fn cases(thorough: bool) -> Vec<Case> {
    let mut l: Vec<Case> = vec![];
    let ok = || Want { issues: Some(false), seen: Some(true), about: None };
    let bad = |a: &str| Want { issues: Some(true), seen: Some(true), about: if a.is_empty() { None } else { Some(a.into()) } };
    // every graph
    let repos: Vec<Vec<usize>> = vec![vec![0], vec![1, 0, 0, 0], vec![0, 1, 0, 0], vec![0, 0, 1, 1]];
    for (n, canon) in if thorough { vec![(3, false), (4, true)] } else { vec![(3, false)] } {
        for (mi, m) in masks(n, canon).into_iter().enumerate() {
            let e = edges_of(m, n);
            let seen = reachable(n, &e);
            let all = thorough && n == 3;
            for d in 0..=n { for mult in 1..=2 { for r in 0..repos.len() { for reject in [true, false] {
                let x = mi + 3 * d + 5 * mult + r;
                if !all && (reject != (x % 4 > 0) || mult != 1 + (mi + d) % 2 || r != (mi / 2 + d) % 4 || (d > 0 && d != 1 + mi % n)) { continue; }
                let rp = repos[r].clone();
                let src: BTreeSet<usize> = seen.iter().copied().filter(|i| rp[i % rp.len()] == 0).collect();
                let defect = if d == 0 { None } else { Some(d - 1) };
                let want = Want { issues: Some(defect.map(|d| src.contains(&d)).unwrap_or(false)), seen: Some(!src.is_empty()), about: defect.filter(|d| src.contains(d)).map(|d| format!("ca{d}/a.roa")) };
                let e2: Vec<_> = e.iter().map(|(a, b)| (*a, *b, mult)).collect();
                l.push(Case { id: format!("graph of {n}: {}, {mult} each, in {rp:?}, {}, {}", e.iter().map(|(a, b)| format!("{a}>{b}")).collect::<Vec<_>>().join(" "), defect.map(|d| format!("ROA of {d} missing")).unwrap_or("no defect".into()), if reject { "reject" } else { "warn" }),
                    make: Box::new(move || { let mut t = graph(n, &e2, &rp, 500); if let Some(d) = defect { t.cas[d].objs[0].missing = true; } t.build() }), want, reject, tals: 1 });
            } } } }
        }
    }
    let mut add = |id: String, want: Want, make: Box<dyn Fn() -> Built + Send + Sync>| l.push(Case { id, make, want, reject: true, tals: 1 });
    // chains
    let chain = |n: usize, keys: usize, defect: bool| -> Box<dyn Fn() -> Built + Send + Sync> { Box::new(move || {
        let e: Vec<_> = (1..n).map(|i| (i - 1, i, 1)).collect();
        let mut t = graph(n, &e, &[0], keys);
        if defect { t.cas[n - 1].objs[0].missing = true; }
        t.build()
    }) };
    for n in if thorough { vec![10, 33, 100, 300, 570] } else { vec![33, 570] } {
        add(format!("chain of {n}"), ok(), chain(n, 570, false));
        add(format!("chain of {n}, defect at the end"), bad(&format!("ca{}/a.roa", n - 1)), chain(n, 570, true));
    }
    for n in if thorough { vec![1200, 6000] } else { vec![1200] } {
        add(format!("chain of {n} with 2 keys"), ok(), chain(n, 2, false));
        add(format!("chain of {n} with 2 keys, defect at the end"), bad(&format!("ca{}/a.roa", n - 1)), chain(n, 2, true));
        add(format!("chain of {n} with a loop"), ok(), Box::new(move || { let mut e: Vec<_> = (1..n).map(|i| (i - 1, i, 1)).collect(); e.push((n - 1, 0, 1)); e.push((n - 1, n / 2, 1)); graph(n, &e, &[0], 3).build() }));
    }
    // diamonds
    for (n, m) in [(2, 40), (14, 2), (41, 2), (41, 3)] {
        for defect in [false, true] {
            add(format!("{n} levels, {m} certificates each{}", if defect { ", defect at the end" } else { "" }), if defect { bad(&format!("ca{}/a.roa", n - 1)) } else { ok() },
                Box::new(move || { let e: Vec<_> = (1..n).map(|i| (i - 1, i, m)).collect(); let mut t = graph(n, &e, &[0], 100); if defect { t.cas[n - 1].objs[0].missing = true; } t.build() }));
        }
    }
    for w in [6, 16] { add(format!("everyone certifies everyone, {w}"), ok(), Box::new(move || { let e: Vec<_> = (0..w * w).map(|i| (i / w, i % w, 1)).collect(); graph(w, &e, &[0], 100).build() })); }
    for lv in [5, 20] { add(format!("{lv} levels of 3, all of the next one certified"), ok(), Box::new(move || { let mut e = vec![(0, 1, 1), (0, 2, 1), (0, 3, 1)]; for i in 0..lv - 1 { for a in 0..3 { for b in 0..3 { e.push((1 + 3 * i + a, 4 + 3 * i + b, 1)); } } } graph(1 + 3 * lv, &e, &[0], 100).build() })); }
    // two certificates of which each loses something else: what is left differs on every way
    for lv in [6, 24] {
        add(format!("{lv} levels, resources trimmed differently"), Want { issues: None, seen: Some(true), about: None }, Box::new(move || {
            let e: Vec<_> = (1..=lv).map(|i| (i - 1, i, 2)).collect();
            let mut t = graph(lv + 1, &e, &[0], 100);
            for c in t.cas.iter_mut() { c.objs.remove(0); }
            let pre: Vec<(u32, u8)> = (0..2 * lv as u32).map(|i| (ip(10, i as u8, 0, 0), 16)).collect();
            for i in 0..lv {
                let mut k = 0;
                for o in t.cas[i].objs.iter_mut() {
                    o.skip = vec!["v2"];
                    let gone = 2 * i + k;
                    k += 1;
                    o.res = Some(Res { v4: Rs::L(pre.iter().enumerate().filter(|(j, _)| *j != gone).map(|x| *x.1).collect()), v6: Rs::No, asn: Rs::No });
                }
            }
            t.build()
        }));
    }
    // loops with other SIA entries
    type Sia = (String, String, Option<String>);
    let here = |d: &str, m: &str| -> Sia { (format!("rsync://rsync0.example/repo/{d}/"), format!("rsync://rsync0.example/repo/{m}"), Some(notif_uri(0))) };
    let sias: Vec<(&str, Sia)> = vec![
        ("manifest of the parent", here("ca1", "ca0/ca0.mft")), ("directory of the parent", here("ca0", "ca1/ca1.mft")), ("all of the parent", here("ca0", "ca0/ca0.mft")), ("missing manifest", here("ca1", "ca1/no.mft")),
        ("manifest is a directory", here("ca1", "ca1/")), ("manifest is the certificate", here("ca1", "ca0/c1-0.cer")), ("manifest is the CRL", here("ca1", "ca1/ca1.crl")),
    ];
    for (n, s) in sias {
        // the objects of the CA cannot be validated like this: some issue is due
        add(format!("child with SIA: {n}"), bad(""), Box::new(move || { let mut t = graph(2, &[(0, 1, 1)], &[0], 10); t.cas[0].objs[1].sia = Some(s.clone()); t.build() }));
    }
    add("same key, SIA of the parent".into(), ok(), Box::new(move || { let mut t = graph(2, &[(0, 1, 1)], &[0], 10); t.cas[1].key = 0; let x = &t.cas[0]; t.cas[0].objs[1].sia = Some((x.dir.clone(), format!("{}{}", x.dir, x.mft.obj.file), Some(notif_uri(0)))); t.build() }));
    // file names on manifests
    let names: Vec<(String, &'static str)> = ["", " ", "a b.roa", ".", "..", "../x.roa", "x/../y.roa", "./a.roa", "a/b.roa", "/abs.roa", "//a.roa", "a//b.roa", "a.roa/", "a?b.roa", "a#b.roa", "a%2fb.roa", "a\\b.roa", "a\"b.roa", "<a>.roa", "rsync://rsync0.example/repo/ca0/z.roa", "noextension", "a.xyz", ".roa", "roa", "a.roa.", "a\n.roa", "a\0.roa", "a\u{7f}.roa", "\u{e4}.roa", "{}", "{:?}", "%s%n", "'", "`", "|", "^"].iter().map(|n| (n.to_string(), if n.is_empty() { "empty" } else { "" })).chain([("x".repeat(5000) + ".roa", "long name"), ("a/".repeat(2000) + "b.roa", "deep name"), ("../".repeat(2000) + "b.roa", "name far up")]).collect();
    for (n, t) in names {
        let show = if t.is_empty() { format!("{n:?}") } else { t.to_string() };
        let n1 = n.clone();
        add(format!("manifest lists {show}"), bad(""), Box::new(move || { let mut t = graph(2, &[(0, 1, 1)], &[0], 10); t.cas[1].mft.more.push((n1.clone(), vec![7; 32])); t.build() }));
        let n2 = n.clone();
        add(format!("manifest lists {show}, and nothing is wrong otherwise, hash of a ROA"), bad(""), Box::new(move || { let mut t = graph(2, &[(0, 1, 1)], &[0], 10); let u = format!("{}a.roa", t.cas[1].dir); let h = sha(&t.build().repos[0][&u]).to_vec(); t.cas[1].mft.more.push((n2.clone(), h)); t.build() }));
    }
    // objects that are there, under odd names
    for n in ["a", "ab", "abc", "roa", "cer", "-", ".r", ".ro", ".roa", "x.", "x..", "x.r", "x.ro", "x.roaa", "x.ROA", "a.b.c", "..roa", "...", "x.cer.roa", "x.roa.cer", "x.mft", "x.crl", "x.asa", "x.gbr", "x.xml", "ca1", "noextension", "x.roa~", "%", "x%", "%72oa", "x.%72oa", "x.r%6fa", "~", "+", "=", "a,b", "a;b.roa", "a:b.roa", "$.roa", "(x).roa", "!", "*.roa"] {
        for k in 0..3 {
            add(format!("object named {n}{}", ["", " that is no object", " of another CA"][k]), Want { issues: None, seen: Some(true), about: None }, Box::new(move || {
                let mut t = graph(2, &[(0, 1, 1)], &[0], 10);
                let mut o = roa(n);
                o.serial = 999;
                match k { 1 => o.kind = Kind::Raw(vec![0x30]), 2 => o.of = Some(0), _ => {} }
                t.cas[1].objs.push(o);
                let mut b = t.build();
                b.mtimes = vec![BTreeMap::new(); 3];
                b
            }));
        }
    }
    for n in if thorough { vec![3000, 20000] } else { vec![3000] } { add(format!("manifest with {n} entries that do not exist"), bad(""), Box::new(move || { let mut t = graph(2, &[(0, 1, 1)], &[0], 10); for i in 0..n { t.cas[1].mft.more.push((format!("x{i}.roa"), vec![7; 32])); } t.build() })); }
    // deeply nested encodings
    let depth = if thorough { vec![100, 3_000, 50_000, 1_000_000] } else { vec![100, 20_000, 300_000] };
    for n in depth {
        for tag in [0x30u8, 0x24, 0x23, 0xa0, 0x31] { for closed in [true, false] {
            let mut b = [tag, 0x80].repeat(n);
            if closed { b.extend(vec![0; 2 * n]); }
            for f in ["z.roa", "z.asa", "z.cer", "z.crl", "z.mft", "z.gbr", "z.bin", "child.cer", "ca1.crl", "ca1.mft"] {
                if !thorough && (f.len() + n + tag as usize + closed as usize) % 3 > 0 && f != "z.roa" && f != "ca1.crl" { continue; }
                let b = b.clone();
                let want = if f == "z.gbr" { ok() } else { bad("") };
                add(format!("{f} of {n} nested {tag:#x}, {}", if closed { "closed" } else { "open" }), want, Box::new(move || {
                    let mut t = graph(2, &[(0, 1, 1)], &[0], 10);
                    let a = Some(crate::pki::Alt::Data(b.clone()));
                    match f { "ca1.crl" => t.cas[1].crl.alt = a, "ca1.mft" => t.cas[1].mft.obj.alt = a, "child.cer" => t.cas[0].objs[1].alt = a, _ => { let mut o = roa(f); o.kind = Kind::Raw(b.clone()); t.cas[1].objs.push(o); } }
                    t.build()
                }));
            }
        } }
        for m in [false, true] {
            let want = Want { issues: None, seen: Some(true), about: None };
            add(format!("{} with content nested {n} deep", if m { "manifest" } else { "ROA" }), want, Box::new(move || { let mut t = graph(2, &[(0, 1, 1)], &[0], 10); if m { t.cas[1].mft.obj.nest = n; } else { t.cas[1].objs[0].nest = n; } let mut b = t.build(); b.mtimes = vec![BTreeMap::new(); 3]; b }));
        }
    }
    // several TALs
    for reject in [true, false] {
        l.push(Case { id: format!("the same TAL three times, {reject}"), make: Box::new(move || graph(3, &[(0, 1, 2), (1, 2, 2), (2, 1, 1)], &[0], 10).build()), want: ok(), reject, tals: 3 });
        l.push(Case { id: format!("the same TAL three times, defect, {reject}"), make: Box::new(move || { let mut t = graph(3, &[(0, 1, 2), (1, 2, 2), (2, 1, 1)], &[0], 10); t.cas[2].objs[0].missing = true; t.build() }), want: bad("a.roa"), reject, tals: 3 });
    }
    l
}
pub fn graphs(cx: &Cx) {
    let l = cases(cx.thorough);
    let total = l.len();
    let l = &l;
    // the slow ones first
    let mut order: Vec<usize> = (0..total).collect();
    order.sort_by_key(|i| (l[*i].id.starts_with("graph"), *i));
    cx.par(order, |w, i| {
        let c = &l[i];
        if !cx.case(&c.id) { return; }
        if cx.over() { cx.capped("graphs"); return; }
        let sc = scene_of(&format!("graphs/{i}"), &[(c.make)()]);
        let s = Setup { name: sc.u.name.clone(), u: sc.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
        let mut st = St::init(&s);
        st.now = T0 + 2 * H;
        w.installed.clear();
        enter(w, &s, &st);
        let mut g = st.g.clone();
        let mut cfg = val_cfg(c.reject);
        for _ in 1..c.tals { cfg.tals.push(TAL.into()); }
        let mut v = vec![];
        let t = std::time::Instant::now();
        let o = vrun(cx, w, &sc, &cfg, 0, Plan { files: sc.srv[0].clone(), ..Default::default() }, &mut g, "C17", &mut v);
        let dt = t.elapsed().as_secs_f64();
        let r = if o.exit.hung || o.exit.signal.is_some() || o.exit.code == Some(101) { v.retain(|x| x.props == ["*"]); "no regular end".into() } else { judge(&o, &cfg, &c.want, "C17", &mut v) };
        if cx.verbose && dt > 2.0 { eprintln!("{dt:.1} s: {}", c.id); }
        cx.outcome(&format!("graphs: {r}").chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect::<String>().replace("##", "#"));
        { let mut z = cx.st.lock().unwrap(); z.cases += 1; if z.samples.len() < 8 && i % 97 == 13 { z.samples.push(format!("{}: {r}", c.id)); } }
        for y in &v { cx.report(y, vec![c.id.clone(), format!("wanted {:?}: {r}", c.want)], json!({"campaign": "graphs", "case": c.id})); }
    });
    cx.campaign("graphs", json!({"cases": total, "graphs": l.iter().filter(|c| c.id.starts_with("graph")).count()}));
}

/// every byte of what is signed, altered before it is signed
pub fn bytes(cx: &Cx) {
    let base = || chain(&[Some(0), Some(0)], T0);
    let b = base().build();
    // name, bytes, kind of alteration
    let mut targets: Vec<(&str, usize, Vec<u8>)> = vec![];
    for (f, c) in [("a.roa", 1), ("b.roa", 1), ("c.asa", 1), ("ca1.mft", 1)] {
        let u = format!("{}{f}", base().cas[c].dir);
        let (o, r) = (&b.repos[0][&u], &b.signed[&u]);
        targets.push((f, 0, o[r[0].0..r[0].1].to_vec()));
        if f == "a.roa" || f == "ca1.mft" { targets.push((f, 1, o[r[1].0..r[1].1].to_vec())); }
    }
    for (f, c) in [("r.cer", 1), ("child.cer", 0), ("ca1.crl", 1)] {
        let u = format!("{}{f}", base().cas[c].dir);
        let (o, r) = (&b.repos[0][&u], &b.signed[&u]);
        targets.push((f, 1, o[r[0].0..r[0].1].to_vec()));
    }
    // certificate: header, then what is to be signed
    let n = u16::from_be_bytes([b.ta[6], b.ta[7]]) as usize + 4;
    targets.push(("TA", 1, b.ta[4..4 + n].to_vec()));
    let mut cases = vec![];
    for (f, part, data) in &targets {
        // modulus
        let skip = data.windows(12).position(|w| w == [0x30, 0x82, 1, 0x0a, 2, 0x82, 1, 1, 0, w[9], w[10], w[11]]).map(|p| (p + 10, p + 260)).unwrap_or((0, 0));
        for p in 0..data.len() {
            if p >= skip.0 && p < skip.1 { continue; }
            let o = data[p];
            let mut vals: Vec<u8> = match (cx.thorough, *part == 0 && data.len() < 100) { (true, true) => (0..=255).collect(), (true, false) => vec![o ^ 1, o ^ 0x80, o ^ 0x20, o.wrapping_add(1), 0, 0xff, 0x80, 0x7f], (false, true) => vec![o ^ 1, o ^ 0x80, 0xff, 0], (false, false) => vec![o ^ 1] };
            vals.retain(|x| *x != o);
            vals.sort();
            vals.dedup();
            for x in vals { cases.push((*f, *part, p, x)); }
        }
    }
    let total = cases.len();
    cx.par(cases, |w, (f, part, p, x)| {
        let id = format!("{f}, {} byte {p} is {x:#x}", if part == 0 { "content" } else { "signed part" });
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("bytes"); return; }
        let mut t = base();
        let a = Some(crate::pki::Alt::Set(p, x));
        match f {
            "TA" => t.ta_tbs = a,
            "ca1.crl" => t.cas[1].crl.tbs = a,
            _ => {
                let o = if f == "ca1.mft" { &mut t.cas[1].mft.obj } else { let c = if f == "child.cer" { 0 } else { 1 }; t.cas[c].objs.iter_mut().find(|o| o.file == f).unwrap() };
                if part == 0 { o.inner = a; } else { o.tbs = a; }
            }
        }
        let sc = scene_of(&id, &[t.build()]);
        let s = Setup { name: sc.u.name.clone(), u: sc.u.clone(), cfgs: Arc::new(vec![]), foreign: Arc::new(vec![]), from: Default::default() };
        let mut st = St::init(&s);
        st.now = T0 + 2 * H;
        w.installed.clear();
        enter(w, &s, &st);
        let mut g = st.g.clone();
        let cfg = val_cfg(false);
        let mut v = vec![];
        let o = vrun(cx, w, &sc, &cfg, 0, Plan { files: sc.srv[0].clone(), ..Default::default() }, &mut g, "C17", &mut v);
        // the location of a repository may have been altered
        v.retain(|x| !x.msg.ends_with("was looked up"));
        let regular = !o.exit.hung && o.exit.signal.is_none() && o.exit.code != Some(101);
        let r = if !regular { v.retain(|x| x.props == ["*"]); "no regular end".into() }
            else if f == "TA" && !o.exit.ok() { "failed".to_string() }
            else { judge(&o, &cfg, &Want { issues: None, seen: None, about: None }, "C17", &mut v) };
        cx.outcome(&format!("bytes, {f}: {}", if r.starts_with("0 ") { "no issue" } else if r.contains("issues") { "issues" } else { &r }));
        { let mut z = cx.st.lock().unwrap(); z.cases += 1; if z.samples.len() < 8 && p % 37 == 13 { z.samples.push(format!("{id}: {r}")); } }
        for y in &v { cx.report(y, vec![id.clone(), r.clone()], json!({"campaign": "bytes", "case": id})); }
    });
    cx.campaign("bytes", json!({"cases": total, "parts": targets.iter().map(|t| format!("{} {}: {} bytes", t.0, if t.1 == 0 { "content" } else { "signed part" }, t.2.len())).collect::<Vec<_>>()}));
}
