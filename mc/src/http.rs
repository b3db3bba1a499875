//! https sources: responses (C23), certificates, redirects and the mapping of URIs (C12).
use crate::corrupt::seen;
use crate::cx::*;
use crate::engine::*;
use crate::hist::*;
use crate::https::*;
use crate::proc::*;
use crate::setups::*;
use crate::up::*;
use crate::world::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const SRC: &str = "https://src.example/deep/r/";
/// make krill-sync connect to our server and trust our CA
pub fn online(cx: &Cx, w: &mut World) -> Arc<Server> {
    let s = w.http.get_or_insert_with(Server::start).clone();
    let ca = format!("{}/ca.pem", cx.work);
    if !std::path::Path::new(&ca).exists() { let t = format!("{ca}.{}", w.id); std::fs::write(&t, &pki().ca_pem).unwrap(); std::fs::rename(&t, &ca).unwrap(); }
    w.extra_env = vec![("MC_PORT".into(), s.port.to_string()), ("SSL_CERT_FILE".into(), ca), ("SSL_CERT_DIR".into(), format!("{}/no-certs", cx.work))];
    s
}
/// where the files of a configuration come from: host and path
pub fn base_of(c: &Cfg) -> String { match &c.source { Source::Uri(u) => u.clone(), _ => c.base().to_string() }.strip_prefix("https://").unwrap().to_string() }
pub fn plan_for(c: &Cfg, v: &Ver) -> Plan {
    let b = base_of(c);
    Plan { files: v.files.iter().map(|(k, f)| (format!("{b}{k}"), f.clone())).collect(), etag: true, ..Default::default() }
}
struct Outcome { exit: Exit, hits: Vec<Hit>, kind: &'static str }
struct Want { must_fail: bool, must_ok: bool, tag: &'static str }
/// one run against the planned server; judge
#[allow(clippy::too_many_arguments)]
fn run(cx: &Cx, w: &mut World, s: &Setup, cfg: &Cfg, ver: usize, plan: Plan, g: &mut Ghost, want: Want, hosts: &[&str], v: &mut Vec<Viol>) -> Outcome {
    let srv = online(cx, w);
    if plan.fast > 1 { w.extra_env.push(("MC_FAST".into(), plan.fast.to_string())); }
    srv.set(plan);
    let before = w.img.clone();
    let gb = g.clone();
    let mut net: BTreeSet<String> = BTreeSet::new();
    let cfgs = [cfg.clone()];
    let out = run_step_with(w, &s.u, &cfgs, &Step { ver, mode: Mode::Watch, ..Default::default() }, g, RunOpts::default(), &mut |_, r| {
        if r.op == Op::Resolve { net.insert(r.p1.clone()); }
        if r.op == Op::Connect && r.a == 0 { net.insert(r.p1.clone()); }
    });
    let hits = srv.log();
    let up = &s.u.vers[ver];
    let tag = want.tag;
    for mut y in out.viols { if y.props != ["C16"] { y.props.push(tag); v.push(y); } }
    let mut add = |m: String| v.push(Viol { props: vec![tag], msg: m });
    if out.exit.hung { add("the run does not end".into()); }
    else if out.exit.signal.is_some() || out.exit.code == Some(101) { add(format!("crashed: {}", out.exit.text())); }
    if let Some(h) = net.iter().find(|h| !hosts.contains(&h.as_str())) { add(format!("{h} was looked up, only {hosts:?} are expected")); }
    let uptodate = gb.published(cfg) == Some((up.session.clone(), up.serial));
    let same = || -> bool { image_diff(&part(&before, &[&cfg.rrdp, &cfg.rsync]), &part(&w.img, &[&cfg.rrdp, &cfg.rsync])).iter().all(|m| m.starts_with("added") && m.contains(&format!(" {}/", cfg.rrdp))) && seen(g, cfg) == seen(&gb, cfg) };
    let kind;
    if out.exit.ok() {
        kind = if uptodate { "no-op" } else { "published" };
        if want.must_fail && !uptodate { add("the run must fail, but it was successful".into()); }
        if uptodate { if !same() { add("published data changed without an upstream change".into()); } }
        else {
            let mut y = vec![];
            check_synced(&w.img, g, cfg, &s.u, ver, gb.notif(cfg).as_deref(), &mut y, &[]);
            for z in y { if z.props != ["C16"] { v.push(Viol { props: vec![tag, "C03"], msg: format!("the run was successful, but: {}", z.msg) }); } }
        }
    } else {
        kind = "failed";
        if want.must_ok { add(format!("the run must be successful, but it failed: {}", out.exit.text())); }
        if out.exit.err.trim().is_empty() { add("failed without a message".into()); }
        if !same() { add(format!("the run failed, but published data changed ({})", out.exit.text())); }
    }
    let mut z = cx.st.lock().unwrap();
    let mut b = image_hash(&w.img).to_vec();
    b.extend(g.key());
    b.extend(hits.iter().map(|h| h.url()).collect::<String>().bytes());
    z.states.insert(sha(&b));
    z.transitions += 1;
    z.compared += 1;
    z.instants += out.bounds;
    z.ops += out.nops;
    *z.outcomes.entry(format!("{}: {kind}", if tag == "C23" { "http" } else { "tls" })).or_default() += 1;
    Outcome { exit: out.exit, hits, kind }
}
fn done(cx: &Cx, name: &str, id: &str, i: usize, path: &[String], v: &[Viol]) {
    { let mut z = cx.st.lock().unwrap(); z.cases += 1; if z.samples.len() < 8 && i % 37 == 11 { z.samples.push(format!("{id}: {}", path.join(" ; "))); } }
    for y in v { cx.report(y, path.to_vec(), json!({"campaign": name, "case": id})); }
}
fn host_of(c: &Cfg) -> String { base_of(c).split('/').next().unwrap().split(':').next().unwrap().to_string() }

// ---- C23

/// what is wrong with a response: name, must the run fail, is it fine
fn responses(file: &[u8], other: &[u8], url: &str, thorough: bool) -> Vec<(String, bool, bool, Resp)> {
    let n = file.len();
    let mut l: Vec<(String, bool, bool, Resp)> = vec![];
    let h = |k: &str, v: &str| vec![(k.to_string(), v.to_string())];
    for c in [201u16, 202, 203, 204, 205, 206, 226, 300, 304, 305, 400, 401, 403, 404, 405, 407, 408, 410, 412, 416, 418, 421, 425, 426, 429, 451, 500, 501, 502, 503, 504, 507, 511, 599] {
        l.push((format!("{c}+file"), true, false, Resp::Status(c, vec![], Body::File)));
        if [204, 304, 404, 500, 503, 206, 403, 429].contains(&c) || thorough { l.push((format!("{c}+empty"), true, false, Resp::Status(c, vec![], Body::Data(vec![])))); l.push((format!("{c}+page"), true, false, Resp::Status(c, h("Content-Type", "text/html"), Body::Data(b"<html><body>sorry</body></html>".to_vec())))); }
    }
    l.push(("304+etag".into(), true, false, Resp::Status(304, h("ETag", &etag(file)), Body::File)));
    l.push(("304+etag of other".into(), true, false, Resp::Status(304, h("ETag", "\"0123456789abcdef\""), Body::File)));
    l.push(("206+range".into(), true, false, Resp::Status(206, h("Content-Range", &format!("bytes 0-{}/{n}", n / 2 - 1)), Body::Data(file[..n / 2].to_vec()))));
    for c in [301u16, 302, 303, 307, 308] {
        l.push((format!("{c} without location"), true, false, Resp::Status(c, vec![], Body::File)));
        l.push((format!("{c} to itself"), true, false, Resp::Status(c, h("Location", url), Body::File)));
        l.push((format!("{c} to nowhere"), true, false, Resp::Status(c, h("Location", &format!("{url}.missing")), Body::File)));
        l.push((format!("{c} to bad URL"), true, false, Resp::Status(c, h("Location", "http://["), Body::File)));
    }
    l.push(("503+retry".into(), true, false, Resp::Status(503, h("Retry-After", "1"), Body::File)));
    l.push(("200 empty".into(), true, false, Resp::Status(200, vec![], Body::Data(vec![]))));
    l.push(("200 page".into(), true, false, Resp::Status(200, vec![], Body::Data(b"<html><body>maintenance</body></html>".to_vec()))));
    l.push(("200 other file".into(), true, false, Resp::Status(200, vec![], Body::Data(other.to_vec()))));
    l.push(("200 twice".into(), true, false, Resp::Status(200, vec![], Body::Data([file, file].concat()))));
    l.push(("200 gzip".into(), true, false, Resp::Status(200, h("Content-Encoding", "gzip"), Body::Data(vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0]))));
    let full = head(200, &[], Some(n));
    let cuts: Vec<usize> = if thorough { (0..n - 3).step_by((n / 40).max(1)).chain([n - 3]).collect() } else { vec![0, 1, n / 2, n - 3] };
    for c in cuts { for (t, clean) in [("close_notify", true), ("no close_notify", false)] {
        l.push((format!("200 cut at {c}, {t}"), true, false, Resp::Raw([&full[..], &file[..c]].concat(), clean)));
        l.push((format!("200 without length cut at {c}, {t}"), true, false, Resp::Raw([&head(200, &[], None)[..], &file[..c]].concat(), clean)));
        l.push((format!("200 chunked cut at {c}, {t}"), true, false, Resp::Raw([b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n", format!("{n:x}\r\n").as_bytes(), &file[..c]].concat(), clean)));
    } }
    l.push(("200 chunked without end".into(), true, false, Resp::Raw([b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n", format!("{n:x}\r\n").as_bytes(), file, b"\r\n"].concat(), true)));
    l.push(("200 longer length".into(), true, false, Resp::Raw([&head(200, &[], Some(n + 10))[..], file].concat(), true)));
    l.push(("200 shorter length".into(), true, false, Resp::Raw([&head(200, &[], Some(n - 5))[..], file].concat(), true)));
    for (k, c) in [("status line", 9), ("header", 20), ("all headers but the end", full.len() - 2)] { l.push((format!("closed in {k}"), true, false, Resp::Raw(full[..c].to_vec(), true))); }
    l.push(("closed".into(), true, false, Resp::Close));
    l.push(("garbage".into(), true, false, Resp::Raw(b"\x00\x01\x02 not http\r\n\r\n".to_vec(), true)));
    l.push(("just the file".into(), true, false, Resp::Raw(file.to_vec(), true)));
    l.push(("bad length".into(), true, false, Resp::Raw([b"HTTP/1.1 200 OK\r\nContent-Length: -1\r\nConnection: close\r\n\r\n", file].concat(), true)));
    // proper ones
    l.push(("200 chunked".into(), false, true, Resp::Raw([b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n", format!("{:x}\r\n", n / 2).as_bytes(), &file[..n / 2], format!("\r\n{:x}\r\n", n - n / 2).as_bytes(), &file[n / 2..], b"\r\n0\r\n\r\n"].concat(), true)));
    l.push(("200 without length".into(), false, true, Resp::Raw([&head(200, &[], None)[..], file].concat(), true)));
    l.push(("200 with more headers".into(), false, true, Resp::Status(200, vec![("content-type".into(), "text/plain".into()), ("eTaG".into(), "W/\"weak\"".into()), ("Last-Modified".into(), "Wed, 21 Oct 2015 07:28:00 GMT".into()), ("Cache-Control".into(), "no-store".into()), ("X-Long".into(), "x".repeat(3000))], Body::File)));
    l.push(("200 after 100".into(), false, false, Resp::Raw([b"HTTP/1.1 100 Continue\r\n\r\n", &full[..], file].concat(), true)));
    l.push(("200 after 103".into(), false, false, Resp::Raw([b"HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n", &full[..], file].concat(), true)));
    l.push(("HTTP/1.0".into(), false, true, Resp::Raw([b"HTTP/1.0 200 OK\r\n\r\n", file].concat(), true)));
    l.push(("200 bad etag".into(), false, false, Resp::Raw([format!("HTTP/1.1 200 OK\r\nETag: \"\u{e9}\"\r\nContent-Length: {n}\r\nConnection: close\r\n\r\n").as_bytes(), file].concat(), true)));
    l
}
/// what was left by an earlier run
#[derive(Clone, Copy, Debug, PartialEq)]
enum Left { Nothing, Failed, Altered, Cut, Other }

pub fn http(cx: &Cx) {
    let mut s = setup("basic");
    s.name = "http".into();
    let t = |v: &str| Step { ver: s.u.ix(v), cfg: 0, ..Default::default() };
    let mut w = cx.world();
    let hist: &[(&str, &[&str])] = &[("nothing", &[]), ("A1", &["A1"]), ("A2", &["A1", "A2"]), ("B1", &["B1"]), ("A3", &["A3"])];
    let priors: Vec<(&str, St)> = hist.iter().map(|(n, h)| (*n, walk(cx, &mut w, &s, &St::init(&s), &h.iter().map(|v| t(v)).collect::<Vec<_>>(), "prefix"))).collect();
    cx.give(w);
    let a2 = s.u.ix("A2");
    let direct = Cfg { source: Source::Direct, ..Cfg::default() }.n("no source base");
    let mapped = Cfg { source: Source::Uri(SRC.into()), ..Cfg::default() }.n("https source base");
    let forms = [direct, mapped];
    let up = s.u.vers[a2].clone();
    let mut roles: Vec<(String, String)> = vec![("notification".into(), up.notif_name.clone()), ("snapshot".into(), up.snap.0.clone())];
    for d in &up.deltas { roles.push((format!("delta {}", d.0), d.1.clone())); }
    // (prior, left, form, role, response)
    let mut cases: Vec<(usize, Left, usize, usize, usize)> = vec![];
    let nresp = responses(up.notif(), &up.files[&up.snap.0], "https://x/", cx.thorough).len();
    for prior in 0..priors.len() { for form in 0..2 { for role in 0..roles.len() { for r in 0..nresp {
        // not requested, as it is published
        if role == 2 && (1..3).contains(&prior) || role > 0 && prior == 2 { continue; }
        for left in [Left::Nothing, Left::Failed, Left::Altered, Left::Cut, Left::Other] {
            if !cx.thorough && (form == 0) != ((prior + role + r) % 3 == 0) { continue; }
            if left != Left::Nothing && (prior > 1 || !(cx.thorough || (r + role) % 4 == left as usize - 1 || matches!(left, Left::Altered) && r < 30)) { continue; }
            if prior == 4 && role > 0 && !cx.thorough { continue; }
            cases.push((prior, left, form, role, r));
        }
    } } } }
    let total = cases.len();
    let (s, priors, forms, roles, up) = (&s, &priors, &forms, &roles, &up);
    let names: Vec<String> = responses(up.notif(), &up.files[&up.snap.0], "https://x/", cx.thorough).into_iter().map(|x| x.0).collect();
    cx.par(cases.into_iter().enumerate().collect(), |w, (i, (prior, left, form, role, r))| {
        let cfg = &forms[form];
        let rel = &roles[role].1;
        let file = &up.files[rel];
        let other = if role == 0 { &up.files[&up.snap.0] } else { up.notif() };
        let (rn, bad, fine, resp) = responses(file, other, &format!("https://{}{rel}", base_of(cfg)), cx.thorough).swap_remove(r);
        let id = format!("{}/{left:?}/{form}/{}/{r}", priors[prior].0, roles[role].0);
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("http responses"); return; }
        let st = &priors[prior].1;
        enter(w, s, st);
        let mut g = st.g.clone();
        let mut v = vec![];
        let mut path = vec![format!("published before: {}", priors[prior].0), cfg.name.clone()];
        if left != Left::Nothing {
            // the last file fails
            let mut p = plan_for(cfg, up);
            let last = up.deltas.last().unwrap().1.clone();
            p.resp.insert(format!("{}{last}", base_of(cfg)), vec![(None, Resp::Status(404, vec![], Body::Data(vec![])))]);
            let o = run(cx, w, s, cfg, a2, p, &mut g, Want { must_fail: true, must_ok: false, tag: "C23" }, &[&host_of(cfg)], &mut v);
            path.push(format!("A2 with the last delta missing: {}", o.kind));
            // whatever it left is damaged (or what it did not get, is there)
            for (rel2, b) in &up.files {
                let p = format!("{}/pre-validate-staging/{rel2}", cfg.state);
                let there = w.img.contains_key(&p);
                match left {
                    Left::Altered => { let mut x = String::from_utf8(b.to_vec()).unwrap(); if let Some(k) = x.rfind("</") { x.insert_str(k, " "); } w.write_file(&p, x.as_bytes()); }
                    Left::Cut if there => w.write_file(&p, &b[..b.len() / 2]),
                    Left::Other => { let o = &s.u.vers[s.u.ix("A3")]; if let Some(y) = o.files.get(rel2) { w.write_file(&p, y); } else { w.write_file(&p, &o.files[&o.snap.0]); } }
                    _ => {}
                }
            }
            if left != Left::Failed { path.push(format!("staged files: {left:?}")); }
        }
        let mut p = plan_for(cfg, up);
        if i % 5 == 4 { p.etag = false; }
        p.resp.insert(format!("{}{rel}", base_of(cfg)), vec![(None, resp)]);
        // files which are staged already need not be retrieved
        let staged = role > 0 && matches!(w.img.get(&format!("{}/pre-validate-staging/{rel}", cfg.state)), Some(Ent::File(f)) if f.bytes == **file);
        let behind = prior == 4;
        let o = run(cx, w, s, cfg, a2, p, &mut g, Want { must_fail: bad && !staged || behind, must_ok: (fine || staged) && !behind, tag: "C23" }, &[&host_of(cfg)], &mut v);
        path.push(format!("A2, {} answered with {rn}: {}", roles[role].0, o.kind));
        if !staged && !behind && !o.hits.iter().any(|h| h.url() == format!("https://{}{rel}", base_of(cfg))) && o.exit.ok() { v.push(Viol { props: vec!["C23"], msg: format!("{rel} was not retrieved") }); }
        if !behind {
            let o = run(cx, w, s, cfg, a2, plan_for(cfg, up), &mut g, Want { must_fail: false, must_ok: true, tag: "C23" }, &[&host_of(cfg)], &mut v);
            path.push(format!("A2, healthy: {}", o.kind));
        }
        let a4 = s.u.ix("A4");
        let o = run(cx, w, s, cfg, a4, plan_for(cfg, &s.u.vers[a4]), &mut g, Want { must_fail: false, must_ok: true, tag: "C23" }, &[&host_of(cfg)], &mut v);
        path.push(format!("A4, healthy: {}", o.kind));
        done(cx, "http", &id, i, &path, &v);
    });
    cx.campaign("http", json!({"cases": total, "responses": names, "files": roles.iter().map(|r| r.0.clone()).collect::<Vec<_>>(), "published_before": priors.iter().map(|p| p.0).collect::<Vec<_>>(), "left_by_earlier_runs": ["nothing", "files of a failed run", "altered", "cut", "of another version"]}));
}

/// A server that stops in the middle, and leaves the connection open. Time goes faster for krill-sync
/// in these runs.
pub fn stalls(cx: &Cx) {
    let mut s = setup("basic");
    s.name = "stalls".into();
    let mut w = cx.world();
    let priors: Vec<(&str, St)> = [("nothing", vec![]), ("A1", vec!["A1"])].into_iter().map(|(n, h)| (n, walk(cx, &mut w, &s, &St::init(&s), &h.iter().map(|v: &&str| Step { ver: s.u.ix(v), cfg: 0, ..Default::default() }).collect::<Vec<_>>(), "prefix"))).collect();
    cx.give(w);
    let a2 = s.u.ix("A2");
    let up = s.u.vers[a2].clone();
    let forms = [Cfg { source: Source::Direct, ..Cfg::default() }.n("no source base"), Cfg { source: Source::Uri(SRC.into()), ..Cfg::default() }.n("https source base")];
    let roles = [("notification", up.notif_name.clone()), ("snapshot", up.snap.0.clone()), ("last delta", up.deltas.last().unwrap().1.clone())];
    let wheres = ["before the handshake", "before the response", "in the headers", "after the headers", "in the content", "before the last byte", "in a chunk"];
    let mut cases = vec![];
    for prior in 0..2 { for form in 0..2 { for role in 0..3 { for k in 0..wheres.len() { if cx.thorough || (prior + role + k) % 2 == form && (prior == 0 || k % 2 == 0) { cases.push((prior, form, role, k)); } } } } }
    let total = cases.len();
    let (s, priors, forms, roles, up) = (&s, &priors, &forms, &roles, &up);
    cx.par(cases.into_iter().enumerate().collect(), |w, (i, (prior, form, role, k))| {
        let cfg = &forms[form];
        let id = format!("{}/{form}/{role}/{k}", priors[prior].0);
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("stalls"); return; }
        let st = &priors[prior].1;
        enter(w, s, st);
        let mut g = st.g.clone();
        let mut v = vec![];
        let mut path = vec![format!("published before: {}", priors[prior].0), cfg.name.clone()];
        let mut p = plan_for(cfg, up);
        p.fast = 20;
        let f = &up.files[&roles[role].1];
        let head = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", f.len()).into_bytes();
        let r = match k {
            0 => { p.stall_conn = Some(role); None }
            1 => Some(vec![]),
            2 => Some(head[..20].to_vec()),
            3 => Some(head),
            4 => Some([&head[..], &f[..f.len() / 2]].concat()),
            5 => Some([&head[..], &f[..f.len() - 1]].concat()),
            _ => Some([format!("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n{:x}\r\n", f.len()).as_bytes(), &f[..]].concat()),
        };
        if let Some(r) = r { p.resp.insert(format!("{}{}", base_of(cfg), roles[role].1), vec![(None, Resp::Stall(r))]); }
        let o = run(cx, w, s, cfg, a2, p, &mut g, Want { must_fail: true, must_ok: false, tag: "C23" }, &[&host_of(cfg)], &mut v);
        path.push(format!("A2, server stops {} of the {}: {}", wheres[k], roles[role].0, o.kind));
        let o = run(cx, w, s, cfg, a2, plan_for(cfg, up), &mut g, Want { must_fail: false, must_ok: true, tag: "C23" }, &[&host_of(cfg)], &mut v);
        path.push(format!("A2, healthy: {}", o.kind));
        done(cx, "stalls", &id, i, &path, &v);
    });
    cx.campaign("stalls", json!({"cases": total, "where": wheres, "files": roles.iter().map(|r| r.0).collect::<Vec<_>>()}));
}
/// histories over https with a server that supports ETags
pub fn http_hist(cx: &Cx) {
    let mut s = setup("basic");
    s.name = "http_hist".into();
    let vers = ["A1", "A2", "A3", "B1"];
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum What { Fine, NoSnap, NoDelta, Bogus304, Error, NoEtag, Moved, Mirror }
    let mut alpha: Vec<(usize, What)> = vec![];
    for v in &vers { for x in [What::Fine, What::NoSnap] { alpha.push((s.u.ix(v), x)); } }
    for v in if cx.thorough { &vers[..3] } else { &vers[..2] } { alpha.push((s.u.ix(v), What::Mirror)); }
    for x in [What::NoDelta, What::Bogus304, What::Error, What::NoEtag, What::Moved] { alpha.push((s.u.ix("A2"), x)); alpha.push((s.u.ix("A3"), x)); }
    if !cx.thorough { alpha.retain(|(v, x)| !(s.u.vers[*v].label == "A3" && matches!(x, What::Error | What::NoEtag | What::Moved | What::NoDelta))); }
    let depth = 3;
    let n = alpha.len();
    // each item: two first steps, then all third ones from there
    let items: Vec<(usize, usize, usize)> = (0..2).flat_map(|f| (0..n).flat_map(move |a| (0..n).map(move |b| (f, a, b)))).filter(|(f, a, b)| cx.thorough || (a + b) % 2 == *f).collect();
    let total = items.len() * (n + 2);
    let (s, alpha) = (&s, &alpha);
    cx.par(items, |w, (form, a, b)| {
        let id = format!("{form}/{a}/{b}");
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("http histories"); return; }
        let both = [Cfg { source: Source::Direct, ..Cfg::default() }, Cfg { source: Source::Uri(SRC.into()), ..Cfg::default() }];
        let cfg = &both[form];
        // ETags are counted, by each of the two servers
        let counts: [Vec<String>; 2] = Default::default();
        let st0 = St::init(s);
        enter(w, s, &st0);
        let mut path = vec![cfg.base().to_string()];
        let mut v = vec![];
        let go = |w: &mut World, g: &mut Ghost, k: usize, v: &mut Vec<Viol>, path: &mut Vec<String>, counts: &mut [Vec<String>; 2]| {
            let (ver, what) = alpha[k];
            let up = &s.u.vers[ver];
            let server = if what == What::Mirror { 1 - form } else { form };
            let cfg = &both[server];
            let mut p = plan_for(cfg, up);
            let at = |rel: &str| format!("{}{rel}", base_of(cfg));
            let c = &mut counts[server];
            if !c.contains(&up.label) { c.push(up.label.clone()); }
            let tag = format!("\"{}\"", c.iter().position(|x| *x == up.label).unwrap() + 1);
            p.tags.insert(at(&up.notif_name), tag.clone());
            match what {
                What::Fine | What::Mirror => {}
                What::NoSnap => { p.files.remove(&at(&up.snap.0)); }
                What::NoDelta => { p.files.remove(&at(&up.deltas.last().unwrap().1)); }
                What::Bogus304 => { p.resp.insert(at(&up.notif_name), vec![(None, Resp::Status(304, vec![("ETag".into(), tag)], Body::Data(vec![])))]); }
                What::Error => { p.resp.insert(at(&up.notif_name), vec![(None, Resp::Status(500, vec![("ETag".into(), tag)], Body::File))]); }
                What::NoEtag => p.etag = false,
                // the notification is of this version, the files are not there yet
                What::Moved => { for (k, _) in &up.files { if *k != up.notif_name { p.files.remove(&at(k)); } } }
            }
            let held = g.published(cfg);
            let behind = matches!(&held, Some((x, n)) if *x == up.session && *n > up.serial);
            let cur = held == Some((up.session.clone(), up.serial));
            let staged = |rel: &str| matches!(w.img.get(&format!("{}/pre-validate-staging/{rel}", cfg.state)), Some(Ent::File(f)) if f.bytes == *up.files[rel]);
            let complete = up.files.keys().filter(|k| **k != up.notif_name).all(|k| p.files.contains_key(&at(k)) || staged(k) || up.deltas.iter().any(|d| d.1 == *k && matches!(&held, Some((x, n)) if *x == up.session && *n >= d.0)));
            let reach = !matches!(what, What::Bogus304 | What::Error);
            let _ = cur;
            let want = Want { must_fail: behind || !reach || !complete, must_ok: reach && !behind && (complete || cur), tag: "C23" };
            let o = run(cx, w, s, cfg, ver, p, g, want, &[&host_of(cfg)], v);
            path.push(format!("{} {what:?}: {}", up.label, o.kind));
        };
        let mut g = st0.g.clone();
        let mut counts = counts;
        go(w, &mut g, a, &mut v, &mut path, &mut counts);
        go(w, &mut g, b, &mut v, &mut path, &mut counts);
        done(cx, "http_hist", &id, a, &path, &v);
        let (img, now) = (w.img.clone(), w.now());
        for c in 0..alpha.len() {
            w.restore(&img);
            w.set_now(now);
            let mut g2 = g.clone();
            let (mut v, mut path) = (vec![], path.clone());
            go(w, &mut g2, c, &mut v, &mut path, &mut counts.clone());
            done(cx, "http_hist", &id, a + b + c, &path, &v);
        }
    });
    cx.campaign("http_hist", json!({"histories": total, "depth": depth, "alphabet": alpha.iter().map(|(v, x)| format!("{} {x:?}", s.u.vers[*v].label)).collect::<Vec<_>>()}));
}

// ---- C12

pub fn tls(cx: &Cx) {
    let mut s = setup("basic");
    s.name = "tls".into();
    let t = |v: &str| Step { ver: s.u.ix(v), cfg: 0, ..Default::default() };
    let mut w = cx.world();
    let priors: Vec<(&str, St)> = [("nothing", vec![]), ("A1", vec!["A1"])].into_iter().map(|(n, h)| (n, walk(cx, &mut w, &s, &St::init(&s), &h.iter().map(|v| t(v)).collect::<Vec<_>>(), "prefix"))).collect();
    cx.give(w);
    let a2 = s.u.ix("A2");
    let up = s.u.vers[a2].clone();
    let forms = [Cfg { source: Source::Direct, ..Cfg::default() }.n("no source base"), Cfg { source: Source::Uri(SRC.into()), ..Cfg::default() }.n("https source base")];
    // (certificate, connection or all)
    let mut cases = vec![];
    for prior in 0..2 { for form in 0..2 { for insecure in [false, true] { for (c, _) in CERTS { for at in [None, Some(0), Some(1), Some(2), Some(3)] {
        if prior == 1 && at == Some(3) { continue; }
        if !cx.thorough && (insecure || prior == 1) && at.is_some() && at != Some(1) { continue; }
        cases.push((prior, form, insecure, *c, at));
    } } } } }
    let total = cases.len();
    let (s, priors, forms, up) = (&s, &priors, &forms, &up);
    cx.par(cases.into_iter().enumerate().collect(), |w, (i, (prior, form, insecure, cert, at))| {
        let id = format!("cert/{}/{form}/{insecure}/{cert}/{at:?}", priors[prior].0);
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("certificates"); return; }
        let cfg = Cfg { insecure, ..forms[form].clone() };
        let st = &priors[prior].1;
        enter(w, s, st);
        let mut g = st.g.clone();
        let mut v = vec![];
        let bad = CERTS.iter().find(|x| x.0 == cert).unwrap().1;
        let mut p = plan_for(&cfg, up);
        p.certs = match at { None => vec![cert], Some(k) => { let mut c = vec!["good"; k]; c.push(cert); c.push("good"); c } };
        let host = host_of(&cfg);
        let o = run(cx, w, s, &cfg, a2, p, &mut g, Want { must_fail: bad && !insecure, must_ok: !bad || insecure, tag: "C12" }, &[&host], &mut v);
        let mut path = vec![format!("published before: {}", priors[prior].0), format!("{}{}", cfg.name, if insecure { ", insecure" } else { "" }), format!("A2 with certificate {cert} for {}: {}", at.map(|k| format!("connection {k}")).unwrap_or("all connections".into()), o.kind)];
        if bad && !insecure { if let Some(h) = o.hits.get(at.unwrap_or(0)) { if at.is_none() { v.push(Viol { props: vec!["C12"], msg: format!("{} was requested from a server with certificate {cert}", h.url()) }); } } }
        expected(&o, &cfg, up, &mut v);
        // good again; or it expires meanwhile
        if cert == "good-short" && !insecure && at.is_none() {
            w.add_ns(120_000_000_000);
            let a4 = s.u.ix("A4");
            let mut p = plan_for(&cfg, &s.u.vers[a4]);
            p.certs = vec![cert];
            let o = run(cx, w, s, &cfg, a4, p, &mut g, Want { must_fail: true, must_ok: false, tag: "C12" }, &[&host], &mut v);
            path.push(format!("A4 with the certificate expired: {}", o.kind));
        }
        let a4 = s.u.ix("A4");
        let o = run(cx, w, s, &cfg, a4, plan_for(&cfg, &s.u.vers[a4]), &mut g, Want { must_fail: false, must_ok: true, tag: "C12" }, &[&host], &mut v);
        path.push(format!("A4 with a good certificate: {}", o.kind));
        done(cx, "tls", &id, i, &path, &v);
    });
    cx.campaign("tls/certificates", json!({"cases": total, "certificates": CERTS.iter().map(|c| c.0).collect::<Vec<_>>(), "connections": ["all", "first", "second", "third", "fourth"], "modes": ["strict", "insecure"]}));
    hosts(cx, s, priors);
    redirects(cx, s, priors, forms);
    bases(cx, s, priors);
    mapped_uris(cx, s, priors, forms);
}
/// sources on hosts that one might want to trust more than others
const HOSTS: &[&str] = &["localhost", "localhost:8443", "mirror.localhost", "local", "src.local", "127.0.0.1", "127.0.0.1:8443", "src.example:8443", "SRC.Example"];
fn hosts(cx: &Cx, s: &Setup, priors: &[(&str, St)]) {
    let a2 = s.u.ix("A2");
    let certs = ["good", "self-signed", "other-ca", "expired", "wrong-name", "expired-and-wrong-name", "self-signed-expired"];
    let mut cases = vec![];
    for prior in 0..2 { for host in HOSTS { for cert in certs { for insecure in [false, true] { if prior == 0 || cx.thorough || cert == "self-signed" && !insecure { cases.push((prior, *host, cert, insecure)); } } } } }
    let total = cases.len();
    cx.par(cases.into_iter().enumerate().collect(), |w, (i, (prior, host, cert, insecure))| {
        let id = format!("host/{}/{host}/{cert}/{insecure}", priors[prior].0);
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("hosts"); return; }
        let cfg = Cfg { source: Source::Uri(format!("https://{host}/deep/r/")), insecure, ..Cfg::default() };
        let st = &priors[prior].1;
        enter(w, s, st);
        let mut g = st.g.clone();
        let mut v = vec![];
        let bad = CERTS.iter().find(|x| x.0 == cert).unwrap().1;
        let mut p = plan_for(&cfg, &s.u.vers[a2]);
        // as it is in the requests
        p.files = p.files.into_iter().map(|(k, f)| (k.to_lowercase(), f)).collect();
        p.certs = vec![cert];
        let h = host_of(&cfg).to_lowercase();
        let o = run(cx, w, s, &cfg, a2, p, &mut g, Want { must_fail: bad && !insecure, must_ok: !bad || insecure, tag: "C12" }, &[&h, &host_of(&cfg)], &mut v);
        if bad && !insecure { if let Some(h) = o.hits.first() { v.push(Viol { props: vec!["C12"], msg: format!("{} was requested from a server with certificate {cert}", h.url()) }); } }
        done(cx, "tls", &id, i, &[format!("published before: {}", priors[prior].0), format!("source at {host}{}", if insecure { ", insecure" } else { "" }), format!("A2 with certificate {cert}: {}", o.kind)], &v);
    });
    cx.campaign("tls/hosts", json!({"cases": total, "hosts": HOSTS, "certificates": certs}));
}
/// only files of this version, below the configured base
fn expected(o: &Outcome, cfg: &Cfg, up: &Ver, v: &mut Vec<Viol>) {
    let b = base_of(cfg);
    for h in &o.hits {
        let fine = h.tls && h.method == "GET" && up.files.keys().any(|k| format!("https://{b}{k}") == h.url()) && h.sni.as_deref().map(|n| n == host_of(cfg)).unwrap_or(true);
        if !fine { v.push(Viol { props: vec!["C12"], msg: format!("{} {} was requested, which is not a file of the source at https://{b}", h.method, h.url()) }); }
    }
}
fn redirects(cx: &Cx, s: &Setup, priors: &[(&str, St)], forms: &[Cfg; 2]) {
    let a2 = s.u.ix("A2");
    let up = &s.u.vers[a2];
    // (name, chain of locations; {h} the host of the source, {p} path of the file, must be refused unless insecure, may be refused)
    let chains: &[(&str, &[&str], bool)] = &[
        ("http, same host", &["http://{h}/{p}"], true),
        ("http, other host", &["http://alt.example/{p}"], true),
        ("http, with port", &["http://{h}:8080/{p}"], true),
        ("http with port 443", &["http://{h}:443/{p}"], true),
        ("HTTP in capitals", &["HTTP://{h}/{p}"], true),
        ("https other host, then http", &["https://alt.example/hop", "http://{h}/{p}"], true),
        ("https, then http, then https", &["https://{h}/hop", "http://{h}/hop2", "https://{h}/{p}x"], true),
        ("http, then https", &["http://{h}/hop", "https://{h}/{p}x"], true),
        ("ftp", &["ftp://{h}/{p}"], true),
        ("file", &["file:///etc/passwd"], true),
        ("endless", &["https://{h}/hop", "https://{h}/hop"], true),
        ("https, other path", &["https://{h}/{p}x"], false),
        ("https, other host", &["https://alt.example/{p}"], false),
        ("relative", &["/{p}x"], false),
        ("two https hops", &["https://{h}/hop", "https://alt.example/{p}"], false),
        ("empty", &[""], true),
    ];
    let rel: Vec<String> = std::iter::once(up.notif_name.clone()).chain([up.snap.0.clone(), up.deltas.last().unwrap().1.clone()]).collect();
    let mut cases = vec![];
    for prior in 0..2 { for form in 0..2 { for insecure in [false, true] { for role in 0..3 { for chain in 0..chains.len() { for code in [301u16, 302, 303, 307, 308] {
        for badcert in [false, true] {
            if !cx.thorough && (code != 302 && (prior == 1 || insecure || badcert) || prior == 1 && insecure) { continue; }
            cases.push((prior, form, insecure, role, chain, code, badcert));
        }
    } } } } } }
    let total = cases.len();
    let rel = &rel;
    cx.par(cases.into_iter().enumerate().collect(), |w, (i, (prior, form, insecure, role, chain, code, badcert))| {
        let id = format!("redirect/{}/{form}/{insecure}/{role}/{chain}/{code}/{badcert}", priors[prior].0);
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("redirects"); return; }
        let cfg = Cfg { insecure, ..forms[form].clone() };
        let st = &priors[prior].1;
        enter(w, s, st);
        let mut g = st.g.clone();
        let mut v = vec![];
        let host = host_of(&cfg);
        let b = base_of(&cfg);
        let full = format!("{b}{}", rel[role]);
        let pth = full.split_once('/').unwrap().1.to_string();
        let mut p = plan_for(&cfg, up);
        let mut from = full.clone();
        let (name, chain, refuse) = chains[chain];
        for l in chain {
            let l = l.replace("{h}", &host).replace("{p}", &pth);
            let r = (None, Resp::Status(code, vec![("Location".into(), l.clone())], Body::File));
            // a file that is redirected to itself on http is served there: by number of request
            let key = l.split_once("://").map(|x| x.1.to_string()).unwrap_or(format!("{host}{l}"));
            let r = if name == "endless" { r } else if key == from || l.starts_with("http://") && key == full { (Some(0), r.1) } else { r };
            p.resp.entry(from.clone()).or_default().push(r);
            from = key;
        }
        p.files.insert(from.clone(), up.files[&rel[role]].clone());
        // hosts other than the source may have a bad certificate: their connection comes after the redirect
        if badcert { let n = if prior == 0 || role < 2 { role } else { 2 }; let n = if prior == 0 && role == 2 { 3 } else { n }; p.certs = vec!["good"; n + 1]; p.certs.push("self-signed"); p.certs.push("good"); }
        let https = !refuse;
        let hosts = ["alt.example", host.as_str()];
        let must_fail = if insecure { matches!(name, "ftp" | "file" | "endless" | "empty") } else { refuse || (badcert && https) };
        let o = run(cx, w, s, &cfg, a2, p, &mut g, Want { must_fail, must_ok: false, tag: "C12" }, &hosts, &mut v);
        if !insecure { if let Some(h) = o.hits.iter().find(|h| !h.tls) { v.push(Viol { props: vec!["C12"], msg: format!("{} was requested without TLS", h.url()) }); } }
        let mut path = vec![format!("published before: {}", priors[prior].0), format!("{}{}", cfg.name, if insecure { ", insecure" } else { "" }), format!("A2, {} redirected ({code}) to {name}{}: {}", ["notification", "snapshot", "last delta"][role], if badcert { " with a self-signed certificate" } else { "" }, o.kind)];
        let o = run(cx, w, s, &cfg, a2, plan_for(&cfg, up), &mut g, Want { must_fail: false, must_ok: true, tag: "C12" }, &[&host], &mut v);
        path.push(format!("A2 without redirect: {}", o.kind));
        done(cx, "tls", &id, i, &path, &v);
    });
    cx.campaign("tls/redirects", json!({"cases": total, "chains": chains.iter().map(|c| c.0).collect::<Vec<_>>(), "statuses": [301, 302, 303, 307, 308], "files": ["notification", "snapshot", "last delta"]}));
}
/// forms of the source base
fn bases(cx: &Cx, s: &Setup, priors: &[(&str, St)]) {
    let a2 = s.u.ix("A2");
    let up = &s.u.vers[a2];
    // (source base, where the files are asked for, or None if it must be refused)
    let https: &[(&str, Option<&str>)] = &[
        ("https://src.example/", Some("src.example/")), ("https://src.example/a/", Some("src.example/a/")), ("https://src.example/a/b/c/d/", Some("src.example/a/b/c/d/")),
        ("https://src.example:8443/a/", Some("src.example:8443/a/")), ("https://pub.example/other/", Some("pub.example/other/")), ("https://pub.example/rrdp/", Some("pub.example/rrdp/")),
        ("https://src.example/notification.xml/", Some("src.example/notification.xml/")), ("https://src.example/a-b_c.d~e/", Some("src.example/a-b_c.d~e/")),
        ("https://src.example/a", None), ("https://src.example", None), ("https://src.example/a/notification.xml", None), ("http://src.example/a/", None), ("ftp://src.example/a/", None), ("rsync://src.example/a/", None), ("src.example/a/", None),
        ("//src.example/a/", None), ("https:/src.example/a/", None), ("https:src.example/a/", None),
    ];
    let dirs: &[(&str, bool)] = &[("up/cur/", true), ("up/cur", true), ("up/../up/cur/", true), ("up//cur//", true), ("up/nowhere/", false), ("up/cur/notification.xml", false), ("up", false)];
    let mut cases = vec![];
    for prior in 0..2 { for insecure in [false, true] {
        for k in 0..https.len() { cases.push((prior, insecure, true, k)); }
        for k in 0..dirs.len() { cases.push((prior, insecure, false, k)); }
    } }
    let total = cases.len();
    cx.par(cases.into_iter().enumerate().collect(), |w, (i, (prior, insecure, web, k))| {
        let id = format!("base/{}/{insecure}/{web}/{k}", priors[prior].0);
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("source bases"); return; }
        let st = &priors[prior].1;
        enter(w, s, st);
        let mut g = st.g.clone();
        let mut v = vec![];
        let (text, ok, at) = if web { let (t, e) = https[k]; (t.to_string(), e.is_some(), e.unwrap_or("src.example/a/")) } else { (w.abs(dirs[k].0), dirs[k].1, "") };
        let cfg = Cfg { insecure, source: Source::Uri(text.clone()), ..Cfg::default() }.n(&format!("source base {}", if web { &text } else { dirs[k].0 }));
        let served = Cfg { source: Source::Uri(format!("https://{at}")), ..cfg.clone() };
        // the right files are there, and in the place where the public ones are, in plain http too
        let mut p = Plan { etag: true, ..Default::default() };
        for (f, b) in &up.files { for base in [at, "src.example/a/", "src.example/", "pub.example/rrdp/"] { if !at.is_empty() || base != "src.example/a/" { p.files.insert(format!("{base}{f}"), b.clone()); } } }
        let host = at.split('/').next().unwrap().split(':').next().unwrap();
        let hosts: Vec<&str> = if ok && web { vec![host] } else { vec![] };
        let o = run(cx, w, s, &cfg, a2, p, &mut g, Want { must_fail: !ok, must_ok: ok, tag: "C12" }, &hosts, &mut v);
        if web && ok { expected(&o, &served, up, &mut v); }
        else if !o.hits.is_empty() { v.push(Viol { props: vec!["C12"], msg: format!("{} was requested, although the source base is {text}", o.hits[0].url()) }); }
        let path = vec![format!("published before: {}", priors[prior].0), cfg.name.clone(), format!("A2: {}", o.kind)];
        done(cx, "tls", &id, i, &path, &v);
    });
    cx.campaign("tls/bases", json!({"cases": total, "https": https.iter().map(|c| c.0).collect::<Vec<_>>(), "directories": dirs.iter().map(|c| c.0).collect::<Vec<_>>()}));
}
/// odd URIs of snapshot and delta: what is requested stays below the base
fn mapped_uris(cx: &Cx, s: &Setup, priors: &[(&str, St)], forms: &[Cfg; 2]) {
    let a2 = s.u.ix("A2");
    let mut cases = vec![];
    for prior in 0..2 { for form in 0..2 { for place in 0..2 {
        for (r, f) in crate::uris::rels("a").into_iter().filter(|x| !x.0.contains("@ROOT@")) { cases.push((prior, form, place, format!("{BASE}{r}"), f)); }
        for (u, f) in crate::uris::foreign_uris() { cases.push((prior, form, place, u, f)); }
    } } }
    let total = cases.len();
    cx.par(cases.into_iter().enumerate().collect(), |w, (i, (prior, form, place, uri, must_fail))| {
        let id = format!("uri/{i}");
        if !cx.case(&id) { return; }
        if cx.over() { cx.capped("mapped URIs"); return; }
        let cfg = &forms[form];
        let st = &priors[prior].1;
        enter(w, s, st);
        let mut g = st.g.clone();
        let mut v = vec![];
        let mut up = (*s.u.vers[a2]).clone();
        let old = if place == 0 { up.snap.0.clone() } else { up.deltas.last().unwrap().1.clone() };
        let file = up.files.remove(&old).unwrap();
        if place == 0 { up.snap.0 = uri.clone() } else { up.deltas.last_mut().unwrap().1 = uri.clone() }
        let text = String::from_utf8(render_notif(&up.base, &up.session, up.serial, &up.snap, &up.deltas, "asc")).unwrap();
        let note = text.replacen(&format!("uri=\"{}\"", abs_uri(&up.base, &uri)), &format!("uri=\"{}\"", uri.replace('&', "&amp;")), 1).into_bytes();
        up.files.insert(up.notif_name.clone(), Arc::new(note));
        let mut p = plan_for(cfg, &up);
        // whatever else is asked for, is the file
        p.any = Some(file.clone());
        let srv = online(cx, w);
        srv.set(p);
        let mut net: BTreeMap<String, usize> = BTreeMap::new();
        let cfgs = [cfg.clone()];
        let out = run_step_with(w, &s.u, &cfgs, &Step { ver: a2, mode: Mode::Watch, ..Default::default() }, &mut g, RunOpts::default(), &mut |_, r| { if r.op == Op::Resolve { *net.entry(r.p1.clone()).or_default() += 1; } });
        for mut y in out.viols { if y.props != ["C16"] { y.props.push("C12"); v.push(y); } }
        let mut add = |m: String| v.push(Viol { props: vec!["C12"], msg: m });
        let host = host_of(cfg);
        if let Some((h, _)) = net.iter().find(|x| *x.0 != host) { add(format!("{h} was looked up, only {host} is expected")); }
        let b = base_of(cfg);
        for h in srv.log() {
            let u = h.url();
            let rest = u.strip_prefix(&format!("https://{b}"));
            let low = u.to_lowercase().replace("%2e", ".");
            if rest.is_none() || low.split('/').any(|c| c == "..") { add(format!("{u} was requested, which is not below https://{b}")); }
        }
        if out.exit.hung { add("the run does not end".into()); }
    else if out.exit.signal.is_some() || out.exit.code == Some(101) { add(format!("crashed: {}", out.exit.text())); }
        if out.exit.ok() && must_fail { add("a URI outside of the base was accepted".into()); }
        if !out.exit.ok() {
            if out.exit.err.trim().is_empty() { add("failed without a message".into()); }
            if seen(&g, cfg) != seen(&st.g, cfg) { add(format!("the run failed, but published data changed ({})", out.exit.text())); }
        }
        {
            let mut z = cx.st.lock().unwrap();
            let mut b = image_hash(&w.img).to_vec();
            b.extend(uri.bytes());
            z.states.insert(sha(&b));
            z.transitions += 1;
            z.compared += 1;
            z.instants += out.bounds;
            z.ops += out.nops;
            *z.outcomes.entry(format!("mapped URI: {}", if out.exit.ok() { "accepted" } else { "refused" })).or_default() += 1;
        }
        let path = vec![format!("published before: {}", priors[prior].0), cfg.name.clone(), format!("A2 with {} URI {}: {}", ["snapshot", "delta"][place], uri.chars().take(150).collect::<String>(), out.exit.text())];
        done(cx, "tls", &id, i, &path, &v);
    });
    cx.campaign("tls/uris", json!({"cases": total, "places": ["snapshot URI", "delta URI"]}));
}
