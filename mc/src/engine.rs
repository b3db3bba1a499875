//! Configurations, ghost state (what readers have seen so far), the monitors that are evaluated between
//! any two operations and after each run, and the execution of one step of a history.
use crate::proc::*;
use crate::up::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Source { Cur, Uri(String), Direct }

#[derive(Clone, Debug)]
pub struct Cfg {
    pub name: String, pub state: String, pub rrdp: String, pub rsync: String, pub uri: String, pub max_deltas: Option<usize>,
    pub rsync_on: bool, pub host: bool, pub cleanup: i64, pub delay: u64, pub tals: Vec<String>, pub scripts: Vec<String>,
    pub reject: bool, pub offline: bool, pub insecure: bool, pub source: Source, /** -v that often; negative: -q */ pub verbose: i8, pub env: Vec<(String, String)>,
    /// state directory on another device than the RRDP directory: renames between them fail with EXDEV
    pub xdev: bool,
    /// RRDP and rsync directories not configured: below the state directory
    pub dflt: bool,
    /// name of the link below the upstream directory
    pub link: String,
    /// how paths are written
    pub form: Form,
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub enum Form { #[default] Absolute, Relative, Dot, Slash, Odd, Up, /** through a symbolic link to the directory that holds them */ Via, /** the directory itself is a symbolic link */ Link }
impl Form {
    pub fn write(self, w: &World, rel: &str) -> String {
        let r = rel.trim_end_matches('/');
        let s = &rel[r.len()..];
        match self {
            Form::Absolute => w.abs(rel),
            Form::Relative => rel.into(),
            Form::Dot => format!("./{rel}"),
            Form::Slash => format!("{}/", w.abs(r)),
            Form::Odd => format!("/{}/.//{}//.{s}", w.root, r.replace('/', "/./")),
            Form::Up => format!("up/../{r}/../{}{s}", r.rsplit('/').next().unwrap()),
            Form::Via => w.abs(&format!("up/here/{rel}")),
            Form::Link => w.abs(&format!("up/l-{}{s}", r.replace('/', "-"))),
        }
    }
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { name: "default".into(), state: "state".into(), rrdp: "rrdp".into(), rsync: "rsync".into(), uri: format!("{BASE}{NOTIF}"), max_deltas: None,
            rsync_on: true, host: false, cleanup: 600, delay: 0, tals: vec![], scripts: vec![], reject: false, offline: false, insecure: false,
            source: Source::Cur, verbose: 0, env: vec![], xdev: false, dflt: false, link: "cur".into(), form: Form::Absolute }
    }
}
impl Cfg {
    pub fn n(mut self, n: &str) -> Self { self.name = n.into(); self }
    pub fn notif_name(&self) -> &str { self.uri.rsplit('/').next().unwrap() }
    pub fn base(&self) -> &str { &self.uri[..self.uri.rfind('/').unwrap() + 1] }
    pub fn args(&self, w: &World) -> Vec<String> {
        let p = |r: &str| self.form.write(w, r);
        let mut a: Vec<String> = vec!["--state-dir".into(), p(&self.state), format!("--cleanup-after={}", self.cleanup)];
        if !self.dflt { a.extend(["--rrdp-dir".into(), p(&self.rrdp), "--rsync-dir".into(), p(&self.rsync)]); }
        match &self.source {
            Source::Cur => { a.push("--source-uri-base".into()); a.push(if self.form == Form::Link { w.abs(&format!("up/{}/", self.link)) } else { p(&format!("up/{}/", self.link)) }); }
            Source::Uri(u) => { a.push("--source-uri-base".into()); a.push(u.clone()); }
            Source::Direct => {}
        }
        if self.delay > 0 { a.push("--rrdp-notify-delay".into()); a.push(self.delay.to_string()); }
        if let Some(m) = self.max_deltas { a.push("--rrdp-max-deltas".into()); a.push(m.to_string()); }
        if !self.rsync_on { a.push("--rsync-disable".into()); }
        if self.host { a.push("--rsync-include-host".into()); }
        if self.insecure { a.push("--insecure".into()); }
        if self.reject { a.push("--tal-reject-invalid".into()); }
        if self.offline { a.push("--offline-validation".into()); }
        if self.verbose > 0 { a.push(format!("-{}", "v".repeat(self.verbose as usize))); }
        if self.verbose < 0 { a.push("-q".into()); }
        for t in &self.tals { a.push("--tal".into()); a.push(p(t)); }
        for t in &self.scripts { a.push("--pre-validate".into()); a.push(if t.starts_with('/') { t.clone() } else { p(t) }); }
        a.push("--".into());
        a.push(self.uri.clone());
        a
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Notif { pub session: String, pub serial: u64, pub snap: (String, Hash), pub deltas: Vec<(u64, String, Hash)> }

fn unhex(s: &str) -> Option<Hash> {
    if s.len() != 64 { return None; }
    let mut h = [0u8; 32];
    for i in 0..32 { h[i] = u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()?; }
    Some(h)
}
/// strict parser for a notification file; URIs as they are; deltas in ascending order
pub fn parse_notif(b: &[u8]) -> Result<Notif, String> {
    use quick_xml::events::Event;
    let mut r = quick_xml::Reader::from_reader(b);
    r.trim_text(true);
    let (mut session, mut serial, mut snap, mut deltas, mut depth, mut done) = (None, None, None, vec![], 0, false);
    let mut buf = vec![];
    loop {
        let ev = r.read_event_into(&mut buf).map_err(|e| format!("xml: {e}"))?;
        let empty = matches!(ev, Event::Empty(_));
        match ev {
            Event::Start(e) | Event::Empty(e) => {
                if done { return Err("content after root".into()); }
                let mut at = BTreeMap::new();
                for a in e.attributes() {
                    let a = a.map_err(|x| format!("attr: {x}"))?;
                    at.insert(String::from_utf8_lossy(a.key.as_ref()).into_owned(), a.unescape_value().map_err(|x| format!("attr: {x}"))?.into_owned());
                }
                let get = |k: &str| at.get(k).cloned().ok_or(format!("attribute {k} missing"));
                match (depth, e.local_name().as_ref()) {
                    (0, b"notification") => {
                        if get("version")? != "1" { return Err("version".into()); }
                        session = Some(get("session_id")?);
                        serial = Some(get("serial")?.parse::<u64>().map_err(|e| e.to_string())?);
                        if empty { done = true; }
                    }
                    (1, b"snapshot") => {
                        if snap.is_some() { return Err("two snapshots".into()); }
                        snap = Some((get("uri")?, unhex(&get("hash")?).ok_or("bad hash")?));
                    }
                    (1, b"delta") => deltas.push((get("serial")?.parse::<u64>().map_err(|e| e.to_string())?, get("uri")?, unhex(&get("hash")?).ok_or("bad hash")?)),
                    (d, n) => return Err(format!("unexpected element {} at depth {d}", String::from_utf8_lossy(n))),
                }
                if !empty { depth += 1; }
            }
            Event::End(_) => { depth -= 1; if depth == 0 { done = true; } }
            Event::Eof => break,
            Event::Text(t) => { if !t.as_ref().iter().all(|c| c.is_ascii_whitespace()) { return Err("text".into()); } }
            _ => {}
        }
        buf.clear();
    }
    if !done || depth != 0 { return Err("incomplete".into()); }
    deltas.sort();
    Ok(Notif { session: session.ok_or("no session")?, serial: serial.ok_or("no serial")?, snap: snap.ok_or("no snapshot")?, deltas })
}

#[derive(Clone, Debug)]
pub struct Viol { pub props: Vec<&'static str>, pub msg: String }

/// What readers of one published RRDP directory have seen.
#[derive(Clone, Default)]
pub struct RrdpGhost {
    pub base: String,
    pub bytes: Option<Arc<FileData>>,
    pub notif: Option<Arc<Notif>>,
    /// path under the rrdp dir -> hash
    pub refs: BTreeMap<String, Hash>,
    /// formerly referenced: path -> (hash, when it stopped to be referenced)
    pub sup: BTreeMap<String, (Hash, i64)>,
    /// when each referenced file was first seen in place with the right content (ns)
    pub placed: BTreeMap<String, i64>,
    pub visible_at: i64,
}
pub type Listing = Arc<BTreeMap<String, Arc<FileData>>>;
/// What readers of one rsync directory have seen.
#[derive(Clone, Default)]
pub struct RsyncGhost {
    pub target: Option<String>,
    /// directory -> (content when it was published, when superseded)
    pub served: BTreeMap<String, (Listing, Option<i64>)>,
}
#[derive(Clone, Default)]
pub struct Ghost { pub rrdp: BTreeMap<(String, String), RrdpGhost>, pub rsync: BTreeMap<String, RsyncGhost> }

impl Ghost {
    pub fn key(&self) -> Vec<u8> {
        let mut s = vec![];
        for (k, g) in &self.rrdp {
            s.extend(format!("{k:?}").bytes());
            if let Some(b) = &g.bytes { s.extend(b.hash()); }
            for (p, (h, t)) in &g.sup { s.extend(p.bytes()); s.extend(h); s.extend(t.to_ne_bytes()); }
        }
        for (k, g) in &self.rsync {
            s.extend(format!("{k:?}{:?}", g.target).bytes());
            for (d, (_, t)) in &g.served { s.extend(format!("{d}{t:?}").bytes()); }
        }
        s
    }
    pub fn notif(&self, c: &Cfg) -> Option<Arc<Notif>> { self.rrdp.get(&(c.rrdp.clone(), c.notif_name().to_string())).and_then(|g| g.notif.clone()) }
    pub fn published(&self, c: &Cfg) -> Option<(String, u64)> { self.notif(c).map(|n| (n.session.clone(), n.serial)) }
}

pub struct Obs<'a> { pub cfg: &'a Cfg, pub univ: &'a Universe, pub now: i64, pub now_ns: i64, pub cleanup: i64 }

fn listing(img: &Image, dir: &str) -> BTreeMap<String, Arc<FileData>> {
    under(img, dir).filter_map(|(p, e)| match e { Ent::File(f) => Some((p.to_string(), f.clone())), Ent::Link(_) => Some((p.to_string(), FileData::new(b"?link".to_vec(), None))), _ => None }).collect()
}
fn matches_tree(l: &BTreeMap<String, Arc<FileData>>, t: &Tree) -> bool {
    l.len() == t.len() && l.iter().zip(t.iter()).all(|((a, f), (b, (c, _)))| a == b && f.bytes == **c)
}
pub fn tree_diff(l: &BTreeMap<String, Arc<FileData>>, t: &Tree) -> String {
    let mut v = vec![];
    for (p, (c, _)) in t { match l.get(p) { None => v.push(format!("missing {p}")), Some(f) if f.bytes != **c => v.push(format!("content of {p} differs")), _ => {} } }
    for p in l.keys() { if !t.contains_key(p) { v.push(format!("extra {p}")); } }
    v.truncate(6);
    v.join(", ")
}

fn longest_base<'a>(u: &'a Universe, uri: &str) -> Option<&'a str> { u.vers.iter().map(|v| v.base.as_str()).filter(|b| uri.starts_with(b)).max_by_key(|b| b.len()) }

fn observe_rrdp(key: &(String, String), g: &mut RrdpGhost, img: &Image, o: &Obs, v: &mut Vec<Viol>) {
    let (dir, name) = key;
    let np = format!("{dir}/{name}");
    let bytes = match img.get(&np) {
        None => {
            if g.bytes.is_some() { v.push(Viol { props: vec!["C01"], msg: format!("published notification {np} disappeared") }); g.bytes = None; g.notif = None; g.refs.clear(); }
            return;
        }
        Some(Ent::File(f)) => f.clone(),
        Some(_) => { v.push(Viol { props: vec!["C01"], msg: format!("{np} is not a regular file") }); return; }
    };
    let changed = match &g.bytes { Some(b) => !(Arc::ptr_eq(b, &bytes) || b.bytes == bytes.bytes), None => true };
    if changed {
        g.bytes = Some(bytes.clone());
        let n = match parse_notif(&bytes.bytes) {
            Ok(n) => n,
            Err(e) => { v.push(Viol { props: vec!["C01"], msg: format!("published notification is not well-formed: {e} (size {})", bytes.bytes.len()) }); return; }
        };
        // the public base URI may have been changed by configuration
        if let Some(b) = longest_base(o.univ, &n.snap.0) { g.base = b.to_string(); }
        let mut refs = BTreeMap::new();
        for (uri, h) in std::iter::once(&n.snap).map(|s| (&s.0, s.1)).chain(n.deltas.iter().map(|d| (&d.1, d.2))) {
            match uri.strip_prefix(g.base.as_str()) {
                Some(rel) if !rel.is_empty() && !rel.split('/').any(|c| c == ".." || c == "." || c.is_empty()) => { refs.insert(rel.to_string(), h); }
                _ => v.push(Viol { props: vec!["C01", "C03", "C18"], msg: format!("published notification has URI {uri} outside of {}", g.base) }),
            }
        }
        for (p, h) in &g.refs { if !refs.contains_key(p) { g.sup.insert(p.clone(), (*h, o.now)); } }
        for p in refs.keys() { g.sup.remove(p); }
        g.refs = refs;
        // (visible_at = -1: already there when we first looked)
        if o.cfg.rrdp == *dir && o.cfg.notif_name() == name && o.cfg.delay > 0 && g.visible_at >= 0 {
            // all files must have been in place for the delay
            for p in g.refs.keys() {
                let at = g.placed.get(p).copied().unwrap_or(o.now_ns);
                if o.now_ns - at < o.cfg.delay as i64 * 1_000_000_000 {
                    v.push(Viol { props: vec!["C20"], msg: format!("notification became visible {} ms after {p} was in place, delay is {} s", (o.now_ns - at) / 1_000_000, o.cfg.delay) });
                }
            }
        }
        g.notif = Some(Arc::new(n));
        g.visible_at = o.now;
    }
    for (p, h) in &g.refs {
        let ok = match img.get(&format!("{dir}/{p}")) { Some(Ent::File(f)) => f.hash() == h, _ => false };
        if !ok {
            let what = if img.contains_key(&format!("{dir}/{p}")) { "has other content than the hash says" } else { "is missing" };
            let mut props = vec!["C01"];
            if !changed { props.push("C05"); if o.cfg.delay > 0 { props.push("C20"); } }
            v.push(Viol { props, msg: format!("published notification (serial {}) references {p} which {what}", g.notif.as_ref().map(|n| n.serial).unwrap_or(0)) });
        }
    }
    let mut gone = vec![];
    for (p, (h, t)) in &g.sup {
        let st = match img.get(&format!("{dir}/{p}")) { Some(Ent::File(f)) => if f.hash() == h { 0 } else { 1 }, _ => 2 };
        if st == 0 { continue; }
        if o.now - t < o.cleanup {
            v.push(Viol { props: if o.cfg.delay > 0 { vec!["C05", "C20"] } else { vec!["C05"] },
                msg: format!("{p} {} {} s after it was superseded, clean-up time is {} s", if st == 1 { "was changed" } else { "was removed" }, o.now - t, o.cleanup) });
        }
        gone.push(p.clone());
    }
    for p in gone { g.sup.remove(&p); }
}

fn observe_rsync(dir: &str, g: &mut RsyncGhost, img: &Image, o: &Obs, v: &mut Vec<Viol>) {
    let cp = format!("{dir}/current");
    let target = match img.get(&cp) {
        None => { if g.target.is_some() { v.push(Viol { props: vec!["C02"], msg: format!("{cp} disappeared") }); g.target = None; } None }
        Some(Ent::Link(t)) => Some(t.trim_end_matches('/').to_string()),
        Some(Ent::Dir | Ent::Shut(_)) => Some("current".to_string()),
        Some(_) => { v.push(Viol { props: vec!["C02"], msg: format!("{cp} is a file") }); None }
    };
    if let Some(t) = &target {
        let rel = t.rsplit('/').next().unwrap().to_string();
        let ok_target = *t == rel || t.ends_with(&format!("/{dir}/{rel}"));
        let d = format!("{dir}/{rel}");
        if !ok_target || !matches!(img.get(&d), Some(Ent::Dir | Ent::Shut(_))) {
            let mut props = vec!["C02"];
            if g.target.as_deref() == Some(&rel) { props.push("C05"); }
            v.push(Viol { props, msg: format!("{cp} points to {t} which is not a directory there") });
        } else {
            let l = listing(img, &d);
            let known = match g.served.get(&rel) { Some((old, _)) => l == **old, None => false };
            if !known {
                if !o.univ.trees.iter().any(|t| matches_tree(&l, &t[0]) || matches_tree(&l, &t[1])) {
                    let near = o.univ.trees.iter().flat_map(|t| t.iter()).map(|t| tree_diff(&l, t)).min_by_key(|d| d.len()).unwrap_or_default();
                    v.push(Viol { props: vec!["C02"], msg: format!("current -> {rel} is not one complete snapshot ({} files; closest version: {near})", l.len()) });
                }
                for (i, t) in o.univ.trees.iter().enumerate() {
                    let x = &o.univ.vers[i].mtimes;
                    if x.is_empty() { continue; }
                    let Some(t) = t.iter().find(|t| matches_tree(&l, t)) else { continue };
                    for (p, (_, uri)) in t.iter() { if let (Some(m), Some(f)) = (x.get(uri), l.get(p)) { if f.mtime != Some(*m) { v.push(Viol { props: vec!["C16"], msg: format!("mtime of {p} is {:?}, should be {m}", f.mtime) }); } } }
                    break;
                }
                if g.served.contains_key(&rel) && g.target.as_deref() == Some(&rel) {
                    v.push(Viol { props: vec!["C02"], msg: format!("the directory {rel} was modified while it is being served") });
                }
                g.served.insert(rel.clone(), (Arc::new(l), None));
            }
        }
        if g.target.as_deref() != Some(&rel) {
            if let Some(old) = g.target.take() { if let Some(s) = g.served.get_mut(&old) { s.1 = Some(o.now); } }
            g.target = Some(rel.clone());
        }
        if let Some(s) = g.served.get_mut(&rel) { s.1 = None; }
    }
    let mut gone = vec![];
    for (d, (old, since)) in &g.served {
        if g.target.as_deref() == Some(d) { continue; }
        let since = match since { Some(s) => *s, None => continue };
        let l = listing(img, &format!("{dir}/{d}"));
        if l == **old && img.contains_key(&format!("{dir}/{d}")) { continue; }
        let altered = l.iter().any(|(p, f)| old.get(p) != Some(f));
        if altered { v.push(Viol { props: vec!["C02", "C05"], msg: format!("the directory {d} was modified after it had been served") }); }
        if o.now - since < o.cleanup {
            v.push(Viol { props: vec!["C05"], msg: format!("(part of) rsync directory {d} was removed {} s after it was superseded, clean-up time is {} s", o.now - since, o.cleanup) });
        }
        gone.push(d.clone());
    }
    for d in gone { g.served.remove(&d); }
}

/// evaluate all monitors on one instant
pub fn observe(g: &mut Ghost, img: &Image, o: &Obs, v: &mut Vec<Viol>) {
    let key = (o.cfg.rrdp.clone(), o.cfg.notif_name().to_string());
    let fresh = !g.rrdp.contains_key(&key);
    let e = g.rrdp.entry(key).or_default();
    if fresh { e.visible_at = -1; }
    if e.base.is_empty() { e.base = o.cfg.base().to_string(); }
    if o.cfg.delay > 0 {
        // remember since when the files of the universe are in place
        for ver in &o.univ.vers {
            for (p, h) in std::iter::once((&ver.snap.0, &ver.snap.1)).chain(ver.deltas.iter().map(|d| (&d.1, &d.2))) {
                let there = matches!(img.get(&format!("{}/{p}", o.cfg.rrdp)), Some(Ent::File(f)) if f.hash() == h);
                if there { e.placed.entry(p.clone()).or_insert(o.now_ns); } else { e.placed.remove(p); }
            }
        }
    }
    for (k, x) in g.rrdp.iter_mut() { observe_rrdp(k, x, img, o, v); x.visible_at = x.visible_at.max(0); }
    // under another name in the same directory: what the old notification references is superseded now
    let key = (o.cfg.rrdp.clone(), o.cfg.notif_name().to_string());
    if g.rrdp.get(&key).map(|e| e.notif.is_some()).unwrap_or(false) {
        let others: Vec<_> = g.rrdp.keys().filter(|k| k.0 == key.0 && k.1 != key.1).cloned().collect();
        for k in others {
            let old = g.rrdp.remove(&k).unwrap();
            let e = g.rrdp.get_mut(&key).unwrap();
            if let Some(b) = &old.bytes { e.sup.entry(k.1.clone()).or_insert((*b.hash(), o.now)); }
            for (p, h) in old.refs { if !e.refs.contains_key(&p) { e.sup.insert(p, (h, o.now)); } }
            for (p, x) in old.sup { if !e.refs.contains_key(&p) { e.sup.entry(p).or_insert(x); } }
        }
    }
    if o.cfg.rsync_on { g.rsync.entry(o.cfg.rsync.clone()).or_default(); }
    for (k, x) in g.rsync.iter_mut() { observe_rsync(k, x, img, o, v); }
    // servers run as somebody else: what is published must not be for krill-sync only (the umask is 022)
    for (c, m) in img.iter().filter_map(|(p, e)| match e { Ent::Shut(m) => Some((p, *m)), Ent::File(f) if f.closed != 0 => Some((p, f.closed)), _ => None }) {
        let above = |p: &str| p == c || p.starts_with(&format!("{c}/"));
        for ((dir, name), x) in &g.rrdp {
            if x.bytes.is_some() && (above(&format!("{dir}/{name}")) || x.refs.keys().any(|r| above(&format!("{dir}/{r}")))) { v.push(Viol { props: vec!["C01"], msg: format!("{c} is published with mode {m:o}: others than its owner cannot read it") }); }
        }
        for (dir, x) in &g.rsync {
            let Some(t) = &x.target else { continue };
            let d = format!("{dir}/{t}");
            if above(&d) || c.starts_with(&format!("{d}/")) { v.push(Viol { props: vec!["C02"], msg: format!("{c} is served with mode {m:o}: others than its owner cannot read it") }); }
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Step {
    pub adv: i64, pub ver: usize, pub cfg: usize,
    /// (index of operation, errno)
    pub fault: Option<(usize, i32)>,
    /// the fault stays: all later operations that need what is missing fail, too
    pub stick: Stick,
    /// kill before this operation
    pub kill: Option<usize>,
    /// cut every write in two
    pub split: bool,
    /// let the clock advance by this many milliseconds at every operation
    pub tick_ms: i64,
    pub mode: Mode,
    /// count reads as operations, too
    pub reads: bool,
    /// the upstream moves on: (before which access to it, directory)
    pub switch: Vec<(usize, String)>,
    /// the version upstream ends up with
    pub to: Option<usize>,
}
/// What is missing from the fault on.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub enum Stick { #[default] No, /** room for data */ Blocks, /** room for data, files and directories */ Room, /** permission to change anything */ Any,
    /** the same operation on the same path */ Same, /** everything that concerns the path */ Path }
pub const STICKS: [Stick; 6] = [Stick::No, Stick::Blocks, Stick::Room, Stick::Any, Stick::Same, Stick::Path];
impl Stick {
    fn hits(self, r: &Req, first: &Option<(Op, String, String)>) -> bool {
        let creates = r.op == Op::OpenW && r.a as i32 & libc::O_CREAT != 0 && std::fs::symlink_metadata(&r.p1).is_err();
        match self {
            Stick::No => false,
            Stick::Blocks => matches!(r.op, Op::Write | Op::Copy),
            Stick::Room => matches!(r.op, Op::Write | Op::Copy | Op::Mkdir | Op::Symlink | Op::Link) || creates,
            Stick::Any => r.op.mutates(),
            Stick::Same => first.as_ref().map(|f| f.0 == r.op && f.1 == r.p1 && f.2 == r.p2).unwrap_or(false),
            Stick::Path => first.as_ref().map(|f| { let p = if f.2.is_empty() { &f.1 } else { &f.2 }; *p == r.p1 || *p == r.p2 }).unwrap_or(false),
        }
    }
}
/// How a step is judged.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub enum Mode {
    /// fault-free run in a fault-free history: compared with the reference model
    #[default] Strict,
    /// fault-free run after a crash (C07) or a failed run (C08): must bring everything in sync
    AfterCrash, AfterFail,
    /// a run that suffers a fault: honest exit status
    Faulty,
    /// monitors only
    Watch,
    /// upstream changes during the run: one of the two versions, or none (C21)
    Moving,
}
impl Mode {
    pub fn num(self) -> u64 { match self { Mode::Strict => 0, Mode::AfterCrash => 1, Mode::AfterFail => 2, Mode::Faulty => 3, Mode::Watch => 4, Mode::Moving => 5 } }
    pub fn from(n: u64) -> Mode { [Mode::Strict, Mode::AfterCrash, Mode::AfterFail, Mode::Faulty, Mode::Watch, Mode::Moving][n as usize] }
}
impl Step {
    pub fn text(&self, u: &Universe, cfgs: &[Cfg]) -> String {
        format!("{}run[{}] upstream={}{}{}{}", if self.adv != 0 { format!("+{}s ", self.adv) } else { String::new() }, cfgs[self.cfg].name, u.vers[self.ver].label,
            self.fault.map(|(i, e)| if e == SHORT { format!(" short@{i}") } else { format!(" fault@{i}=errno{e}{}", if self.stick == Stick::No { String::new() } else { format!(" and from then on ({:?})", self.stick) }) }).unwrap_or_default(), self.kill.map(|i| format!(" kill@{i}")).unwrap_or_default(),
            if self.tick_ms > 0 { format!(" tick={}ms", self.tick_ms) } else { String::new() })
            + &self.switch.iter().map(|(k, d)| format!(" before-access-{k}:upstream:={d}")).collect::<String>()
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!({"adv": self.adv, "ver": self.ver, "cfg": self.cfg, "fault": self.fault, "stick": STICKS.iter().position(|x| *x == self.stick), "kill": self.kill, "split": self.split, "tick": self.tick_ms, "reads": self.reads, "switch": self.switch, "to": self.to, "mode": self.mode.num()})
    }
    pub fn from_json(v: &serde_json::Value) -> Step {
        let u = |k: &str| v[k].as_u64().map(|x| x as usize);
        Step { adv: v["adv"].as_i64().unwrap_or(0), ver: u("ver").unwrap_or(0), cfg: u("cfg").unwrap_or(0),
            fault: v["fault"].as_array().map(|a| (a[0].as_u64().unwrap() as usize, a[1].as_i64().unwrap() as i32)),
            stick: STICKS[u("stick").unwrap_or(0)], kill: u("kill"), split: v["split"].as_bool().unwrap_or(false), tick_ms: v["tick"].as_i64().unwrap_or(0), reads: v["reads"].as_bool().unwrap_or(false),
            switch: v["switch"].as_array().map(|a| a.iter().map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_str().unwrap().to_string())).collect()).unwrap_or_default(), to: u("to"), mode: Mode::from(v["mode"].as_u64().unwrap_or(0)) }
    }
}
pub struct CrashPt { pub at: usize, pub img: Image, pub now: i64, pub ghost: Ghost, pub desc: String }
#[derive(Default)]
pub struct StepOut { pub exit: Exit, pub viols: Vec<Viol>, pub ops: Vec<(Op, String, i64)>, pub crash: Vec<CrashPt>, pub bounds: u64, pub faulted: Option<String>, pub touched: BTreeSet<String>, pub nops: u64,
    /// files of the source that were opened
    pub source: Vec<String> }

#[derive(Clone, Copy, Default)]
pub struct RunOpts { pub crash: bool, pub record: bool, pub reads: bool }

/// instead of an error: the system call handles a part of the data only, which is not a failure
pub const SHORT: i32 = -1;
/// may this operation be the target of a fault or kill?
pub fn eligible(r: &Req) -> bool { r.op.mutates() || matches!(r.op, Op::OpenR | Op::Read | Op::Fsync) }

/// Execute one run of krill-sync, watching every instant.
pub fn run_step(w: &mut World, u: &Universe, cfgs: &[Cfg], s: &Step, g: &mut Ghost, ro: RunOpts) -> StepOut { run_step_with(w, u, cfgs, s, g, ro, &mut |_, _| {}) }
/// the same, with somebody watching
pub fn run_step_with(w: &mut World, u: &Universe, cfgs: &[Cfg], s: &Step, g: &mut Ghost, ro: RunOpts, watch: &mut dyn FnMut(&World, &Req)) -> StepOut {
    let cfg = &cfgs[s.cfg];
    let t = w.now() + s.adv;
    w.set_now(t);
    w.link_up(&cfg.link, &format!("v{}", s.ver));
    let args = cfg.args(w);
    w.cfg_env = cfg.env.clone();
    let mut out = StepOut::default();
    let mut idx = 0usize;
    let mut halves: Option<(String, i64)> = None;
    let mut first = None;
    let (viols, ops, crash, bounds, faulted, touched, source) = (&mut out.viols, &mut out.ops, &mut out.crash, &mut out.bounds, &mut out.faulted, &mut out.touched, &mut out.source);
    let mut dirty = true;
    let steps0 = w.steps;
    let flags = if ro.reads { FL_READS | FL_RDDATA } else if s.mode == Mode::Moving { FL_READS } else { 0 };
    let exit = w.run(&args, flags, &mut |w: &mut World, r: &Req| {
        watch(w, r);
        if dirty {
            *bounds += 1;
            observe(g, &w.img, &Obs { cfg, univ: u, now: w.now(), now_ns: w.now_ns(), cleanup: cfg.cleanup }, viols);
        }
        dirty = r.op.mutates();
        match r.op {
            Op::Escape => { viols.push(Viol { props: vec!["C11"], msg: format!("{:?} outside of the scratch root: {} {}", Op::from_num(r.a as u32), r.p1, r.p2) }); return Act::Fail(libc::EACCES); }
            Op::Sleep => dirty = true,
            _ => {}
        }
        if s.tick_ms > 0 { w.add_ns(s.tick_ms * 1_000_000); }
        if s.mode == Mode::Moving && r.op == Op::OpenR {
            if let Some(p) = w.rel(&r.p1).and_then(|p| p.strip_prefix("up/")).map(|p| p.to_string()) {
                let mut dir = p.clone();
                for (_, d) in s.switch.iter().filter(|x| x.0 == source.len()) { w.link_up(&cfg.link, d); dir = format!("{d}/"); }
                source.push(if dir == p { p } else { format!("{dir}:{}", p.split_once('/').map(|x| x.1).unwrap_or("")) });
            }
            return Act::Go;
        }
        if !eligible(r) { return Act::Go; }
        let rel = w.rel(&r.p1).unwrap_or(&r.p1).to_string();
        if ro.reads && matches!(r.op, Op::OpenR | Op::Read) && w.rel(&r.p1).is_none() { return Act::Go; }
        if r.op.mutates() && !(r.op == Op::OpenW && r.a as i32 & libc::O_TRUNC == 0) {
            touched.insert(rel.clone());
            if r.op == Op::Rename { touched.insert(w.rel(&r.p2).unwrap_or("?").to_string()); }
        }
        if ro.crash {
            let same = crash.last().map(|c: &CrashPt| c.img == w.img).unwrap_or(false);
            if !same { crash.push(CrashPt { at: idx, img: w.img.clone(), now: w.now(), ghost: g.clone(), desc: format!("before {:?} {rel}", r.op) }); }
        }
        if ro.record { ops.push((r.op, rel.clone(), r.a)); }
        let i = idx;
        idx += 1;
        if s.kill == Some(i) { return Act::Kill; }
        if let Some((f, e)) = s.fault {
            if f < i && s.stick.hits(r, &first) { return Act::Fail(e); }
            if f == i {
                *faulted = Some(format!("{:?} {rel}", r.op));
                first = Some((r.op, r.p1.clone(), r.p2.clone()));
                if e != SHORT { return Act::Fail(e); }
                // a copy asks for more than the file has: cut at the real size
                let n = if r.op == Op::Copy { std::fs::metadata(&r.p2).map(|m| m.len() as i64).unwrap_or(2) } else { r.a };
                return Act::Short((n / 2).max(1));
            }
        }
        if cfg.xdev && r.op == Op::Rename {
            let (a, b) = (top(&rel), top(w.rel(&r.p2).unwrap_or("?")));
            if a != b { return Act::Fail(libc::EXDEV); }
        }
        if s.split && matches!(r.op, Op::Write | Op::Copy) && r.a > 1 {
            match &halves {
                Some((p, n)) if *p == r.p1 && r.op == Op::Write && *n == r.a => halves = None,
                Some((p, _)) if *p == r.p1 && r.op == Op::Copy => halves = None,
                _ => {
                    // a copy asks for more than the file has: cut at the real size
                    let n = if r.op == Op::Copy { std::fs::metadata(&r.p2).map(|m| m.len() as i64).unwrap_or(2) } else { r.a };
                    let h = (n / 2).max(1);
                    halves = Some((r.p1.clone(), r.a - h));
                    return Act::Short(h);
                }
            }
        }
        Act::Go
    });
    out.nops = w.steps - steps0;
    let now = w.now();
    observe(g, &w.img, &Obs { cfg, univ: u, now, now_ns: w.now_ns(), cleanup: cfg.cleanup }, &mut out.viols);
    out.bounds += 1;
    if exit.hung { out.viols.push(Viol { props: vec!["*"], msg: "run did not terminate".into() }); }
    out.exit = exit;
    out
}
fn top(p: &str) -> &str { p.split('/').next().unwrap_or("") }

/// Does what is published equal upstream version `v`? `prev`: what was published before the run.
pub fn check_synced(img: &Image, g: &Ghost, cfg: &Cfg, u: &Universe, ver: usize, prev: Option<&Notif>, v: &mut Vec<Viol>, extra: &[&'static str]) {
    let up = &u.vers[ver];
    let mut add = |p: &[&'static str], m: String| v.push(Viol { props: p.iter().chain(extra.iter()).copied().collect(), msg: m });
    let n = match g.notif(cfg) { Some(n) => n, None => { add(&["C03", "C08"], "successful run, but no (well-formed) notification is published".into()); return; } };
    let base = cfg.base();
    if n.session != up.session || n.serial != up.serial { add(&["C03", "C08"], format!("published {}/{} but upstream is {}/{}", n.session, n.serial, up.session, up.serial)); return; }
    if n.snap != (format!("{base}{}", up.snap.0), up.snap.1) { add(&["C03"], format!("published snapshot {:?} is not the upstream one {:?}", n.snap.0, up.snap.0)); }
    for d in &n.deltas {
        if !up.deltas.iter().any(|x| x.0 == d.0 && d.1 == format!("{base}{}", x.1) && x.2 == d.2) { add(&["C03"], format!("published delta {} {} is not listed upstream", d.0, d.1)); }
    }
    for p in n.deltas.windows(2) { if p[0].0 + 1 != p[1].0 { add(&["C03"], format!("published deltas have a gap between {} and {}", p[0].0, p[1].0)); } }
    if let Some(l) = n.deltas.last() { if l.0 != n.serial && up.deltas.last().map(|d| d.0) == Some(up.serial) { add(&["C03"], format!("published deltas end at {} but serial is {}", l.0, n.serial)); } }
    let limit = cfg.max_deltas.unwrap_or(usize::MAX);
    if n.deltas.len() > limit { add(&["C03"], format!("{} deltas published, the limit is {limit}", n.deltas.len())); }
    let after = match prev { Some(p) if p.session == up.session => p.serial, _ => 0 };
    let fresh = !matches!(prev, Some(p) if p.session == up.session);
    let keep = up.deltas.len().saturating_sub(limit);
    for d in &up.deltas[keep..] {
        if (fresh || d.0 > after) && !n.deltas.iter().any(|x| x.0 == d.0) { add(&["C03"], format!("upstream delta {} is not published", d.0)); }
        // deltas that were published before and are still listed upstream are kept
        if let Some(p) = prev { if !fresh && p.deltas.iter().any(|x| x.0 == d.0 && x.2 == d.2) && !n.deltas.iter().any(|x| x.0 == d.0) { add(&["C03"], format!("delta {} was published, is still listed upstream, but not published any more", d.0)); } }
    }
    if cfg.rsync_on { check_rsync(img, cfg, u, ver, v, extra); }
}
pub fn check_rsync(img: &Image, cfg: &Cfg, u: &Universe, ver: usize, v: &mut Vec<Viol>, extra: &[&'static str]) {
    let mut add = |p: &[&'static str], m: String| v.push(Viol { props: p.iter().chain(extra.iter()).copied().collect(), msg: m });
    let t = match img.get(&format!("{}/current", cfg.rsync)) { Some(Ent::Link(t)) => t.trim_end_matches('/').rsplit('/').next().unwrap().to_string(), Some(Ent::Dir | Ent::Shut(_)) => "current".into(),
        _ => { add(&["C04", "C08"], "successful run, but no rsync 'current'".into()); return; } };
    let l = listing(img, &format!("{}/{t}", cfg.rsync));
    let want = &u.trees[ver][cfg.host as usize];
    if !matches_tree(&l, want) { add(&["C04", "C08"], format!("rsync tree differs from the published snapshot: {}", tree_diff(&l, want))); }
    for (p, (_, uri)) in want.iter() {
        if let (Some(m), Some(f)) = (u.vers[ver].mtimes.get(uri), l.get(p)) {
            if f.mtime != Some(*m) { add(&["C16"], format!("mtime of {p} is {:?}, should be {m}", f.mtime)); }
        }
    }
}
/// After a successful updating run: exactly the referenced and not yet expired files are there.
pub fn check_clean(img: &Image, g: &Ghost, cfg: &Cfg, now: i64, foreign: &[String], v: &mut Vec<Viol>) {
    let key = (cfg.rrdp.clone(), cfg.notif_name().to_string());
    // directories may be nested, or even be the same
    let state = |p: &str| p.strip_prefix(&format!("{}/", cfg.state)).map(|r| ["rrdp-state.json", "rsync-state.json", "krill-sync.lock", "pre-validate-staging"].contains(&r.split('/').next().unwrap())).unwrap_or(false);
    let rsync = |p: &str| p.strip_prefix(&format!("{}/", cfg.rsync)).map(|r| { let d = r.split('/').next().unwrap(); d == "current" || g.rsync.get(&cfg.rsync).map(|g| g.served.contains_key(d)).unwrap_or(false) }).unwrap_or(false);
    let rrdp = |p: &str| p.strip_prefix(&format!("{}/", cfg.rrdp)).map(|r| r == cfg.notif_name() || g.rrdp.get(&key).map(|g| g.refs.keys().chain(g.sup.keys()).any(|f| f == r || f.starts_with(&format!("{r}/")))).unwrap_or(false)).unwrap_or(false);
    let own = |p: &str| [&cfg.state, &cfg.rrdp, &cfg.rsync].iter().any(|d| *d == p || d.starts_with(&format!("{p}/")));
    if let Some(r) = g.rrdp.get(&key) {
        let mut dirs: BTreeMap<String, bool> = BTreeMap::new();
        for (p, e) in under(img, &cfg.rrdp) {
            if let Some(i) = p.rfind('/') { dirs.insert(p[..i].to_string(), true); }
            let full = format!("{}/{p}", cfg.rrdp);
            if foreign.contains(&full) || own(&full) || state(&full) || rsync(&full) { continue; }
            match e {
                Ent::Dir | Ent::Shut(_) => { dirs.entry(p.to_string()).or_insert(false); }
                _ => {
                    if p == cfg.notif_name() || r.refs.contains_key(p) { continue; }
                    match r.sup.get(p) {
                        None => v.push(Viol { props: vec!["C06"], msg: format!("{p} in the RRDP directory is neither referenced nor recently superseded") }),
                        Some((_, t)) if now - t >= cfg.cleanup => v.push(Viol { props: vec!["C06"], msg: format!("{p} was superseded {} s ago (clean-up time {} s) and is still there", now - t, cfg.cleanup) }),
                        _ => {}
                    }
                }
            }
        }
        for (d, used) in dirs { if !used { v.push(Viol { props: vec!["C06"], msg: format!("empty directory {d} left in the RRDP directory") }); } }
    }
    if !cfg.rsync_on { return; }
    if let Some(r) = g.rsync.get(&cfg.rsync) {
        for (p, _) in under(img, &cfg.rsync) {
            let d = p.split('/').next().unwrap();
            if p.contains('/') || d == "current" || r.target.as_deref() == Some(d) { continue; }
            let full = format!("{}/{p}", cfg.rsync);
            if own(&full) || state(&full) || rrdp(&full) { continue; }
            if foreign.iter().any(|f| *f == full || f.starts_with(&format!("{}/{p}/", cfg.rsync))) { continue; }
            match r.served.get(d) {
                Some((_, Some(t))) if now - t < cfg.cleanup => {}
                Some((_, Some(t))) => v.push(Viol { props: vec!["C06"], msg: format!("rsync directory {d} was superseded {} s ago (clean-up time {} s) and is still there", now - t, cfg.cleanup) }),
                _ => v.push(Viol { props: vec!["C06"], msg: format!("{d} in the rsync directory is neither current nor recently superseded") }),
            }
        }
    }
    for f in foreign { if !img.contains_key(f) { v.push(Viol { props: vec!["C06"], msg: format!("{f}, which krill-sync did not create, was removed") }); } }
}
/// a part of the image (published data)
pub fn part(img: &Image, dirs: &[&str]) -> Image { img.iter().filter(|(k, _)| dirs.iter().any(|d| k.as_str() == *d || k.starts_with(&format!("{d}/")))).map(|(k, e)| (k.clone(), e.clone())).collect() }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Expect { Update, NoOp, Refuse,
    /// may be refused or taken (an anomaly that does not affect what would be published)
    Either }
/// Reference model: what must a fault-free run do, given what is published (crash-free history)?
pub fn expect(u: &Universe, ver: usize, held: Option<&(String, u64)>, limit: Option<usize>) -> Expect {
    let up = &u.vers[ver];
    if !up.ok {
        let d = &up.deltas[up.deltas.len().saturating_sub(limit.unwrap_or(usize::MAX))..];
        let fine = d.windows(2).all(|p| p[0].0 + 1 == p[1].0) && d.last().map(|l| l.0 == up.serial).unwrap_or(true);
        return if fine { Expect::Either } else { Expect::Refuse };
    }
    match held {
        Some((s, n)) if *s == up.session => match n.cmp(&up.serial) {
            std::cmp::Ordering::Less => Expect::Update,
            std::cmp::Ordering::Equal => Expect::NoOp,
            std::cmp::Ordering::Greater => Expect::Refuse,
        },
        _ => Expect::Update,
    }
}
/// End-of-run checks for a fault-free run in a crash-free history with a single configuration place.
#[allow(clippy::too_many_arguments)]
pub fn check_run(before: &Image, gb: &Ghost, w: &World, g: &Ghost, cfg: &Cfg, u: &Universe, step: &Step, started: i64, out: &StepOut, foreign: &[String], v: &mut Vec<Viol>) -> Expect {
    let ver = step.ver;
    // without saved state krill-sync starts afresh; URIs below another base count as another publication
    let there = match before.get(&format!("{}/{}", cfg.rrdp, cfg.notif_name())) { Some(Ent::File(f)) if before.contains_key(&format!("{}/rrdp-state.json", cfg.state)) => parse_notif(&f.bytes).ok(), _ => None };
    let held = there.filter(|n| longest_base(u, &n.snap.0) == Some(cfg.base())).map(|n| (n.session, n.serial));
    let mut ex = expect(u, ver, held.as_ref(), cfg.max_deltas);
    // the server used a serial twice: there is no right answer until it uses another
    if ex == Expect::NoOp && gb.notif(cfg).map(|n| n.snap.1 != u.vers[ver].snap.1).unwrap_or(false) { ex = Expect::Either; }
    match ex {
        Expect::Either => {
            if out.exit.ok() && !matches!(&held, Some((s, n)) if *s == u.vers[ver].session && *n == u.vers[ver].serial) {
                check_synced(&w.img, g, cfg, u, ver, gb.notif(cfg).as_deref(), v, &[]);
            }
        }
        Expect::Refuse => {
            if out.exit.ok() { v.push(Viol { props: vec!["C03", "C08"], msg: format!("upstream {} must be refused (published: {held:?}) but the run was successful", u.vers[ver].label) }); }
            let d = image_diff(&part(before, &[&cfg.rrdp, &cfg.rsync]), &part(&w.img, &[&cfg.rrdp, &cfg.rsync]));
            if !d.is_empty() { v.push(Viol { props: vec!["C03"], msg: format!("upstream was refused, but published data changed: {:?}", &d[..d.len().min(4)]) }); }
        }
        Expect::NoOp => {
            if !out.exit.ok() { v.push(Viol { props: vec!["C19", "C08"], msg: format!("run without upstream changes failed: {}", out.exit.text()) }); }
            let mut x = vec![];
            if cfg.rsync_on { check_rsync(before, cfg, u, ver, &mut x, &[]); }
            x.retain(|y| y.props.contains(&"C04"));
            // the rsync side was not in sync (it was disabled, or had another layout): catch up
            let behind = !x.is_empty();
            if behind { check_rsync(&w.img, cfg, u, ver, v, &["C18"]); }
            let skip = |p: &str| behind && (p == cfg.rsync || p.starts_with(&format!("{}/", cfg.rsync)) || p.ends_with("rsync-state.json"));
            let d: Vec<String> = image_diff(before, &w.img).into_iter().filter(|m| !skip(m.split_once(' ').unwrap().1)).collect();
            if !d.is_empty() { v.push(Viol { props: vec!["C19"], msg: format!("run without upstream changes changed: {:?}", &d[..d.len().min(4)]) }); }
            let t: Vec<&String> = out.touched.iter().filter(|p| !skip(p) && **p != format!("{}/krill-sync.lock", cfg.state) && matches!(before.get(*p), Some(Ent::File(_)) | Some(Ent::Link(_)))
                && (p.starts_with(&format!("{}/", cfg.rrdp)) || p.starts_with(&format!("{}/", cfg.rsync)) || p.ends_with("-state.json"))).collect();
            if !t.is_empty() { v.push(Viol { props: vec!["C19"], msg: format!("run without upstream changes wrote to: {:?}", &t[..t.len().min(4)]) }); }
            if step.tick_ms == 0 && w.now() != started { v.push(Viol { props: vec!["C20"], msg: format!("run without upstream changes waited {} s", w.now() - started) }); }
        }
        Expect::Update => {
            if !out.exit.ok() { v.push(Viol { props: vec!["C03", "C04", "C08"], msg: format!("run with a correct upstream version failed: {}", out.exit.text()) }); }
            else {
                check_synced(&w.img, g, cfg, u, ver, gb.notif(cfg).as_deref(), v, &[]);
                check_clean(&w.img, g, cfg, started, foreign, v);
                if !cfg.rsync_on {
                    let d = image_diff(&part(before, &[&cfg.rsync]), &part(&w.img, &[&cfg.rsync]));
                    if !d.is_empty() { v.push(Viol { props: vec!["C04"], msg: format!("rsync is disabled but its directory changed: {:?}", &d[..d.len().min(4)]) }); }
                }
            }
        }
    }
    ex
}
