//! Upstream repositories: versions with snapshot, deltas and notification file, rendered by our own
//! (deliberately independent) RRDP writer.
use crate::world::{World, UP};
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Bytes = Arc<Vec<u8>>;
pub type Objs = BTreeMap<String, Bytes>;
pub type Hash = [u8; 32];

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn sha(b: &[u8]) -> Hash { openssl::sha::sha256(b) }
pub fn b64(b: &[u8]) -> String { openssl::base64::encode_block(b) }

pub const BASE: &str = "https://pub.example/rrdp/";
pub const NOTIF: &str = "notification.xml";

#[derive(Clone, Debug)]
pub struct Ver {
    pub label: String,
    pub base: String,
    pub notif_name: String,
    pub session: String,
    pub serial: u64,
    pub objects: Objs,
    /// path relative to base -> content; includes the notification file
    pub files: BTreeMap<String, Bytes>,
    pub snap: (String, Hash),
    /// ascending
    pub deltas: Vec<(u64, String, Hash)>,
    /// false: the notification must be refused (gaps, ...)
    pub ok: bool,
    /// expected modification times of rsync objects, by URI
    pub mtimes: BTreeMap<String, i64>,
}
impl Ver {
    pub fn notif(&self) -> &Bytes { &self.files[&self.notif_name] }
    pub fn install(&self, w: &World, dir: &str) {
        for (k, b) in &self.files {
            let p = w.abs(&format!("{UP}/{dir}/{k}"));
            std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
            std::fs::write(&p, b.as_slice()).unwrap();
        }
    }
    /// write a notification for this version again, after changing its fields
    pub fn renotify(&mut self, order: &str) {
        let n = render_notif(&self.base, &self.session, self.serial, &self.snap, &self.deltas, order);
        self.files.insert(self.notif_name.clone(), Arc::new(n));
    }
    pub fn relabel(mut self, l: &str) -> Ver { self.label = l.into(); self }
}

pub fn render_notif(base: &str, session: &str, serial: u64, snap: &(String, Hash), deltas: &[(u64, String, Hash)], order: &str) -> Vec<u8> {
    let mut s = format!("<notification xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"{session}\" serial=\"{serial}\">\n");
    s += &format!("  <snapshot uri=\"{}\" hash=\"{}\"/>\n", abs_uri(base, &snap.0), hex(&snap.1));
    let mut ix: Vec<usize> = (0..deltas.len()).collect();
    match order {
        "desc" => ix.reverse(),
        "shuffle" => { let n = ix.len(); if n > 1 { ix.rotate_left(1); ix.swap(0, n - 1); } }
        _ => {}
    }
    for i in ix {
        let d = &deltas[i];
        s += &format!("  <delta serial=\"{}\" uri=\"{}\" hash=\"{}\"/>\n", d.0, abs_uri(base, &d.1), hex(&d.2));
    }
    s += "</notification>\n";
    s.into_bytes()
}
/// rel may also be a complete URI (for hostile input)
pub fn abs_uri(base: &str, rel: &str) -> String { if rel.contains("://") { rel.into() } else { format!("{base}{rel}") } }

pub fn render_snapshot(session: &str, serial: u64, objs: &Objs) -> Vec<u8> {
    let mut s = format!("<snapshot xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"{session}\" serial=\"{serial}\">\n");
    for (u, b) in objs { s += &format!("  <publish uri=\"{u}\">{}</publish>\n", b64(b)); }
    s += "</snapshot>\n";
    s.into_bytes()
}
pub fn render_delta(session: &str, serial: u64, old: &Objs, new: &Objs) -> Vec<u8> {
    let mut s = format!("<delta xmlns=\"http://www.ripe.net/rpki/rrdp\" version=\"1\" session_id=\"{session}\" serial=\"{serial}\">\n");
    for (u, b) in new {
        match old.get(u) {
            None => s += &format!("  <publish uri=\"{u}\">{}</publish>\n", b64(b)),
            Some(o) if o != b => s += &format!("  <publish uri=\"{u}\" hash=\"{}\">{}</publish>\n", hex(&sha(o)), b64(b)),
            _ => {}
        }
    }
    for (u, o) in old { if !new.contains_key(u) { s += &format!("  <withdraw uri=\"{u}\" hash=\"{}\"/>\n", hex(&sha(o))); } }
    s += "</delta>\n";
    s.into_bytes()
}

/// the same file, written in another way
pub fn dialect(kind: usize, x: &[u8]) -> Vec<u8> {
    let s = String::from_utf8(x.to_vec()).unwrap();
    let each = |s: &str, key: &str, f: &dyn Fn(&str) -> String| {
        let mut o = String::new();
        let mut r = s;
        while let Some(p) = r.find(key) { let a = p + key.len(); let e = a + r[a..].find('"').unwrap(); o += &r[..a]; o += &f(&r[a..e]); r = &r[e..]; }
        o + r
    };
    // text of the publish elements
    let text = |s: &str, f: &dyn Fn(&str) -> String| {
        let mut o = String::new();
        let mut r = s;
        while let Some(p) = r.find("</publish>") { let a = r[..p].rfind('>').unwrap() + 1; o += &r[..a]; o += &f(&r[a..p]); o += "</publish>"; r = &r[p + 10..]; }
        o + r
    };
    let s = match kind {
        0 => format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n{s}"),
        1 => s.replace('"', "'"),
        2 => each(&s, "hash=\"", &|h| h.to_uppercase()),
        3 => each(&s, "session_id=\"", &|h| h.to_uppercase()),
        4 => text(&s, &|t| format!("\n    {t}\n  ")),
        5 => text(&s, &|t| t.as_bytes().chunks(7).map(|c| std::str::from_utf8(c).unwrap()).collect::<Vec<_>>().join("\r\n\t")),
        6 => s.replace("\n", "\n<!-- a comment -->\n"),
        7 => s.replace("></publish>", "/>"),
        8 => s.replace("\n", "").replace("  ", ""),
        9 => s.replace(" version=\"1\" ", " ").replacen("xmlns=\"http://www.ripe.net/rpki/rrdp\"", "version=\"1\" xmlns=\"http://www.ripe.net/rpki/rrdp\"", 1),
        10 => s.replace("/>", " />").replace("\">", "\" >").replace("</publish>", "</publish >"),
        11 => s.replace('\n', "\r\n"),
        12 => s.replace("<publish", "<r:publish").replace("</publish", "</r:publish").replace("<withdraw", "<r:withdraw").replace("<snapshot", "<r:snapshot").replace("</snapshot", "</r:snapshot").replace("<delta", "<r:delta").replace("</delta", "</r:delta").replace("<notification", "<r:notification").replace("</notification", "</r:notification").replace("xmlns=", "xmlns:r="),
        13 => each(&s, "uri=\"", &|u| u.replace('/', "&#47;")),
        14 => format!("\u{feff}{s}"),
        _ => format!("{s}\n<!-- the end -->\n\n"),
    };
    s.into_bytes()
}
pub const DIALECTS: usize = 16;
/// file name styles for snapshot and delta files
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Style { Krill, Random, Fork, Flat, Deep, Odd }
pub fn path_for(st: Style, session: &str, serial: u64, what: &str) -> String {
    match st {
        Style::Krill => format!("{session}/{serial}/{what}.xml"),
        Style::Random => format!("{session}/{serial}/{}/{what}.xml", &hex(&sha(format!("{session}{serial}{what}").as_bytes()))[..16]),
        Style::Fork => format!("{session}/{serial}/{}/{what}.xml", &hex(&sha(format!("fork {session}{serial}{what}").as_bytes()))[..16]),
        Style::Flat => format!("{what}-{}-{serial}.xml", &session[..8]),
        Style::Deep => format!("a/b/{session}/c/{serial}/d/{what}.xml"),
        Style::Odd => format!("{session}/{serial}/{what}.tmp/{what}%2e.xml.old"),
    }
}

/// Builds a sequence of versions of one session.
#[derive(Clone)]
pub struct Repo {
    pub base: String, pub notif_name: String, pub session: String, pub serial: u64, pub objs: Objs, pub style: Style, pub order: String,
    /// all deltas so far: serial, path, bytes
    pub hist: Vec<(u64, String, Bytes)>,
}
impl Repo {
    pub fn new(session: &str, serial: u64, style: Style, objs: Objs) -> Repo {
        Repo { base: BASE.into(), notif_name: NOTIF.into(), session: session.into(), serial, objs, style, order: "asc".into(), hist: vec![] }
    }
    pub fn step(&mut self, new: Objs) -> &mut Self {
        self.serial += 1;
        let d = render_delta(&self.session, self.serial, &self.objs, &new);
        self.hist.push((self.serial, path_for(self.style, &self.session, self.serial, "delta"), Arc::new(d)));
        self.objs = new;
        self
    }
    /// the current version, listing the newest `window` deltas
    pub fn ver(&self, label: &str, window: usize) -> Ver {
        let snap = render_snapshot(&self.session, self.serial, &self.objs);
        let sp = path_for(self.style, &self.session, self.serial, "snapshot");
        let mut files = BTreeMap::new();
        let sh = sha(&snap);
        files.insert(sp.clone(), Arc::new(snap));
        let from = self.hist.len().saturating_sub(window);
        let mut deltas = vec![];
        for (s, p, b) in &self.hist[from..] { files.insert(p.clone(), b.clone()); deltas.push((*s, p.clone(), sha(b))); }
        let mut v = Ver { label: label.into(), base: self.base.clone(), notif_name: self.notif_name.clone(), session: self.session.clone(), serial: self.serial,
            objects: self.objs.clone(), files, snap: (sp, sh), deltas, ok: true, mtimes: BTreeMap::new() };
        v.renotify(&self.order);
        v
    }
}

pub fn objs(l: &[(&str, &[u8])]) -> Objs { l.iter().map(|(u, b)| (u.to_string(), Arc::new(b.to_vec()))).collect() }
pub fn with(o: &Objs, l: &[(&str, &[u8])], rm: &[&str]) -> Objs {
    let mut n = o.clone();
    for (u, b) in l { n.insert(u.to_string(), Arc::new(b.to_vec())); }
    for r in rm { n.remove(*r); }
    n
}
pub fn bytes_of(n: usize, seed: u8) -> Vec<u8> { (0..n).map(|i| (i as u32).wrapping_mul(31).wrapping_add(seed as u32 * 17 + (i as u32 >> 8)) as u8).collect() }

pub const SA: &str = "aaaaaaaa-1111-4111-8111-0000000000a1";
pub const SB: &str = "bbbbbbbb-2222-4222-8222-0000000000b2";
pub const SC: &str = "00000000-0000-4000-8000-0000000000c3";

/// relative path in the rsync tree -> (content, uri)
pub type Tree = BTreeMap<String, (Bytes, String)>;
pub fn rsync_tree(v: &Ver, host: bool) -> Tree {
    v.objects.iter().map(|(u, b)| {
        let r = u.strip_prefix("rsync://").unwrap();
        let p = if host { r.to_string() } else { r.splitn(3, '/').nth(2).unwrap().to_string() };
        (p, (b.clone(), u.clone()))
    }).collect()
}
pub struct Universe { pub name: String, pub vers: Vec<Arc<Ver>>, pub trees: Vec<[Arc<Tree>; 2]>,
    /// also install unions of the files of two versions, with the notification of the second ("m1_2")
    pub unions: bool }
impl Universe {
    pub fn new(name: &str, vers: Vec<Ver>) -> Arc<Universe> {
        let trees = vers.iter().map(|v| [Arc::new(rsync_tree(v, false)), Arc::new(rsync_tree(v, true))]).collect();
        Arc::new(Universe { name: name.into(), vers: vers.into_iter().map(Arc::new).collect(), trees, unions: false })
    }
    pub fn install(&self, w: &World) {
        let p = w.abs(UP);
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        for (i, v) in self.vers.iter().enumerate() { v.install(w, &format!("v{i}")); }
        std::os::unix::fs::symlink(&w.root, w.abs("up/here")).unwrap();
        for d in ["state", "rrdp", "rsync"] { std::os::unix::fs::symlink(format!("../{d}"), w.abs(&format!("up/l-{d}"))).unwrap(); }
        if self.unions {
            for (i, a) in self.vers.iter().enumerate() { for (j, b) in self.vers.iter().enumerate() {
                if i == j { continue; }
                let d = format!("m{i}_{j}");
                a.install(w, &d);
                b.install(w, &d);
            } }
        }
    }
    pub fn ix(&self, label: &str) -> usize { self.vers.iter().position(|v| v.label == label).unwrap_or_else(|| panic!("no version {label}")) }
}
