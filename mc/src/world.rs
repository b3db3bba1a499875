//! A world: one scratch directory on disk plus its exact in-memory image, a virtual clock, and the
//! means to run krill-sync in it.
use crate::proc::*;
use std::collections::BTreeMap;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::sync::{Arc, OnceLock};

/// `mtime`: what somebody set; `at`: otherwise, when it was written by the virtual clock
/// `closed`: the mode, if others may not read it
pub struct FileData { pub bytes: Vec<u8>, pub mtime: Option<i64>, pub at: i64, pub closed: u32, hash: OnceLock<[u8; 32]> }
impl FileData {
    pub fn new(bytes: Vec<u8>, mtime: Option<i64>) -> Arc<Self> { Self::written(bytes, mtime, T0) }
    pub fn written(bytes: Vec<u8>, mtime: Option<i64>, at: i64) -> Arc<Self> { Self::with_mode(bytes, mtime, at, 0) }
    pub fn with_mode(bytes: Vec<u8>, mtime: Option<i64>, at: i64, closed: u32) -> Arc<Self> { Arc::new(FileData { bytes, mtime, at, closed, hash: OnceLock::new() }) }
    pub fn hash(&self) -> &[u8; 32] { self.hash.get_or_init(|| openssl::sha::sha256(&self.bytes)) }
}
impl PartialEq for FileData { fn eq(&self, o: &Self) -> bool { self.mtime == o.mtime && self.closed == o.closed && self.bytes == o.bytes } }
#[derive(Clone)]
pub enum Ent { Dir, /** a directory that others may not enter */ Shut(u32), File(Arc<FileData>), Link(String) }
impl PartialEq for Ent {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Ent::Dir, Ent::Dir) => true,
            (Ent::Shut(a), Ent::Shut(b)) => a == b,
            (Ent::Link(a), Ent::Link(b)) => a == b,
            (Ent::File(a), Ent::File(b)) => Arc::ptr_eq(a, b) || a == b,
            _ => false,
        }
    }
}
/// relative path -> entry
pub type Image = BTreeMap<String, Ent>;

pub fn image_hash(i: &Image) -> [u8; 32] {
    let mut h = openssl::sha::Sha256::new();
    for (k, e) in i {
        h.update(k.as_bytes());
        match e {
            Ent::Dir => h.update(b"\0d\n"),
            Ent::Shut(m) => { h.update(b"\0D"); h.update(&m.to_ne_bytes()); }
            Ent::Link(t) => { h.update(b"\0l"); h.update(t.as_bytes()); h.update(b"\n") }
            Ent::File(f) => { h.update(b"\0f"); h.update(f.hash()); h.update(&f.mtime.unwrap_or(-1).to_ne_bytes()); if f.closed != 0 { h.update(&f.closed.to_ne_bytes()); } }
        }
    }
    h.finish()
}
pub fn under<'a>(i: &'a Image, dir: &str) -> impl Iterator<Item = (&'a str, &'a Ent)> {
    let p = format!("{dir}/");
    let n = p.len();
    let p2 = p.clone();
    i.range(p.clone()..).take_while(move |(k, _)| k.starts_with(&p2)).map(move |(k, e)| (&k[n..], e))
}
pub fn image_diff(a: &Image, b: &Image) -> Vec<String> {
    let mut v = vec![];
    for (k, e) in a {
        match b.get(k) { None => v.push(format!("removed {k}")), Some(x) if x != e => v.push(format!("changed {k}")), _ => {} }
    }
    for k in b.keys() { if !a.contains_key(k) { v.push(format!("added {k}")); } }
    v
}

pub struct World {
    pub id: usize, pub root: String, pub img: Image, clock: *mut i64, clock_path: String, outbase: String,
    pub bin: String, pub shim: String, real_now: i64, pub runs: u64, pub steps: u64, pub extra_env: Vec<(String, String)>, /** of the configuration in use */ pub cfg_env: Vec<(String, String)>,
    pub hang_s: u64, pub installed: String, pub http: Option<std::sync::Arc<crate::https::Server>>,
}
unsafe impl Send for World {}

pub const UP: &str = "up"; // upstream data, not part of the image
pub const T0: i64 = 1_700_000_000;
/// nanoseconds of the times of files that were written at that time, by the virtual clock
const MARK: i64 = 123_456_789;
const PLACE: &[u8] = b"@@MCROOT@@";

fn replace(b: &[u8], from: &[u8], to: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let Some(k) = find(&b[i..], from) else { break };
        o.extend_from_slice(&b[i..i + k]);
        o.extend_from_slice(to);
        i += k + from.len();
    }
    o.extend_from_slice(&b[i..]);
    o
}
fn find(b: &[u8], what: &[u8]) -> Option<usize> {
    let p = unsafe { libc::memmem(b.as_ptr() as *const _, b.len(), what.as_ptr() as *const _, what.len()) };
    if p.is_null() { None } else { Some(p as usize - b.as_ptr() as usize) }
}
fn is_state(rel: &str) -> bool { rel.starts_with("state") || rel.starts_with("log") }

impl World {
    pub fn new(scratch: &str, id: usize, bin: &str, shim: &str) -> World {
        let root = format!("{scratch}/w{id:02}");
        std::fs::create_dir_all(&root).unwrap();
        std::fs::create_dir_all(format!("{root}/{UP}")).unwrap();
        let clock_path = format!("{scratch}/c{id:02}");
        std::fs::write(&clock_path, vec![0u8; 4096]).unwrap();
        let f = std::fs::OpenOptions::new().read(true).write(true).open(&clock_path).unwrap();
        let clock = unsafe {
            use std::os::fd::AsRawFd;
            let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
            assert!(p != libc::MAP_FAILED);
            p as *mut i64
        };
        let real_now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        let mut w = World { id, root, img: Image::new(), clock, clock_path, outbase: format!("{scratch}/o{id:02}"), bin: bin.into(), shim: shim.into(),
            real_now, runs: 0, steps: 0, extra_env: vec![], cfg_env: vec![], hang_s: 20, installed: String::new(), http: None };
        w.set_now(T0);
        w
    }
    pub fn now(&self) -> i64 { unsafe { std::ptr::read_volatile(self.clock) / 1_000_000_000 } }
    pub fn now_ns(&self) -> i64 { unsafe { std::ptr::read_volatile(self.clock) } }
    pub fn set_now(&mut self, s: i64) { unsafe { std::ptr::write_volatile(self.clock, s * 1_000_000_000) } }
    pub fn add_ns(&mut self, ns: i64) { unsafe { std::ptr::write_volatile(self.clock, self.now_ns() + ns) } }
    pub fn abs(&self, rel: &str) -> String { format!("{}/{rel}", self.root) }
    pub fn rel<'a>(&self, p: &'a str) -> Option<&'a str> {
        let r = p.strip_prefix(self.root.as_str())?;
        if r.is_empty() { Some("") } else { r.strip_prefix('/') }
    }

    // ---- image <-> disk
    fn load(&self, rel: &str) -> Option<Ent> {
        let p = self.abs(rel);
        let m = std::fs::symlink_metadata(&p).ok()?;
        if m.file_type().is_symlink() { return Some(Ent::Link(std::fs::read_link(&p).ok()?.to_string_lossy().into_owned())); }
        let mode = m.mode() & 0o7777;
        if m.is_dir() { return Some(if mode & 0o555 == 0o555 || is_state(rel) { Ent::Dir } else { Ent::Shut(mode) }); }
        if !m.is_file() { return Some(Ent::Link("?special".into())); }
        let mut b = std::fs::read(&p).unwrap_or_default();
        if is_state(rel) { b = replace(&b, self.root.as_bytes(), PLACE); }
        let mt = m.mtime();
        // not set by anyone: the time of writing; fractions make a difference for rsync
        let mut at = mt;
        let mtime = if m.mtime_nsec() == MARK { None }
            else if (mt - self.real_now).abs() > 10 * 86400 { Some(if m.mtime_nsec() == 0 { mt } else { i64::MIN / 2 + mt }) }
            else { at = self.now(); set_mtime_ns(&p, at, MARK); None };
        Some(Ent::File(FileData::with_mode(b, mtime, at, if mode & 0o444 == 0o444 || is_state(rel) { 0 } else { mode })))
    }
    fn scan(&self, rel: &str, out: &mut Image) {
        if rel == UP || rel.starts_with("up/") { return; }
        if !rel.is_empty() {
            match self.load(rel) { None => return, Some(e) => { let d = matches!(e, Ent::Dir | Ent::Shut(_)); out.insert(rel.to_string(), e); if !d { return; } } }
        }
        if let Ok(rd) = std::fs::read_dir(self.abs(rel)) {
            for d in rd.flatten() {
                let n = d.file_name().to_string_lossy().into_owned();
                self.scan(&if rel.is_empty() { n } else { format!("{rel}/{n}") }, out);
            }
        }
    }
    pub fn full_scan(&self) -> Image { let mut i = Image::new(); self.scan("", &mut i); i }
    /// re-read one path (and all below)
    pub fn refresh(&mut self, abs: &str) {
        let rel = match self.rel(abs) { Some(r) => r.to_string(), None => return };
        if rel == UP || rel.starts_with("up/") { return; }
        self.forget(&rel);
        let mut part = Image::new();
        self.scan(&rel, &mut part);
        self.img.append(&mut part);
    }
    fn forget(&mut self, rel: &str) {
        self.img.remove(rel);
        let p = format!("{rel}/");
        let ks: Vec<String> = self.img.range(p.clone()..).take_while(|(k, _)| k.starts_with(&p)).map(|(k, _)| k.clone()).collect();
        for k in ks { self.img.remove(&k); }
    }
    fn put(&self, rel: &str, e: &Ent) {
        let p = self.abs(rel);
        match e {
            Ent::Dir => { let _ = std::fs::create_dir(&p); }
            Ent::Shut(m) => { let _ = std::fs::create_dir(&p); self.chmod(rel, *m); }
            Ent::Link(t) => std::os::unix::fs::symlink(t, &p).unwrap_or_else(|x| crate::die(&format!("symlink {p}: {x}"))),
            Ent::File(f) => {
                let r = if is_state(rel) { std::fs::write(&p, replace(&f.bytes, PLACE, self.root.as_bytes())) } else { std::fs::write(&p, &f.bytes) };
                r.unwrap_or_else(|x| crate::die(&format!("write {p}: {x}")));
                if f.closed != 0 { self.chmod(rel, f.closed); }
                match f.mtime { Some(t) => set_mtime(&p, t), None => set_mtime_ns(&p, f.at, MARK) }
            }
        }
    }
    fn del(&self, rel: &str, e: &Ent) {
        let p = self.abs(rel);
        let r = match e { Ent::Dir | Ent::Shut(_) => std::fs::remove_dir(&p), _ => std::fs::remove_file(&p) };
        r.unwrap_or_else(|x| crate::die(&format!("remove {p}: {x}")));
    }
    /// make the disk equal to `to`
    pub fn restore(&mut self, to: &Image) {
        let gone: Vec<(String, Ent)> = self.img.iter().filter(|(k, e)| match to.get(*k) {
            None => true,
            Some(x) => !(matches!((x, e), (Ent::Dir, Ent::Dir)) || x == *e),
        }).map(|(k, e)| (k.clone(), e.clone())).collect();
        // children before parents
        for (k, e) in gone.iter().rev() { self.del(k, e); self.img.remove(k); }
        for (k, e) in to {
            match (self.img.get(k), e) {
                (None, _) => self.put(k, e),
                // same content, written at another time
                (Some(Ent::File(a)), Ent::File(b)) if b.mtime.is_none() && a.at != b.at => set_mtime_ns(&self.abs(k), b.at, MARK),
                _ => {}
            }
        }
        self.img = to.clone();
    }
    pub fn reset(&mut self) { self.restore(&Image::new()); self.set_now(T0); }
    /// explorer-side edit of the tracked tree
    pub fn write_file(&mut self, rel: &str, bytes: &[u8]) {
        let p = self.abs(rel);
        if let Some(d) = std::path::Path::new(&p).parent() { std::fs::create_dir_all(d).unwrap(); }
        std::fs::write(&p, bytes).unwrap();
        if let Some(top) = rel.split('/').next() { let a = self.abs(top); self.refresh(&a); }
    }
    pub fn chmod(&self, rel: &str, m: u32) { let _ = std::fs::set_permissions(self.abs(rel), std::fs::Permissions::from_mode(m)); }
    pub fn link_up(&self, name: &str, target: &str) {
        let p = self.abs(&format!("{UP}/{name}"));
        let _ = std::fs::remove_file(&p);
        std::os::unix::fs::symlink(target, &p).unwrap();
    }

    // ---- running
    pub fn proc(&mut self, args: &[String], flags: u32) -> Proc { self.proc_n(args, flags, "") }
    pub fn proc_n(&mut self, args: &[String], flags: u32, tag: &str) -> Proc {
        self.runs += 1;
        let env: Vec<_> = self.cfg_env.iter().chain(&self.extra_env).cloned().collect();
        let mut p = Proc::spawn(args, &Env { bin: &self.bin, shim: &self.shim, root: &self.root, clock: &self.clock_path,
            outfile: format!("{}{tag}", self.outbase), flags, extra: &env });
        p.hang_s = self.hang_s;
        p
    }
    /// note the effect of an operation that was allowed to go on
    pub fn after(&mut self, r: &Req) {
        if !r.op.mutates() { return; }
        let (a, b) = (r.p1.clone(), r.p2.clone());
        self.refresh(&a);
        if r.op == Op::Rename { self.refresh(&b); }
    }
    /// Run to completion; `hook` sees every operation before it happens, with `self.img` up to date.
    pub fn run(&mut self, args: &[String], flags: u32, hook: &mut dyn FnMut(&mut World, &Req) -> Act) -> Exit {
        let mut p = self.proc(args, flags);
        let mut last: Option<Req> = None;
        // a run that goes on and on: it keeps sleeping (in virtual time), or keeps working
        let (mut sleeps, most) = (0, if self.http.is_some() { 1000 } else { 100_000 });
        let end = std::time::Instant::now() + std::time::Duration::from_secs(240);
        loop {
            let ev = p.next();
            if let Some(l) = last.take() { self.after(&l); }
            match ev {
                Ev::Exit(e) => return e,
                Ev::Req(r) => {
                    self.steps += 1;
                    if r.op == Op::Sleep { sleeps += 1; }
                    if sleeps > most || (self.steps % 256 == 0 && std::time::Instant::now() > end) { return p.hung_now(); }
                    match hook(self, &r) {
                        Act::Kill => return p.kill_now(),
                        act => {
                            if r.op == Op::Sleep && act == Act::Go { self.add_ns(r.a); }
                            if !matches!(act, Act::Fail(_)) { last = Some(r); }
                            p.reply(act);
                        }
                    }
                }
            }
        }
    }
    /// the tracked image must be what is on disk
    pub fn self_check(&mut self, full: bool) {
        if !full { return; }
        let f = self.full_scan();
        if f != self.img {
            let d = image_diff(&self.img, &f);
            crate::die(&format!("tracked image differs from disk: {:?}", &d[..d.len().min(8)]));
        }
    }
}

pub fn set_mtime(p: &str, t: i64) { set_mtime_ns(p, t, 0) }
fn set_mtime_ns(p: &str, t: i64, ns: i64) {
    let c = std::ffi::CString::new(p).unwrap();
    let ts = [libc::timespec { tv_sec: t, tv_nsec: ns }, libc::timespec { tv_sec: t, tv_nsec: ns }];
    unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), ts.as_ptr(), 0); }
}
