//! A small HTTPS server in the explorer: each request is logged and answered as planned. krill-sync's
//! connections - whatever host and port - are led to it by the shim.
use crate::world::T0;
use openssl::asn1::*;
use openssl::bn::BigNum;
use openssl::ec::*;
use openssl::hash::MessageDigest;
use openssl::nid::Nid;
use openssl::pkey::*;
use openssl::ssl::*;
use openssl::x509::extension::*;
use openssl::x509::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum Body { File, Data(Vec<u8>) }
#[derive(Clone, Debug)]
pub enum Resp {
    Status(u16, Vec<(String, String)>, Body),
    /// these bytes; proper end of the TLS connection or not
    Raw(Vec<u8>, bool),
    Close,
    /// these bytes, and then nothing at all
    Stall(Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Hit { pub tls: bool, pub host: String, pub sni: Option<String>, pub method: String, pub target: String, pub inm: Option<String> }
impl Hit { pub fn url(&self) -> String { format!("{}://{}{}", if self.tls { "https" } else { "http" }, self.host, self.target) } }
#[derive(Default)]
pub struct Plan {
    /// host/path -> content
    pub files: BTreeMap<String, Arc<Vec<u8>>>,
    /// everything else
    pub any: Option<Arc<Vec<u8>>>,
    /// certificate by number of the connection; the last one for all further connections
    pub certs: Vec<&'static str>,
    /// instead of the file: host/path -> response (to all, or to the n-th request for it)
    pub resp: BTreeMap<String, Vec<(Option<usize>, Resp)>>,
    /// close this connection before the handshake
    pub drop_conn: Option<usize>,
    /// do nothing on this connection
    pub stall_conn: Option<usize>,
    /// how much faster time goes for krill-sync
    pub fast: u32,
    pub etag: bool,
    /// ETags other than the default: host/path -> tag
    pub tags: BTreeMap<String, String>,
    pub log: Vec<Hit>,
    pub conns: usize, pub seen: BTreeMap<String, usize>,
}
pub struct Server { pub port: u16, pub plan: Arc<Mutex<Plan>> }

pub fn etag(b: &[u8]) -> String { format!("\"{}\"", &crate::up::hex(&crate::up::sha(b))[..16]) }
pub fn head(code: u16, headers: &[(String, String)], len: Option<usize>) -> Vec<u8> {
    let mut h = format!("HTTP/1.1 {code} {}\r\n", match code { 200 => "OK", 304 => "Not Modified", 404 => "Not Found", _ => "Status" });
    for (k, v) in headers { h += &format!("{k}: {v}\r\n"); }
    if let Some(n) = len { h += &format!("Content-Length: {n}\r\n"); }
    h += "Connection: close\r\n\r\n";
    h.into_bytes()
}

trait RW: Read + Write {}
impl<T: Read + Write> RW for T {}

fn conn(mut s: TcpStream, plan: &Arc<Mutex<Plan>>) -> Option<()> {
    let n = { let mut p = plan.lock().unwrap(); p.conns += 1; p.conns - 1 };
    let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
    let _ = s.set_write_timeout(Some(Duration::from_secs(20)));
    let _ = s.set_nodelay(true);
    let cert = { let p = plan.lock().unwrap(); if p.drop_conn == Some(n) { return None; } if p.stall_conn == Some(n) { drop(p); drain(&mut s, 60); return None; } p.certs.get(n).or(p.certs.last()).copied().unwrap_or("good") };
    let mut b = [0u8; 1];
    if s.peek(&mut b).ok()? == 0 { return None; }
    if b[0] != 0x16 { serve(&mut s, plan, false, None); let _ = s.shutdown(std::net::Shutdown::Write); drain(&mut s, 5); return None; }
    let acc = pki().acc.get(cert).unwrap_or_else(|| panic!("no certificate {cert}"));
    let mut t = match acc.accept(s) { Ok(t) => t, Err(_) => return None };
    let sni = t.ssl().servername(NameType::HOST_NAME).map(|x| x.to_string());
    if serve(&mut t, plan, true, sni) { let _ = t.shutdown(); }
    let s = t.get_mut();
    let _ = s.shutdown(std::net::Shutdown::Write);
    drain(s, 5);
    None
}
/// wait for the other side, so that what was sent is not lost in a reset
fn drain(s: &mut TcpStream, secs: u64) { let mut b = [0u8; 512]; let _ = s.set_read_timeout(Some(Duration::from_secs(secs))); while let Ok(n) = s.read(&mut b) { if n == 0 { break; } } }

fn serve(s: &mut dyn RW, plan: &Arc<Mutex<Plan>>, tls: bool, sni: Option<String>) -> bool {
    let mut q = vec![];
    let mut b = [0u8; 4096];
    while !q.windows(4).any(|w| w == b"\r\n\r\n") {
        match s.read(&mut b) { Ok(n) if n > 0 => q.extend(&b[..n]), _ => return false }
        if q.len() > 1 << 20 { return false; }
    }
    let text = String::from_utf8_lossy(&q).into_owned();
    let mut lines = text.split("\r\n");
    let first: Vec<&str> = lines.next().unwrap_or("").split(' ').collect();
    let hdr: BTreeMap<String, String> = lines.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_lowercase(), v.trim().to_string())).collect();
    let (method, target) = (first.first().unwrap_or(&"").to_string(), first.get(1).unwrap_or(&"").to_string());
    let host = hdr.get("host").cloned().unwrap_or_default();
    let inm = hdr.get("if-none-match").cloned();
    let key = format!("{host}{target}");
    let (file, resp, tag, own) = {
        let mut p = plan.lock().unwrap();
        p.log.push(Hit { tls, host, sni, method, target, inm: inm.clone() });
        let n = { let c = p.seen.entry(key.clone()).or_default(); *c += 1; *c - 1 };
        let r = p.resp.get(&key).and_then(|v| v.iter().find(|x| x.0.is_none() || x.0 == Some(n))).map(|x| x.1.clone());
        (p.files.get(&key).cloned().or(p.any.clone()), r, p.etag, p.tags.get(&key).cloned())
    };
    let data = |b: &Body| match b { Body::File => file.clone().unwrap_or_default().to_vec(), Body::Data(d) => d.clone() };
    let (bytes, fine) = match resp {
        Some(Resp::Close) => return false,
        Some(Resp::Stall(b)) => { let _ = s.write_all(&b); let _ = s.flush(); let mut b = [0u8; 64]; for _ in 0..3 { match s.read(&mut b) { Ok(0) => break, _ => {} } } return false; }
        Some(Resp::Raw(b, n)) => (b, n),
        Some(Resp::Status(c, h, b)) => { let d = data(&b); let mut o = head(c, &h, Some(d.len())); if !matches!(c, 204 | 304) { o.extend(d); } (o, true) }
        None => match &file {
            None => (head(404, &[], Some(0)), true),
            Some(f) => {
                let e = own.unwrap_or_else(|| etag(f));
                if tag && inm.as_deref() == Some(e.as_str()) { (head(304, &[("ETag".into(), e)], None), true) }
                else { let mut o = head(200, &if tag { vec![("ETag".into(), e)] } else { vec![] }, Some(f.len())); o.extend(f.iter()); (o, true) }
            }
        },
    };
    let _ = s.write_all(&bytes);
    let _ = s.flush();
    fine
}

impl Server {
    pub fn start() -> Arc<Server> {
        pki();
        let l = TcpListener::bind("127.0.0.1:0").unwrap_or_else(|e| crate::die(&format!("cannot listen on the loopback interface: {e}")));
        let port = l.local_addr().unwrap().port();
        let plan: Arc<Mutex<Plan>> = Default::default();
        let p2 = plan.clone();
        std::thread::spawn(move || for s in l.incoming() { if let Ok(s) = s { let p = p2.clone(); std::thread::spawn(move || { conn(s, &p); }); } });
        Arc::new(Server { port, plan })
    }
    pub fn set(&self, p: Plan) { *self.plan.lock().unwrap() = p; }
    pub fn log(&self) -> Vec<Hit> { self.plan.lock().unwrap().log.clone() }
}

// ---- certificates
pub struct Pki { pub ca_pem: Vec<u8>, acc: BTreeMap<&'static str, SslAcceptor> }
#[derive(Clone)]
struct Leaf<'a> { cn: &'a str, san: Vec<&'a str>, from: i64, to: i64, issuer: Option<(&'a X509, &'a PKey<Private>)>, ca: bool, client: bool, corrupt: bool }
fn key() -> PKey<Private> { PKey::from_ec_key(EcKey::generate(&EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).unwrap()).unwrap()).unwrap() }
fn name(cn: &str) -> X509Name { let mut n = X509NameBuilder::new().unwrap(); n.append_entry_by_text("O", "mc").unwrap(); n.append_entry_by_text("CN", cn).unwrap(); n.build() }
fn cert(l: &Leaf, k: &PKey<Private>) -> X509 {
    static SERIAL: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);
    let mut b = X509::builder().unwrap();
    b.set_version(2).unwrap();
    b.set_serial_number(&BigNum::from_u32(SERIAL.fetch_add(1, std::sync::atomic::Ordering::SeqCst)).unwrap().to_asn1_integer().unwrap()).unwrap();
    let n = name(l.cn);
    b.set_subject_name(&n).unwrap();
    match l.issuer { Some((c, _)) => b.set_issuer_name(c.subject_name()).unwrap(), None => b.set_issuer_name(&n).unwrap() }
    b.set_not_before(&Asn1Time::from_unix(l.from).unwrap()).unwrap();
    b.set_not_after(&Asn1Time::from_unix(l.to).unwrap()).unwrap();
    b.set_pubkey(k).unwrap();
    if l.ca {
        b.append_extension(BasicConstraints::new().critical().ca().build().unwrap()).unwrap();
        b.append_extension(KeyUsage::new().critical().key_cert_sign().crl_sign().build().unwrap()).unwrap();
    } else {
        b.append_extension(BasicConstraints::new().build().unwrap()).unwrap();
        let mut e = ExtendedKeyUsage::new();
        if l.client { e.client_auth(); } else { e.server_auth(); }
        b.append_extension(e.build().unwrap()).unwrap();
    }
    if !l.san.is_empty() {
        let mut s = SubjectAlternativeName::new();
        for d in &l.san { if d.starts_with(|c: char| c.is_ascii_digit()) { s.ip(d); } else { s.dns(d); } }
        let e = s.build(&b.x509v3_context(l.issuer.map(|x| &**x.0), None)).unwrap();
        b.append_extension(e).unwrap();
    }
    b.sign(match l.issuer { Some((_, k)) => k, None => k }, MessageDigest::sha256()).unwrap();
    let c = b.build();
    if !l.corrupt { return c; }
    // the last byte is part of the signature
    let mut d = c.to_der().unwrap();
    let i = d.len() - 1;
    d[i] ^= 1;
    X509::from_der(&d).unwrap()
}
pub const DAY: i64 = 86_400;
/// name, must be refused unless insecure
pub const CERTS: &[(&str, bool)] = &[("good", false), ("good-chain", false), ("good-short", false), ("self-signed", true), ("other-ca", true), ("expired", true), ("expired-1s", true), ("not-yet", true), ("wrong-name", true), ("sub-name", true), ("parent-name", true),
    ("chain-missing", true), ("chain-expired", true), ("chain-not-ca", true), ("bad-signature", true), ("expired-and-wrong-name", true), ("self-signed-expired", true), ("client-only", true)];
pub fn pki() -> &'static Pki {
    static P: OnceLock<Pki> = OnceLock::new();
    P.get_or_init(|| {
        let (rk, ok, ik, lk) = (key(), key(), key(), key());
        let (f, t) = (T0 - 900 * DAY, T0 + 3000 * DAY);
        let base = Leaf { cn: "root", san: vec![], from: f, to: t, issuer: None, ca: true, client: false, corrupt: false };
        let root = cert(&base, &rk);
        let other = cert(&Leaf { cn: "other root", ..base.clone() }, &ok);
        let inter = cert(&Leaf { cn: "intermediate", issuer: Some((&root, &rk)), ..base.clone() }, &ik);
        let inter_old = cert(&Leaf { cn: "intermediate", issuer: Some((&root, &rk)), to: T0 - DAY, ..base.clone() }, &ik);
        let names = vec!["pub.example", "src.example", "alt.example", "sub.src.example", "localhost", "mirror.localhost", "local", "src.local", "127.0.0.1"];
        let inter_leaf = cert(&Leaf { cn: "intermediate", issuer: Some((&root, &rk)), ca: false, san: names.clone(), ..base.clone() }, &ik);
        let leaf = Leaf { cn: "server", san: names.clone(), from: T0 - 30 * DAY, to: T0 + 2000 * DAY, issuer: Some((&root, &rk)), ca: false, client: false, corrupt: false };
        let mut acc = BTreeMap::new();
        let mut add = |n: &'static str, l: Leaf, chain: &[&X509]| {
            let c = cert(&l, &lk);
            let mut b = SslAcceptor::mozilla_intermediate_v5(SslMethod::tls_server()).unwrap();
            b.set_private_key(&lk).unwrap();
            b.set_certificate(&c).unwrap();
            for x in chain { b.add_extra_chain_cert((*x).clone()).unwrap(); }
            b.set_session_cache_mode(SslSessionCacheMode::OFF);
            let _ = b.set_num_tickets(0);
            acc.insert(n, b.build());
        };
        add("good", leaf.clone(), &[]);
        add("good-chain", Leaf { issuer: Some((&inter, &ik)), ..leaf.clone() }, &[&inter]);
        add("good-short", Leaf { to: T0 + 60, ..leaf.clone() }, &[]);
        add("self-signed", Leaf { cn: "src.example", issuer: None, ..leaf.clone() }, &[]);
        add("other-ca", Leaf { issuer: Some((&other, &ok)), ..leaf.clone() }, &[&other]);
        add("expired", Leaf { to: T0 - DAY, ..leaf.clone() }, &[]);
        add("expired-1s", Leaf { to: T0 - 1, ..leaf.clone() }, &[]);
        add("not-yet", Leaf { from: T0 + 1000 * DAY, ..leaf.clone() }, &[]);
        add("wrong-name", Leaf { san: vec!["wrong.example"], ..leaf.clone() }, &[]);
        add("sub-name", Leaf { san: vec!["www.src.example", "www.pub.example", "src.example.org", "pub.example.org"], ..leaf.clone() }, &[]);
        add("parent-name", Leaf { san: vec!["example", "rc.example", "ub.example"], ..leaf.clone() }, &[]);
        add("chain-missing", Leaf { issuer: Some((&inter, &ik)), ..leaf.clone() }, &[]);
        add("chain-expired", Leaf { issuer: Some((&inter_old, &ik)), ..leaf.clone() }, &[&inter_old]);
        add("chain-not-ca", Leaf { issuer: Some((&inter_leaf, &ik)), ..leaf.clone() }, &[&inter_leaf]);
        add("bad-signature", Leaf { corrupt: true, ..leaf.clone() }, &[]);
        add("expired-and-wrong-name", Leaf { to: T0 - DAY, san: vec!["wrong.example"], ..leaf.clone() }, &[]);
        add("self-signed-expired", Leaf { to: T0 - DAY, issuer: None, cn: "src.example", ..leaf.clone() }, &[]);
        add("client-only", Leaf { client: true, ..leaf.clone() }, &[]);
        Pki { ca_pem: root.to_pem().unwrap(), acc }
    })
}
