//! RPKI trees: an encoder of our own for certificates, CRLs, manifests, ROAs and the like (deliberately
//! not the one of the rpki crate), from a description in which every part can be made wrong.
use crate::up::*;
use openssl::bn::{BigNum, BigNumContext};
use openssl::ec::*;
use openssl::hash::MessageDigest;
use openssl::nid::Nid;
use openssl::pkey::*;
use openssl::rsa::Rsa;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex, OnceLock};

// ---- DER
pub fn tlv(t: u8, c: &[u8]) -> Vec<u8> {
    let mut o = vec![t];
    let n = c.len();
    if n < 128 { o.push(n as u8); } else { let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect(); o.push(0x80 | b.len() as u8); o.extend(b); }
    o.extend(c);
    o
}
pub fn seq(p: &[Vec<u8>]) -> Vec<u8> { tlv(0x30, &p.concat()) }
pub fn set(p: &[Vec<u8>]) -> Vec<u8> { let mut v = p.to_vec(); v.sort(); tlv(0x31, &v.concat()) }
pub fn int(n: u64) -> Vec<u8> { let mut b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect(); if b.is_empty() || b[0] & 0x80 != 0 { b.insert(0, 0); } tlv(2, &b) }
pub fn oid(s: &str) -> Vec<u8> {
    let a: Vec<u64> = s.split('.').map(|x| x.parse().unwrap()).collect();
    let mut o = vec![(a[0] * 40 + a[1]) as u8];
    for x in &a[2..] { let mut t = vec![(x & 127) as u8]; let mut y = x >> 7; while y > 0 { t.push((y & 127) as u8 | 128); y >>= 7; } t.reverse(); o.extend(t); }
    tlv(6, &o)
}
pub fn octets(b: &[u8]) -> Vec<u8> { tlv(4, b) }
pub fn bits(unused: u8, b: &[u8]) -> Vec<u8> { tlv(3, &[&[unused][..], b].concat()) }
pub fn null() -> Vec<u8> { vec![5, 0] }
fn civil(t: i64) -> (i64, i64, i64, i64, i64, i64) {
    let d = t.div_euclid(86400);
    let s = t.rem_euclid(86400);
    let z = d + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1, s / 3600, s / 60 % 60, s % 60)
}
pub fn gtime(t: i64) -> Vec<u8> { let (y, m, d, h, i, s) = civil(t); tlv(0x18, format!("{y:04}{m:02}{d:02}{h:02}{i:02}{s:02}Z").as_bytes()) }
pub fn time(t: i64) -> Vec<u8> { let (y, m, d, h, i, s) = civil(t); if (1950..2050).contains(&y) { tlv(0x17, format!("{:02}{m:02}{d:02}{h:02}{i:02}{s:02}Z", y % 100).as_bytes()) } else { gtime(t) } }

// ---- keys
pub struct Key { pk: PKey<Private>, pub spki: Vec<u8>, pub ki: [u8; 20] }
/// one of 576 fixed keys
pub fn key(i: usize) -> Arc<Key> {
    static K: OnceLock<Mutex<HashMap<usize, Arc<Key>>>> = OnceLock::new();
    static P: OnceLock<Vec<String>> = OnceLock::new();
    if let Some(k) = K.get_or_init(Default::default).lock().unwrap().get(&i) { return k.clone(); }
    let ps = P.get_or_init(|| include_str!("../primes.txt").lines().map(String::from).collect());
    let (p, q) = (BigNum::from_hex_str(&ps[i / 24]).unwrap(), BigNum::from_hex_str(&ps[24 + i % 24]).unwrap());
    let mut c = BigNumContext::new().unwrap();
    let one = BigNum::from_u32(1).unwrap();
    let e = BigNum::from_u32(65537).unwrap();
    let n = &p * &q;
    let (p1, q1) = (&p - &one, &q - &one);
    let phi = &p1 * &q1;
    let mut d = BigNum::new().unwrap();
    d.mod_inverse(&e, &phi, &mut c).unwrap();
    let mut iq = BigNum::new().unwrap();
    iq.mod_inverse(&q, &p, &mut c).unwrap();
    let (dp, dq) = (&d % &p1, &d % &q1);
    let rsa = Rsa::from_private_components(n, e, d, p, q, dp, dq, iq).unwrap();
    let ki = openssl::sha::sha1(&rsa.public_key_to_der_pkcs1().unwrap());
    let pk = PKey::from_rsa(rsa).unwrap();
    let k = Arc::new(Key { spki: pk.public_key_to_der().unwrap(), pk, ki });
    K.get().unwrap().lock().unwrap().insert(i, k.clone());
    k
}
/// the public key of a router
fn ec_key() -> (Vec<u8>, [u8; 20]) {
    let g = EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).unwrap();
    let c = BigNumContext::new().unwrap();
    let mut p = EcPoint::new(&g).unwrap();
    p.mul_generator(&g, &BigNum::from_u32(123_456_789).unwrap(), &c).unwrap();
    let mut c = BigNumContext::new().unwrap();
    let raw = p.to_bytes(&g, PointConversionForm::UNCOMPRESSED, &mut c).unwrap();
    (seq(&[seq(&[oid("1.2.840.10045.2.1"), oid("1.2.840.10045.3.1.7")]), bits(0, &raw)]), openssl::sha::sha1(&raw))
}
pub fn sign(i: usize, data: &[u8]) -> Vec<u8> {
    static M: OnceLock<Mutex<HashMap<(usize, Hash), Vec<u8>>>> = OnceLock::new();
    let k = (i, sha(data));
    if let Some(s) = M.get_or_init(Default::default).lock().unwrap().get(&k) { return s.clone(); }
    let pk = key(i);
    let mut s = openssl::sign::Signer::new(MessageDigest::sha256(), &pk.pk).unwrap();
    let r = s.sign_oneshot_to_vec(data).unwrap();
    let mut m = M.get().unwrap().lock().unwrap();
    if m.len() > 200_000 { m.clear(); }
    m.insert(k, r.clone());
    r
}

// ---- resources
#[derive(Clone, Debug, PartialEq)]
pub enum Rs<T> { No, Inherit, L(Vec<T>) }
#[derive(Clone, Debug, PartialEq)]
pub struct Res { pub v4: Rs<(u32, u8)>, pub v6: Rs<(u128, u8)>, pub asn: Rs<(u32, u32)> }
impl Res {
    pub fn none() -> Res { Res { v4: Rs::No, v6: Rs::No, asn: Rs::No } }
    pub fn inherit() -> Res { Res { v4: Rs::Inherit, v6: Rs::Inherit, asn: Rs::Inherit } }
    fn exts(&self, v2: bool) -> Vec<Vec<u8>> {
        let mut v = vec![];
        let mut fam = vec![];
        let pfx = |b: &[u8], l: u8| { let n = (l as usize + 7) / 8; bits((8 * n - l as usize) as u8, &b[..n]) };
        match &self.v4 { Rs::No => {} Rs::Inherit => fam.push(seq(&[octets(&[0, 1]), null()])), Rs::L(l) => fam.push(seq(&[octets(&[0, 1]), seq(&l.iter().map(|(a, n)| pfx(&a.to_be_bytes(), *n)).collect::<Vec<_>>())])) }
        match &self.v6 { Rs::No => {} Rs::Inherit => fam.push(seq(&[octets(&[0, 2]), null()])), Rs::L(l) => fam.push(seq(&[octets(&[0, 2]), seq(&l.iter().map(|(a, n)| pfx(&a.to_be_bytes(), *n)).collect::<Vec<_>>())])) }
        if !fam.is_empty() { v.push(ext(if v2 { "1.3.6.1.5.5.7.1.28" } else { "1.3.6.1.5.5.7.1.7" }, true, &seq(&fam))); }
        let asn = match &self.asn { Rs::No => None, Rs::Inherit => Some(null()), Rs::L(l) => Some(seq(&l.iter().map(|(a, b)| if a == b { int(*a as u64) } else { seq(&[int(*a as u64), int(*b as u64)]) }).collect::<Vec<_>>())) };
        if let Some(a) = asn { v.push(ext(if v2 { "1.3.6.1.5.5.7.1.29" } else { "1.3.6.1.5.5.7.1.8" }, true, &seq(&[tlv(0xa0, &a)]))); }
        v
    }
}
fn ext(o: &str, crit: bool, v: &[u8]) -> Vec<u8> { let mut p = vec![oid(o)]; if crit { p.push(vec![1, 1, 0xff]); } p.push(octets(v)); seq(&p) }
fn rsa_sha256() -> Vec<u8> { seq(&[oid("1.2.840.113549.1.1.11"), null()]) }
fn cn(s: &str) -> Vec<u8> { seq(&[tlv(0x31, &seq(&[oid("2.5.4.3"), tlv(0x13, s.as_bytes())]))]) }
fn ki_name(k: &[u8; 20]) -> Vec<u8> { cn(&hex(k)) }
fn uri(u: &str) -> Vec<u8> { tlv(0x86, u.as_bytes()) }
const AD: &str = "1.3.6.1.5.5.7.48";

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Use { Ca, Ee, Router }
#[derive(Clone)]
pub struct Cert<'a> { serial: u64, issuer: &'a [u8; 20], aki: Option<[u8; 20]>, from: i64, to: i64, spki: &'a [u8], ki: [u8; 20], ku: Use, ca: Use, crl: Option<String>, aia: Option<String>, sia: Vec<(u32, String)>, res: &'a Res, skip: &'a [&'static str], tbs_only: bool, alter: Option<&'a Alt> }
/// signed with key `by`
fn cert(c: &Cert, by: usize, bad_sig: bool) -> Vec<u8> {
    let mut e = vec![];
    let on = |n: &str| !c.skip.contains(&n);
    if c.ca == Use::Ca && on("bc") { e.push(ext("2.5.29.19", true, &seq(&[vec![1, 1, 0xff]]))); }
    if on("ski") { e.push(ext("2.5.29.14", false, &octets(&c.ki))); }
    if let Some(a) = &c.aki { if on("aki") { e.push(ext("2.5.29.35", false, &seq(&[tlv(0x80, a)]))); } }
    if on("ku") { e.push(ext("2.5.29.15", true, &if c.ku == Use::Ca { bits(1, &[6]) } else { bits(7, &[0x80]) })); }
    if c.ca == Use::Router && on("eku") { e.push(ext("2.5.29.37", false, &seq(&[oid("1.3.6.1.5.5.7.3.30")]))); }
    if let Some(u) = &c.crl { if on("crldp") { e.push(ext("2.5.29.31", false, &seq(&[seq(&[tlv(0xa0, &tlv(0xa0, &uri(u)))])]))); } }
    if let Some(u) = &c.aia { if on("aia") { e.push(ext("1.3.6.1.5.5.7.1.1", false, &seq(&[seq(&[oid(&format!("{AD}.2")), uri(u)])]))); } }
    let sia: Vec<Vec<u8>> = c.sia.iter().filter(|(n, _)| on(&format!("sia{n}"))).map(|(n, u)| seq(&[oid(&format!("{AD}.{n}")), uri(u)])).collect();
    if !sia.is_empty() { e.push(ext("1.3.6.1.5.5.7.1.11", false, &seq(&sia))); }
    if on("cp") { e.push(ext("2.5.29.32", true, &seq(&[seq(&[oid(if on("v2") { "1.3.6.1.5.5.7.14.2" } else { "1.3.6.1.5.5.7.14.3" })])]))); }
    e.extend(c.res.exts(!on("v2")));
    let subj = if c.ca == Use::Router { cn("ROUTER-0000FBF4") } else { ki_name(&c.ki) };
    let tbs = seq(&[tlv(0xa0, &int(2)), int(c.serial), rsa_sha256(), ki_name(c.issuer), seq(&[time(c.from), time(c.to)]), subj, c.spki.to_vec(), tlv(0xa3, &seq(&e))]);
    let tbs = c.alter.map(|a| a.apply(&tbs)).unwrap_or(tbs);
    if c.tbs_only { return tbs; }
    let mut s = sign(by, &tbs);
    if bad_sig { let n = s.len() / 2; s[n] ^= 1; }
    seq(&[tbs, rsa_sha256(), bits(0, &s)])
}
/// an octet string in so many constructed ones
fn nested(b: &[u8], n: usize) -> Vec<u8> { let mut v = [0x24u8, 0x80].repeat(n); v.extend(octets(b)); v.extend(vec![0; 2 * n]); v }
const CT: &str = "1.2.840.113549.1.9.16.1";
const SHA256: &str = "2.16.840.1.101.3.4.2.1";
#[derive(Clone, Default)]
struct Cms { bad_sig: bool, bad_digest: bool, signing: Option<i64>, wrong_key: Option<usize>, wrong_ct: bool, wrong_sid: bool, two_times: bool, nest: usize }
fn cms(ct: &str, content: &[u8], ee: &[u8], ee_key: usize, x: &Cms) -> Vec<u8> {
    let attr = |o: &str, v: Vec<u8>| seq(&[oid(o), tlv(0x31, &v)]);
    let c2;
    let digest = sha(if x.bad_digest { c2 = [content, b"x"].concat(); &c2 } else { content });
    let mut at = vec![attr("1.2.840.113549.1.9.3", oid(if x.wrong_ct { "1.2.840.113549.1.9.16.1.36" } else { ct })), attr("1.2.840.113549.1.9.4", octets(&digest))];
    if let Some(t) = x.signing { at.push(attr("1.2.840.113549.1.9.5", time(t))); if x.two_times { at.push(attr("1.2.840.113549.1.9.5", time(t + 5))); } }
    at.sort();
    let at = at.concat();
    let mut s = sign(x.wrong_key.unwrap_or(ee_key), &tlv(0x31, &at));
    if x.bad_sig { let n = s.len() / 2; s[n] ^= 1; }
    let mut ki = key(ee_key).ki;
    if x.wrong_sid { ki[3] ^= 1; }
    let si = seq(&[int(3), tlv(0x80, &ki), seq(&[oid(SHA256)]), tlv(0xa0, &at), seq(&[oid("1.2.840.113549.1.1.1"), null()]), octets(&s)]);
    let sd = seq(&[int(3), tlv(0x31, &seq(&[oid(SHA256)])), seq(&[oid(ct), tlv(0xa0, &nested(content, x.nest))]), tlv(0xa0, ee), tlv(0x31, &si)]);
    seq(&[oid("1.2.840.113549.1.7.2"), tlv(0xa0, &sd)])
}

// ---- description of a tree
#[derive(Clone, Debug, PartialEq)]
pub enum Alt { Set(usize, u8), Flip(usize), Cut(usize), Empty, Data(Vec<u8>), Append(Vec<u8>) }
impl Alt {
    pub fn apply(&self, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        match self { Alt::Set(i, b) => v[*i] = *b, Alt::Flip(i) => { let n = v.len(); v[i % n] ^= 1 << (i % 8); } Alt::Cut(n) => v.truncate(*n), Alt::Empty => v.clear(), Alt::Data(d) => v = d.clone(), Alt::Append(d) => v.extend(d) }
        v
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Roa { asn: u32, v4: Vec<(u32, u8, Option<u8>)>, v6: Vec<(u128, u8, Option<u8>)> },
    Aspa { customer: u32, providers: Vec<u32> },
    Router { asn: Vec<(u32, u32)> }, Gbr, Ca { to: usize }, Raw(Vec<u8>),
    /// a ROA's or other content under another object's extension is made by the file name
    Signed { ct: &'static str, content: Vec<u8> },
}
#[derive(Clone, Debug)]
pub struct Obj {
    pub file: String, pub kind: Kind, pub serial: u64, pub from: i64, pub to: i64, pub signing: Option<i64>, pub ee: usize,
    /// resources of the certificate, if not those that fit
    pub res: Option<Res>,
    /// signed with this key, though it names the CA as issuer
    pub by: Option<usize>,
    /// issued by another CA of the tree
    pub of: Option<usize>,
    pub bad_cert_sig: bool, pub bad_sig: bool, pub bad_digest: bool, pub wrong_key: Option<usize>, pub wrong_ct: bool, pub wrong_sid: bool,
    pub crl_uri: Option<String>, pub skip: Vec<&'static str>, pub ku: Option<Use>, pub bad_ski: bool,
    /// in the repository and for the hash / in the repository only
    pub alt: Option<Alt>, pub stored: Option<Alt>, pub missing: bool, pub unlisted: bool,
    /// other SIA in a CA certificate: directory, manifest, notification
    pub sia: Option<(String, String, Option<String>)>,
    /// content of the signed object in so many constructed octet strings
    pub nest: usize,
    /// before signing: content, certificate
    pub inner: Option<Alt>, pub tbs: Option<Alt>,
}
impl Obj {
    pub fn new(file: &str, kind: Kind, serial: u64, from: i64, to: i64) -> Obj {
        Obj { file: file.into(), kind, serial, from, to, signing: Some(from + 60), ee: 500, res: None, by: None, of: None, bad_cert_sig: false, bad_sig: false, bad_digest: false, wrong_key: None, wrong_ct: false, wrong_sid: false,
            crl_uri: None, skip: vec![], ku: None, bad_ski: false, alt: None, stored: None, missing: false, unlisted: false, sia: None, nest: 0, inner: None, tbs: None }
    }
}
#[derive(Clone, Debug)]
pub struct Crl { pub file: String, pub number: u64, pub this: i64, pub next: i64, pub revoked: Vec<u64>, pub by: Option<usize>, pub of: Option<usize>, pub alt: Option<Alt>, pub stored: Option<Alt>, pub missing: bool, pub unlisted: bool, pub bad_sig: bool, pub tbs: Option<Alt> }
#[derive(Clone, Debug)]
pub struct Mft { pub number: u64, pub this: i64, pub next: i64, pub obj: Obj, pub more: Vec<(String, Vec<u8>)>, pub dup: bool, pub alg: &'static str }
#[derive(Clone, Debug)]
pub struct Ca { /** what is spelled in another case: 1 directory, 2 manifest, 4 notification, 8 CRL, 16 objects as published */ pub spell: u8, pub key: usize, pub dir: String, pub repo: Option<usize>, pub res: Res, pub objs: Vec<Obj>, pub crl: Crl, pub mft: Mft }
#[derive(Clone, Debug)]
pub struct Tree { pub cas: Vec<Ca>, pub notif: Vec<String>, pub ta_from: i64, pub ta_to: i64, pub ta_uri: String, /** before signing */ pub ta_tbs: Option<Alt> }

#[derive(Clone, Default)]
pub struct Built { pub repos: Vec<Objs>, pub mtimes: Vec<BTreeMap<String, i64>>, pub ta: Vec<u8>, pub tal: Vec<u8>,
    /// all objects before alteration, by URI, with the parts that are covered by signatures
    pub signed: BTreeMap<String, Vec<(usize, usize)>> }

fn find(h: &[u8], n: &[u8]) -> Option<(usize, usize)> { h.windows(n.len()).position(|w| w == n).map(|p| (p, p + n.len())) }
pub fn roa_content(asn: u32, v4: &[(u32, u8, Option<u8>)], v6: &[(u128, u8, Option<u8>)]) -> Vec<u8> {
    let one = |b: &[u8], l: u8, m: Option<u8>| { let n = (l as usize + 7) / 8; let mut p = vec![bits((8 * n - l as usize) as u8, &b[..n])]; if let Some(m) = m { p.push(int(m as u64)); } seq(&p) };
    let mut f = vec![];
    if !v4.is_empty() { f.push(seq(&[octets(&[0, 1]), seq(&v4.iter().map(|(a, l, m)| one(&a.to_be_bytes(), *l, *m)).collect::<Vec<_>>())])); }
    if !v6.is_empty() { f.push(seq(&[octets(&[0, 2]), seq(&v6.iter().map(|(a, l, m)| one(&a.to_be_bytes(), *l, *m)).collect::<Vec<_>>())])); }
    seq(&[int(asn as u64), seq(&f)])
}

/// the same URI in another spelling: scheme and authority are case-insensitive
pub fn spell(uri: &str, other: bool) -> String {
    if !other { return uri.into(); }
    let e = uri.find("://").unwrap() + 3;
    let e = e + uri[e..].find('/').unwrap();
    uri.char_indices().map(|(i, c)| if i < e && i % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect()
}
impl Tree {
    pub fn mft_uri(&self, c: usize) -> String { format!("{}{}", self.cas[c].dir, self.cas[c].mft.obj.file) }
    pub fn crl_uri(&self, c: usize) -> String { format!("{}{}", self.cas[c].dir, self.cas[c].crl.file) }
    fn cer_uri(&self, c: usize) -> String {
        if c == 0 { return "rsync://ta.example/ta/ta.cer".into(); }
        for p in &self.cas { for o in &p.objs { if o.kind == (Kind::Ca { to: c }) { return format!("{}{}", p.dir, o.file); } } }
        "rsync://ta.example/nowhere/none.cer".into()
    }
    fn sia(&self, c: usize, o: Option<&Obj>) -> Vec<(u32, String)> {
        if let Some((d, m, n)) = o.and_then(|o| o.sia.as_ref()) { let mut v = vec![(5, d.clone()), (10, m.clone())]; if let Some(n) = n { v.push((13, n.clone())); } return v; }
        let k = self.cas[c].spell;
        let mut v = vec![(5, spell(&self.cas[c].dir, k & 1 > 0)), (10, spell(&self.mft_uri(c), k & 2 > 0))];
        if let Some(r) = self.cas[c].repo { v.push((13, spell(&self.notif[r], k & 4 > 0))); }
        v
    }
    fn cert_for<'a>(&self, c: usize, o: &'a Obj, spki: &'a [u8], ki: [u8; 20], u: Use, res: &'a Res, issuer: &'a Key, sia: Vec<(u32, String)>) -> Cert<'a> {
        let iss = o.of.unwrap_or(c);
        let mut ki = ki;
        if o.bad_ski { ki[0] ^= 1; }
        Cert { serial: o.serial, issuer: &issuer.ki, aki: Some(issuer.ki), from: o.from, to: o.to, spki, ki, ku: o.ku.unwrap_or(if u == Use::Ca { Use::Ca } else { Use::Ee }), ca: u,
            crl: Some(o.crl_uri.clone().unwrap_or_else(|| spell(&self.crl_uri(iss), self.cas[iss].spell & 8 > 0))), aia: Some(self.cer_uri(iss)), sia, res, skip: &o.skip, tbs_only: false, alter: o.tbs.as_ref() }
    }
    /// encoded object and the parts covered by signatures
    fn object(&self, c: usize, o: &Obj) -> (Vec<u8>, Vec<(usize, usize)>) {
        let iss = o.of.unwrap_or(c);
        let ik = key(self.cas[iss].key);
        let by = o.by.unwrap_or(self.cas[iss].key);
        let dir = &self.cas[c].dir;
        let whole = |b: Vec<u8>, tbs: Vec<u8>| { let r = find(&b, &tbs).unwrap(); let n = b.len(); (b, vec![(r.0, r.1), (n - 256, n)]) };
        let (ct, content, fit) = match &o.kind {
            Kind::Raw(b) => return (b.clone(), vec![]),
            Kind::Ca { to } => {
                let sk = key(self.cas[*to].key);
                let res = o.res.as_ref().unwrap_or(&self.cas[*to].res);
                let mut x = self.cert_for(c, o, &sk.spki, sk.ki, Use::Ca, res, &ik, self.sia(*to, Some(o)));
                let b = cert(&x, by, o.bad_cert_sig);
                x.tbs_only = true;
                return whole(b, cert(&x, by, false));
            }
            Kind::Router { asn } => {
                let (spki, ki) = ec_key();
                let r = Res { asn: Rs::L(asn.clone()), ..Res::none() };
                let res = o.res.as_ref().unwrap_or(&r);
                let mut x = self.cert_for(c, o, &spki, ki, Use::Router, res, &ik, vec![]);
                let b = cert(&x, by, o.bad_cert_sig);
                x.tbs_only = true;
                return whole(b, cert(&x, by, false));
            }
            Kind::Roa { asn, v4, v6 } => (format!("{CT}.24"), roa_content(*asn, v4, v6), Res { v4: if v4.is_empty() { Rs::No } else { Rs::L(v4.iter().map(|x| (x.0, x.1)).collect()) }, v6: if v6.is_empty() { Rs::No } else { Rs::L(v6.iter().map(|x| (x.0, x.1)).collect()) }, asn: Rs::No }),
            Kind::Aspa { customer, providers } => (format!("{CT}.49"), seq(&[tlv(0xa0, &int(1)), int(*customer as u64), seq(&providers.iter().map(|p| int(*p as u64)).collect::<Vec<_>>())]), Res { asn: Rs::L(vec![(*customer, *customer)]), ..Res::none() }),
            Kind::Gbr => (format!("{CT}.35"), b"BEGIN:VCARD\r\nVERSION:4.0\r\nFN:Human\r\nORG:Org\r\nEND:VCARD\r\n".to_vec(), Res::inherit()),
            Kind::Signed { ct, content } => (ct.to_string(), content.clone(), Res::inherit()),
        };
        self.signed(c, o, &ct, &content, o.res.as_ref().unwrap_or(&fit), &ik, by, &format!("{dir}{}", o.file))
    }
    #[allow(clippy::too_many_arguments)]
    fn signed(&self, c: usize, o: &Obj, ct: &str, content: &[u8], res: &Res, ik: &Key, by: usize, at: &str) -> (Vec<u8>, Vec<(usize, usize)>) {
        let altered = o.inner.as_ref().map(|a| a.apply(content));
        let content = altered.as_deref().unwrap_or(content);
        let ek = key(o.ee);
        let mut x = self.cert_for(c, o, &ek.spki, ek.ki, Use::Ee, res, ik, vec![(11, at.to_string())]);
        if o.ku == Some(Use::Ca) { x.ca = Use::Ca; }
        let ee = cert(&x, by, o.bad_cert_sig);
        x.tbs_only = true;
        let tbs = cert(&x, by, false);
        let b = cms(ct, content, &ee, o.ee, &Cms { bad_sig: o.bad_sig, bad_digest: o.bad_digest, signing: o.signing, wrong_key: o.wrong_key, wrong_ct: o.wrong_ct, wrong_sid: o.wrong_sid, two_times: false, nest: o.nest });
        let n = b.len();
        let t = find(&b, &tbs).unwrap();
        let r = vec![find(&b, content).unwrap_or((0, 0)), t, (find(&b, &ee).unwrap().1 - 256, find(&b, &ee).unwrap().1), (n - 256, n)];
        (b, r)
    }
    pub fn build(&self) -> Built {
        let n = self.notif.len();
        let mut o = Built { repos: vec![Objs::new(); n], mtimes: vec![BTreeMap::new(); n], ..Default::default() };
        let tk = key(self.cas[0].key);
        let c = Cert { serial: 1, issuer: &tk.ki, aki: None, from: self.ta_from, to: self.ta_to, spki: &tk.spki, ki: tk.ki, ku: Use::Ca, ca: Use::Ca, crl: None, aia: None, sia: self.sia(0, None), res: &self.cas[0].res, skip: &[], tbs_only: false, alter: self.ta_tbs.as_ref() };
        o.ta = cert(&c, self.cas[0].key, false);
        o.tal = format!("{}\n\n{}\n", self.ta_uri, b64(&tk.spki)).into_bytes();
        for (ci, ca) in self.cas.iter().enumerate() {
            let mut entries: Vec<(String, Vec<u8>)> = vec![];
            let repo = ca.repo;
            let mut put = |file: &str, orig: &[u8], alt: &Option<Alt>, stored: &Option<Alt>, missing: bool, mt: Option<i64>, o: &mut Built| -> Vec<u8> {
                let b = alt.as_ref().map(|a| a.apply(orig)).unwrap_or_else(|| orig.to_vec());
                let st = stored.as_ref().map(|a| a.apply(&b)).unwrap_or_else(|| b.clone());
                if let Some(r) = repo { if !missing {
                    let mut u = format!("{}{file}", ca.dir);
                    if ca.spell & 16 > 0 { u = u.replace(".example/", ".eXample/"); }
                    if let Some(t) = mt { if st == orig { o.mtimes[r].insert(u.clone(), t); } }
                    o.repos[r].insert(u, Arc::new(st));
                } }
                b
            };
            for x in &ca.objs {
                let (b, sg) = self.object(ci, x);
                o.signed.insert(format!("{}{}", ca.dir, x.file), sg);
                let mt = match &x.kind { _ if x.inner.is_some() || x.tbs.is_some() => None, Kind::Raw(_) => None, Kind::Ca { .. } | Kind::Router { .. } => Some(x.from), _ => Some(x.signing.unwrap_or(x.from)) };
                let l = put(&x.file, &b, &x.alt, &x.stored, x.missing, mt, &mut o);
                if !x.unlisted { entries.push((x.file.clone(), sha(&l).to_vec())); }
            }
            // CRL
            let iss = ca.crl.of.unwrap_or(ci);
            let ik = key(self.cas[iss].key);
            let mut p = vec![int(1), rsa_sha256(), ki_name(&ik.ki), time(ca.crl.this), time(ca.crl.next)];
            if !ca.crl.revoked.is_empty() { p.push(seq(&ca.crl.revoked.iter().map(|s| seq(&[int(*s), time(ca.crl.this)])).collect::<Vec<_>>())); }
            p.push(tlv(0xa0, &seq(&[ext("2.5.29.35", false, &seq(&[tlv(0x80, &ik.ki)])), ext("2.5.29.20", false, &int(ca.crl.number))])));
            let tbs = seq(&p);
            let tbs = ca.crl.tbs.as_ref().map(|a| a.apply(&tbs)).unwrap_or(tbs);
            let mut s = sign(ca.crl.by.unwrap_or(self.cas[iss].key), &tbs);
            if ca.crl.bad_sig { s[100] ^= 4; }
            let b = seq(&[tbs.clone(), rsa_sha256(), bits(0, &s)]);
            let r = find(&b, &tbs).unwrap();
            o.signed.insert(self.crl_uri(ci), vec![r, (b.len() - 256, b.len())]);
            let l = put(&ca.crl.file, &b, &ca.crl.alt, &ca.crl.stored, ca.crl.missing, if ca.crl.tbs.is_some() { None } else { Some(ca.crl.this) }, &mut o);
            if !ca.crl.unlisted { entries.push((ca.crl.file.clone(), sha(&l).to_vec())); }
            // manifest
            let m = &ca.mft;
            entries.extend(m.more.iter().cloned());
            entries.sort();
            if m.dup { let x = entries[0].clone(); entries.push(x); }
            let content = seq(&[int(m.number), gtime(m.this), gtime(m.next), oid(m.alg), seq(&entries.iter().map(|(f, h)| seq(&[tlv(0x16, f.as_bytes()), bits(0, h)])).collect::<Vec<_>>())]);
            let x = &m.obj;
            let ik = key(self.cas[x.of.unwrap_or(ci)].key);
            let ct = match &x.kind { Kind::Signed { ct, .. } => ct.to_string(), _ => format!("{CT}.26") };
            let (b, sg) = self.signed(ci, x, &ct, &content, x.res.as_ref().unwrap_or(&Res::inherit()), &ik, x.by.unwrap_or(self.cas[x.of.unwrap_or(ci)].key), &self.mft_uri(ci));
            o.signed.insert(self.mft_uri(ci), sg);
            put(&x.file, &b, &x.alt, &x.stored, x.missing, if x.inner.is_some() || x.tbs.is_some() { None } else { Some(x.signing.unwrap_or(x.from)) }, &mut o);
        }
        o
    }
}
