//! The named upstream universes and configuration sets.
use crate::engine::*;
use crate::hist::Setup;
use crate::up::*;
use std::sync::Arc;

fn base_objs() -> Objs {
    objs(&[("rsync://rpki.example/repo/ca/a.roa", b"object a, first"), ("rsync://rpki.example/repo/ca/b.mft", b"object b, first"), ("rsync://rpki.example/repo/ca/sub/c.crl", b"c")])
}
/// session A: serials 9 to 13 with a window of 2 deltas, with variations, and session B
pub fn basic_vers(style: Style) -> Vec<Ver> {
    let mut a = Repo::new(SA, 8, style, objs(&[("rsync://rpki.example/repo/ca/old.roa", b"old")]));
    a.step(base_objs());
    let a1 = a.ver("A1", 2);
    let o = with(&a.objs, &[("rsync://rpki.example/repo/ca/a.roa", b"object a, second version")], &["rsync://rpki.example/repo/ca/b.mft"]);
    a.step(o);
    let a2 = a.ver("A2", 2);
    let o = with(&a.objs, &[("rsync://rpki.example/repo/ca2/d.cer", b"d"), ("rsync://rpki.example/repo/ca/b.mft", b"b is back")], &["rsync://rpki.example/repo/ca/sub/c.crl"]);
    a.step(o);
    let a3 = a.ver("A3", 2);
    let mut a3none = a.ver("A3nodelta", 2);
    a3none.deltas.clear();
    a3none.renotify("asc");
    let o = with(&a.objs, &[("rsync://rpki.example/repo/ca/a.roa", b"object a, first")], &["rsync://rpki.example/repo/ca2/d.cer"]);
    a.step(o);
    let a4 = a.ver("A4", 1);
    a.order = "shuffle".into();
    let a4all = a.ver("A4all", 9);
    let mut gap = a.ver("A4gap", 9);
    gap.deltas.remove(gap.deltas.len() - 2);
    gap.ok = false;
    gap.renotify("desc");
    let mut tail = a.ver("A4tail", 9);
    tail.deltas.pop();
    tail.ok = false;
    tail.renotify("asc");
    let mut b = Repo::new(SB, 0, style, Objs::new());
    b.step(with(&base_objs(), &[("rsync://rpki.example/repo/ca/b.mft", b"session B")], &[]));
    b.order = "desc".into();
    let b1 = b.ver("B1", 9);
    let o = with(&b.objs, &[], &["rsync://rpki.example/repo/ca/a.roa", "rsync://rpki.example/repo/ca/b.mft", "rsync://rpki.example/repo/ca/sub/c.crl"]);
    b.step(o);
    let b2 = b.ver("B2empty", 9);
    // a session with the same serials as session A
    let mut c = Repo::new(SC, 8, style, Objs::new());
    c.step(with(&base_objs(), &[("rsync://rpki.example/repo/ca/c.asa", b"session C")], &["rsync://rpki.example/repo/ca/b.mft"]));
    let o = with(&c.objs, &[("rsync://rpki.example/repo/ca/b.mft", b"session C")], &["rsync://rpki.example/repo/ca/c.asa"]);
    c.step(o);
    let c1 = c.ver("C1", 2);
    let o = with(&c.objs, &[("rsync://rpki.example/repo/ca3/e.cer", b"e")], &[]);
    c.step(o);
    let c2 = c.ver("C2", 2);
    vec![a1, a2, a3, a4, b1, a4all, a3none, gap, tail, b2, c1, c2]
}
/// Session A: serials 9 to 13; and what becomes of it if the server was restored from a backup made at serial 10
/// and went on from there in the same session, with other changes. It would have to start a new session.
fn forked() -> Vec<Ver> {
    let mut a = Repo::new(SA, 8, Style::Random, objs(&[("rsync://rpki.example/repo/ca/old.roa", b"old")]));
    a.step(base_objs());
    let mut v = vec![a.ver("A9", 9)];
    let o = with(&a.objs, &[("rsync://rpki.example/repo/ca/a.roa", b"object a, second version")], &[]);
    a.step(o);
    v.push(a.ver("A10", 9));
    let mut f = a.clone();
    f.style = Style::Fork;
    for (r, x) in [(&mut a, 'A'), (&mut f, 'F')] {
        for i in 11..=14u8 {
            let u = format!("rsync://rpki.example/repo/ca/{x}{i}.roa");
            let o = with(&r.objs, &[("rsync://rpki.example/repo/ca/b.mft", &[x as u8, i]), (&u, &[i])], &[]);
            r.step(o);
            r.order = ["asc", "desc", "shuffle"][i as usize % 3].into();
            v.push(r.ver(&format!("{x}{i}"), 3));
        }
    }
    v
}
/// time zone
pub fn tz(s: &str) -> Vec<(String, String)> { vec![("TZ".into(), s.into())] }
pub fn std_cfgs() -> Vec<Cfg> {
    vec![
        Cfg::default(),
        Cfg { max_deltas: Some(1), ..Cfg::default() }.n("max-deltas=1"),
        Cfg { max_deltas: Some(0), ..Cfg::default() }.n("max-deltas=0"),
        Cfg { host: true, ..Cfg::default() }.n("include-host"),
        Cfg { rsync_on: false, ..Cfg::default() }.n("no-rsync"),
        Cfg { delay: 30, ..Cfg::default() }.n("delay=30"),
        Cfg { xdev: true, ..Cfg::default() }.n("state on other device"),
        Cfg { cleanup: 0, ..Cfg::default() }.n("cleanup=0"),
        Cfg { max_deltas: Some(2), ..Cfg::default() }.n("max-deltas=2"),
        Cfg { cleanup: i64::MAX, max_deltas: Some(usize::MAX), ..Cfg::default() }.n("cleanup and max-deltas as large as can be"),
        Cfg { cleanup: 1 << 32, max_deltas: Some(1 << 33), ..Cfg::default() }.n("cleanup=2^32, max-deltas=2^33"),
        Cfg { cleanup: 1_000_000, ..Cfg::default() }.n("cleanup=1000000"),
        Cfg { verbose: -1, env: tz("ABC-14:30"), max_deltas: Some(2), ..Cfg::default() }.n("quiet, 14:30 h ahead of UTC"),
        Cfg { verbose: 6, env: tz("XYZ11:15"), delay: 40, ..Cfg::default() }.n("very verbose, 11:15 h behind UTC, delay=40"),
    ]
}
pub const OTHER_BASE: &str = "https://other.example/pub/x/";
pub const SUB_BASE: &str = "https://pub.example/rrdp/sub/";
pub const WIDE: &[&str] = &["w9", "w99", "w16", "w31", "w32", "w53", "w63", "w64", "sizes", "names", "hosts", "many", "window", "win400", "long", "thousands", "huge", "giant"];
fn serials(from: u64) -> Vec<Ver> {
    let mut a = Repo::new(SA, from, Style::Krill, objs(&[("rsync://rpki.example/repo/old.roa", b"old")]));
    let mut v = vec![];
    for i in 0..4u8 {
        let o = with(&a.objs, &[("rsync://rpki.example/repo/x.roa", &[i; 3])], &[]);
        a.step(o);
        a.order = ["asc", "desc", "shuffle"][i as usize % 3].into();
        v.push(a.ver(&format!("A{}", a.serial), 3));
    }
    v
}
fn two_hosts() -> Vec<Cfg> { vec![Cfg::default(), Cfg { host: true, rsync: "rsync-h".into(), rrdp: "rrdp-h".into(), state: "state-h".into(), ..Cfg::default() }.n("include-host, other directories")] }
fn from_sets(l: Vec<(&str, Objs)>) -> Vec<Ver> {
    let mut a = Repo::new(SA, 4, Style::Krill, Objs::new());
    let mut v = vec![];
    for (n, o) in l { a.step(o); v.push(a.ver(n, 2)); }
    v
}
pub fn setup(name: &str) -> Setup {
    let mk = |v: Vec<Ver>, c: Vec<Cfg>, f: Vec<&str>| Setup { name: name.into(), u: Universe::new(name, v), cfgs: Arc::new(c), foreign: Arc::new(f.into_iter().map(String::from).collect()), from: Default::default() };
    if name.starts_with("up-") { return crate::upgrade::setup(name); }
    match name {
        "basic" => mk(basic_vers(Style::Krill), std_cfgs(), vec![]),
        "moving" => {
            let mut s = mk(basic_vers(Style::Random).into_iter().filter(|v| v.ok).collect(), std_cfgs(), vec![]);
            Arc::get_mut(&mut s.u).unwrap().unions = true;
            s
        }
        "forked" => mk(forked(), std_cfgs(), vec![]),
        "flat" => mk(basic_vers(Style::Flat), std_cfgs(), vec![]),
        "foreign" => mk(basic_vers(Style::Random), std_cfgs(), vec![
            "rrdp/README", &format!("rrdp/{SA}/index.html"), "rrdp/other/data.xml", "rsync/motd", "rsync/other/file", "state/mine"]),
        "deep" => mk(basic_vers(Style::Deep), std_cfgs(), vec![]),
        "odd" => mk(basic_vers(Style::Odd), std_cfgs(), vec![]),
        "delays" => mk(basic_vers(Style::Krill), vec![
            Cfg { delay: 30, cleanup: 20, ..Cfg::default() }.n("delay=30,cleanup=20"), Cfg { delay: 30, cleanup: 30, ..Cfg::default() }.n("delay=30,cleanup=30"),
            Cfg { delay: 1, ..Cfg::default() }.n("delay=1"), Cfg { delay: 700, ..Cfg::default() }.n("delay=700"), Cfg { delay: 5_000, cleanup: 4_000, ..Cfg::default() }.n("delay=5000,cleanup=4000"), Cfg { delay: 100_000, cleanup: 200_000, ..Cfg::default() }.n("delay=100000,cleanup=200000"), Cfg { delay: 5_000_000, ..Cfg::default() }.n("delay=5000000"),
            Cfg { delay: 30, max_deltas: Some(0), ..Cfg::default() }.n("delay=30,max-deltas=0"), Cfg { delay: 30, rsync_on: false, max_deltas: Some(1), ..Cfg::default() }.n("delay=30,no-rsync"), Cfg { delay: 30, cleanup: 40, xdev: true, ..Cfg::default() }.n("delay=30,cleanup=40,xdev")], vec![]),
        "reconf" => {
            let mut vers: Vec<Ver> = basic_vers(Style::Krill).into_iter().filter(|v| ["A1", "A2", "A4", "B1"].contains(&v.label.as_str())).collect();
            let mut more = vec![];
            for base in [OTHER_BASE, SUB_BASE] {
                for v in &vers { let mut o = v.clone().relabel(&format!("{}{}", v.label, if base == OTHER_BASE { "other" } else { "sub" })); o.base = base.into(); o.renotify("asc"); more.push(o); }
            }
            for v in &mut vers { let n = v.notif().clone(); v.files.insert("sync.xml".into(), n); }
            vers.extend(more);
            let d = Cfg::default;
            mk(vers, vec![
                d(),
                Cfg { rrdp: "rrdp-2".into(), ..d() }.n("other rrdp dir"),
                Cfg { rsync: "rsync-2".into(), ..d() }.n("other rsync dir"),
                Cfg { rrdp: "rrdp-2".into(), rsync: "rsync-2".into(), ..d() }.n("other rrdp and rsync dirs"),
                Cfg { state: "state-2".into(), ..d() }.n("other state dir"),
                Cfg { uri: format!("{BASE}sync.xml"), ..d() }.n("other notification name"),
                Cfg { uri: format!("{OTHER_BASE}{NOTIF}"), ..d() }.n("other base URI"),
                Cfg { uri: format!("{OTHER_BASE}{NOTIF}"), rrdp: "rrdp-2".into(), ..d() }.n("other base URI and rrdp dir"),
                Cfg { host: true, ..d() }.n("include-host"),
                Cfg { state: "state-d".into(), rrdp: "state-d/rrdp".into(), rsync: "state-d/rsync".into(), dflt: true, ..d() }.n("default dirs below state dir"),
                Cfg { rsync_on: false, ..d() }.n("no-rsync"),
                Cfg { max_deltas: Some(1), ..d() }.n("max-deltas=1"),
                Cfg { max_deltas: Some(0), uri: format!("{BASE}sync.xml"), ..d() }.n("other notification name, max-deltas=0"),
                Cfg { uri: format!("{SUB_BASE}{NOTIF}"), ..d() }.n("base URI below the old one"),
                Cfg { link: "cur2".into(), delay: 30, ..d() }.n("other source dir, delay=30"),
                Cfg { rrdp: "rrdp/sub".into(), ..d() }.n("rrdp dir below the old one"),
            ], vec![])
        }
        "spelt" => {
            let d = || Cfg { max_deltas: Some(2), ..Cfg::default() };
            let mut l: Vec<Cfg> = [Form::Absolute, Form::Relative, Form::Dot, Form::Slash, Form::Odd, Form::Up, Form::Via, Form::Link].into_iter().map(|f| Cfg { form: f, ..d() }.n(&format!("{f:?}"))).collect();
            l.push(Cfg { form: Form::Relative, host: true, cleanup: 0, ..d() }.n("Relative, include-host, cleanup=0"));
            mk(basic_vers(Style::Krill), l, vec!["state/mine", "rrdp/README", "rsync/motd"])
        }
        "placed" => {
            let d = |s: &str, r: &str, y: &str| Cfg { state: s.into(), rrdp: r.into(), rsync: y.into(), ..Cfg::default() }.n(&format!("state {s}, RRDP {r}, rsync {y}"));
            mk(basic_vers(Style::Krill), vec![
                d("state", "state", "state"), d("state", "rrdp", "rrdp"), d("state", "state", "rsync"), d("state", "rrdp", "state"),
                d("state", "rrdp", "rrdp/rsync"), d("state", "rsync/rrdp", "rsync"), d("state/a", "state", "rsync"), d("state/a", "state/b", "state"), d("state/deep/er", "state", "state/deep"), d("state", "state/a", "state/a/b"),
                d("state é ' \" \\ $(x) %20", "rr dp%2e", "rs&ync;*?"), d("state.tmp", "rrdp.tmp", "rsync.tmp"), d("state.old", "rrdp.old", "current"), d("state-", "notification.xml", "current/current"), d("statea/b/c/d", "r/b/c/d", "y/b/c/d"), d("state", SA, "session_x_serial_1"), d("state..", "..rrdp", "-rsync"),
            ], vec![])
        }
        "w9" => mk(serials(7), vec![Cfg::default(), Cfg { max_deltas: Some(1), ..Cfg::default() }.n("max-deltas=1")], vec![]),
        "w99" => mk(serials(97), vec![Cfg::default(), Cfg { max_deltas: Some(2), ..Cfg::default() }.n("max-deltas=2")], vec![]),
        "w16" => mk(serials((1 << 16) - 3), vec![Cfg::default()], vec![]),
        "w31" => mk(serials((1 << 31) - 3), vec![Cfg::default()], vec![]),
        "w53" => mk(serials((1 << 53) - 3), vec![Cfg::default()], vec![]),
        "w63" => mk(serials((1 << 63) - 3), vec![Cfg::default()], vec![]),
        "w32" => mk(serials((1 << 32) - 3), vec![Cfg::default()], vec![]),
        "w64" => mk(serials(u64::MAX - 6), vec![Cfg::default(), Cfg { max_deltas: Some(1), ..Cfg::default() }.n("max-deltas=1")], vec![]),
        "window" => {
            let mut v = vec![];
            let mut a = Repo::new(SC, 1, Style::Random, Objs::new());
            for i in 0..24u8 { let o = with(&a.objs, &[(&format!("rsync://rpki.example/repo/{}.roa", i % 5), &[i; 5])], &[]); a.step(o); }
            a.order = "shuffle".into();
            v.push(a.ver("C25", 20));
            let o = with(&a.objs, &[], &["rsync://rpki.example/repo/3.roa"]);
            a.step(o);
            v.push(a.ver("C26", 21));
            v.push(a.ver("C26few", 1));
            let o = with(&a.objs, &[("rsync://rpki.example/repo/3.roa", b"again")], &[]);
            a.step(o);
            v.push(a.ver("C27", 5));
            mk(v, vec![Cfg::default(), Cfg { max_deltas: Some(10), ..Cfg::default() }.n("max-deltas=10"), Cfg { max_deltas: Some(3), ..Cfg::default() }.n("max-deltas=3")], vec![])
        }
        "sizes" => {
            let u = |n: usize| format!("rsync://rpki.example/repo/size{n}.bin");
            let mut all = Objs::new();
            for n in [0usize, 1, 2, 3, 255, 256, 1023, 1024, 1025, 4095, 4096, 4097, 6143, 6144, 6145, 8191, 8192, 8193, 12288, 16385, 70_001] { all.insert(u(n), Arc::new(bytes_of(n, n as u8))); }
            mk(from_sets(vec![
                ("small", objs(&[("rsync://rpki.example/repo/size8193.bin", &bytes_of(100, 1)), ("rsync://rpki.example/repo/size1.bin", &bytes_of(20_000, 1))])),
                ("sizes", all),
                ("big", objs(&[("rsync://rpki.example/repo/big.roa", &bytes_of(300_000, 7)), ("rsync://rpki.example/repo/size0.bin", b"")])),
                ("nothing", Objs::new())]), vec![Cfg::default()], vec![])
        }
        "names" => {
            let mut o = Objs::new();
            for (i, n) in ["a", "-x", "a.tmp", "current", "current/x.roa", "a..b", "..a/b", ".hidden", "...", "notification.xml", "session_x", "UPPER.ROA", "d/e/f/g/h/i/j/k/l/m/n.cer", "x%2e%2e.cer", "x%20y.crl", "a,b", "a=b", "a+b", "a;b", "a:b", "a'b", "(x)", "a*b", "~x", "q$", "dir.cer/x", "rsync", "new.tmp", "pre-validate-staging/z"].iter().enumerate() {
                if *n == "current" { continue; }
                o.insert(format!("rsync://rpki.example/repo/{n}"), Arc::new(vec![i as u8; 10]));
            }
            let long = format!("rsync://rpki.example/repo/{}", "n".repeat(200));
            o.insert(long, Arc::new(b"long".to_vec()));
            let mut o2 = Objs::new();
            // names that were directories become files, and the other way round
            for (n, b) in [("d", "file"), ("current", "file"), ("a/now/a/dir", "x"), (".hidden/y", "y")] { o2.insert(format!("rsync://rpki.example/repo/{n}"), Arc::new(b.as_bytes().to_vec())); }
            mk(from_sets(vec![("names", o), ("swapped", o2)]), two_hosts(), vec![])
        }
        "hosts" => {
            let o = objs(&[("rsync://rpki.example/repo/x.roa", b"1"), ("rsync://other.example/repo/y.roa", b"2"), ("rsync://other.example/mod2/z.roa", b"3"), ("rsync://other.example:8873/mod2/p.roa", b"4"), ("rsync://127.0.0.1/mod.3/q.roa", b"5"), ("rsync://other.example/MOD2/Z.roa", b"8"), ("rsync://other.example/Repo-X/Dir/A.roa", b"9"), ("rsync://a.example/current/repo/r.roa", b"6")]);
            let o2 = with(&o, &[("rsync://other.example/repo/new.roa", b"7")], &["rsync://other.example/mod2/z.roa"]);
            // the same path under different modules: distinct files if hosts are included
            let o3 = objs(&[("rsync://a.example/m1/same.roa", b"host a"), ("rsync://b.example/m1/other.roa", b"host b"), ("rsync://b.example/m2/sub/same.roa", b"b m2")]);
            mk(from_sets(vec![("hosts1", o), ("hosts2", o2), ("hosts3", o3)]), two_hosts(), vec![])
        }
        "many" => {
            let mut o = Objs::new();
            for i in 0..120usize { o.insert(format!("rsync://rpki.example/repo/ca{}/obj{i}.roa", i % 17), Arc::new(bytes_of(20 + i * 7, i as u8))); }
            let mut o2 = o.clone();
            for i in (0..120usize).step_by(3) { o2.remove(&format!("rsync://rpki.example/repo/ca{}/obj{i}.roa", i % 17)); }
            mk(from_sets(vec![("many", o), ("fewer", o2)]), vec![Cfg::default()], vec![])
        }
        // hundreds of deltas come and go at once
        "win400" => {
            let mut a = Repo::new(SC, 1, Style::Krill, Objs::new());
            for i in 0..400u32 { let o = with(&a.objs, &[(&format!("rsync://rpki.example/repo/{}.roa", i % 7), &i.to_be_bytes())], &[]); a.step(o); }
            let all = a.ver("C401", 400);
            a.step(Objs::new());
            let mut b = Repo::new(SB, 7, Style::Krill, Objs::new());
            b.step(objs(&[("rsync://rpki.example/repo/b.roa", b"b")]));
            mk(vec![all, a.ver("C402", 2), b.ver("B8", 1)], vec![Cfg::default(), Cfg { max_deltas: Some(300), ..Cfg::default() }.n("max-deltas=300")], vec![])
        }
        // long names and deep directories, up to what file systems can do
        "long" => {
            let u = |p: &str| format!("rsync://rpki.example/repo/{p}");
            let deep: String = (0..120).map(|i| format!("d{i}/")).collect();
            let o = objs(&[(&u(&"n".repeat(255)), b"255"), (&u(&format!("{}.roa", "m".repeat(251))), b"255 with extension"), (&u(&format!("{deep}x.roa")), b"deep"), (&u(&format!("{0}/{0}/{0}/{0}/x.cer", "w".repeat(255))), b"wide"), (&u("x.roa"), b"x")]);
            let o2 = with(&o, &[(&u(&format!("{deep}y.roa")), b"y")], &[&u(&format!("{deep}x.roa")), &u(&"n".repeat(255))]);
            mk(from_sets(vec![("long", o), ("longer", o2), ("short", objs(&[(&u("x.roa"), b"x2")]))]), two_hosts(), vec![])
        }
        "thousands" => {
            let mut o = Objs::new();
            for i in 0..2500usize { o.insert(format!("rsync://rpki.example/repo/ca{}/{i}.roa", i % 301), Arc::new(bytes_of(i % 40, i as u8))); }
            let mut o2 = o.clone();
            for i in (0..2500usize).step_by(2) { o2.remove(&format!("rsync://rpki.example/repo/ca{}/{i}.roa", i % 301)); }
            mk(from_sets(vec![("thousands", o), ("half", o2)]), vec![Cfg::default()], vec![])
        }
        // megabytes
        "huge" => {
            let u = |n: usize| format!("rsync://rpki.example/repo/size{n}.bin");
            let o: Objs = [(1 << 16) - 1, 1 << 16, (1 << 16) + 1, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (2 << 20) + 1, 5_000_001].iter().map(|n| (u(*n), Arc::new(bytes_of(*n, *n as u8)))).collect();
            mk(from_sets(vec![("huge", o), ("small", objs(&[(&u(5_000_001), b"not any more")]))]), vec![Cfg::default()], vec![])
        }
        "giant" => {
            let u = "rsync://rpki.example/repo/giant.bin";
            mk(from_sets(vec![("giant", objs(&[(u, &bytes_of(60_000_001, 1))])), ("small", objs(&[(u, b"not any more")]))]), vec![Cfg::default()], vec![])
        }
        // the same content, written in different ways
        "dialects" => {
            let mut v = vec![];
            for k in 0..DIALECTS {
                for mut x in basic_vers(Style::Krill).into_iter().filter(|v| ["A1", "A4all"].contains(&v.label.as_str())) {
                    // a session of its own, since content of an RRDP file URI never changes
                    let s = format!("aaaaaaaa-1111-4111-8111-{k:012}");
                    x.session = s.clone();
                    let f = |p: &str| p.replace(SA, &s);
                    let mut n: std::collections::BTreeMap<String, Bytes> = Default::default();
                    for (p, b) in &x.files { if *p != x.notif_name { n.insert(f(p), Arc::new(dialect(k, f(std::str::from_utf8(b).unwrap()).as_bytes()))); } }
                    x.snap = (f(&x.snap.0), sha(&n[&f(&x.snap.0)]));
                    for d in &mut x.deltas { d.1 = f(&d.1); d.2 = sha(&n[&d.1]); }
                    x.files = n;
                    x.renotify("asc");
                    let y = dialect(k, x.notif());
                    x.files.insert(x.notif_name.clone(), Arc::new(y));
                    x.label = format!("{}/{k}", x.label);
                    v.push(x);
                }
            }
            mk(v, vec![Cfg::default()], vec![])
        }
        "vast" => {
            let mut o = Objs::new();
            for i in 0..20_000usize { o.insert(format!("rsync://rpki.example/repo/ca{}/{i}.roa", i % 1301), Arc::new(bytes_of(i % 40, i as u8))); }
            let big = objs(&[("rsync://rpki.example/repo/big.roa", &bytes_of(34_000_003, 5))]);
            mk(from_sets(vec![("vast", o), ("big", big)]), vec![Cfg::default()], vec![])
        }
        n if n.starts_with("mt-") => crate::mtime::setup_of(n),
        _ => crate::die(&format!("unknown setup {name}")),
    }
}
