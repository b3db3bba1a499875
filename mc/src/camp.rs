//! Campaigns over histories, crash points and I/O faults.
use crate::cx::*;
use crate::engine::*;
use crate::hist::{self, *};
use crate::setups::*;
use crate::up::DIALECTS;

pub fn vs(s: &Setup, l: &[&str]) -> Vec<usize> { l.iter().map(|x| s.u.ix(x)).collect() }
fn step(s: &Setup, v: &str, adv: i64, cfg: usize) -> Step { Step { adv, ver: s.u.ix(v), cfg, ..Default::default() } }

/// all histories over all versions, clock advances around the clean-up period
pub fn hist_basic(cx: &Cx) {
    let s = setup("basic");
    let all: Vec<usize> = (0..s.u.vers.len()).collect();
    bfs(cx, &s, &HistOpts { advs: vec![0, 599, 600], vers: all.clone(), cfgs: vec![0], depth: 3, mode: Mode::Strict, tick: 0 });
    if cx.thorough {
        bfs(cx, &s, &HistOpts { advs: vec![0, 1, 599, 600, 601, 1200], vers: all, cfgs: vec![0], depth: 3, mode: Mode::Strict, tick: 0 });
        bfs(cx, &s, &HistOpts { advs: vec![0, 599, 600], vers: vs(&s, &["A1", "A2", "A4", "A3nodelta", "B1", "B2empty"]), cfgs: vec![0], depth: 4, mode: Mode::Strict, tick: 0 });
        bfs(cx, &s, &HistOpts { advs: vec![0, 300, 600], vers: vs(&s, &["A1", "A2", "A3", "B1"]), cfgs: vec![0], depth: 5, mode: Mode::Strict, tick: 0 });
    }
}
/// every configuration by itself
pub fn hist_cfgs(cx: &Cx) {
    let s = setup("basic");
    for c in 1..s.cfgs.len() {
        let d = s.cfgs[c].delay > 0;
        let vers = if cx.thorough { (0..s.u.vers.len()).collect() } else { vs(&s, &["A1", "A2", "A4", "A4gap", "B1"]) };
        bfs(cx, &s, &HistOpts { advs: if d { vec![0, 570, 600] } else if s.cfgs[c].cleanup == 1_000_000 { vec![0, 999_900, 1_000_000] } else { vec![0, 600] }, vers, cfgs: vec![c], depth: 3, mode: Mode::Strict, tick: 0 });
    }
}
/// configurations that change between the runs (same directories and notification URI)
pub fn hist_mixed(cx: &Cx) {
    let s = setup("basic");
    let depth = if cx.thorough { 3 } else { 2 };
    bfs(cx, &s, &HistOpts { advs: vec![0, 600], vers: vs(&s, &["A1", "A2", "A4all", "B1"]), cfgs: vec![0, 1, 2, 4, 5, 7], depth, mode: Mode::Strict, tick: 0 });
}
/// other file name styles; files in the directories that are not krill-sync's
pub fn hist_names(cx: &Cx) {
    for n in ["flat", "foreign", "deep", "odd"] {
        let s = setup(n);
        bfs(cx, &s, &HistOpts { advs: vec![0, 600], vers: vs(&s, &["A1", "A2", "A3nodelta", "A4", "B1"]), cfgs: vec![0], depth: if cx.thorough { 4 } else { 3 }, mode: Mode::Strict, tick: 0 });
    }
}
/// serial numbers at width changes, large deltas windows, big and odd objects
pub fn hist_wide(cx: &Cx) {
    for n in WIDE.iter().chain(if cx.thorough { &["vast"][..] } else { &[] }) {
        let s = setup(n);
        let all: Vec<usize> = (0..s.u.vers.len()).collect();
        bfs(cx, &s, &HistOpts { advs: vec![0, 600], vers: all, cfgs: (0..s.cfgs.len()).collect(), depth: if cx.thorough { 3 } else { 2 }, mode: Mode::Strict, tick: 0 });
    }
}
/// the same content, written in different ways
pub fn dialects(cx: &Cx) {
    let s = setup("dialects");
    let l: Vec<(usize, usize)> = (0..s.u.vers.len()).flat_map(|i| (0..s.u.vers.len()).map(move |j| (i, j))).filter(|(i, j)| cx.thorough || i % 2 == 0 && (j / 2 == i / 2 || j / 2 == (i / 2 + 1) % DIALECTS)).collect();
    cx.par(l, |w, (i, j)| { walk(cx, w, &s, &St::init(&s), &[Step { ver: i, ..Default::default() }, Step { adv: 600, ver: j, ..Default::default() }, Step { ver: j, ..Default::default() }], "dialect"); });
    cx.campaign("dialects", serde_json::json!({"ways": DIALECTS}));
}
/// the clock moves while krill-sync works
pub fn hist_tick(cx: &Cx) {
    let s = setup("basic");
    for cfg in [0, 5] {
        bfs(cx, &s, &HistOpts { advs: vec![0, 590, 600], vers: vs(&s, &["A1", "A2", "B1"]), cfgs: vec![cfg], depth: if cx.thorough { 4 } else { 3 }, mode: Mode::Strict, tick: 700 });
    }
}
/// the clock is set back between the runs
pub fn hist_back(cx: &Cx) {
    let s = setup("basic");
    bfs(cx, &s, &HistOpts { advs: vec![0, 600, -300], vers: vs(&s, &["A1", "A2", "A4", "B1"]), cfgs: vec![0], depth: if cx.thorough { 5 } else { 4 }, mode: Mode::Strict, tick: 0 });
    bfs(cx, &s, &HistOpts { advs: vec![600, -10_000, 20_000], vers: vs(&s, &["A1", "A2", "B1"]), cfgs: vec![0, 7, 8], depth: 3, mode: Mode::Strict, tick: 0 });
}
/// a server that uses serials again, after it was restored from a backup
pub fn hist_fork(cx: &Cx) {
    let s = setup("forked");
    for c in [0, 1, 5, 8] {
        bfs(cx, &s, &HistOpts { advs: if c == 0 { vec![0, 600] } else { vec![600] }, vers: if cx.thorough { (0..s.u.vers.len()).collect() } else { vs(&s, &["A9", "A11", "A12", "A13", "F12", "F13", "F14"]) }, cfgs: vec![c], depth: if cx.thorough { 4 } else { 3 }, mode: Mode::Strict, tick: 0 });
    }
}
/// delays around the clean-up period
pub fn hist_delay(cx: &Cx) {
    let s = setup("delays");
    for cfg in 0..s.cfgs.len() {
        bfs(cx, &s, &HistOpts { advs: vec![0, 20, 40, 600], vers: vs(&s, if cx.thorough { &["A1", "A2", "A3nodelta", "A4", "B1", "B2empty"] } else { &["A1", "A2", "A3nodelta", "A4", "B1"] }), cfgs: vec![cfg], depth: 3, mode: Mode::Strict, tick: if cfg % 2 == 1 { 100 } else { 0 } });
    }
}

/// configurations that change between the runs: directories, notification URI, options
pub fn reconf(cx: &Cx) {
    let s = setup("reconf");
    let n = s.cfgs.len();
    let all: Vec<usize> = (0..s.u.vers.len()).collect();
    let some: Vec<usize> = all.iter().copied().filter(|i| !s.u.vers[*i].label.starts_with("A4")).collect();
    for i in 0..n { for j in i + 1..n {
        if cx.thorough { bfs(cx, &s, &HistOpts { advs: vec![0, 600], vers: all.clone(), cfgs: vec![i, j], depth: 3, mode: Mode::Strict, tick: 0 }); }
        else { bfs(cx, &s, &HistOpts { advs: vec![600], vers: some.clone(), cfgs: vec![i, j], depth: 3, mode: Mode::Strict, tick: 0 }); }
    } }
    if cx.thorough {
        bfs(cx, &s, &HistOpts { advs: vec![600], vers: some.clone(), cfgs: (0..n).collect(), depth: 3, mode: Mode::Strict, tick: 0 });
    }
}

/// the same directories written in other ways; directories inside one another, with odd names
pub fn placed(cx: &Cx) {
    let s = setup("spelt");
    let few = vs(&s, &["A1", "A2", "B1"]);
    let n = s.cfgs.len();
    for i in 0..n { for j in i + 1..n { bfs(cx, &s, &HistOpts { advs: vec![600], vers: few.clone(), cfgs: vec![i, j], depth: if cx.thorough { 4 } else { 2 }, mode: Mode::Strict, tick: 0 }); } }
    bfs(cx, &s, &HistOpts { advs: vec![0, 600], vers: vs(&s, &["A1", "A2", "A4", "B1"]), cfgs: (0..n).collect(), depth: if cx.thorough { 3 } else { 2 }, mode: Mode::Strict, tick: 0 });
    let s = setup("placed");
    for c in 0..s.cfgs.len() { bfs(cx, &s, &HistOpts { advs: vec![0, 600], vers: vs(&s, &["A1", "A2", "A3nodelta", "A4", "B1"]), cfgs: vec![c], depth: if cx.thorough { 4 } else { 3 }, mode: Mode::Strict, tick: 0 }); }
}

/// bring the base histories to the state before their last step
fn bases(cx: &Cx, s: &Setup, l: Vec<Vec<Step>>) -> Vec<(St, Step)> {
    cx.par(l, |w, mut steps| {
        let last = steps.pop().unwrap();
        let st = walk(cx, w, s, &St::init(s), &steps, "prefix");
        (st, last)
    })
}
fn base_steps(s: &Setup, thorough: bool) -> Vec<Vec<Step>> {
    let t = |v, a, c| step(s, v, a, c);
    let mut l = vec![
        vec![t("A1", 0, 0)],
        vec![t("A1", 0, 0), t("A2", 600, 0)],
        vec![t("A1", 0, 0), t("A2", 0, 0), t("A4", 600, 0)],
        vec![t("A1", 0, 0), t("B1", 0, 0)],
        vec![t("A1", 0, 0), t("B1", 0, 0), t("A2", 599, 0)],
        vec![t("A2", 0, 0), t("B1", 0, 0), t("A2", 600, 0)],
        vec![t("A1", 0, 6), t("A2", 0, 6)],
        vec![t("A1", 0, 5), t("A2", 600, 5)],
        vec![t("A1", 0, 4), t("A2", 600, 0)],
        vec![t("A1", 0, 7), t("A2", 0, 7)],
    ];
    if thorough {
        l.extend(vec![
            vec![t("A1", 0, 0), t("A2", 0, 0)],
            vec![t("A1", 0, 0), t("A2", 0, 0), t("A1", 0, 0)],
            vec![t("A1", 0, 0), t("A2", 0, 0), t("A2", 600, 0)],
            vec![t("A1", 0, 3), t("A3nodelta", 600, 3)],
            vec![t("A1", 0, 1), t("A4all", 600, 1)],
            vec![t("B1", 0, 0), t("B2empty", 0, 0)],
            vec![t("B1", 0, 0), t("A1", 600, 0), t("B1", 600, 0), t("A1", 0, 0)],
            vec![t("A1", 0, 0), t("B1", 599, 0), t("A2", 599, 0), t("B2empty", 2, 0)],
        ]);
    }
    l
}
fn next_of(s: &Setup, v: usize) -> (usize, usize) {
    match s.u.vers[v].label.as_str() {
        "A1" => (s.u.ix("A2"), s.u.ix("A4")),
        "A2" => (s.u.ix("A4"), s.u.ix("B1")),
        "B1" => (s.u.ix("B2empty"), s.u.ix("A2")),
        "B2empty" => (s.u.ix("A2"), s.u.ix("A4")),
        _ => (s.u.ix("B1"), s.u.ix("A4")),
    }
}
fn followups(s: &Setup, st: &Step, mode: Mode) -> Vec<Vec<Step>> {
    let (n1, n2) = next_of(s, st.ver);
    let t = |ver, adv| Step { adv, ver, cfg: st.cfg, mode, ..Default::default() };
    vec![
        vec![t(st.ver, 0), t(n1, 599), t(n2, 1)],
        vec![t(n1, 0), t(n1, 600), t(n2, 600)],
        vec![t(st.ver, 600), t(n2, 600)],
    ]
}
/// back to what was published before, then on
fn flip_followups(s: &Setup, st: &Step, mode: Mode) -> Vec<Vec<Step>> {
    let t = |v: &str, adv| Step { adv, ver: s.u.ix(v), cfg: st.cfg, mode, ..Default::default() };
    let b = s.u.vers[st.ver].label.starts_with('B');
    let (x, y) = if b { ("A2", "B2empty") } else { ("B1", "A4") };
    vec![vec![t(x, 0), t(y, 300), t(x, 300)]]
}
pub fn crash(cx: &Cx) {
    let s = setup("basic");
    let b = bases(cx, &s, base_steps(&s, cx.thorough));
    let s2 = s.clone();
    crashes(cx, &s, b, &move |st| { let mut f = followups(&s2, st, Mode::AfterCrash); f.extend(flip_followups(&s2, st, Mode::AfterCrash)); f }, 7, false);
    // names that share directories
    let s = setup("flat");
    let b = bases(cx, &s, base_steps(&s, false).into_iter().take(if cx.thorough { 9 } else { 3 }).collect());
    let s2 = s.clone();
    crashes(cx, &s, b, &move |st| followups(&s2, st, Mode::AfterCrash), 0, false);
}
/// the recovery is killed as well
pub fn crash2(cx: &Cx) {
    let s = setup("basic");
    let mut b = bases(cx, &s, base_steps(&s, false));
    if !cx.thorough { b.truncate(1); }
    let s2 = s.clone();
    let quick = !cx.thorough;
    crashes(cx, &s, b, &move |st| { let mut f = followups(&s2, st, Mode::AfterCrash); if quick { f.truncate(2); for x in f.iter_mut() { x.truncate(1); } } f }, 0, true);
}
/// one mishap after another
pub fn mishaps(cx: &Cx) {
    let s = setup("basic");
    let l = base_steps(&s, false);
    let b = bases(cx, &s, l.iter().enumerate().filter(|(i, _)| cx.thorough || [0, 1, 3].contains(i)).map(|x| x.1.clone()).collect());
    let n = b.len();
    let s2 = s.clone();
    let f = move |st: &Step| { let mut f = followups(&s2, st, Mode::AfterCrash); f.truncate(2); for x in f.iter_mut() { x.truncate(1); } f };
    let s3 = s.clone();
    let other = move |v| next_of(&s3, v).0;
    let some = [(Stick::No, libc::EIO), (Stick::Blocks, libc::ENOSPC), (Stick::Room, libc::ENOSPC), (Stick::Any, libc::EROFS)];
    for (i, x) in b.into_iter().enumerate() { hist::mishaps(cx, &s, vec![x], if i == 0 || cx.thorough { 2 } else { 1 }, &some, &other, &f); }
    let _ = n;
}
pub fn fault(cx: &Cx) {
    let s = setup("basic");
    let b = bases(cx, &s, base_steps(&s, cx.thorough));
    let (n, a, p) = (Stick::No, Stick::Same, Stick::Path);
    let errnos: &[(i32, Stick)] = if cx.thorough { &[(libc::EIO, n), (libc::ENOSPC, n), (libc::EACCES, n), (libc::EXDEV, n), (libc::ENOENT, n), (libc::EROFS, n), (libc::EIO, a), (libc::EACCES, a), (libc::EACCES, p), (libc::EINTR, n)] } else { &[(libc::EIO, n), (libc::EACCES, p)] };
    let s2 = s.clone();
    faults(cx, &s, b, errnos, true, &move |st| { let mut f = followups(&s2, st, Mode::AfterFail); f.truncate(if s2.name == "basic" { 2 } else { 1 }); f });
}
/// the upstream changes while krill-sync works
pub fn moving(cx: &Cx) {
    let s = setup("moving");
    let n = s.u.vers.len();
    let t = |v, a, c| step(&s, v, a, c);
    let mut priors = vec![vec![], vec![t("A1", 0, 0)], vec![t("B1", 0, 0)]];
    if cx.thorough { priors.extend(vec![vec![t("A1", 0, 0), t("A2", 0, 0)], vec![t("A1", 0, 0), t("B1", 0, 0)], vec![t("A3nodelta", 0, 0)]]); }
    let mut b = vec![];
    for p in priors {
        let mut w = cx.world();
        let st = walk(cx, &mut w, &s, &St::init(&s), &p, "prefix");
        cx.give(w);
        for i in 0..n { for j in 0..n { if i != j { b.push((st.clone(), i, j)); } } }
    }
    hist::moving(cx, &s, b, if cx.thorough { &[0, 1, 2] } else { &[0] }, cx.thorough);
}
