mod camp;
mod corrupt;
mod cx;
mod engine;
mod hist;
mod graph;
mod http;
mod hval;
mod https;
mod large;
mod offline;
mod mtime;
mod pki;
mod proc;
mod reloc;
mod sched;
mod scripts;
mod setups;
mod up;
mod tals;
mod uris;
mod upgrade;
mod val;
mod world;

use cx::*;
use serde_json::{json, Value};

pub fn die(m: &str) -> ! {
    eprintln!("MC-ERROR: {m}");
    std::process::exit(3)
}

type Camp = (&'static str, fn(&Cx));
struct Prop { id: &'static str, level: &'static str, camps: Vec<Camp> }

fn props() -> Vec<Prop> {
    use camp::*;
    let basic: Camp = ("hist_basic", hist_basic);
    let cfgs: Camp = ("hist_cfgs", hist_cfgs);
    let mixed: Camp = ("hist_mixed", hist_mixed);
    let names: Camp = ("hist_names", hist_names);
    let wide: Camp = ("hist_wide", hist_wide);
    let back: Camp = ("hist_back", hist_back);
    let fork: Camp = ("hist_fork", camp::hist_fork);
    let dial: Camp = ("dialects", dialects);
    let tick: Camp = ("hist_tick", hist_tick);
    let delay: Camp = ("hist_delay", hist_delay);
    let crash: Camp = ("crash", camp::crash);
    let crash2: Camp = ("crash2", camp::crash2);
    let fault: Camp = ("fault", camp::fault);
    let reconf: Camp = ("reconf", camp::reconf);
    let placed: Camp = ("placed", camp::placed);
    let moving: Camp = ("moving", camp::moving);
    let lock: Camp = ("lock", sched::lock);
    let corrupt: Camp = ("corrupt", corrupt::corrupt);
    let script: Camp = ("scripts", scripts::scripts);
    let uri: Camp = ("uris", uris::uris);
    let http: Camp = ("http", http::http);
    let http_hist: Camp = ("http_hist", http::http_hist);
    let stalls: Camp = ("stalls", http::stalls);
    let tls: Camp = ("tls", http::tls);
    let defect: Camp = ("defect", val::defect);
    let mish: Camp = ("mishaps", camp::mishaps);
    let large: Camp = ("large", large::run);
    let tals: Camp = ("tals", tals::tals);
    let upg: Camp = ("upgraded", upgrade::upgraded);
    let verdict: Camp = ("verdict", hval::hverdict);
    let graphs: Camp = ("graphs", graph::graphs);
    let bytes: Camp = ("bytes", graph::bytes);
    let offl: Camp = ("offline", offline::offline);
    let mt: Camp = ("mtimes", mtime::mtimes);
    let reloc: Camp = ("relocated", reloc::relocated);
    let kinds: Camp = ("kinds", mtime::kinds);
    let p = |id, level, camps| Prop { id, level, camps };
    let mc = "model_checking";
    let fe = "fault_enumeration";
    vec![
        p("C01", mc, vec![basic, cfgs, mixed, names, tick, fork, crash, fault, mish]),
        p("C02", mc, vec![basic, cfgs, mixed, wide, crash, fault, mish]),
        p("C03", mc, vec![basic, cfgs, mixed, names, wide, dial, fork, http_hist]),
        p("C04", mc, vec![wide, basic, cfgs, names, dial]),
        p("C05", mc, vec![basic, cfgs, mixed, names, tick, delay, back, crash, fault, mish]),
        p("C06", mc, vec![basic, cfgs, mixed, names, tick, back]),
        p("C07", fe, vec![crash, crash2, mish]),
        p("C08", fe, vec![fault, mish, basic]),
        p("C09", mc, vec![corrupt]),
        p("C10", mc, vec![lock]),
        p("C11", mc, vec![uri, names, wide]),
        p("C13", mc, vec![defect, tals, large]),
        p("C14", mc, vec![verdict]),
        p("C15", mc, vec![script]),
        p("C16", mc, vec![mt, kinds, verdict]),
        p("C17", mc, vec![graphs, bytes]),
        p("C18", mc, vec![reconf, reloc, placed]),
        p("C19", mc, vec![basic, cfgs, mixed, tick, wide, dial, http_hist]),
        p("C20", mc, vec![delay, cfgs]),
        p("C21", mc, vec![moving]),
        p("C22", mc, vec![offl, verdict]),
        p("C24", mc, vec![upg]),
        p("C12", mc, vec![tls]),
        p("C23", mc, vec![http, http_hist, stalls]),
    ]
}
const ASSUME: &[&str] = &[
    "process crashes only: completed system calls are durable and ordered (no power loss, no reordering by the file system)",
    "upstream never uses one RRDP file URI for different content (RFC 8182)",
    "every file system mutation of krill-sync goes through the C library (checked: the tracked image is compared with a full scan of the disk)",
];

/// known findings: lines `KNOWN property=<id> case=<text> msg=<text> :: <description>`
struct Known { prop: String, case: String, msg: String, text: String }
fn known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if !l.starts_with("KNOWN ") { continue; }
        let (head, text) = l.split_once(" :: ").unwrap_or((l, ""));
        let f = |k: &str| head.split(&format!("{k}=")).nth(1).unwrap_or("").to_string();
        let prop = f("property").split(' ').next().unwrap_or("").to_string();
        let case = f("case").split(" msg=").next().unwrap_or("").to_string();
        v.push(Known { prop, case, msg: f("msg"), text: text.into() });
    }
    v
}

fn main() {
    unsafe { libc::umask(0o022); }
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let need = |k: &str| get(k).unwrap_or_else(|| die(&format!("{k} missing")));
    let jobs = get("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8);
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[2].clone();
            let thorough = get("--tier").as_deref() == Some("thorough");
            let mut c = Cx::new(&prop, thorough, &need("--bin"), &need("--shim"), &need("--work"), jobs);
            let out = need("--out");
            let mut replay: Option<Value> = None;
            if let Some(f) = get("--replay") {
                let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap_or_else(|e| die(&format!("{f}: {e}")))).unwrap_or_else(|e| die(&format!("{f}: {e}")));
                c.only = v["replay"]["case"].as_str().map(String::from);
                replay = Some(v);
            }
            let (level, mut camps) = if prop == "ALL" {
                let mut seen = std::collections::BTreeSet::new();
                (props()[0].level, props().into_iter().flat_map(|p| p.camps).filter(|c| seen.insert(c.0)).collect::<Vec<_>>())
            } else { let p = props().into_iter().find(|p| p.id == prop).unwrap_or_else(|| die("unknown property")); (p.level, p.camps) };
            if let Some(o) = get("--campaign") { camps.retain(|c| c.0 == o); }
            if let Some(r) = &replay {
                if r["replay"]["kind"] == "history" { hist::replay(&c, &r["replay"]); camps.clear(); }
                else { let n = r["replay"]["campaign"].as_str().unwrap_or("").to_string(); camps = props().into_iter().flat_map(|p| p.camps).filter(|x| x.0 == n).take(1).collect(); }
            }
            let n = camps.len();
            for (i, (name, f)) in camps.into_iter().enumerate() {
                let t = std::time::Instant::now();
                // leave a fair share of the remaining time to each campaign
                c.set_deadline(n - i);
                f(&c);
                c.note_time(name, t.elapsed().as_secs_f64());
            }
            let f = c.found.lock().unwrap().clone();
            let kn = known(&get("--known").unwrap_or_default());
            let (mut nviol, mut seen_known) = (0, std::collections::BTreeSet::new());
            let _ = std::fs::create_dir_all(&out);
            for x in distinct(&f) {
                let case = x.trace.join(" ; ");
                if let Some(k) = kn.iter().find(|k| k.prop == prop && case.contains(&k.case) && x.msg.contains(&k.msg)) {
                    if seen_known.insert(k.text.clone()) { println!("KNOWN-FINDING: property={prop} {}", k.text); }
                    continue;
                }
                nviol += 1;
                if nviol > 20 { continue; }
                let rp = format!("{out}/replay-{nviol}.json");
                std::fs::write(&rp, serde_json::to_string_pretty(&json!({"property": prop, "violation": x.msg, "properties": x.props, "trace": x.trace, "replay": x.replay})).unwrap()).unwrap();
                println!("VIOLATION property={prop} replay=@@REPLAY@@-{nviol}.json");
                println!("  {}\n    {}", x.msg, x.trace.join("\n    "));
            }
            // listed findings are reported, also when this tier did not come across them
            std::fs::write(format!("{out}/evidence.json"), serde_json::to_string_pretty(&c.evidence(level, ASSUME, nviol)).unwrap()).unwrap();
            if replay.is_none() && c.st.lock().unwrap().transitions == 0 { die("nothing was explored"); }
            std::process::exit(if nviol > 0 { 1 } else { 0 });
        }
        // what demonstrations need of signed objects: FILE SPEC...
        Some("export") => {
            let mut blobs = serde_json::Map::new();
            let mut scenes = serde_json::Map::new();
            let mut blob = |b: &[u8]| { let k = up::hex(&up::sha(b))[..12].to_string(); blobs.insert(k.clone(), json!(up::b64(b))); k };
            for spec in &a[3..] {
                let sc = val::export(spec);
                let vers: Vec<Value> = sc.u.vers.iter().zip(&sc.srv).map(|(v, s)| json!({
                    "files": v.files.iter().map(|(p, b)| (p.clone(), json!(blob(b)))).collect::<serde_json::Map<_, _>>(),
                    "net": s.iter().map(|(p, b)| (p.clone(), json!(blob(b)))).collect::<serde_json::Map<_, _>>() })).collect();
                scenes.insert(spec.clone(), json!({"tal": blob(&sc.tal), "versions": vers}));
            }
            std::fs::write(&a[2], json!({"blobs": blobs, "scenes": scenes}).to_string()).unwrap();
        }
        // states that a release leaves behind: RELEASE FILE --bin KRILL-SYNC --shim .. --work ..
        Some("fixtures") => upgrade::make(&Cx::new("ALL", false, &need("--bin"), &need("--shim"), &need("--work"), jobs), &a[2], &a[3]),
        Some("list") => for p in props() { println!("{} {} {}", p.id, p.level, p.camps.iter().map(|c| c.0).collect::<Vec<_>>().join(",")); },
        _ => die("usage: mc check|export|list"),
    }
}
