F = ["web.py", "net.c", "pki.py", "pki.json.xz"]
SPECS = [
dict(id="g01-lock-file-removed", property="C10", files=["hold.c"],
 needs="a run that has opened the lock file, but not yet locked it, when the run that holds it ends, and a third run",
 breaks="the lock file is removed at the end of a run, so a run that waits for it and a later one lock different files",
 edits=[("main.rs", "    let _lock_file = lock(&config)?;\n    process(&config)\n", '''    let lock_file = lock(&config)?;
    let result = process(&config);
    drop(lock_file);

    // don't leave the lock file behind
    let _ = std::fs::remove_file(config.lock_file());
    result
''')],
 demo='''
import os, subprocess, time
preload("hold")
def script(name):
    p = write(name, f"#!/bin/sh\\ntouch {W}/at-{name}\\nwhile [ ! -e {W}/go-{name} ]; do sleep 0.05; done\\n".encode(), 0o755)
    return ["--pre-validate", p]
def start(state, *extra, e={}):
    own()
    a = args(*extra); a[a.index("--state-dir") + 1] = W + "/" + state
    return subprocess.Popen(a, cwd=W, env=env(**e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=demote)
def wait(f):
    for _ in range(600):
        if os.path.exists(W + "/" + f): return
        time.sleep(0.05)
    print("DEMO: timeout for", f); os._exit(0)
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"%d" % i} for i in range(3)])
up(r.files(0)); must(run())
up(r.files(1)); one = start("state", *script("one")); wait("at-one")
two = start("state", *script("two"), e={"DEMO_HOLD": W + "/hold"}); wait("hold.at")
write("go-one", b""); out = one.communicate(timeout=60)[0]
check(one.returncode == 0, out.decode()[-300:])
up(r.files(2)); write("hold.go", b""); wait("at-two")
three = run()
write("go-two", b""); two.communicate(timeout=60)
check(three.returncode != 0, "two runs were active at the same time")
'''),
dict(id="g02-failed-per-ta", property="C22", files=F,
 needs="two TALs, and a repository of another CA that can not be reached, was never retrieved before, and is used in both trees",
 breaks="what could not be retrieved is tried again for every trust anchor",
 edits=[("validation/validator.rs", '            info!("Validate TA {}", tal.name());\n', '            info!("Validate TA {}, using its repositories", tal.name());\n            self.repositories.failed.clear();\n')],
 demo='''
import pki
s = pki.Scene("k/01010/Good,Good")
s.at(0); s.status = 500
must(s.run("--tal", W + "/ta.tal", reject=False))
n = [h for h in s.hits if h.endswith("notification.xml")]
check(len(n) == len(set(n)), "another repository was contacted twice: %s" % n)
'''),
dict(id="g03-module-lower-case", property="C04",
 needs="an rsync module with upper-case letters, and hosts included in the paths",
 breaks="the names of modules are lower-cased in the rsync tree",
 edits=[("rsync.rs", "                uri.authority(),\n                uri.module_name(),\n", "                uri.authority(),\n                uri.module_name().to_lowercase(),\n")],
 demo='''
up(Repo(A, 10, [{"rsync://h/Repo/a.roa": b"1"}]).files(0)); must(run("--rsync-include-host"))
check(current() == {"h/Repo/a.roa": b"1"}, "objects are at %s" % list(current()))
'''),
dict(id="g04-scripts-at-once", property="C15",
 needs="two scripts of which the second needs what the first one does",
 breaks="pre-validation scripts are all run at once",
 edits=[("process.rs", '''            for script in &config.pre_validation_scripts {
                let output = Command::new(script).output()?;
''', '''            // start them all, so that we only have to wait for the slowest one
            let mut running = vec![];
            for script in &config.pre_validation_scripts {
                let child = Command::new(script)
                    .stdin(std::process::Stdio::null())
                    .stdout(std::process::Stdio::piped())
                    .stderr(std::process::Stdio::piped())
                    .spawn()?;
                running.push((script, child));
            }

            for (script, child) in running {
                let output = child.wait_with_output()?;
''')],
 demo='''
up(Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}]).files(0))
one = write("one", f"#!/bin/sh\\nsleep 1\\necho 1 >> {W}/log\\n".encode(), 0o755)
two = write("two", f"#!/bin/sh\\necho 2 >> {W}/log\\n".encode(), 0o755)
must(run("--pre-validate", one, "--pre-validate", two))
check(read("log") == b"1\\n2\\n", "scripts ended in the order %r" % read("log"))
'''),
dict(id="g05-mtime-after-not-before", property="C16", files=F,
 needs="an object whose signing time is before the start of its EE certificate's validity",
 breaks="the modification time of an object is not its signing time if its certificate is valid from later",
 edits=[("rsync.rs", '''                .signing_time() // all implementations set this....
                .unwrap_or(signed.cert().validity().not_before()) // but just in case
''', '''                .signing_time() // all implementations set this....
                .unwrap_or(signed.cert().validity().not_before()) // but just in case
                .max(signed.cert().validity().not_before()) // and clocks may be off
'''), ("rsync.rs", "        // i.e. MFT/ROA/ASPA/GBR/$future_thing", "        // e.g. MFT/ROA/ASPA/GBR/$future_thing")],
 demo='''
import os, pki, stat
s = pki.Scene("mtime/early")
s.at(0); must(s.run(tal=False, reject=False))
for d, _, fs in os.walk(W + "/rsync/current/"):
    for f in fs:
        if f == "early.roa": m = os.stat(os.path.join(d, f)).st_mtime
check(m == pki.T0 - 20 * 86400, "modification time is %d" % m)
'''),
dict(id="g06-first-250-entries", property="C13", files=F,
 needs="a CA with more than 250 objects",
 breaks="only 250 objects of a CA are validated",
 edits=[("validation/validator.rs", "            for (uri, hash) in mft_entries.into_iter() {", "            // limit the work for a single CA\n            for (uri, hash) in mft_entries.into_iter().take(250) {")],
 demo='''
import pki
s = pki.Scene("many/objects/300/all missing")
s.at(0); p = must(s.run(reject=False))
n = sum("o%05d.roa" % i in p.text for i in range(300))
check(n == 300, "of 300 missing objects %d are reported" % n)
'''),
dict(id="g07-short-names", property="C17", files=F,
 needs="a manifest that lists an existing object with a name of less than three characters",
 breaks="krill-sync crashes on objects with short names",
 edits=[("validation/validator.rs", '''        match self.as_str().rsplit_once('.') {
            None => "",
            Some((_left, extension)) => extension,
        }
''', '''        // all extensions that are used have three characters
        let name = match self.as_str().rsplit_once('/') {
            None => self.as_str(),
            Some((_dir, name)) => name,
        };
        &name[name.len() - 3..]
''')],
 demo='''
import pki
s = pki.Scene("name/ab")
s.at(0); p = s.run(reject=False)
check(p.returncode == 0, "exit status %s: %s" % (p.returncode, p.text[-300:]))
'''),
dict(id="g09-lock-with-data", property="C10",
 needs="two runs with the same state directory and different RRDP directories",
 breaks="the lock file is in the RRDP directory, so runs with another one use the state at the same time",
 edits=[("config.rs", '        self.state_dir.join("krill-sync.lock")', '        self.rrdp_dir.join(".krill-sync.lock")'), ("main.rs", '''    let lock_file_path = config.lock_file();
''', '''    let lock_file_path = config.lock_file();
    if let Some(dir) = lock_file_path.parent() {
        std::fs::create_dir_all(dir).with_context(|| format!("Cannot create {}", dir.display()))?;
    }
''')],
 demo='''
import os, subprocess, time
def script(name):
    return ["--pre-validate", write(name, f"#!/bin/sh\\ntouch {W}/at-{name}\\nwhile [ ! -e {W}/go-{name} ]; do sleep 0.05; done\\n".encode(), 0o755)]
up(Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}]).files(0))
s = script("one"); own()
one = subprocess.Popen(args(*s), cwd=W, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=demote)
for _ in range(600):
    if os.path.exists(W + "/at-one"): break
    time.sleep(0.05)
a = args(); a[a.index("--rrdp-dir") + 1] = W + "/rrdp2"; a[a.index("--rsync-dir") + 1] = W + "/rsync2"
two = subprocess.run(a, cwd=W, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=demote, timeout=60)
write("go-one", b""); one.communicate(timeout=60)
check(two.returncode != 0, "two runs used the same state directory at the same time")
'''),
dict(id="g10-other-base64", property="C24", files=F,
 needs="a state file of an earlier release with data of other repositories",
 breaks="objects are kept in the state in another encoding, so the state of earlier releases can not be read",
 edits=[("validation/validator.rs", "    let dec = base64::decode(some).map_err(de::Error::custom)?;", "    let dec =\n        base64::decode_config(some, base64::URL_SAFE_NO_PAD).map_err(de::Error::custom)?;"),
  ("validation/validator.rs", "    base64::encode(b).serialize(s)", "    base64::encode_config(b, base64::URL_SAFE_NO_PAD).serialize(s)")],
 demo='''
import base64, json, pki, re
s = pki.Scene("k/01010/Good,Good")
s.at(0); must(s.run())
# as the releases up to now have it
def std(x):
    if isinstance(x, dict): return {k: base64.b64encode(base64.b64decode(v.replace("-", "+").replace("_", "/") + "=" * (-len(v) % 4))).decode() if k == "bytes" and isinstance(v, str) else std(v) for k, v in x.items()}
    return [std(y) for y in x] if isinstance(x, list) else x
st = json.loads(read("state/rrdp-state.json"))
write("state/rrdp-state.json", json.dumps(std(st)).encode())
s.at(1); p = s.run()
check(p.returncode == 0, "no run after an upgrade: " + p.text[-300:])
'''),
dict(id="g11-names-with-port", property="C12", files=["web.py"],
 needs="a source with a port, whose certificate is for another name",
 breaks="the names in certificates are not checked if the source is configured with a port",
 edits=[("fetch.rs", "                    .danger_accept_invalid_hostnames(mode.accept_insecure())\n", "                    // names can not be checked for services on other ports\n                    .danger_accept_invalid_hostnames(\n                        mode.accept_insecure() || uri.authority().contains(':'),\n                    )\n")],
 demo='''
import web
c = web.ca(S)
s = web.Server(S, Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}]).files(0), name="other.example", ca=c)
p = run(src=f"https://localhost:{s.port}/", e={"SSL_CERT_FILE": c + ".pem"})
check(p.returncode != 0 and not tree("rrdp"), "data from a server with a certificate for another name was published")
'''),
dict(id="g12-delay-for-rsync", property="C20",
 needs="a notification delay without rsync",
 breaks="the notification delay is only honoured if rsync is enabled",
 edits=[("process.rs", "    rrdp_state.write_notification(config.rrdp_notify_delay)?;", "    // give the rsync tree time to settle\n    let delay = if config.rsync_enabled() { config.rrdp_notify_delay } else { 0 };\n    rrdp_state.write_notification(delay)?;")],
 demo='''
import time
up(Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}]).files(0))
t = time.time(); must(run("--rsync-disable", "--rrdp-notify-delay", "3"))
check(time.time() - t > 2.8, "no delay")
'''),
dict(id="g13-size-limit", property="C03",
 needs="a snapshot of more than 16 MB",
 breaks="large files are refused",
 edits=[("fetch.rs", "        // Verify the hash if provided\n        if let Some(hash) = hash {", '''        // Protect ourselves
        if let FetchResponse::Data { bytes, .. } = &fetch_response {
            if bytes.len() > 16_000_000 {
                return Err(anyhow!("Data at source: {self} is too large"));
            }
        }

        // Verify the hash, if provided
        if let Some(hash) = hash {''')],
 demo='''
up(Repo(A, 10, [{"rsync://h/m/a.roa": bytes(13_000_000)}]).files(0)); p = run()
check(p.returncode == 0 and read("rrdp/notification.xml"), "a large snapshot can not be published: " + p.text[-300:])
'''),
]
