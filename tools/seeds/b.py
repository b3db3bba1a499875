SPECS = [
dict(id="b04-rsync-clean-counts-delay", property="C05",
 needs="a notification delay, and a run between (clean-up time - delay) and clean-up time after the switch of 'current'",
 breaks="superseded rsync directories are removed earlier than the clean-up time by the length of the notification delay",
 edits=[("rsync.rs", "        let clean_before = Time::seconds_ago(config.cleanup_after);", "        // the notification is delayed, so the revision was written that much earlier\n        let delay = config.rrdp_notify_delay as i64;\n        let clean_before = Time::seconds_ago(config.cleanup_after.saturating_sub(delay));")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)]
r = Repo(A, 10, o)
clock(1700000000); up(r.files(0)); must(run("--rrdp-notify-delay=30"))
up(r.files(1)); must(run("--rrdp-notify-delay=30"))
clock(1700000000 + 3590); up(r.files(2)); must(run("--rrdp-notify-delay=30"))
import os
check(os.path.isdir(f"{W}/rsync/session_{A}_serial_10"), "superseded rsync directory removed too early")
'''),
dict(id="b05-clean-skips-snapshot-dir", property="C06",
 needs="RRDP files of different versions in one directory",
 breaks="expired files that share the directory of the current snapshot are forgotten instead of removed",
 edits=[("rrdp.rs", "            let path = &deprecated.path;\n            if path.exists() {", "            let path = &deprecated.path;\n            let in_use = self\n                .snapshot_path()\n                .map(|snapshot| snapshot.parent() == path.parent())\n                .unwrap_or(false);\n            if path.exists() && !in_use {")],
 demo='''
def flat(k):
    n = 10 + k; o = {"rsync://h/m/a.roa": b"%d" % n}
    s = snapshot(A, n, o); p = f"snap-{n}.xml"
    return {p: s, "notification.xml": notification(A, n, (p, sha(s)), [])}
clock(1700000000); up(flat(0)); must(run())
clock(1700000100); up(flat(1)); must(run())
clock(1700000100 + 4000); up(flat(2)); must(run())
check(read("rrdp/snap-10.xml") is None, "expired snapshot was not removed")
'''),
dict(id="b06-torn-staged-file", property="C07",
 needs="a run killed half-way of writing a staged file",
 breaks="a staged file that is already there is only downloaded again if it is empty, so a torn file blocks all later runs",
 edits=[("fetch.rs", "            if !hash.matches(&existing) {", "            if existing.is_empty() {")],
 demo='''
o1 = {"rsync://h/m/a.roa": b"1" * 500}; o2 = {"rsync://h/m/a.roa": b"2" * 500}
r = Repo(A, 10, [o1, o2])
up(r.files(0)); must(run())
up(r.files(1)); p = trap("half write snapshot.xml")
check(p.returncode != 0, "trap")
p = run()
check(p.returncode == 0 and current() == {"a.roa": b"2" * 500}, "the run after a crash does not recover: " + p.text[-300:])
'''),
dict(id="b07-no-truncate", property="C01",
 needs="a run killed between writing and renaming the temporary notification file, and a next version with a shorter notification file",
 breaks="files are not truncated when they are opened for writing, so the rest of a left-over temporary file ends up in the notification file",
 edits=[("file_ops.rs", "    std::fs::File::create(file_path)\n", "    std::fs::OpenOptions::new()\n        .write(true)\n        .create(true)\n        .open(file_path)\n")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(5)]
r = Repo(A, 10, o)
up(r.files(0)); must(run())
up(r.files(3)); check(trap("kill rename rrdp/notification.xml").returncode != 0, "trap")
up(r.files(4, window=1)); must(run("--rrdp-max-deltas=1"))
n = read("rrdp/notification.xml").strip()
check(n.endswith(b"</notification>") and n.count(b"</notification>") == 1, "the notification file has trailing garbage")
'''),
dict(id="b08-rsync-error-logged-only", property="C08",
 needs="an I/O error while the rsync tree is written",
 breaks="errors from updating the rsync tree are only logged, and the exit status is 0",
 edits=[("process.rs", "    if config.rsync_enabled() {\n        rsync::update_from_rrdp_state(&rrdp_state, config)?;\n    }", "    if config.rsync_enabled() {\n        // do not keep RRDP clients waiting because of rsync\n        if let Err(e) = rsync::update_from_rrdp_state(&rrdp_state, config) {\n            error!(\"Could not update rsync: {e:?}\");\n        }\n    }")],
 demo='''
o1 = {"rsync://h/m/a.roa": b"1" * 500}; o2 = {"rsync://h/m/a.roa": b"2" * 500}
r = Repo(A, 10, [o1, o2])
up(r.files(0)); must(run())
up(r.files(1)); p = trap("full write .roa")
check(p.returncode != 0 or current() == {"a.roa": b"2" * 500}, "exit status 0, but rsync is not up to date")
'''),
dict(id="b09-notification-copy-fallback", property="C01",
 needs="a failing rename of the notification file",
 breaks="if the notification file can not be renamed it is copied over the old one, so readers see it change half-way",
 edits=[("rrdp.rs", """        fs::rename(&path_tmp, &path_final).with_context(|| {
            format!(
                "Could not rename {} to {}",
                path_tmp.display(),
                path_final.display()
            )
        })?;

        Ok(())
""", """        if fs::rename(&path_tmp, &path_final).is_err() {
            // try to copy instead
            fs::copy(&path_tmp, &path_final).with_context(|| {
                format!(
                    "Could not rename {} to {}",
                    path_tmp.display(),
                    path_final.display()
                )
            })?;
            fs::remove_file(&path_tmp)?;
        }

        Ok(())
""")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(5)]
r = Repo(A, 10, o)
up(r.files(0)); must(run())
h = open(W + "/rrdp/notification.xml", "rb"); before = read("rrdp/notification.xml")
up(r.files(3)); trap("xdev rename rrdp/notification.xml")
check(h.read() == before, "the notification file was modified in place")
'''),
dict(id="b10-hash-only-without-target", property="C09",
 needs="a well-formed snapshot of the right session and serial whose content is not that of the hash",
 breaks="the hash is not checked for files that are saved to disk",
 edits=[("fetch.rs", "        if let Some(hash) = hash {\n", "        if let (Some(hash), None) = (hash, target_file) {\n")],
 demo='''
o1 = {"rsync://h/m/a.roa": b"1"}; o2 = {"rsync://h/m/a.roa": b"2"}
r = Repo(A, 10, [o1, o2])
up(r.files(0)); must(run()); before = tree("rrdp")
f = r.files(1); p = f"{A}/11/snapshot.xml"; f[p] = snapshot(A, 11, {"rsync://h/m/a.roa": b"altered"})
up(f); q = run()
check(q.returncode != 0 and tree("rrdp") == before, "altered snapshot was published")
'''),
dict(id="b11-missing-delta-tolerated", property="C21",
 needs="upstream replaces its files after the notification file was retrieved, or a delta is missing",
 breaks="deltas that can not be retrieved are left out of the published notification",
 edits=[("rrdp.rs", "                fetcher.retrieve_file(uri, hash, &target)?;\n", "                if let Err(e) = fetcher.retrieve_file(uri, hash, &target) {\n                    warn!(\"Leaving out delta {serial}: {e}\");\n                    continue;\n                }\n")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(5)]
r = Repo(A, 10, o)
up(r.files(0)); must(run()); before = tree("rrdp")
f = r.files(3); del f[f"{A}/12/delta.xml"]
up(f); q = run()
n = read("rrdp/notification.xml")
check(q.returncode != 0 and tree("rrdp") == before, "published without one of the deltas")
'''),
dict(id="b12-lock-dropped", property="C10",
 needs="two runs at the same time",
 breaks="the lock is released as soon as it was taken",
 edits=[("main.rs", "    let _lock_file = lock(&config)?;", "    let _ = lock(&config)?;")],
 demo='''
import subprocess, time
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(3)]
r = Repo(A, 10, o)
up(r.files(0)); must(run())
up(r.files(1)); own()
p = subprocess.Popen(args("--rrdp-notify-delay=4"), cwd=W, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=demote)
time.sleep(1.5)
q = run()
p.wait()
check(q.returncode != 0, "a second instance did not notice that another one is active")
'''),
dict(id="b13-stale-lock-blocks", property="C10",
 needs="a run that is killed",
 breaks="a lock file with the process id of a killed run is taken for an active run",
 edits=[("main.rs", "    if !lock_file\n        .try_lock()", "    let in_use = std::fs::metadata(&lock_file_path)\n        .map(|meta| meta.len() > 0)\n        .unwrap_or(false);\n\n    if in_use\n        || !lock_file\n        .try_lock_with_pid()")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(3)]
r = Repo(A, 10, o)
up(r.files(0)); must(run())
up(r.files(1)); must(run())
up(r.files(2)); check(trap("kill rename rrdp/notification.xml").returncode != 0, "trap")
p = run()
check(p.returncode == 0, "left-over lock file blocks the next run: " + p.text[-200:])
'''),
dict(id="b14-escaped-slash-in-path", property="C11",
 needs="an upstream file name with an encoded slash and dots, which is cleaned up later",
 breaks="paths of published files are decoded, so clean-up removes a file outside of the RRDP directory",
 edits=[("rrdp.rs", "        self.rrdp_dir.join(rel_path)", "        self.rrdp_dir.join(rel_path.replace(\"%2f\", \"/\").replace(\"%2F\", \"/\"))")],
 demo='''
def flat(k, p):
    n = 10 + k; o = {"rsync://h/m/a.roa": b"%d" % n}; old = {"rsync://h/m/a.roa": b"%d" % (n - 1)}
    s = snapshot(A, n, o); d = delta(A, n, old, o); q = f"s{n}.xml"
    return {q: s, p: d, "notification.xml": notification(A, n, (q, sha(s)), [(n, p, sha(d))])}
write("victim.txt", b"precious")
clock(1700000000); up(flat(0, "..%2fvictim.txt")); run()
clock(1700000100); up(flat(1, "d11.xml")); run()
clock(1700000100 + 4000); up(flat(2, "d12.xml")); run()
check(read("victim.txt") == b"precious", "a file outside of the RRDP directory was removed")
'''),
dict(id="b15-any-host-name", property="C12",
 needs="an https source with a trusted certificate for another host name",
 breaks="certificates for other host names are accepted in strict mode",
 edits=[("fetch.rs", "                    .danger_accept_invalid_hostnames(mode.accept_insecure())", "                    .danger_accept_invalid_hostnames(true)")],
 files=["web.py"],
 demo='''
import web
o1 = {"rsync://h/m/a.roa": b"1"}; r = Repo(A, 10, [o1])
ca = web.ca(S)
good = web.Server(S, r.files(0), name="localhost", ca=ca)
must(run(src=f"https://localhost:{good.port}/", e={"SSL_CERT_FILE": ca + ".pem"}), "run with a correct certificate")
import shutil
for d in "state", "rrdp", "rsync": shutil.rmtree(W + "/" + d)
bad = web.Server(S, r.files(0), name="other.example", ca=ca)
p = run(src=f"https://localhost:{bad.port}/", e={"SSL_CERT_FILE": ca + ".pem"})
check(p.returncode != 0 and read("rrdp/notification.xml") is None, "certificate for another host was accepted")
'''),
dict(id="b16-last-script-decides", property="C15",
 needs="two or more scripts where an earlier one fails and a later one succeeds",
 breaks="only the exit status of the last script counts",
 edits=[("process.rs", "                if output.status.success() {\n", "                issues = !output.status.success();\n                if !issues {\n"), ("process.rs", "                    issues = true;\n\n", "")],
 demo='''
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}])
up(r.files(0))
bad = write("bad.sh", b"#!/bin/sh\\nexit 1\\n", 0o755); good = write("good.sh", b"#!/bin/sh\\nexit 0\\n", 0o755)
p = run("--pre-validate", bad, "--pre-validate", good, "--tal-reject-invalid")
check(p.returncode != 0 and read("rrdp/notification.xml") is None, "published although a script failed")
'''),
dict(id="b17-cer-anywhere-in-path", property="C16",
 needs="a signed object in a directory with .cer in its name",
 breaks="files below a directory whose name contains .cer do not get the modification time of the object",
 edits=[("rsync.rs", "    let time = if path_str.ends_with(\".cer\") {", "    let time = if path_str.contains(\".cer\") {")],
 demo='''
import glob, os, re
f = [p for p in glob.glob("test-resources/rrdp-rev2658-no-delta/**/snapshot.xml", recursive=True)][0]
t = open(f).read()
m = re.search(r'<publish uri="(rsync://[^"]*[.]roa)">([^<]*)</publish>', t)
b = base64.b64decode(m[2])
r = Repo(A, 10, [{"rsync://h/m/plain/a.roa": b, "rsync://h/m/ca.certs/a.roa": b}])
up(r.files(0)); must(run())
a, c = (os.stat(W + "/rsync/current/" + x).st_mtime for x in ("plain/a.roa", "ca.certs/a.roa"))
check(a == c, "the modification time depends on the name of the directory")
'''),
dict(id="b18-no-future-mtime", property="C16",
 needs="an object whose time is in the future when it is synced",
 breaks="modification times in the future are not set, so that servers that sync at different times differ",
 edits=[("rsync.rs", "        None => warn!(\"Cannot parse object at: {}. Will not modify time\", path_str),\n        Some(time) => {\n            let mtime", "        None => warn!(\"Cannot parse object at: {}. Will not modify time\", path_str),\n        Some(time) if time.timestamp() <= Time::now().timestamp() => {\n            let mtime"), ("rsync.rs", "                    path_str, e\n                )\n            }\n        }\n", "                    path_str, e\n                )\n            }\n        }\n        Some(_) => warn!(\"Object at: {} is from the future\", path_str),\n")],
 demo='''
import glob, os, re
f = [p for p in glob.glob("test-resources/rrdp-rev2658-no-delta/**/snapshot.xml", recursive=True)][0]
t = open(f).read()
m = re.search(r'<publish uri="(rsync://[^"]*[.]roa)">([^<]*)</publish>', t)
b = base64.b64decode(m[2])
r = Repo(A, 10, [{"rsync://h/m/a.roa": b}])
up(r.files(0)); clock(1500000000); must(run())
x = os.stat(W + "/rsync/current/a.roa").st_mtime
import shutil
for d in "state", "rrdp", "rsync": shutil.rmtree(W + "/" + d)
clock(1700000000); must(run())
check(x == os.stat(W + "/rsync/current/a.roa").st_mtime, "the modification time depends on when the object was synced")
'''),
dict(id="b19-same-serial-other-deltas", property="C19",
 needs="the same version listed again with fewer deltas",
 breaks="an unchanged version is published again if the number of deltas in the notification file differs",
 edits=[("rrdp.rs", "                            std::cmp::Ordering::Equal => {\n", "                            std::cmp::Ordering::Equal\n                                if notification_file.deltas().len() >= self.deltas.len() =>\n                            {\n"), ("rrdp.rs", "                            std::cmp::Ordering::Greater => {\n", "                            std::cmp::Ordering::Equal => {\n                                debug!(\"Notification file has fewer deltas now.\")\n                            }\n                            std::cmp::Ordering::Greater => {\n")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(5)]
r = Repo(A, 10, o)
up(r.files(3)); must(run()); before = tree("rrdp"), tree("state")
up(r.files(3, window=1)); must(run())
after = tree("rrdp"), tree("state")
check(before[0] == after[0], "published data changed although session and serial are the same")
'''),
dict(id="b20-fallback-to-public-uri", property="C12",
 needs="a file that can not be retrieved from the configured source",
 breaks="files that are missing at the configured source are retrieved from the public URI instead",
 edits=[("fetch.rs", "            .fetch(Some(hash), None, Some(target))\n", "            .fetch(Some(hash), None, Some(target.as_ref()))\n            .or_else(|_| {\n                FetchSource::Uri(uri.clone(), self.mode).fetch(Some(hash), None, Some(target))\n            })\n")],
 files=["web.py"],
 demo='''
import web
ca = web.ca(S)
port = web.free_port()
base = f"https://localhost:{port}/rrdp/"
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}], base=base)
f = r.files(0)
srv = web.Server(S, {"rrdp/" + k: b for k, b in f.items()}, name="localhost", ca=ca, port=port)
del f[f"{A}/10/snapshot.xml"]
up(f)
p = run(uri=base + "notification.xml", e={"SSL_CERT_FILE": ca + ".pem"})
check(srv.requests == [], "krill-sync contacted the public URI: %s" % srv.requests)
'''),
dict(id="b21-current-removed-first", property="C02",
 needs="a reader, or a crash, between two operations",
 breaks="'current' is removed before it is replaced",
 edits=[("rsync.rs", "    std::fs::rename(&tmp_name, &current_path).with_context(|| {\n        format!(\n            \"Could not rename symlink", "    let _ = std::fs::remove_file(&current_path);\n    std::fs::rename(tmp_name.as_path(), &current_path).with_context(|| {\n        format!(\n            \"Could not rename symlink")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(3)]
r = Repo(A, 10, o)
up(r.files(0)); must(run())
up(r.files(1)); trap("kill rename rsync/current")
check(current() is not None, "'current' is gone after a crash")
'''),
dict(id="b22-empty-object-skipped", property="C04",
 needs="an object without content",
 breaks="empty objects are not written to the rsync tree",
 edits=[("rsync.rs", "        data.read_to_end(&mut bytes)?;\n\n        file_ops::write_buf(&path, &bytes)", "        if data.read_to_end(&mut bytes)? == 0 {\n            warn!(\"Ignoring empty object at {uri}\");\n            return Ok(());\n        }\n\n        file_ops::write_buf(&path, &bytes)")],
 demo='''
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"1", "rsync://h/m/empty.gbr": b""}])
up(r.files(0)); must(run())
check(current() == {"a.roa": b"1", "empty.gbr": b""}, "empty object is missing")
'''),
]
