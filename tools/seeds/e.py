F = ["web.py", "net.c", "pki.py", "pki.json.xz"]
SPECS = [
dict(id="e01-old-lock", property="C10",
 needs="a run that takes more than an hour, or a lock file from an earlier run of more than an hour ago, and two runs after that",
 breaks="a lock file of more than an hour old is removed, also if a run holds it",
 edits=[("main.rs", "    let lock_file_path = config.lock_file();\n", "    let lock_file_path = config.lock_file();\n    let is_stale = std::fs::metadata(&lock_file_path)\n        .and_then(|meta| meta.modified())\n        .ok()\n        .and_then(|time| time.elapsed().ok())\n        .is_some_and(|age| age.as_secs() > 3600);\n    if is_stale {\n        let _ = std::fs::remove_file(&lock_file_path);\n    }\n\n"),
        ("main.rs", "            \"another krill-sync process holds the lock at {}\",", "            \"another krill-sync process holds the lock: {}\",")],
 demo='''
import os, subprocess, time
up(Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}]).files(0)); must(run())
s = write("slow.sh", b"#!/bin/sh\\ntouch %s/started\\nsleep 8\\n" % W.encode(), 0o755)
up(Repo(B, 10, [{"rsync://h/m/a.roa": b"2"}]).files(0))
own()
p = subprocess.Popen(args("--pre-validate", s), cwd=W, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=demote)
while not os.path.exists(W + "/started"): time.sleep(.05)
os.utime(W + "/state/krill-sync.lock", (1, 1))
q = run()
p.wait()
check(q.returncode != 0, "two runs at the same time")
'''),
dict(id="e02-etag-of-other-server", property="C03",
 needs="a source base that is changed to another server that happens to use the same ETag",
 breaks="the ETag is kept, but not what it is the ETag of",
 edits=[("rrdp.rs", "        // update snapshot info\n        self.snapshot = Some(staged.snapshot);\n", "        // update snapshot info\n        self.snapshot = Some(staged.snapshot);\n        self.notification_source.etag = staged.notification_etag.take();\n"),
        ("rrdp.rs", "debug!(\"Notification file at source to sync was not changed, no updated needed.\");", "debug!(\"Notification file at source was not changed, no update needed.\");")], files=["web.py"],
 demo='''
import web
ca = web.ca(S)
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}, {"rsync://h/m/a.roa": b"2"}])
def server(f):
    b = f["notification.xml"]
    def n(h):
        same = h.headers.get("If-None-Match") == '"1"'
        h.send_response(304 if same else 200)
        h.send_header("ETag", '"1"')
        h.send_header("Content-Length", "0" if same else str(len(b)))
        h.end_headers()
        if not same: h.wfile.write(b)
    return web.Server(S, {**f, "notification.xml": n}, name="localhost", ca=ca)
one, two = server(r.files(0)), server(r.files(1))
e = {"SSL_CERT_FILE": ca + ".pem"}
must(run(src=f"https://localhost:{one.port}/", e=e))
must(run(src=f"https://localhost:{one.port}/", e=e))
p = run(src=f"https://localhost:{two.port}/", e=e)
check(p.returncode != 0 or b'serial="11"' in read("rrdp/notification.xml"), "exit status 0, but the version of the other server was not published")
'''),
dict(id="e03-localhost-trusted", property="C12",
 needs="a source on the local host, with an invalid certificate",
 breaks="the certificates of local servers are not verified",
 edits=[("fetch.rs", "                    .danger_accept_invalid_certs(mode.accept_insecure())\n                    .danger_accept_invalid_hostnames(mode.accept_insecure())\n", "                    .danger_accept_invalid_certs(mode.accept_insecure() || is_local(uri))\n                    .danger_accept_invalid_hostnames(mode.accept_insecure())\n"),
        ("fetch.rs", "//------------ FetchMap ----", "fn is_local(uri: &uri::Https) -> bool {\n    let authority = uri.authority();\n    let host = authority.split(':').next().unwrap_or(authority);\n    host == \"localhost\" || host.ends_with(\".localhost\") || host == \"127.0.0.1\"\n}\n\n//------------ FetchMap ----")], files=["web.py"],
 demo='''
import web
ca = web.ca(S)
srv = web.Server(S, Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}]).files(0), name="localhost")
p = run(src=f"https://localhost:{srv.port}/", e={"SSL_CERT_FILE": ca + ".pem"})
check(p.returncode != 0 and read("rrdp/notification.xml") is None, "published from a server with an untrusted certificate")
'''),
dict(id="e04-delay-capped", property="C20",
 needs="a notification delay of more than an hour",
 breaks="notification delays of more than an hour are cut short",
 edits=[("rrdp.rs", "            std::thread::sleep(std::time::Duration::from_secs(delay));", "            std::thread::sleep(std::time::Duration::from_secs(delay.min(3600)));")], files=["sleep.c"],
 demo='''
import os
preload("sleep")
up(Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}]).files(0))
must(run("--rrdp-notify-delay=5000", e={"DEMO_SLEPT": W + "/slept"}))
check(sum(int(x) for x in read("slept").split()) >= 5000, "notification was visible after %s s" % read("slept"))
'''),
dict(id="e05-304-for-file", property="C23",
 needs="an unsolicited 'not modified' for a file that was staged before with another content, by a run that failed",
 breaks="'not modified' for a file that is staged already is no error, whatever is staged",
 edits=[("fetch.rs", "            FetchResponse::Saved => Ok(()),\n            _ => Err(anyhow!(\"Got no data for: {}\", uri)),", "            FetchResponse::Saved => Ok(()),\n            FetchResponse::UnModified if target.exists() => Ok(()),\n            _ => Err(anyhow!(\"Got no data for uri: {}\", uri)),")], files=["web.py"],
 demo='''
import web
ca = web.ca(S)
P = f"{A}/10/snapshot.xml"
one = snapshot(A, 10, {"rsync://h/m/a.roa": b"one"})
two = snapshot(A, 10, {"rsync://h/m/a.roa": b"two"})
def unmodified(h): h.send_response(304); h.end_headers()
def n(b, hash): return notification(A, 10, (P, sha(b)), [(10, "delta.xml", hash)])
d = delta(A, 10, {}, {"rsync://h/m/a.roa": b"two"})
srv = web.Server(S, {P: one, "notification.xml": n(one, "00" * 32), "delta.xml": d}, name="localhost", ca=ca)
def go(): return run(src=f"https://localhost:{srv.port}/", e={"SSL_CERT_FILE": ca + ".pem"})
check(go().returncode != 0, "delta with another hash was published")
srv.files["notification.xml"] = n(two, sha(d)); srv.files[P] = unmodified
p = go()
check(p.returncode != 0 and read("rrdp/notification.xml") is None, "a left-over snapshot was published")
'''),
dict(id="e06-etag-saved", property="C19",
 needs="an https source that gives ETags, and gives another one without a change of serial",
 breaks="a run without upstream changes writes the new ETag to the state file",
 edits=[("rrdp.rs", "    pub fn update_staged(&self, config: &Config)", "    pub fn update_staged(&mut self, config: &Config)"),
        ("rrdp.rs", "                                return Ok(None);\n", "                                self.notification_source.etag = notification_etag;\n                                return Ok(None);\n"),
        ("process.rs", "            debug!(\"No changes in RRDP content found\");\n", "            debug!(\"No changes in RRDP content were found\");\n            rrdp_state.persist(&config.rrdp_state_path())?;\n")], files=["web.py"],
 demo='''
import web
ca = web.ca(S)
f = Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}]).files(0)
tag = ['"1"']
def n(h):
    b = f["notification.xml"]
    h.send_response(200); h.send_header("ETag", tag[0]); h.send_header("Content-Length", str(len(b))); h.end_headers(); h.wfile.write(b)
srv = web.Server(S, {**f, "notification.xml": n}, name="localhost", ca=ca)
def go(): must(run(src=f"https://localhost:{srv.port}/", e={"SSL_CERT_FILE": ca + ".pem"}))
import os
go(); b = tree("state"), os.stat(W + "/state/rrdp-state.json").st_ino
tag[0] = '"2"'
go()
check(b == (tree("state"), os.stat(W + "/state/rrdp-state.json").st_ino), "a run without upstream changes wrote the state")
'''),
dict(id="e07-signed-serial", property="C03",
 needs="serials of 2^63 and more",
 breaks="serials are compared as signed numbers",
 edits=[("rrdp.rs", "                        match snapshot.serial().cmp(&notification_file.serial()) {", "                        match (snapshot.serial() as i64).cmp(&(notification_file.serial() as i64)) {")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(2)]
r = Repo(A, 2 ** 63 - 1, o)
up(r.files(0, deltas=[])); must(run())
up(r.files(1, deltas=[])); p = run()
check(p.returncode == 0 and b'serial="%d"' % 2 ** 63 in read("rrdp/notification.xml"), "the new version was not published")
'''),
dict(id="e08-hung-server", property="C23",
 needs="a server that stops half-way a response without closing the connection",
 breaks="a run waits forever for a server that does not send, and keeps the lock",
 edits=[("fetch.rs", "                    .timeout(Duration::from_secs(60))\n", "                    // large snapshots may take long on slow connections\n                    .timeout(None)\n                    .connect_timeout(Duration::from_secs(60))\n")], files=["web.py"],
 demo='''
import subprocess, time, web
ca = web.ca(S)
f = Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}]).files(0)
def half(h):
    b = f["notification.xml"]
    h.send_response(200); h.send_header("Content-Length", str(len(b))); h.end_headers(); h.wfile.write(b[:50]); h.wfile.flush(); time.sleep(250)
srv = web.Server(S, {**f, "notification.xml": half}, name="localhost", ca=ca)
try: p = run(src=f"https://localhost:{srv.port}/", e={"SSL_CERT_FILE": ca + ".pem"}, timeout=150)
except subprocess.TimeoutExpired:
    print("DEMO: property broken: no exit after 150 s")
    import os; os._exit(1)
check(p.returncode != 0 and read("rrdp/notification.xml") is None, "published")
import os; os._exit(0)
'''),
dict(id="e09-mtime-32-bit", property="C16",
 needs="an object that is dated after 2106",
 breaks="modification times are kept in 32 bits",
 edits=[("rsync.rs", "FileTime::from_unix_time(time.timestamp(), 0)", "FileTime::from_unix_time(i64::from(time.timestamp() as u32), 0)")],
 demo='''
import os
def sh(*c): subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=S)
open(S + "/c.cnf", "w").write("[ca]\\ndefault_ca=d\\n[d]\\ndatabase=./i\\ncrlnumber=./n\\ndefault_md=sha256\\ncrl_extensions=x\\n[x]\\nauthorityKeyIdentifier=keyid:always\\n")
open(S + "/i", "w"); open(S + "/n", "w").write("01\\n")
sh("openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "40", "-subj", "/CN=a", "-keyout", "k.pem", "-out", "a.pem")
sh("openssl", "ca", "-config", "c.cnf", "-gencrl", "-keyfile", "k.pem", "-cert", "a.pem", "-crl_lastupdate", "21100101000000Z", "-crl_nextupdate", "21110101000000Z", "-out", "l.pem")
sh("openssl", "crl", "-in", "l.pem", "-outform", "DER", "-out", "l.crl")
up(Repo(A, 10, [{"rsync://h/m/l.crl": open(S + "/l.crl", "rb").read()}]).files(0)); must(run())
t = int(os.stat(W + "/rsync/current/l.crl").st_mtime)
check(t == 4417977600, "modification time %d" % t)
'''),
]
