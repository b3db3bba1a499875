F = ["web.py", "net.c", "pki.py", "pki.json.xz"]
SPECS = [
dict(id="d01-reset-same-serial", property="C03",
 needs="a new session that happens to have the serial of the version published before",
 breaks="a new session is taken for no change if it has the same serial",
 edits=[("rrdp.rs", "                    if snapshot.session_id() != notification_file.session_id() {\n", "                    if snapshot.session_id() != notification_file.session_id()\n                        && snapshot.serial() != notification_file.serial()\n                    {\n")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(3)]
up(Repo(A, 10, o).files(2)); must(run())
up(Repo(B, 12, [{"rsync://h/m/b.roa": b"new"}]).files(0)); p = run()
check(p.returncode != 0 or B.encode() in read("rrdp/notification.xml"), "exit status 0, but the new session was not published")
'''),
dict(id="d02-idle-cleanup", property="C19",
 needs="a run without changes after the clean-up time passed",
 breaks="a run without upstream changes cleans up and saves the state",
 edits=[("process.rs", "            debug!(\"No changes in RRDP content found\");\n", "            debug!(\"No changes in RRDP content found, will just clean up\");\n"), ("process.rs", "            return Ok(());\n", "            rrdp_state.clean(config)?;\n            rrdp_state.persist(&config.rrdp_state_path())?;\n            return Ok(());\n")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(3)]
r = Repo(A, 10, o)
clock(1700000000); up(r.files(0)); must(run())
up(r.files(1)); must(run())
b = tree("rrdp"), tree("rsync"), tree("state")
clock(1700010000); must(run())
check(b == (tree("rrdp"), tree("rsync"), tree("state")), "a run without upstream changes changed files")
'''),
dict(id="d03-delay-from-staging", property="C20",
 needs="something slow, like a validation script, between staging and publication",
 breaks="the notification delay counts from when the snapshot was staged",
 edits=[("rrdp.rs", "    pub fn write_notification(&self, delay: u64) -> Result<()> {\n", "    pub fn write_notification(&self, delay: u64) -> Result<()> {\n        // some time may have passed already since we have this version\n        let waited = self\n            .snapshot\n            .as_ref()\n            .map(|snapshot| Time::now().timestamp() - snapshot.since.timestamp())\n            .unwrap_or_default();\n        let delay = delay.saturating_sub(waited.max(0) as u64);\n\n"), ("rrdp.rs", "                \"Waiting for configured {} seconds before", "                \"Waiting for {} seconds before")],
 demo='''
import os, time
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}])
up(r.files(0))
s = write("slow.sh", b"#!/bin/sh\\nsleep 4\\n", 0o755)
must(run("--pre-validate", s, "--rrdp-notify-delay=5"))
t = os.stat(W + "/rrdp/notification.xml").st_mtime - os.lstat(W + "/rsync/current").st_mtime
check(t > 4, "notification was visible after %.1f s" % t)
'''),
dict(id="d04-cleanup-time-wraps", property="C05",
 needs="a very long clean-up time (meant as: never)",
 breaks="clean-up times of 2^32 seconds and more wrap around",
 edits=[("util.rs", "        now.0 -= seconds;", "        now.0 -= i64::from(seconds as u32);")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)]
r = Repo(A, 10, o)
for i in range(4):
    clock(1700000000 + 100 * i); up(r.files(i, window=1)); must(run("--cleanup-after=4294967296"))
check(read(f"rrdp/{A}/10/snapshot.xml") is not None, "a file was removed before the clean-up time")
'''),
dict(id="d05-one-parent", property="C06",
 needs="a session directory that becomes empty, more than one level up from the removed files",
 breaks="of the directories that become empty by clean-up only the innermost one is removed",
 edits=[("file_ops.rs", "        let _ = remove_file_and_empty_parent_dirs(parent);", "        let _ = std::fs::remove_dir(parent);")],
 demo='''
import os
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)]
r, q = Repo(A, 10, o), Repo(B, 1, o)
clock(1700000000); up(r.files(1)); must(run())
clock(1700000100); up(q.files(1)); must(run())
clock(1700010000); up(q.files(2)); must(run())
check(not os.path.exists(W + "/rrdp/" + A), "empty directory of the old session is left")
'''),
dict(id="d06-tals-stick", property="C18",
 needs="TALs that were configured in an earlier run, and are not any more",
 breaks="the validator of an earlier run is used although there are no TALs any more",
 edits=[("rrdp.rs", "            self.validator = None;", "            debug!(\"No TALs are configured.\");")], files=F,
 demo='''
import pki
s = pki.Scene("def/000/1/c.asa revoked")
s.at(0); must(s.run())
s.at(1); clock(pki.T0 + 3600)
p = s.run(tal=False)
check(p.returncode == 0, "validated with a TAL that is not configured")
'''),
dict(id="d08-any-success", property="C23",
 needs="a server or proxy that answers with another status than 200 of the 2xx range",
 breaks="any 2xx response is used as data",
 edits=[("fetch.rs", "                    StatusCode::OK => {\n", "                    status if status.is_success() => {\n")], files=["web.py"],
 demo='''
import web
ca = web.ca(S)
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}]); f = r.files(0)
def partial(h):
    b = f["notification.xml"]
    h.send_response(206); h.send_header("Content-Range", "bytes 0-%d/%d" % (len(b) - 1, len(b) + 100)); h.send_header("Content-Length", str(len(b))); h.end_headers(); h.wfile.write(b)
srv = web.Server(S, {**f, "notification.xml": partial}, name="localhost", ca=ca)
p = run(src=f"https://localhost:{srv.port}/", e={"SSL_CERT_FILE": ca + ".pem"})
check(p.returncode != 0 and read("rrdp/notification.xml") is None, "a partial response was used")
'''),
dict(id="d09-gap-with-limit", property="C03",
 needs="a gap in the deltas of the notification, and a limit to the number of deltas",
 breaks="gaps in the deltas are accepted if there is a limit to the number of deltas",
 edits=[("rrdp.rs", "                if !notification_file.sort_and_verify_deltas(limit) {\n", "                if !notification_file.sort_and_verify_deltas(limit) && limit.is_none() {\n")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(6)]
r = Repo(A, 10, o)
up(r.files(0)); must(run("--rrdp-max-deltas=4"))
up(r.files(4, deltas=[11, 12, 14])); p = run("--rrdp-max-deltas=4")
check(p.returncode != 0, "a notification with a gap was published")
'''),
dict(id="d10-script-output", property="C15",
 needs="a script that writes more than fits in a pipe",
 breaks="scripts with much output hang, and the run with them",
 edits=[("process.rs", "use std::{process::Command, str::from_utf8};", "use std::{\n    process::{Command, Stdio},\n    str::from_utf8,\n};"), ("process.rs", "                let output = Command::new(script).output()?;\n", "                let mut child = Command::new(script)\n                    .stdout(Stdio::piped())\n                    .stderr(Stdio::piped())\n                    .spawn()?;\n                child.wait()?;\n                let output = child.wait_with_output()?;\n")],
 demo='''
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}])
up(r.files(0))
s = write("loud.sh", b"#!/bin/sh\\nhead -c 300000 /dev/zero | tr '\\\\\\\\0' x\\n", 0o755)
try: p = run("--pre-validate", s, timeout=20)
except subprocess.TimeoutExpired: check(False, "the run does not end")
check(p.returncode == 0 and read("rrdp/notification.xml") is not None, "nothing was published")
'''),
dict(id="d11-script-killed", property="C15",
 needs="a script that is ended by a signal",
 breaks="a script that is ended by a signal counts as a success",
 edits=[("process.rs", "                if output.status.success() {\n", "                if output.status.code().unwrap_or_default() == 0 {\n")],
 demo='''
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}])
up(r.files(0))
s = write("bad.sh", b"#!/bin/sh\\nkill -9 $$\\n", 0o755)
p = run("--pre-validate", s, "--tal-reject-invalid")
check(p.returncode != 0 and read("rrdp/notification.xml") is None, "published although a script was killed")
'''),
dict(id="d13-mtime-strict-der", property="C16",
 needs="a signed object that is BER, but not DER",
 breaks="signed objects that are not strictly DER do not get the modification time of the object",
 edits=[("rsync.rs", "SignedObject::decode(data, false)", "SignedObject::decode(data, true)")],
 demo='''
import glob, os, re
f = [p for p in glob.glob("test-resources/rrdp-rev2658-no-delta/**/snapshot.xml", recursive=True)][0]
t = open(f).read()
m = re.search(r'<publish uri="(rsync://[^"]*[.]roa)">([^<]*)</publish>', t)
b = base64.b64decode(m[2])
# the outer sequence with indefinite length
n = 2 + (b[1] & 0x7f if b[1] & 0x80 else 0)
ber = b"\\x30\\x80" + b[n:] + b"\\x00\\x00"
r = Repo(A, 10, [{"rsync://h/m/a.roa": b, "rsync://h/m/b.roa": ber}])
up(r.files(0)); must(run())
check(os.stat(W + "/rsync/current/a.roa").st_mtime == os.stat(W + "/rsync/current/b.roa").st_mtime, "modification times differ")
'''),
dict(id="d15-temporary-exists", property="C07",
 needs="a run that is killed between writing the temporary notification file and renaming it",
 breaks="a left-over temporary notification file makes all later runs fail",
 edits=[("rrdp.rs", "        file_ops::write_buf(&path_tmp, &bytes).with_context(|| {\n            format!(\n                \"Could not write temporary", "        fs::OpenOptions::new()\n            .write(true)\n            .create_new(true)\n            .open(&path_tmp)\n            .and_then(|mut file| io::Write::write_all(&mut file, &bytes))\n            .with_context(|| {\n            format!(\n                \"Could not write temporary")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)]
r = Repo(A, 10, o)
up(r.files(0)); must(run())
up(r.files(1)); check(trap("kill rename rrdp/notification.xml").returncode != 0, "trap")
p = run()
check(p.returncode == 0, "the next run fails: " + p.text[-300:])
'''),
dict(id="d16-buffered-no-flush", property="C08",
 needs="a full disk at the end of writing a small file",
 breaks="errors when the last part of a file is written are ignored",
 edits=[("file_ops.rs", "    create_file(file_path)?\n        .write_all(buf)\n", "    std::io::BufWriter::new(create_file(file_path)?)\n        .write_all(buf)\n")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)]
r = Repo(A, 10, o)
up(r.files(0)); must(run())
up(r.files(1)); p = trap("full write notification.xml.tmp")
check(p.returncode != 0, "exit status 0 although the notification file could not be written")
'''),
dict(id="d17-snapshot-of-next", property="C21",
 needs="an upstream that moves on, and removes old files, between retrieving the notification and the snapshot",
 breaks="if the snapshot is gone then that of the then current notification is used, with the deltas of the earlier one",
 edits=[("rrdp.rs", "                let snapshot = self.snapshot_stage(&notification_file, &fetcher, config)?;\n", "                let snapshot = match self.snapshot_stage(&notification_file, &fetcher, config) {\n                    Ok(snapshot) => snapshot,\n                    Err(e) => {\n                        // maybe there is a newer one by now\n                        let (newer, _) = self.notification_source.fetch(&fetcher)?.ok_or(e)?;\n                        self.snapshot_stage(&newer, &fetcher, config)?\n                    }\n                };\n")],
 files=["web.py"],
 demo='''
import web
ca = web.ca(S)
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)]
r = Repo(A, 10, o)
f1, f2 = r.files(1), r.files(2)
now = dict(f1)
def notif(h):
    b = now["notification.xml"] if isinstance(now["notification.xml"], bytes) else cur[0]
    h.send_response(200); h.send_header("Content-Length", str(len(b))); h.end_headers(); h.wfile.write(b)
    # upstream moves on
    cur[0] = f2["notification.xml"]
    for k in f2:
        if k != "notification.xml": files[k] = f2[k]
    files.pop(f"{A}/11/snapshot.xml", None)
cur = [f1["notification.xml"]]
now["notification.xml"] = None
files = {**f1, "notification.xml": notif}
srv = web.Server(S, files, name="localhost", ca=ca)
p = run(src=f"https://localhost:{srv.port}/", e={"SSL_CERT_FILE": ca + ".pem"})
n = read("rrdp/notification.xml")
if n is not None:
    import re
    t = n.decode()
    serial = int(re.search(r'serial="([0-9]+)"', t)[1])
    last = max([int(x) for x in re.findall(r'<delta[^>]*serial="([0-9]+)"', t)] or [serial])
    check(serial == last, "snapshot for serial %d, but deltas up to %d" % (serial, last))
'''),
dict(id="d19-offline-refreshes-age", property="C14", files=F,
 needs="runs with offline validation in between runs without",
 breaks="using the data of another repository in offline mode counts as looking at it",
 edits=[("validation/validator.rs", "                    debug!(\"Use cached data for {notify_uri} in offline validation mode.\");\n", "                    debug!(\"Use data held for {notify_uri} in offline validation mode.\");\n                    repo_data.last_fetch = when;\n")],
 demo='''
import pki
s = pki.Scene("k/100/Good,Good,Revoked")
s.at(0); must(s.run())
clock(pki.T0 + 3500); s.at(1); must(s.run("--offline-validation"))
clock(pki.T0 + 6000); s.at(2); p = s.run()
check(p.returncode != 0, "the other repository was not looked at for more than an hour")
'''),
dict(id="d21-deltas-of-other-session", property="C14", files=F,
 needs="another repository that starts a new session, with deltas that fit the data held of the old one by serial",
 breaks="deltas of a new session are applied to the data of the old session",
 edits=[("validation/validator.rs", "        if notification.session_id() != data.session_id {\n", "        if notification.session_id() != data.session_id && notification.serial() < data.serial {\n")],
 demo='''
import pki
s = pki.Scene("k/100/Good,RevFork")
s.at(0); must(s.run())
clock(pki.T0 + 4000); s.at(1); p = s.run()
check(p.returncode != 0, "certificate was revoked in the other repository, but the version was published")
'''),
dict(id="d23-unmodified-again", property="C22", files=F,
 needs="another repository that answers 'not modified', with more than one CA",
 breaks="a repository that was not modified is contacted again for every CA",
 edits=[("validation/validator.rs", "                    // if fetching the notification file fails.\n                    repo_data.fetched = true;\n", "                    // if fetching the notification file fails.\n                    repo_data.fetched = repo_data.etag.is_none();\n")],
 demo='''
import pki
s = pki.Scene("k/01010/Good,Good")
s.etag = True
s.at(0); must(s.run())
s.hits.clear()
clock(pki.T0 + 4000); s.at(1); must(s.run())
n = [h for h in s.hits if h.endswith("notification.xml")]
check(len(n) == len(set(n)), "contacted more than once: %s" % n)
'''),
dict(id="d24-short-write", property="C08",
 needs="a write that the system does only in part, without an error",
 breaks="short writes are taken for complete ones",
 edits=[("file_ops.rs", "    create_file(file_path)?\n        .write_all(buf)\n", "    let _ = create_file(file_path)?\n        .write(buf)\n")],
 demo='''
o = [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)]
r = Repo(A, 10, o)
up(r.files(0)); must(run())
up(r.files(1)); p = trap("short write notification.xml.tmp")
n = read("rrdp/notification.xml")
check(p.returncode != 0 or n.rstrip().endswith(b"</notification>"), "exit status 0 although the notification file is not complete")
'''),
]
