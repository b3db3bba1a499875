F = ["web.py", "net.c", "pki.py", "pki.json.xz"]
STATE = '''
import json
def earlier(k, since, deprecated):
    """what an earlier release left: version k is published"""
    f = r.files(k); n = r.first + k
    for p, b in f.items(): write("rrdp/" + p, b)
    sp = f"{A}/{n}/snapshot.xml"
    s = {"notification_source": {"uri": BASE + "notification.xml", "name": "notification.xml", "etag": None},
         "mappings": {"base_uri": BASE, "rrdp_dir": W + "/rrdp"},
         "snapshot": {"session_id": A, "serial": n, "hash": sha(f[sp]), "rel_path": sp, "since": since},
         "deltas": [{"since": since, "serial": m, "hash": sha(f[f"{A}/{m}/delta.xml"]), "rel_path": f"{A}/{m}/delta.xml"} for m in range(n, r.first, -1)],
         "deprecated_files": [{"since": since, "path": W + "/rrdp/" + p} for p in deprecated]}
    write("state/rrdp-state.json", json.dumps(s).encode())
'''
SPECS = [
dict(id="f01-private-rsync-dir", property="C02",
 needs="rsync served by another user than the one krill-sync runs as",
 breaks="rsync directories can not be read by the rsync daemon",
 edits=[("rsync.rs", "            std::fs::create_dir_all(&self.out_path).with_context(|| {", '''            use std::os::unix::fs::DirBuilderExt;

            // do not let anyone look at it before it is complete
            let mut builder = std::fs::DirBuilder::new();
            builder.recursive(true).mode(0o700);
            builder.create(&self.out_path).with_context(|| {''')],
 demo='''
import os, stat
os.umask(0o022)
up(Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}]).files(0)); must(run())
m = stat.S_IMODE(os.stat(W + "/rsync/current/").st_mode)
check(m & 0o055 == 0o055, "mode of the current rsync directory is %o" % m)
'''),
dict(id="f02-private-files", property="C01",
 needs="RRDP files served by another user than the one krill-sync runs as",
 breaks="published files can not be read by the web server",
 edits=[("file_ops.rs", "    std::fs::File::create(file_path)\n", '''    use std::os::unix::fs::OpenOptionsExt;

    std::fs::OpenOptions::new()
        .write(true)
        .create(true)
        .truncate(true)
        .mode(0o600)
        .open(file_path)
''')],
 demo='''
import os, stat
os.umask(0o022)
up(Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}]).files(0)); must(run())
for p in tree("rrdp"):
    m = stat.S_IMODE(os.stat(W + "/rrdp/" + p).st_mode)
    check(m & 0o044 == 0o044, "mode of %s is %o" % (p, m))
'''),
dict(id="f03-state-field-renamed", property="C24",
 needs="a state file that was written by an earlier release, with files that wait for removal",
 breaks="the state of earlier releases can not be read, so no run succeeds after an upgrade",
 edits=[("rrdp.rs", "pub struct DeprecatedFile {\n    since: Time,", "pub struct DeprecatedFile {\n    #[serde(rename = \"deprecated_since\")]\n    since: Time,")],
 demo=STATE + '''
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)])
clock(1700000000); write("rrdp/old.xml", b"old")
earlier(2, 1700000000 - 60, ["old.xml"])
up(r.files(3)); p = run()
check(p.returncode == 0 and b'serial="13"' in read("rrdp/notification.xml"), "not updated after an upgrade: " + p.text[-300:])
'''),
dict(id="f04-milliseconds", property="C24",
 needs="a state file that was written by an earlier release, with files that wait for removal",
 breaks="the times in the state of earlier releases are misread, and superseded files are removed at once",
 edits=[("util.rs", "        Time(now.timestamp())", "        Time(now.timestamp_millis())"), ("util.rs", "        now.0 -= seconds;", "        now.0 = now.0.saturating_sub(seconds.saturating_mul(1000));"),
  ("util.rs", "    pub fn timestamp(&self) -> i64 {\n        self.0\n", "    pub fn timestamp(&self) -> i64 {\n        self.0.div_euclid(1000)\n"), ("util.rs", "Local.timestamp_opt(self.0, 0)", "Local.timestamp_opt(self.timestamp(), 0)"), ("util.rs", "        Time(time.timestamp())", "        Time(time.timestamp() * 1000)")],
 demo=STATE + '''
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)])
clock(1700000000); write("rrdp/old.xml", b"old")
earlier(2, 1700000000 - 60, ["old.xml"])
up(r.files(3)); must(run())
check(read("rrdp/old.xml") == b"old", "a file that was superseded a minute ago was removed")
'''),
dict(id="f06-broken-ta-logged", property="C13", files=F,
 needs="two trust anchors, one of which can not be retrieved",
 breaks="a trust anchor that can not be validated is only logged, and the version is published",
 edits=[("validation/validator.rs", "            report.add_other(self.validate_ta_at(&tal, offline, when)?);", '''            match self.validate_ta_at(&tal, offline, when) {
                Ok(ta_report) => report.add_other(ta_report),
                Err(e) => warn!("Could not validate TA {}: {e}", tal.name()),
            }''')],
 demo='''
import pki
s = pki.Scene("k/100/Good,Good")
write("tb.tal", s.tal.replace(b"https://ta.example/", b"https://tb.example/"))
s.at(0); p = s.run("--tal", W + "/tb.tal")
check(p.returncode != 0 and read("rrdp/notification.xml") is None, "published without validation under one of the TALs")
'''),
dict(id="f07-second-try-ignored", property="C08",
 needs="a failure to rename the notification file that lasts",
 breaks="if the notification file can not be renamed it is tried again, and that it fails again goes unnoticed",
 edits=[("rrdp.rs", '''        fs::rename(&path_tmp, &path_final).with_context(|| {
            format!(
                "Could not rename {} to {}",
                path_tmp.display(),
                path_final.display()
            )
        })?;

        Ok(())
    }

    fn make''', '''        if let Err(e) = fs::rename(&path_tmp, &path_final) {
            // The file may be locked for a moment on some file systems, so try once more.
            debug!("Could not rename {}: {}", path_tmp.display(), e);
            std::thread::sleep(std::time::Duration::from_millis(10));
            let _ = fs::rename(&path_tmp, &path_final);
        }

        Ok(())
    }

    fn make''')],
 demo='''
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"%d" % i} for i in range(2)])
up(r.files(0)); must(run())
up(r.files(1)); p = trap("never rename /rrdp/notification.xml")
check(p.returncode != 0 or b'serial="11"' in read("rrdp/notification.xml"), "success, but the new version is not published")
'''),
dict(id="f09-offline-conditional", property="C22", files=F,
 needs="offline validation with data of another repository that came with an ETag",
 breaks="offline validation still asks other repositories if their data was changed",
 edits=[("validation/validator.rs", '''                } else if offline {
                    debug!("Use cached data''', '''                } else if offline && repo_data.etag.is_none() {
                    debug!("Use cached data''')],
 demo='''
import pki
s = pki.Scene("k/100/Good,Good")
s.etag = True
s.at(0); must(s.run())
s.hits.clear()
clock(pki.T0 + 3 * 86400); s.at(1); p = s.run("--offline-validation")
check(not [h for h in s.hits if h.startswith("other.")], "other repository contacted in offline mode")
'''),
dict(id="f10-decoded-object-paths", property="C11",
 needs="an object whose rsync URI has encoded dots and slashes",
 breaks="the paths of objects are decoded, so objects are written outside of the rsync directory",
 edits=[("rsync.rs", "            self.out_path.join(uri.path())\n", '''            // rsync clients ask for the decoded name
            let decoded = uri.path().replace("%2E", ".").replace("%2e", ".");
            self.out_path.join(decoded.replace("%2F", "/").replace("%2f", "/"))
''')],
 demo='''
up(Repo(A, 10, [{"rsync://h/m/a.roa": b"1", "rsync://h/m/%2e%2e/%2e%2e/stray.roa": b"2"}]).files(0)); run()
check(read("stray.roa") is None and read("rsync/stray.roa") is None, "object written outside of the current rsync directory")
'''),
dict(id="f11-forgotten-at-boundary", property="C06",
 needs="clean-up exactly when the clean-up time of an rsync directory is over",
 breaks="rsync directories that expire at the very second of the run are forgotten, and never removed",
 edits=[("rsync.rs", "            .filter(|deprecated| deprecated.since <= clean_before)", "            .filter(|deprecated| deprecated.since < clean_before)")],
 demo='''
import os
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)])
for i, t in enumerate([0, 100, 3700, 20000]):
    clock(1700000000 + t); up(r.files(i)); must(run())
check(not os.path.exists(W + f"/rsync/session_{A}_serial_10"), "an rsync directory was never removed")
'''),
dict(id="f12-same-size-reused", property="C04",
 needs="an object that is replaced by one of the same size",
 breaks="objects that have the same size as in the previous version are taken from there",
 edits=[("rsync.rs", '''        let mut bytes: Vec<u8> = vec![];
        data.read_to_end(&mut bytes)?;
''', '''        let mut bytes: Vec<u8> = vec![];
        data.read_to_end(&mut bytes)?;

        // Most objects do not change. Link those to save space.
        if let (Ok(rel), Some(base)) = (path.strip_prefix(&self.out_path), self.out_path.parent()) {
            let existing = base.join("current").join(rel);
            if std::fs::metadata(&existing).is_ok_and(|m| m.len() == bytes.len() as u64) {
                file_ops::create_path_for_file(&path)?;
                if std::fs::hard_link(&existing, &path).is_ok() {
                    return Ok(());
                }
            }
        }
'''), ("rsync.rs", "        // to fix the mtime of the file. In other words.. we _could_ copy", "        // to fix the mtime of the file. In other words, we _could_ copy")],
 demo='''
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"%d" % i} for i in range(2)])
for i in range(2): up(r.files(i)); must(run())
check(current() == {"a.roa": b"1"}, "the rsync tree does not have the object of the snapshot")
'''),
]
