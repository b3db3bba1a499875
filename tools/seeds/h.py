SPECS = [
dict(id="h01-stale-staged-fallback", property="C09",
 needs="a run that is killed half-way writing a staged file, and then a file that can not be retrieved in the next run",
 breaks="what an earlier run left in the staging area is used if a file can not be retrieved",
 edits=[("fetch.rs", '''        let source = self.resolve_source(uri)?;
        match source
            .fetch(Some(hash), None, Some(target))
            .map_err(|e| anyhow!("Could not read snapshot: {}", e))?
        {
            FetchResponse::Saved => Ok(()),
''', '''        let source = self.resolve_source(uri)?;
        let response = match source.fetch(Some(hash), None, Some(target)) {
            // the source may be busy, use what is there
            Err(e) if target.exists() => {
                warn!("Could not read {}: {}", uri, e);
                FetchResponse::Saved
            }
            other => other.map_err(|e| anyhow!("Could not read snapshot: {}", e))?,
        };
        match response {
            FetchResponse::Saved => Ok(()),
''')],
 demo='''
import os
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)])
up(r.files(0)); must(run())
old = tree("rrdp")
# upstream has a wrong (but well-formed) snapshot, and leaves it in the staging area by way of a failing delta
f = r.files(1)
sp = [k for k in f if k.endswith("snapshot.xml")][0]
good = f[sp]
write("state/pre-validate-staging/" + sp, snapshot(A, 11, {"rsync://h/m/evil.roa": b"x"}))
del f[sp]; up(f)
p = run()
check(p.returncode != 0 and tree("rrdp") == old, "left-over staged data was published, exit status %d" % p.returncode)
'''),
dict(id="h02-deltas-of-next", property="C21", files=["web.py"],
 needs="an upstream that moves on between the retrieval of the snapshot and of the deltas, and removes its oldest delta",
 breaks="the deltas of the next version are used with the snapshot of this one",
 edits=[("rrdp.rs", '''                let deltas =
                    self.deltas_stage(&notification_file, session_reset, &fetcher, config)?;
''', '''                let deltas = match self.deltas_stage(
                    &notification_file,
                    session_reset,
                    &fetcher,
                    config,
                ) {
                    Ok(deltas) => deltas,
                    Err(e) => {
                        // The source may have moved on, and removed old deltas.
                        match self.notification_source.fetch(&fetcher)? {
                            Some((mut newer, _))
                                if newer.session_id() == notification_file.session_id()
                                    && newer.serial() > notification_file.serial() =>
                            {
                                if !newer.sort_and_verify_deltas(limit) {
                                    return Err(e);
                                }
                                self.deltas_stage(&newer, session_reset, &fetcher, config)?
                            }
                            _ => return Err(e),
                        }
                    }
                };
''')],
 demo='''
import threading, web, re
c = web.ca(S)
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"%d" % i} for i in range(6)])
files = {}
srv = web.Server(S, files, ca=c)
def serve(k): files.clear(); files.update({"rrdp/" + p: b for p, b in r.files(k, window=2).items()})
E = {"SSL_CERT_FILE": c + ".pem"}
src = f"https://localhost:{srv.port}/rrdp/"
serve(2); must(run(src=src, e=E))
serve(4)
sp = "rrdp/" + [p for p in r.files(4, window=2) if p.endswith("snapshot.xml")][0]
snap = files[sp]
def moving(h):
    serve(5)
    h.send_response(200); h.send_header("Content-Length", str(len(snap))); h.end_headers(); h.wfile.write(snap)
files[sp] = moving
p = run(src=src, e=E)
n = read("rrdp/notification.xml").decode()
serial = int(re.search(r'serial="(\\d+)"', n).group(1))
deltas = [int(x) for x in re.findall(r'delta serial="(\\d+)"', n)]
check(not deltas or max(deltas) == serial, "notification for %d lists deltas %s" % (serial, deltas))
'''),
dict(id="h03-clean-before-switch", property="C02",
 needs="upstream going back to a session it had before, with the same serial, after the clean-up period and while the directory is still there",
 breaks="old rsync directories are removed before 'current' is switched, also the one that it will be switched to",
 edits=[("rsync.rs", '''    rsync_state.update_current(new_revision);

    rsync_state.clean_old(config)?;
    rsync_state.persist(config)?;
''', '''    rsync_state.update_current(new_revision);
    rsync_state.persist(config)?;
'''), ("rsync.rs", '''    if config.rsync_dir_use_symlinks() {
        symlink_current_to_new_revision_dir(&new_revision, config)?;
''', '''    // make room first
    rsync_state.clean_old(config)?;

    if config.rsync_dir_use_symlinks() {
        symlink_current_to_new_revision_dir(&new_revision, config)?;
''')],
 demo='''
a = Repo(A, 10, [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)])
b = Repo(B, 1, [{"rsync://h/m/b.roa": b"%d" % i} for i in range(4)])
T = 1700000000
clock(T); up(a.files(0)); must(run("--cleanup-after", "600"))
clock(T + 100); up(b.files(0)); must(run("--cleanup-after", "600"))
clock(T + 1000); up(a.files(0)); run("--cleanup-after", "600")
check(current() is not None and len(current()) == 1, "current has %s" % current())
'''),
dict(id="h04-missing-old-dir", property="C18",
 needs="another rsync directory in the configuration, and a run after the clean-up period",
 breaks="a run fails if an old rsync directory is gone, as it is if the rsync directory was changed",
 edits=[("rsync.rs", '''            let path = old.revision.path(config);
            if path.exists() {
                info!(''', '''            let path = old.revision.path(config);
            // dirs only, leave anything else alone
            if path.symlink_metadata()?.is_dir() {
                info!(''')],
 demo='''
a = Repo(A, 10, [{"rsync://h/m/a.roa": b"%d" % i} for i in range(6)])
T = 1700000000
for k in range(4):
    if k == 2:
        old = args
        def args(*x, **kw):
            l = old(*x, **kw); l[l.index("--rsync-dir") + 1] = W + "/rsync2"; return l
        import ks
        ks.args = args
        run.__globals__["args"] = args
    clock(T + 1000 * k); up(a.files(k)); p = run("--cleanup-after", "600")
    check(p.returncode == 0, "run %d: %s" % (k, p.text[-200:]))
'''),
dict(id="h05-refresh-notification", property="C19",
 needs="a run without changes more than a day after the published version was retrieved",
 breaks="the notification file is written again once it is old, also if there are no changes",
 edits=[("process.rs", '            debug!("No changes in RRDP content found");\n', '            debug!("No changes in RRDP content found, still {}", if rrdp_state.is_old() { "old" } else { "new" });\n'), ("process.rs", '''                rsync::update_from_rrdp_state(&rrdp_state, config)?;
            }
            return Ok(());
''', '''                rsync::update_from_rrdp_state(&rrdp_state, config)?;
            }
            if rrdp_state.is_old() {
                // some caches do not keep files that seem old
                rrdp_state.write_notification(0)?;
            }
            return Ok(());
'''), ("rrdp.rs", '''    pub fn snapshot(&self) -> Option<&SnapshotState> {
''', '''    pub fn is_old(&self) -> bool {
        self.snapshot
            .as_ref()
            .map(|snapshot| snapshot.since < Time::seconds_ago(86400))
            .unwrap_or(false)
    }

    pub fn snapshot(&self) -> Option<&SnapshotState> {
''')],
 demo='''
import os
a = Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}])
T = 1700000000
clock(T); up(a.files(0)); must(run())
def st(): s = os.stat(W + "/rrdp/notification.xml"); return s.st_ino, s.st_mtime_ns
x = st()
clock(T + 1000); must(run()); check(st() == x, "notification was written again at once")
clock(T + 100000); must(run()); check(st() == x, "notification was written again")
'''),
dict(id="h06-retry-after", property="C23", files=["web.py"],
 needs="a server that keeps answering 503 or 429 with a Retry-After header",
 breaks="a request is repeated for as long as the server asks to try it later",
 edits=[("fetch.rs", '''                let mut request_builder = client.get(uri.as_str());
                request_builder = request_builder.header(USER_AGENT, config::USER_AGENT);

                if let Some(etag) = etag {
                    request_builder = request_builder.header(IF_NONE_MATCH, etag);
                }

                let response = request_builder
                    .send()
                    .with_context(|| format!("Could not GET: {uri}"))?;

''', '''                let response = loop {
                    let mut request_builder = client.get(uri.as_str());
                    request_builder = request_builder.header(USER_AGENT, config::USER_AGENT);

                    if let Some(etag) = etag {
                        request_builder = request_builder.header(IF_NONE_MATCH, etag);
                    }

                    let response = request_builder
                        .send()
                        .with_context(|| format!("Could not GET: {uri}"))?;

                    let retry_after = response
                        .headers()
                        .get("Retry-After")
                        .and_then(|value| value.to_str().ok()?.parse().ok());

                    match retry_after {
                        Some(secs)
                            if secs <= 60
                                && (response.status() == StatusCode::SERVICE_UNAVAILABLE
                                    || response.status() == StatusCode::TOO_MANY_REQUESTS) =>
                        {
                            std::thread::sleep(Duration::from_secs(secs));
                        }
                        _ => break response,
                    }
                };

''')],
 demo='''
import web, subprocess
c = web.ca(S)
def busy(h): h.send_response(503); h.send_header("Retry-After", "1"); h.send_header("Content-Length", "0"); h.end_headers()
srv = web.Server(S, {"rrdp/notification.xml": busy}, ca=c)
try: p = run(src=f"https://localhost:{srv.port}/rrdp/", e={"SSL_CERT_FILE": c + ".pem"}, timeout=25)
except subprocess.TimeoutExpired: p = None
check(p is not None and p.returncode != 0, "the run does not end")
'''),
dict(id="h07-session-dir-removed", property="C05",
 needs="files of a session that were superseded at different times, then a new session, and clean-up of the first of the files",
 breaks="the directory of a former session is removed as soon as one of its files has expired",
 edits=[("rrdp.rs", '''                    "Removing RRDP file: {}, deprecated since: {}",''', '''                    "Removing RRDP file: {} (deprecated since: {})",'''), ("rrdp.rs", '''                file_ops::remove_file_and_empty_parent_dirs(path)?;
            }
''', '''                file_ops::remove_file_and_empty_parent_dirs(path)?;

                // nothing is used any more in the directory of another session
                let dir = path
                    .strip_prefix(&config.rrdp_dir)
                    .ok()
                    .and_then(|rel| rel.iter().next())
                    .map(|name| config.rrdp_dir.join(name));
                if let (Some(dir), Some(current)) = (dir, self.snapshot_path()) {
                    if dir.is_dir() && !current.starts_with(&dir) {
                        fs::remove_dir_all(&dir)
                            .with_context(|| format!("Cannot remove dir {}", dir.display()))?;
                    }
                }
            }
''')],
 demo='''
a = Repo(A, 10, [{"rsync://h/m/a.roa": b"%d" % i} for i in range(4)])
b = Repo(B, 1, [{"rsync://h/m/b.roa": b"%d" % i} for i in range(4)])
T = 1700000000
C = ("--cleanup-after", "600")
clock(T); up(a.files(0)); must(run(*C))
clock(T + 10); up(a.files(1)); must(run(*C))
clock(T + 400); up(b.files(0)); must(run(*C))
clock(T + 700); up(b.files(1)); must(run(*C))
check(read(f"rrdp/{A}/11/snapshot.xml") is not None, "a file was removed 300 s after it was superseded")
'''),
dict(id="h08-atomic-objects", property="C04",
 needs="an object with the name of another one and .tmp, that comes first in the snapshot",
 breaks="objects are written by way of a temporary file that may be an object as well",
 edits=[("rsync.rs", "        file_ops::write_buf(&path, &bytes).with_context(|| {\n            format!(\n                \"Could not copy element", "        file_ops::write_buf_atomic(&path, &bytes).with_context(|| {\n            format!(\n                \"Could not copy element")],
 demo='''
f = Repo(A, 10, [{"rsync://h/m/a.roa": b"1", "rsync://h/m/a.roa.tmp": b"2"}]).files(0)
sp = [k for k in f if k.endswith("snapshot.xml")][0]
l = f[sp].splitlines(True)
f[sp] = b"".join([l[0], l[2], l[1], l[3]])
f["notification.xml"] = notification(A, 10, (sp, sha(f[sp])), [])
up(f); must(run())
check(current() == {"a.roa": b"1", "a.roa.tmp": b"2"}, "objects are %s" % current())
'''),
dict(id="h09-other-temporary", property="C11",
 needs="an upstream snapshot file with the name notification.tmp",
 breaks="the temporary notification file has the name that an upstream file may have",
 edits=[("rrdp.rs", "        let path_tmp = self.mappings.path(&notification_file_filename_tmp);\n", "        let path_tmp = self\n            .mappings\n            .path(&notification_file_filename_tmp)\n            .with_file_name(\"notification.tmp\");\n")],
 demo='''
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}])
f = r.files(0)
sp = [k for k in f if k.endswith("snapshot.xml")][0]
s = f.pop(sp)
up({"notification.tmp": s, "notification.xml": notification(A, 10, ("notification.tmp", sha(s)), [])})
p = run()
check(p.returncode != 0 or read("rrdp/notification.tmp") == s, "the snapshot file is gone")
'''),
]
