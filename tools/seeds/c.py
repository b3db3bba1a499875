F = ["web.py", "net.c", "pki.py", "pki.json.xz"]
SPECS = [
dict(id="c01-aspa-revocation", property="C13", files=F,
 needs="a revoked ASPA object, with TALs and rejection configured",
 breaks="revoked ASPA objects are accepted",
 edits=[("validation/validator.rs", '''                        Ok(aspa) => match aspa.process(resource_cert, true, |ee| {
                            if crl.contains(ee.serial_number()) {''', '''                        Ok(aspa) => match aspa.process(resource_cert, true, |ee| {
                            if crl.contains(resource_cert.serial_number()) && ee.is_ca() {''')],
 demo='''
import pki
s = pki.Scene("def/000/1/c.asa revoked")
s.at(0); must(s.run())
clock(pki.T0 + 3600); s.at(1); p = s.run()
check(p.returncode != 0, "version with a revoked ASPA was published")
'''),
dict(id="c02-child-cert-hash", property="C13", files=F,
 needs="an older, otherwise valid, CA certificate in place of the one on the manifest",
 breaks="certificates are not checked against the manifest",
 edits=[("validation/validator.rs", "                if hash.verify(object.bytes()).is_err() {", "                // certificates are validated on their own\n                if uri.extension() != \"cer\" && hash.verify(object.bytes()).is_err() {")],
 demo='''
import pki
s = pki.Scene("def/000/1/child.cer replaced by an older version of it")
s.at(0); must(s.run())
clock(pki.T0 + 3600); s.at(1); p = s.run()
check(p.returncode != 0, "version with a certificate that is not the one on the manifest was published")
'''),
dict(id="c03-report-overwritten", property="C13", files=F,
 needs="an issue with a CA that is not the last one of the repository to be validated",
 breaks="the reports on a repository overwrite each other instead of being added up",
 edits=[("validation/report.rs", '''        for (uri, stats) in other.rrdp_repositories {
            if let Some(existing) = self.rrdp_repositories.get_mut(&uri) {
                existing.add_other(stats);
            } else {
                self.rrdp_repositories.insert(uri, stats);
            }
        }''', '''        self.rrdp_repositories
            .extend(other.rrdp_repositories.drain());''')],
 demo='''
import pki
s = pki.Scene("def/000/1/c.asa revoked")
s.at(0); must(s.run())
clock(pki.T0 + 3600); s.at(1); p = s.run()
check(p.returncode != 0, "version with a revoked ASPA was published")
'''),
dict(id="c04-fetched-persisted", property="C14", files=F,
 needs="a change in another repository, more than an hour after it was first looked at",
 breaks="that a repository was updated in this run is saved in the state, so it is never updated again",
 edits=[("validation/validator.rs", "    #[serde(skip_serializing, default)]\n    fetched", "    #[serde(default)]\n    fetched")],
 demo='''
import pki
s = pki.Scene("k/100/Good,Revoked,Bad")
s.at(0); must(s.run())
clock(pki.T0 + 4000); s.at(1); p = s.run()
check(p.returncode != 0, "the certificate of the CA was revoked, but the version was published")
'''),
dict(id="c05-tal-names", property="C14", files=F,
 needs="a TAL file replaced by one for another trust anchor",
 breaks="TALs are compared by name only, so a changed TAL file has no effect",
 edits=[("validation/validator.rs", "        self.tals == other.tals", "        self.tals\n            .iter()\n            .map(|tal| tal.name())\n            .eq(other.tals.iter().map(|tal| tal.name()))")],
 demo='''
import pki, re, base64
s = pki.Scene("k/000/Good,Good")
s.at(0); must(s.run())
# another key
t = s.tal.decode().split("\\n\\n")
k = bytearray(base64.b64decode(t[1])); k[60] ^= 1
write("ta.tal", (t[0] + "\\n\\n" + base64.b64encode(bytes(k)).decode() + "\\n").encode())
clock(pki.T0 + 3600); s.at(1); p = s.run()
check(p.returncode != 0, "published, although the trust anchor certificate does not match the TAL")
'''),
dict(id="c06-update-hash-ignored", property="C14", files=F,
 needs="another repository with a delta that updates an object that is not the one held",
 breaks="objects of other repositories are updated by deltas that do not fit the data held",
 edits=[("validation/validator.rs", '''                            if !hash.matches(existing.bytes().as_ref()) {
                                return Err(anyhow!(format!(
                                    "existing object at {uri} does not match update hash"
                                )));
                            }
''', '''                            if !hash.matches(existing.bytes().as_ref()) {
                                // will be found when the manifest is validated
                                warn!("existing object at {uri} does not match update hash");
                                continue;
                            }
''')],
 demo='''
import pki
s = pki.Scene("k/100/Good,RevMismatch")
s.at(0); must(s.run())
clock(pki.T0 + 4000); s.at(1); p = s.run()
check(p.returncode != 0, "the certificate of the CA was revoked, but the version was published")
'''),
dict(id="c07-no-rrdp-panic", property="C17", files=F,
 needs="a CA that has no RRDP repository",
 breaks="a CA certificate without RRDP URI makes krill-sync crash",
 edits=[("validation/validator.rs", '''            let sia_rrdp = match &ca_cert.ca_cert_info.sia_rrdp {
                Some(uri) => uri,
                None => {
                    ca_cert.add_issue(ValidationIssue::with_uri_and_msg(
                        sia_ca.into(),
                        "No SIA RRDP entry",
                    ));
                    report.add_cert(ca_cert);
                    return report;
                }
            };''', '''            let sia_rrdp = ca_cert
                .ca_cert_info
                .sia_rrdp
                .as_ref()
                .expect("checked when the certificate was validated");''')],
 demo='''
import pki
s = pki.Scene("k/00-/Good")
s.at(0); p = s.run()
check(p.returncode in (0, 1), "krill-sync crashed")
'''),
dict(id="c08-offline-old-data", property="C22", files=F,
 needs="offline validation with data of another repository that is more than a day old",
 breaks="offline validation contacts other repositories if their data is old",
 edits=[("validation/validator.rs", '''                } else if offline {
                    debug!("Use cached data''', '''                } else if offline && repo_data.last_fetch > Time::now() - Duration::hours(24) {
                    debug!("Use cached data''')],
 demo='''
import pki
s = pki.Scene("k/100/Good,Good")
s.at(0); must(s.run())
s.hits.clear()
clock(pki.T0 + 3 * 86400); s.at(1); p = s.run("--offline-validation")
check(not [h for h in s.hits if h.startswith("other.")], "other repository contacted in offline mode")
'''),
dict(id="c09-unavailable-as-unmodified", property="C14", files=F,
 needs="another repository that sent an ETag earlier, and answers 503 now",
 breaks="an error status is taken for 'not modified'",
 edits=[("fetch.rs", "                    StatusCode::NOT_MODIFIED => Ok(FetchResponse::UnModified),", "                    StatusCode::NOT_MODIFIED | StatusCode::SERVICE_UNAVAILABLE => {\n                        Ok(FetchResponse::UnModified)\n                    }")],
 demo='''
import pki
s = pki.Scene("k/100/Good,Good")
s.etag = True
s.at(0); must(s.run())
s.status = 503
clock(pki.T0 + 4000); s.at(1); p = s.run()
check(p.returncode != 0, "published, although the other repository could not be updated")
'''),
dict(id="c10-script-not-started", property="C15",
 needs="a pre-validation script that cannot be started",
 breaks="a script that can not be started does not keep the version from being published",
 edits=[("process.rs", '''                let output = Command::new(script).output()?;
                if output''', '''                let output = match Command::new(script).output() {
                    Ok(output) => output,
                    Err(e) => {
                        error!("Could not run {}: {}", script.to_string_lossy(), e);
                        continue;
                    }
                };
                if output''')],
 demo='''
r = Repo(A, 10, [{"rsync://h/m/a.roa": b"1"}])
up(r.files(0)); p = run("--tal-reject-invalid", "--pre-validate", W + "/nothing-here.sh")
check(p.returncode != 0 and read("rrdp/notification.xml") is None, "published although a script could not be started")
'''),
dict(id="c11-fetcher-by-uri", property="C18", files=F,
 needs="validation, and a state directory that was moved",
 breaks="data staged by a run with a moved state directory is looked for in the old place",
 edits=[("validation/validator.rs", "                .any(|self_repo| self_repo == other_repo)", "                .any(|self_repo| self_repo.notification_uri() == other_repo.notification_uri())")],
 demo='''
import pki, os
s = pki.Scene("k/000/Good,Good")
s.at(0); must(s.run())
os.rename(W + "/state", W + "/moved")
clock(pki.T0 + 3600); s.at(1); own()
a = [x.replace(W + "/state", W + "/moved") for x in args("--tal", W + "/ta.tal", "--tal-reject-invalid")]
p = subprocess.run(a, cwd=W, env=env(DEMO_PORT=str(s.srv.port)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=demote)
check(p.returncode == 0, "no further versions are published after the state directory was moved: " + p.stdout.decode()[-300:])
'''),
]
