import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":None}})
p("C01","The published RRDP data is consistent at every instant",
 "At every instant - before, during and after any run, whether that run succeeds, fails or is killed - the notification file under the RRDP directory is either absent because nothing was published yet, or a complete well-formed notification whose snapshot and every listed delta exist under the RRDP directory with exactly the content of the listed hash. Once a notification has been published, readers never find it missing or partially written, and it changes from one version to the next in one atomic step. Published files can be read by others, such as web servers, as far as the umask allows. (Upstream, as RFC 8182 requires, never uses one RRDP file URI for different content.)",
 ["histories","crash_points","configurations","fault_sequences"],
 "every instant between two file system operations of every run in every bounded history of upstream versions, clock advances and configurations, including torn writes and runs that fail on an injected I/O error",
 "Tests only look at the directory after a successful run of one fixed 4-step history; they never look between two file operations, at torn writes or at failed runs.",
 ["src/process.rs","src/rrdp.rs","src/file_ops.rs"],
 [("files are moved into place before the notification is written","src/process.rs process"),("notification written to a temporary file and renamed","src/rrdp.rs write_notification"),("only unreferenced files are put on the deprecated list","src/rrdp.rs apply_staged_changed/clean")],
 [{"name":"deprecated_files","meaning":"files waiting for removal","where":"src/rrdp.rs RrdpState"}],["<rrdp-dir>/notification.xml and the files it references"])
p("C02","The rsync 'current' directory is always one complete snapshot",
 "Once the rsync content has been published, 'current' under the rsync directory at every instant resolves to a directory holding exactly the objects of one single published snapshot: never missing, never empty by accident, never partially written and never a mix of two versions. It is switched to a new version in one atomic step, and a directory that is being served, or was served, is never modified afterwards other than by being removed as a whole after clean-up. What is in it can be read by others, such as rsync servers, as far as the umask allows.",
 ["histories","crash_points","configurations","fault_sequences"],
 "every instant between two file system operations of every run (also runs that resume after a failed or killed run) in every bounded history",
 "Tests check that 'current' exists after successful runs only; a window in which it dangles, or is being rewritten in place, is invisible to them.",
 ["src/rsync.rs"],
 [("new directory per session and serial, symlink created under a temporary name and renamed","src/rsync.rs update_from_rrdp_state, symlink_current_to_new_revision_dir")],
 [{"name":"current/old","meaning":"live and superseded rsync revisions","where":"src/rsync.rs RsyncDirState"}],["<rsync-dir>/current"])
p("C03","A successful sync publishes exactly the upstream RRDP version",
 "After a run that exits successfully the published notification has the session and serial of the upstream notification, and references the same snapshot and delta files (same relative URI, same bytes) as upstream; the deltas are those upstream lists, the newest ones up to the configured maximum, contiguous up to the published serial, where only deltas no newer than the version published before may be left out. An upstream notification with a lower serial in the same session, or with gaps between the deltas that are to be published, makes the run fail and leaves what is published untouched; a new session replaces the old one, whatever its serial. If upstream goes on in the same session after it was restored from a backup, and so uses serials again for other changes, then none of the deltas of the time before is published any more once a serial newer than the published one is there.",
 ["histories","inputs","configurations"],
 "every bounded history over upstream versions (single steps, jumps, re-listed, dropped and shuffled deltas, no deltas, session reset and flip-flop, rollback, serials used again after a rollback, gaps, serial width changes), delta limits and other options",
 "Tests run one history with one delta limit and only check that some paths exist; they never parse the produced notification nor compare it with upstream, and never feed a rollback or gap.",
 ["src/rrdp.rs","src/process.rs"],
 [("delta bookkeeping with cutoff, session reset, serial comparison","src/rrdp.rs update_staged, deltas_stage, deltas_deprecate_before"),("notification built from state","src/rrdp.rs make_notification_file")],
 [{"name":"snapshot/deltas","meaning":"what is published","where":"src/rrdp.rs RrdpState"}],["<rrdp-dir>"])
p("C04","The rsync tree holds exactly the objects of the published snapshot",
 "After a successful run with rsync enabled, 'current' contains exactly one file for every object in the published snapshot, with exactly its bytes, at the path given by its rsync URI - relative to the module, or below <host>/<module>/ when including hosts is configured - and no other files, whatever the number, size, name or depth of the objects. With rsync disabled nothing is written to the rsync directory.",
 ["inputs","configurations","histories"],
 "every snapshot of a small alphabet of objects (sizes 0, 1, buffer boundaries, odd names, deep paths, several hosts and modules), with and without host inclusion, reached from every bounded history",
 "One test checks a few paths and mtimes of one snapshot; none compares the tree with the snapshot, so extra, missing or damaged files go unnoticed.",
 ["src/rsync.rs"],
 [("snapshot processing writes each object","src/rsync.rs RsyncFromSnapshotWriter::publish")],[],["<rsync-dir>/current/**"])
p("C05","Superseded data stays available for the whole clean-up period",
 "A snapshot or delta file that a published notification referenced stays in place, unchanged, until at least the configured clean-up time (counted in whole seconds of the clock) has passed since the moment that a notification not referencing it became visible, and an rsync directory stays in place until at least that long after 'current' was switched away from it. A file or directory that is referenced by the currently published notification or by 'current' is never removed, also if it had been superseded before and became current again.",
 ["histories","configurations","fault_sequences","crash_points"],
 "every bounded history of upstream versions, clock advances around the clean-up period, notification delays, failed and killed runs",
 "The one test that touches clean-up uses one history with generous sleeps; boundary times, versions that come back, repeated runs after failures and notification delays are never exercised.",
 ["src/rrdp.rs","src/rsync.rs"],
 [("deprecation time stamps compared with clean-up time","src/rrdp.rs clean, src/rsync.rs clean_old")],
 [{"name":"deprecated_files / old","meaning":"superseded items with time stamps","where":"src/rrdp.rs, src/rsync.rs"}],["removals in <rrdp-dir> and <rsync-dir>"])
p("C06","Clean-up removes everything that expired, and nothing else",
 "At the end of every successful run that published a new version, in a history of undisturbed runs, all RRDP files and rsync directories that were superseded at least the configured clean-up time before the run started are gone, including directories that became empty because of this, and everything present is either referenced by the published version or was superseded less than the clean-up time ago. Files in these directories that krill-sync did not put there are left alone.",
 ["histories","configurations"],
 "every bounded history of successful runs over upstream versions, clock advances around the clean-up period and clean-up settings",
 "The single clean-up test checks three paths in one history; leaks of particular delta files, directories or sessions are only visible when all histories are enumerated.",
 ["src/rrdp.rs","src/rsync.rs","src/file_ops.rs"],
 [("clean and clean_old, removal of empty parents","src/rrdp.rs clean, src/rsync.rs clean_old, src/file_ops.rs remove_file_and_empty_parent_dirs")],[],["file listing of <rrdp-dir> and <rsync-dir>"])
p("C07","After a crash at any point the next run recovers by itself",
 "If a run is killed at any point, also half-way a write, then the next run with the same or a newer upstream version needs no manual repair: it exits successfully and publishes exactly the upstream version in RRDP and rsync form. Runs after that keep working, and keep clean-up from touching what is in use.",
 ["crash_points","histories"],
 "every prefix of the file system operations of a run, with every write also cut in half, for first syncs, updates, session resets and clean-ups, followed by recovery runs, which may be killed, or fail, again",
 "No test ever interrupts a run; unit tests only start from state left by successful runs.",
 ["src/process.rs","src/rrdp.rs","src/rsync.rs","src/file_ops.rs"],
 [("state persisted last, staged files re-checked by hash, temporary names and renames","src/process.rs, src/fetch.rs retrieve_file, src/rrdp.rs persist")],[],["state directory, <rrdp-dir>, <rsync-dir>"])
p("C08","Exit status is honest, and a failed run can simply be repeated",
 "A run exits with status 0 only if what is published afterwards is completely in sync with upstream (or legitimately already was); any I/O error that prevents this, at whatever operation it happens, makes the run exit non-zero with an error message. After such a failure, or several of them, also ones that last, such as a full disk, a repeated run without the error brings everything in sync.",
 ["fault_sequences","histories"],
 "every single injected I/O error (e.g. EIO, ENOSPC, EACCES, EXDEV) at every file system operation of a run, and short writes, for first syncs and updates; errors that last to the end of the run; sequences of two failing or killed runs",
 "Tests have no way to make an arbitrary file operation fail, so error paths are never executed.",
 ["src/process.rs","src/file_ops.rs","src/rsync.rs","src/rrdp.rs","src/main.rs"],
 [("errors are propagated with ? to main, which exits 1","src/main.rs, src/process.rs")],[],["process exit status, stderr"])
p("C09","Corrupt, missing or unparsable source data is never published",
 "If the upstream notification, snapshot or any delta that is to be fetched is missing, truncated, altered (hash mismatch), not parsable as RRDP, or carries another session or serial than the notification says, then the run fails with a non-zero status and the published RRDP and rsync data stay exactly as they were. Left-over staged data of earlier failed runs is never published in place of the correct content, and once upstream is correct again the next run succeeds.",
 ["inputs","histories"],
 "every defect of a defect alphabet on every file of the upstream version, for first syncs and updates, with rsync enabled or not, after every left-over of an earlier failed run",
 "All test resources are correct RRDP data; there is no negative test at all.",
 ["src/rrdp.rs","src/fetch.rs","src/rsync.rs"],
 [("hash check on fetch and on re-use of staged files","src/fetch.rs fetch, retrieve_file"),("XML parsing","src/rrdp.rs, src/rsync.rs")],[],["exit status, <rrdp-dir>, <rsync-dir>"])
p("C10","At most one instance works on a state directory; stale locks do no harm",
 "If a run is started while another one for the same state directory is active, then at most one of the two does any work, and the other exits non-zero with an error message without changing anything. A lock file left by a killed or finished run never blocks a later run.",
 ["schedules","crash_points"],
 "every schedule of two instances with a bounded number of preemptions at their file system and lock operations, and every crash point followed by a new run",
 "Tests call the library function directly and never take the lock; concurrency of two processes is not tested.",
 ["src/main.rs"],[("exclusive file lock held for the whole run","src/main.rs lock, try_main")],[],["exit status, file operations of both processes"])
p("C11","Nothing outside the configured directories is ever touched",
 "Whatever URIs appear in upstream notification, snapshot and delta files, krill-sync creates, changes and removes files only inside the configured state, RRDP and rsync directories, keeps RRDP files below the RRDP directory and each rsync object below the rsync directory of its own version, and it reads source files only inside the configured source directory. Upstream data that would lead elsewhere makes the run fail without changing what is published; it cannot replace the notification file either.",
 ["inputs","configurations"],
 "every URI out of an alphabet of hostile and odd forms (dot segments, empty and absolute segments, foreign hosts, names of krill-sync's own files) in every place where upstream data carries a URI, with and without host inclusion",
 "Tests only use well-formed URIs below the base URI.",
 ["src/rrdp.rs","src/rsync.rs","src/fetch.rs","src/file_ops.rs"],
 [("URIs are mapped to relative paths below a base","src/rrdp.rs SourceMappings::relative/path, src/fetch.rs FetchMap::source, src/rsync.rs publish")],[],["every file system operation of the process"])
p("C12","Data is only taken from the mapped source over trusted TLS",
 "RRDP files are retrieved only from the configured source: the public base URI prefix replaced by the configured source base (directory or slash-terminated https URI), or the public URI itself if no source base is set; URIs outside the base make the run fail. Unless insecure mode is requested, https sources with an untrusted, expired or wrong-name certificate, or a redirect away from https, are refused and nothing is published; with insecure mode such certificates are accepted.",
 ["configurations","inputs"],
 "every combination of certificate kind, redirect kind, insecure flag, source base form and URI placement out of small alphabets",
 "Unit tests cover two URI mappings; no TLS connection is ever made in tests.",
 ["src/fetch.rs","src/config.rs"],
 [("fetch map and fetch mode","src/fetch.rs FetchMap, FetchSource::fetch; src/config.rs post_configure")],[],["requests seen by the server, exit status, <rrdp-dir>"])
p("C13","Validation finds every invalid object, and gates publication as configured",
 "With TALs configured, every object that should be valid under the TALs but is missing, altered, malformed, not properly signed, revoked, expired, stale, or over-claiming resources, anywhere in the parts of the RPKI trees published in the source repository, whichever of several TALs they are under, is reported as an issue, and correct trees give no issues. (The content of ghostbusters records, and of files that no manifest lists, is not looked into.) If the trust anchor certificate itself cannot be retrieved or is invalid, nothing can be decided: the run may fail, but a version is not published if reject-invalid is set. With reject-invalid set a new version is published exactly if there are no issues for the source repository and it was seen in validation; without it issues only lead to warnings and the new version is published.",
 ["inputs","configurations"],
 "every tree of a small CA hierarchy with every single object defect of an alphabet at every position, with and without reject-invalid; two or three trees in any order, with a defect anywhere in one of them",
 "Tests validate one correct tree; there is no tree with a defect and no test that rejects anything.",
 ["src/validation/validator.rs","src/validation/report.rs","src/validation/tal.rs","src/rrdp.rs"],
 [("top-down validation and issue report per repository","src/validation/validator.rs validate_tree_at, src/rrdp.rs pre_validate")],[],["exit status, log, <rrdp-dir>"])
p("C14","Validation verdicts concern the staged content, not what was cached",
 "Whether a new version is accepted depends only on the content of that version (and of other repositories), never on what earlier runs validated, cached or rejected: for every history the verdict on a version equals the verdict a fresh installation would give on that same version at that time. Other repositories are looked at again only if the last look is more than an hour ago, or not at all in offline mode: up to then what they contained may be used.",
 ["histories","inputs"],
 "every bounded history over valid and invalid upstream versions, rejected versions, changed TALs and clock advances around the re-fetch interval",
 "Tests validate once, from an empty cache.",
 ["src/validation/validator.rs","src/rrdp.rs"],
 [("staged data is (re)loaded before validation","src/rrdp.rs reconfigure_validator, src/validation/validator.rs initialise_staging_data")],
 [{"name":"validator","meaning":"cached repository data kept in the saved state","where":"src/rrdp.rs RrdpState"}],["exit status, <rrdp-dir>"])
p("C15","Pre-validation scripts all run on the staged data, and gate publication",
 "If there is a new version, every configured pre-validation script runs exactly once, in order, also when an earlier one failed, after all new files are staged and before anything is published. The version is rejected, leaving the published data untouched, if reject-invalid is set and any script failed, or if a script could not be started; otherwise it is published. Without a new version no script runs.",
 ["inputs","configurations","histories"],
 "every sequence of up to three scripts over outcomes (success, failure codes, death by signal, output on stdout/stderr, not startable), with and without reject-invalid, on first sync, update and no-op runs",
 "No test configures a script.",
 ["src/process.rs"],[("script loop","src/process.rs process")],[],["script invocations and what they see, exit status, <rrdp-dir>"])
p("C16","Modification times of rsync files are determined by the objects",
 "Every file in the rsync tree that holds a certificate (.cer), a CRL (.crl) or a signed object (any other name; DER or BER, valid or not) has the modification time given by that object, in whole seconds (start of validity, this-update time, or signing time - start of EE validity if there is none), identical on every server that syncs the same snapshot, at any time and through any history. Content that is not a recognised object is published as is, and does not make the run fail.",
 ["inputs","histories"],
 "every object kind and extension combination of an alphabet, through first syncs, updates, retries and different wall clock times",
 "One test checks four files once.",
 ["src/rsync.rs"],[("fix_since","src/rsync.rs fix_since")],[],["mtime of files under <rsync-dir>/current"])
p("C17","Validation terminates on every CA graph",
 "Whatever certificates upstream publishes - including CA certificates that form loops, self-references, diamonds or long chains - a run with TALs configured terminates within resources bounded by the size of the published data, and ends with a regular verdict and exit status rather than a crash.",
 ["inputs"],
 "every CA issuance graph with at most three CAs, plus chains and TAL multiplicity, with and without reject-invalid",
 "Tests have one tree-shaped hierarchy.",
 ["src/validation/validator.rs"],[("recursion over child certificates","src/validation/validator.rs validate_tree_at")],[],["process termination and exit status"])
p("C18","Changing the configuration between runs never breaks what is published",
 "If directories, the notification URI, delta limit, rsync options or TALs are changed between runs, then the next run that picks up an upstream version publishes a consistent and complete repository for the configuration in force - all files and the notification in the configured directories, under the configured notification name, with URIs below the configured base - and what was published in other directories under the earlier configuration stays consistent.",
 ["configurations","histories"],
 "every pair (and bounded sequences) of configurations out of an alphabet, with and without upstream change in between",
 "Only the last step of one test changes the notification name, and does not look at the RRDP directory afterwards.",
 ["src/process.rs","src/rrdp.rs","src/config.rs","src/rsync.rs"],
 [("saved state keeps source and directory mappings","src/rrdp.rs NotificationSource, SourceMappings")],
 [{"name":"mappings","meaning":"saved base URI and RRDP directory","where":"src/rrdp.rs SourceMappings"}],["<rrdp-dir>, <rsync-dir> old and new"])
p("C19","A run without upstream changes changes nothing",
 "If session and serial of the upstream notification equal what is published, in RRDP and - where enabled, and in the configured layout - in rsync form, a run exits successfully and leaves all published files, the rsync tree and the saved state byte-for-byte unchanged (including modification times), however often it is repeated and whatever time has passed.",
 ["histories","configurations"],
 "every state reached by bounded histories, followed by one or more runs with unchanged upstream, with clock advances around the clean-up period",
 "No test runs twice with the same upstream version.",
 ["src/process.rs","src/rrdp.rs"],[("serial and session comparison","src/rrdp.rs update_staged")],[],["state dir, <rrdp-dir>, <rsync-dir>"])
p("C20","The notification delay is honoured",
 "With a notification delay of N seconds the new notification becomes visible no sooner than N seconds after the last snapshot and delta file it references was in place, while those files are already available during the delay and the previous version, RRDP and everything it references, stays available until then. Without changes no delay is applied.",
 ["configurations","histories","schedules"],
 "every delay of an alphabet on first sync, update, session reset and no-op runs, with clean-up periods shorter and longer than the delay, observed at every file system operation and during the sleep",
 "Tests use no delay.",
 ["src/rrdp.rs","src/process.rs"],[("sleep before writing the notification","src/rrdp.rs write_notification")],[],["order and virtual time of file operations"])
p("C21","An upstream that changes during a run never yields a mixed version",
 "If the upstream repository moves on to another version at any moment during a run, the run either publishes one complete upstream version (as of the notification file it retrieved) or fails leaving the published data untouched, and a following run publishes the then current version.",
 ["schedules"],
 "every position of one (thorough: two) upstream updates between any two source reads of a run, with upstream keeping or dropping old files, rewriting files in place, for first syncs and updates",
 "In tests the source directory never changes during a run.",
 ["src/rrdp.rs","src/fetch.rs"],[("hashes from the notification are checked for every file","src/fetch.rs retrieve_file")],[],["<rrdp-dir>, exit status"])
p("C22","Offline validation contacts no repository other than the source",
 "With offline validation krill-sync makes no network connection other than to the source repository and to the trust anchor certificate locations of the TALs, uses previously retrieved data of other repositories when available, and does not blame missing data of other repositories on the source repository. Without it each other repository is asked for its notification file at most once per run, and not at all within an hour of the last look that found its data current or brought it up to date.",
 ["configurations","histories"],
 "every combination of offline flag and cached or missing third-party data over bounded histories of runs",
 "Tests validate a single repository that is mapped to disk.",
 ["src/validation/validator.rs","src/rrdp.rs"],[("offline flag and fetched flag","src/validation/validator.rs get_latest")],[],["connections and requests seen at the servers"])
p("C23","Failing HTTP responses never lead to publication",
 "For an https source, any response to a request for the notification, snapshot or a delta other than a complete 200 response - error statuses, unsolicited 'not modified', empty or truncated bodies, closed connections, connections on which nothing more arrives - never leads to anything but the complete, hash-checked upstream version being published; unless the published version is legitimately up to date the run exits non-zero and leaves published data untouched; it always ends. The next run with a healthy server succeeds.",
 ["fault_sequences","inputs"],
 "every response kind of an alphabet at every request position of a run, on first sync, update and after left-over staged files of an earlier failed run",
 "No test uses an HTTP source.",
 ["src/fetch.rs"],[("status handling in fetch","src/fetch.rs FetchSource::fetch, Fetcher::retrieve_file")],[],["exit status, <rrdp-dir>"])
p("C24","An upgrade continues with what the earlier release left",
 "A state directory and published RRDP and rsync data that an earlier release of krill-sync has left are taken over as if this release had written them: a run without upstream changes leaves everything as it is, a run with a new version publishes it and keeps or removes superseded files at the same time as otherwise, and validation gives the verdict of a fresh installation. (If the earlier release did not note how the rsync tree is laid out, that may be written once more.)",
 ["histories","configurations"],
 "every state that runs of earlier releases left at the end of a set of histories and configurations, with and without validation, followed by all bounded histories of runs",
 "Tests start from an empty state directory and never load state written by other code.",
 ["src/rrdp.rs","src/rsync.rs","src/util.rs","src/validation/validator.rs"],
 [("state files are read as they are; defaults for what earlier releases did not save","src/rrdp.rs RrdpState, src/rsync.rs RsyncDirState")],
 [{"name":"saved state","meaning":"rrdp-state.json and rsync-state.json","where":"src/rrdp.rs RrdpState, src/rsync.rs RsyncDirState"}],["exit status, <rrdp-dir>, <rsync-dir>, state directory"])
with open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
