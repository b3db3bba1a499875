SPECS = [
dict(id="b01-session-reset-keeps-deltas", property="C03",
 needs="a new session whose delta serials are lower than those of the session held before",
 breaks="after a session reset the deltas of the old session stay in the published notification if their serials are not below the cutoff",
 edits=[("rrdp.rs", """        // deprecate old deltas
        if staged.session_reset {
            self.deltas_deprecate_all()
        } else {
            self.deltas_deprecate_before(staged.cutoff);
        }
""", """        // deprecate old deltas
        self.deltas_deprecate_before(staged.cutoff);
""")],
 demo='''
o1 = {"rsync://h/m/a.roa": b"1"}; o2 = {"rsync://h/m/a.roa": b"2"}; o3 = {"rsync://h/m/b.roa": b"3"}
up(Repo(A, 10, [o1, o2, o3]).files(2)); must(run())
b = Repo(B, 1, [o1, o3]).files(1)
up(b); must(run())
n = read("rrdp/notification.xml").decode()
check(A not in n, "the notification of the new session lists files of the old session")
check(n.count("<delta") == 1, "number of deltas")
'''),
dict(id="b02-delay-skipped-without-deltas", property="C20",
 needs="a notification delay and an upstream version without deltas",
 breaks="the notification delay is skipped if the new version has no deltas",
 edits=[("rrdp.rs", "        if delay > 0 {\n            info!(", "        if delay > 0 && !self.deltas.is_empty() {\n            info!(")],
 demo='''
import time
o1 = {"rsync://h/m/a.roa": b"1"}; o2 = {"rsync://h/m/a.roa": b"2"}
r = Repo(A, 10, [o1, o2])
up(r.files(0)); must(run())
up(r.files(1, window=0)); t = time.time(); must(run("--rrdp-notify-delay=3"))
check(time.time() - t >= 3, "the notification was published without the delay")
'''),
dict(id="b03-crl-mtime-next-update", property="C16",
 needs="an object with upper case extension or a CRL named otherwise",
 breaks="a signed object without signing time",
 edits=[("rsync.rs", "        let mut bytes: Vec<u8> = vec![];\n        data.read_to_end(&mut bytes)?;\n\n        file_ops::write_buf(&path, &bytes).with_context(|| {",
   "        let mut bytes: Vec<u8> = vec![];\n        data.take(64 * 1024).read_to_end(&mut bytes)?;\n\n        file_ops::write_buf(&path, &bytes).with_context(|| {")],
 demo='''
big = bytes(i % 251 for i in range(70000))
up(Repo(A, 10, [{"rsync://h/m/a.roa": b"1", "rsync://h/m/big.mft": big}]).files(0)); must(run())
check(current()["big.mft"] == big, "large object is cut off")
'''),
]
SPECS[2].update(id="b03-large-object-cut", property="C04", needs="an object of more than 64 KiB", breaks="objects in the rsync tree are cut off at 64 KiB")
