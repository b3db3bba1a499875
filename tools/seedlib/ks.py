"""Helper for demonstrations: scratch directory, RRDP repositories, runs of ./target/debug/krill-sync.
Everything runs as an unprivileged user inside a scratch directory that is removed again."""
import atexit, base64, hashlib, os, shutil, subprocess, sys, tempfile

KS = os.path.join(os.getcwd(), "target", "debug", "krill-sync")
HERE = os.path.dirname(os.path.abspath(__file__))
S = tempfile.mkdtemp(prefix="ksdemo.")
atexit.register(lambda: shutil.rmtree(S, ignore_errors=True))
os.chmod(S, 0o755)
shutil.copy(KS, S + "/ks"); os.chmod(S + "/ks", 0o755)
BASE = "https://pub.example/rrdp/"
NS = "http://www.ripe.net/rpki/rrdp"
A = "aaaaaaaa-1111-4111-8111-0000000000a1"
B = "bbbbbbbb-2222-4222-8222-0000000000b2"
UID = 65534 if os.getuid() == 0 else os.getuid()
W = S + "/w"; os.mkdir(W)
if os.getuid() == 0: os.chown(W, UID, UID)

def sha(b): return hashlib.sha256(b).hexdigest()
def snapshot(session, serial, objs):
    s = f'<snapshot xmlns="{NS}" version="1" session_id="{session}" serial="{serial}">\n'
    for u, b in sorted(objs.items()): s += f'  <publish uri="{u}">{base64.b64encode(b).decode()}</publish>\n'
    return (s + "</snapshot>\n").encode()
def delta(session, serial, old, new):
    s = f'<delta xmlns="{NS}" version="1" session_id="{session}" serial="{serial}">\n'
    for u, b in sorted(new.items()):
        e = base64.b64encode(b).decode()
        if u not in old: s += f'  <publish uri="{u}">{e}</publish>\n'
        elif old[u] != b: s += f'  <publish uri="{u}" hash="{sha(old[u])}">{e}</publish>\n'
    for u, b in sorted(old.items()):
        if u not in new: s += f'  <withdraw uri="{u}" hash="{sha(b)}"/>\n'
    return (s + "</delta>\n").encode()
def notification(session, serial, snap, deltas, base=BASE):
    s = f'<notification xmlns="{NS}" version="1" session_id="{session}" serial="{serial}">\n  <snapshot uri="{base}{snap[0]}" hash="{snap[1]}"/>\n'
    for n, p, h in deltas: s += f'  <delta serial="{n}" uri="{base}{p}" hash="{h}"/>\n'
    return (s + "</notification>\n").encode()

class Repo:
    """history of one session; versions(k) gives the files as of the k-th version"""
    def __init__(self, session, first, sets, base=BASE):
        self.session, self.first, self.sets, self.base = session, first, sets, base
    def files(self, k, window=9, notif="notification.xml", deltas=None):
        n = self.first + k
        f = {}
        sp = f"{self.session}/{n}/snapshot.xml"
        f[sp] = snapshot(self.session, n, self.sets[k])
        l = []
        for i in range(max(1, k - window + 1), k + 1):
            m = self.first + i
            if deltas is not None and m not in deltas: continue
            p = f"{self.session}/{m}/delta.xml"
            f[p] = delta(self.session, m, self.sets[i - 1], self.sets[i])
            l.append((m, p, sha(f[p])))
        f[notif] = notification(self.session, n, (sp, sha(f[sp])), l, self.base)
        return f

def write(rel, data, mode=0o644):
    p = os.path.join(W, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as h: h.write(data)
    os.chmod(p, mode)
    return p
def up(files, name="up"):
    shutil.rmtree(f"{W}/{name}", ignore_errors=True)
    for k, b in files.items(): write(f"{name}/{k}", b)
def own():
    if os.getuid() == 0:
        for d, ds, fs in os.walk(W):
            for x in ds + fs: os.lchown(os.path.join(d, x), UID, UID)
def args(*extra, src="up", uri=None, dirs=True):
    a = [S + "/ks", "--state-dir", W + "/state"]
    if dirs: a += ["--rrdp-dir", W + "/rrdp", "--rsync-dir", W + "/rsync"]
    if src: a += ["--source-uri-base", src if "://" in src else f"{W}/{src}/"]
    return a + list(extra) + ["--", uri or BASE + "notification.xml"]
_clock = None
_pre = {}
def preload(name):
    if name not in _pre:
        _pre[name] = f"{S}/{name}.so"
        subprocess.run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", _pre[name], f"{HERE}/{name}.c", "-ldl"], check=True)
        os.chmod(_pre[name], 0o755)
def clock(t):
    """virtual clock: seconds since the epoch as seen by krill-sync from now on"""
    global _clock
    preload("clock")
    _clock = t
def env(**kw):
    e = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "HOME": "/nonexistent"}
    if _clock is not None: e["DEMO_NOW"] = str(_clock)
    if "DEMO_TRAP" in kw: preload("trap")
    if _pre: e["LD_PRELOAD"] = ":".join(_pre.values())
    e.update(kw)
    return e
def demote():
    if os.getuid() == 0: os.setgroups([]); os.setgid(UID); os.setuid(UID)
def trap(what, *extra, **kw):
    """a run that is killed, or gets an error, at the given point; see trap.c"""
    return run(*extra, e={"DEMO_TRAP": what}, **kw)
def run(*extra, timeout=60, e=None, wrap=(), **kw):
    own()
    p = subprocess.run(list(wrap) + args(*extra, **kw), cwd=W, env=env(**(e or {})), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout, preexec_fn=demote)
    p.text = (p.stdout + p.stderr).decode(errors="replace")
    return p
def read(rel):
    try: return open(os.path.join(W, rel), "rb").read()
    except OSError: return None
def tree(rel):
    """relative path -> content, links as str"""
    r = {}
    top = os.path.join(W, rel)
    for d, ds, fs in os.walk(top):
        for x in fs + [y for y in ds if os.path.islink(os.path.join(d, y))]:
            p = os.path.join(d, x); k = os.path.relpath(p, top)
            r[k] = os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
    return r
def current():
    p = W + "/rsync/current"
    return {os.path.relpath(os.path.join(d, x), os.path.realpath(p)): open(os.path.join(d, x), "rb").read() for d, _, fs in os.walk(os.path.realpath(p)) for x in fs} if os.path.exists(p) else None
def check(cond, msg):
    if not cond:
        print("DEMO: property broken:", msg); sys.exit(1)
def must(p, msg="run"):
    """a run that has to work for the demonstration to make sense"""
    if p.returncode != 0:
        print("DEMO: unexpected failure of", msg, ":", p.text[-600:]); sys.exit(1)
    return p
