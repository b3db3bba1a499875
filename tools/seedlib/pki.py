"""scenes with signed objects (pki.json.xz): versions of the source, other repositories, trust anchor"""
import base64, json, lzma, os
import ks, web
D = json.loads(lzma.open(os.path.join(ks.HERE, "pki.json.xz")).read())
T0 = 1700000000
def blob(k): return base64.b64decode(D["blobs"][k])
class Scene:
    def __init__(self, spec):
        d = D["scenes"][spec]
        self.versions = [({p: blob(b) for p, b in v["files"].items()}, {p: blob(b) for p, b in v["net"].items()}) for v in d["versions"]]
        self.tal = blob(d["tal"])
        ks.write("ta.tal", self.tal)
        ks.preload("net"); ks.clock(T0)
        self.net = {}
        self.srv = web.Server(ks.S, self)
        os.environ["DEMO_PORT"] = str(self.srv.port)
        self.hits = []
        self.etag, self.status = False, None
    def get(self, path):
        def answer(h):
            u = h.headers["Host"].split(":")[0] + "/" + path
            self.hits.append(u)
            b = self.net.get(u)
            if self.status and not u.startswith("ta."): b = b""
            h.send_response(self.status if b == b"" else 404 if b is None else 200)
            if self.etag and b: h.send_header("ETag", '"%s"' % ks.sha(b)[:16])
            h.send_header("Content-Length", str(len(b or b""))); h.end_headers(); h.wfile.write(b or b"")
        return answer
    def at(self, i):
        """version i is what is published now"""
        ks.up(self.versions[i][0]); self.net = self.versions[i][1]
    def run(self, *extra, reject=True, e=None, tal=True, **kw):
        x = (["--tal", ks.W + "/ta.tal"] if tal else []) + (["--tal-reject-invalid"] if reject else [])
        return ks.run(*x, *extra, e={"DEMO_PORT": str(self.srv.port), **(e or {})}, **kw)
