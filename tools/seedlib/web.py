"""https server for demonstrations, with its own certificate authority (SSL_CERT_FILE)"""
import http.server, os, socket, ssl, subprocess, threading
def sh(*c): subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
def ca(d):
    p = d + "/ca"
    sh("openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "4000", "-subj", "/CN=demo CA", "-keyout", p + ".key", "-out", p + ".pem")
    os.chmod(p + ".pem", 0o644)
    return p
def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
class Server:
    def __init__(self, d, files, name="localhost", ca=None, port=0):
        """files: path -> bytes, or function(handler)"""
        self.files, self.requests = files, []
        p = f"{d}/srv-{name}"
        if ca:
            sh("openssl", "req", "-newkey", "rsa:2048", "-nodes", "-subj", f"/CN={name}", "-keyout", p + ".key", "-out", p + ".csr")
            open(p + ".ext", "w").write(f"subjectAltName=DNS:{name}\n")
            sh("openssl", "x509", "-req", "-days", "3000", "-in", p + ".csr", "-CA", ca + ".pem", "-CAkey", ca + ".key", "-CAcreateserial", "-extfile", p + ".ext", "-out", p + ".pem")
        else:
            sh("openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-days", "3000", "-subj", f"/CN={name}", "-keyout", p + ".key", "-out", p + ".pem")
        me = self
        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"
            def do_GET(self):
                k = self.path.lstrip("/"); me.requests.append(k)
                b = me.files.get(k)
                if callable(b): return b(self)
                self.send_response(404 if b is None else 200)
                self.send_header("Content-Length", str(len(b or b""))); self.end_headers(); self.wfile.write(b or b"")
            def log_message(self, *a): pass
        class T(http.server.ThreadingHTTPServer):
            def handle_error(self, *a): pass
            def get_request(self):
                s, a = self.socket.accept()
                return ctx.wrap_socket(s, server_side=True, do_handshake_on_connect=False), a
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); ctx.load_cert_chain(p + ".pem", p + ".key")
        self.http = T(("127.0.0.1", port), H)
        self.port = self.http.server_address[1]
        threading.Thread(target=self.http.serve_forever, daemon=True).start()
    def stop(self): self.http.shutdown(); self.http.server_close()
