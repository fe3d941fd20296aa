import http.server, json, os, re, subprocess, sys, tempfile, threading
D = os.path.dirname(os.path.abspath(__file__)); B = os.path.join(os.getcwd(), "target/debug/url-cleaner"); log = []
class H(http.server.BaseHTTPRequestHandler):
    def go(self):
        n = int(self.headers.get("content-length") or 0); body = self.rfile.read(n).decode()
        path = re.sub(r"^http://[^/]*", "", self.path)
        log.append("%s %s %s|%s" % (self.command, self.path, ";".join("%s=%s" % (k.lower(), v) for k, v in sorted(self.headers.items()) if k.lower().startswith(("x-", "content-type", "proxy-a", "referer"))), body))
        self.send_response(302 if path.startswith("/r") else 200)
        if path.startswith("/r"): self.send_header("Location", "/end?x=1")
        for k, v in [("X-One", "1"), ("X-Two", "first"), ("X-Two", "second"), ("Set-Cookie", "k=1; Path=/"), ("Set-Cookie", "K=2"), ("Set-Cookie", "k=3")]: self.send_header(k, v)
        b = ("B " + path).encode(); self.send_header("Content-Length", str(len(b))); self.end_headers()
        if self.command != "HEAD": self.wfile.write(b)
    do_GET = do_POST = do_PUT = do_HEAD = do_DELETE = go
    def log_message(self, *a): pass
S, P = [http.server.ThreadingHTTPServer(("127.0.0.1", 0), H) for _ in range(2)]
for s in (S, P): threading.Thread(target=s.serve_forever, daemon=True).start()
names = [("$S", "http://127.0.0.1:%d" % S.server_port), ("$P", "http://127.0.0.1:%d" % P.server_port)]
def to(t):
    for a, b in names: t = t.replace(a, b)
    return t
def back(t):
    for a, b in names: t = t.replace(b, a).replace(b.replace("http://", ""), a)
    return t
rc = 0
for i, c in enumerate(json.load(open(D + "/cases.json"))):
    with tempfile.TemporaryDirectory() as t:
        f = t + "/config.json"; open(f, "w").write(to(json.dumps(c["config"]))); log.clear()
        try: r = subprocess.run([B, "--config", f] + [to(a) for a in c.get("args", [])] + [to(u) for u in c["urls"]], cwd=t, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30); out = back(r.stdout.decode())
        except subprocess.TimeoutExpired: out = "no answer"
        got = {"stdout": out.rstrip("\n").split("\n"), "asked": [back(x) for x in log]}
        for k in got:
            if k in c and c[k] != got[k]: print("FAIL case %d %s: got %r want %r" % (i, k, got[k], c[k])); rc = 1
sys.exit(rc)
