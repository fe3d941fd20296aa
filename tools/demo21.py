"""Runs the tool on the listed inputs and compares standard output and the exit code."""
import json, os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__)); tool = os.path.join(os.getcwd(), "target/debug/url-cleaner"); bad = 0
t = tempfile.mkdtemp()
try:
    for k, c in enumerate(json.load(open(os.path.join(here, "cases.json")))):
        json.dump(c["config"], open(os.path.join(t, "c.json"), "w"))
        i = c.get("stdin", "").encode("latin-1")
        try: p = subprocess.run([tool, "--config", "c.json"] + c.get("args", []) + ["--"] + c.get("urls", []), cwd=t, input=i, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=40)
        except subprocess.TimeoutExpired: print("case", k, "did not end"); bad = 1; continue
        got, rc = p.stdout.decode("utf-8", "replace"), p.returncode
        want = c["stdout"]
        if "json" in c:
            try: got = ["ok" if "Ok" in x.get("Ok", {}) else "err" for x in json.loads(got)["Ok"]["urls"]]
            except ValueError: pass
            want = c["json"]
        if got != want or ("code" in c and rc != c["code"]): print("case", k, "\n want", repr(want), c.get("code"), "\n got ", repr(got), rc); bad = 1
finally: shutil.rmtree(t)
sys.exit(bad)
