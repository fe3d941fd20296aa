"""Runs the tool with the listed files and arguments and compares standard output and whether it succeeds."""
import json, os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__)); tool = os.path.join(os.getcwd(), "target/debug/url-cleaner"); bad = 0
for k, c in enumerate(json.load(open(os.path.join(here, "cases.json")))):
    t = tempfile.mkdtemp()
    try:
        for n, v in c["files"].items(): open(os.path.join(t, n), "w").write(v if isinstance(v, str) else json.dumps(v))
        for a in c.get("first", []): subprocess.run([tool] + a, cwd=t, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=40)
        p = subprocess.run([tool] + c["args"], cwd=t, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=40)
        got, ok = p.stdout.decode("utf-8", "replace"), p.returncode == 0
        if ok != c["ok"] or ("stdout" in c and got != c["stdout"]): print("case", k, "\n want", c["ok"], repr(c.get("stdout")), "\n got ", ok, repr(got)); bad = 1
    finally: shutil.rmtree(t)
sys.exit(bad)
