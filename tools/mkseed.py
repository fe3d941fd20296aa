"""mkseed(id, prop, edits, cases, needs, breaks): writes /verif/seeded/<id>. cases: (config rules list | full config, url, expected stdout, extra args)."""
import json, os, subprocess, shutil
def mkseed(id, prop, edits, cases, needs, breaks, extra=None):
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed"; shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, a, b in edits:
        p = os.path.join(w, f); t = open(p).read(); assert t.count(a) == 1, (id, f, t.count(a), a)
        open(p, "w").write(t.replace(a, b))
    diff = subprocess.run(["git", "diff"], cwd=w, check=True, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(w)
    out = ["#!/bin/bash", "# run in the repository after its build; every file it needs lies beside it", 'D=$(cd "$(dirname "$0")" && pwd); B=$PWD/target/debug/url-cleaner; T=$(mktemp -d); trap \'rm -rf "$T"\' EXIT; cd "$T"; rc=0',
           'check() { # config url expected extra-args...',
           '  c=$1; u=$2; e=$3; shift 3; g=$(timeout 60 "$B" --config "$D/$c" "$@" "$u" </dev/null 2>"$T/err"); r=$?; [ $r -le 2 ] || g="exit $r"',
           '  [ "$g" = "$e" ] || { echo "FAIL $c $u: got [$g] want [$e]"; cat "$T/err"; rc=1; }', '}']
    for i, c in enumerate(cases):
        cfg, url, exp = c[:3]; args = c[3] if len(c) > 3 else []
        if isinstance(cfg, list): cfg = {"cache_path": ":memory:", "rules": cfg}
        n = "config%d.json" % i; json.dump(cfg, open(d + "/" + n, "w"), indent=1)
        q = lambda s: "'" + s.replace("'", "'\\''") + "'"
        out.append(" ".join(["check", n, q(url), q(exp)] + [q(a) for a in args]))
    for f, t in (extra or {}).items(): open(d + "/" + f, "w").write(t)
    out.append("exit $rc")
    open(d + "/demo.sh", "w").write("\n".join(out) + "\n"); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
