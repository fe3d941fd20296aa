"""mutate.py FILE-REGEX COUNT SEED: random small changes in a scratch copy (/tmp/mu); those that build and pass the tests are put to the checks of the properties anchored in the file.
Prints one line per change: KILLED prop / SURVIVED (to be looked at by hand: equivalent, or a gap)."""
import json, os, random, re, subprocess, sys
W = os.environ.get("MW", "/tmp/mu"); pat, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); rnd = random.Random(seed)
if not os.path.isdir(W): subprocess.run(["cp", "-a", "/repo", W], check=True)
def sh(c, t=900): return subprocess.run(["bash", "-c", c], cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors="replace")
sh("git fetch -q /repo HEAD; git checkout -q -f FETCH_HEAD")
env = W + ".env.sh"; open(env, "w").write(open("/opt/vp/env.sh").read().replace("/repo", W))
props = {}
for l in open("/verif/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]: props.setdefault(f, []).append(d["id"])
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r"==", "!="), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" \+ ", " - "), (r" - 1\b", ""), (r"\+1\b", ""),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bsplit_once\b", "rsplit_once"), (r"\.find\(", ".rfind("), (r"\.rfind\(", ".find("), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.starts_with\(", ".ends_with("), (r"\.ends_with\(", ".starts_with("),
 (r"\.strip_prefix\(", ".strip_suffix("), (r"\.strip_suffix\(", ".strip_prefix("), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\bSome\((\w+)\) => Some\(\1\)", r"Some(\1) => None"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.next\(\)", ".last()"), (r"\.next_back\(\)", ".next()"),
 (r"\.pop\(\);", ".len();"), (r"\.insert\(", ".replace("), (r"\bif !", "if "), (r"\bif (?!let)", "if !"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ".skip(0)"), (r"\?;$", ".ok();"), (r"\.or\(", ".and("), (r"\.or_else\(\|\| ", ".and_then(|_| "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\.splitn\(2", ".splitn(3"), (r"\.trim\(\)", ""), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.extend\(", ".clone_from("), (r"\.replacen\(", ".replace("), (r"\.clone\(\)\)", ".clone())"),
 (r"\.remove\(", ".get("), (r"\.contains\(", ".starts_with("), (r"Self::\w+", None)]
def fnlines(t):
    """line numbers inside fn bodies, without tests, attributes and comments"""
    ls = t.split("\n"); out = []; depth = 0; infn = False; d0 = 0
    for i, l in enumerate(ls):
        if l.startswith("#[cfg(test)]") or re.match(r"mod tests?\b", l): break
        s = l.strip(); code = not s.startswith(("//", "#[", "debug!"))
        if code and not infn and re.match(r"(pub(\(crate\))? )?(const )?(async )?fn ", s): infn = True; d0 = depth; first = i
        o, c = l.count("{"), l.count("}")
        if infn and code and i > first: out.append(i)
        depth += (o - c) if code else 0
        if infn and depth <= d0 and (i > first or o): infn = False
    return out
files = [f for f in props if re.search(pat, f)]; cands = []
for f in files:
    t = open(os.path.join(W, f)).read(); ls = t.split("\n")
    for i in fnlines(t):
        for a, b in OPS:
            for m in re.finditer(a, ls[i].split(" // ")[0]):
                if b is None: continue
                n = ls[i][:m.start()] + m.expand(b) + ls[i][m.end():]
                if n != ls[i]: cands.append((f, i, n))
        # drop a statement
        s = ls[i].strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "use ", "}")) and s.count("(") == s.count(")"): cands.append((f, i, ""))
rnd.shuffle(cands); done = 0; seen = set()
for f, i, n in cands:
    if done >= count: break
    if (f, i, n) in seen: continue
    seen.add((f, i, n)); p = os.path.join(W, f); t = open(p).read(); ls = t.split("\n"); old = ls[i]; ls[i] = n
    try:
        open(p, "w").write("\n".join(ls))
        if sh(". %s; cargo build $ARGS -q" % env).returncode: continue
        try: r = sh(". %s; cargo test $ARGS -q --no-fail-fast -- --test-threads 6" % env, 400)
        except subprocess.TimeoutExpired: continue
        if r.returncode: continue
        done += 1; res = "SURVIVED"
        for P in props[f]:
            c = subprocess.run("VX_REPO=%s VX_BUILD=%s.vb timeout 900 python3 /verif/run/check.py %s" % (W, W, P), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
            if c.returncode == 1 and v: res = "KILLED " + P + (" (no input)" if "no-failing" in v[0] else ""); break
            if c.returncode not in (0, 1): res = "EXIT %d %s" % (c.returncode, P); break
        print("%s | %s:%d | %s => %s" % (res, f, i + 1, old.strip()[:150], n.strip()[:150]), flush=True)
    finally: open(p, "w").write(t)
