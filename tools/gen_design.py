#!/usr/bin/env python3
"""Writes ../DESIGN.md."""
import json, os, sys, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, os.path.join(V, "run"))
from config import PROPS, NOT_APPLICABLE
o = [open(V + "/tools/design/head.md").read(), "## Properties and how each is decided\n\n`properties.jsonl` has the full statements. Plan/filter: which extracted functions count for the property.\n"]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); c = PROPS.get(p["id"])
    o.append("### %s. %s\n" % (p["id"], p["title"]))
    if not c: o.append("Not claimed: %s\n" % NOT_APPLICABLE.get(p["id"], "")); continue
    o.append(c["note"] + "\n")
    o.append("* Anchors: " + "; ".join(m["where"] for m in p["anchors"]["mechanism"]))
    o.append("* Plans: " + ", ".join("`%s` (%s)" % (a, "all functions" if b in (".",) else "functions matching `%s`" % b) for a, b in c["plans"]))
    o.append("* Assumed: " + "; ".join(c["assumptions"][2:] if len(c["assumptions"]) > 2 else c["assumptions"]))
    o.append("* Replay (bounded, `replay/src`): %s\n" % ("the library with all features" if c.get("features") == "full" else "the real command-line tool, built from /repo" if c.get("cli") else "the library with regex, glob, base64, commands, custom"))
o.append("All properties share: " + "; ".join(PROPS["P05"]["assumptions"][:2]) + ".\n")
o.append("## Genuine defects found\n\nAll were repaired (one `fix:` commit each); none is left as a known finding.\n\n")
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: o.append("* %s, commit %s: %s" % m.groups())
ids = sorted(os.listdir(V + "/seeded"))
o.append("\n## Planted changes\n\n%d changes in `seeded/`, written from the property's text and the code by `tools/seeds_*.py`, confirmed by `tools/seed.sh` (builds, passes the\nstable tests, demonstration fails with the change and passes without). Each is caught by the check of its property (exit 1).\n\n| change | needs | what breaks |\n|---|---|---|" % len(ids))
for d in ids:
    m = json.load(open(V + "/seeded/%s/meta.json" % d)); o.append("| %s (%s) | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"]))
o.append("\n" + open(V + "/tools/design/tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(o))
