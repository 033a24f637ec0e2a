#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run in /verif)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, tests, files, mech, observe, state=(), claim=True, level="exploration", note=None, na=None, how=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  observe=observe, state=state, note=note, level=level, na=na, how=how))

exec(open(os.path.join(here, "tools", "properties.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["tests"],
            anchors=dict(files=p["files"],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                         mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")

BASE = ("Seeded random search: real go-unixfs (and go-merkledag) code runs in one process under a simulator that owns every goroutine switch, timer, "
        "block-store and network operation; no violation on the explored executions, nothing more. ")
TRUST = "Trusts the simulator (selftest: identical seeds give identical executions) and the reference model in sim/props."
m = dict(version=1, setup_cmd="./check.sh build",
         hooks=dict(guard="none: no hook is added to /repo; instrumentation is generated into a build overlay (go build -overlay) from the current tree by sim/cmd/mkoverlay",
                    enable="./check.sh build", source_commits=[]),
         checks=[], not_applicable=[],
         notes="See DESIGN.md. Replay a violation with ./check.sh replay <file>; known-findings.jsonl lists the defects found in the original tree and their fix commits.")
for p in P:
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"],
                            technique="deterministic simulation with fault injection (seeded schedule and fault search)",
                            level=p["level"], level_note=BASE + (p["note"] + " " if p["note"] else "") + TRUST))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

def region(s, name, body):
    a, b = "<!-- %s -->\n" % name, "<!-- /%s -->" % name
    i, j = s.index(a) + len(a), s.index(b)
    return s[:i] + body + s[j:]

RF = os.path.join(here, "tools", "rules.tsv")  # .build/vsim rules > tools/rules.tsv
rules = dict(l.rstrip("\n").split("\t", 1) for l in open(RF)) if os.path.exists(RF) else {}
t = "| id | property | decided how, against what | varied | why the tests cannot |\n|---|---|---|---|---|\n"
for p in P:
    how = p["na"] and "not applicable: " + p["na"] or " ".join(x for x in (p["how"] or rules.get(p["id"]), p["note"]) if x)
    t += "| %s | %s | %s | %s | %s |\n" % (p["id"], p["title"], how, p["text"], p["tests"])
sd = "| change | property | what it needs | caught by |\n|---|---|---|---|\n"
S = os.path.join(here, "seeded")
caught = {}
cf = os.path.join(here, "tools", "caught.json")
if os.path.exists(cf):
    caught = json.load(open(cf))
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, d, "meta.json")))
    sd += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), ", ".join(caught.get(d, [])) or "nothing yet")
D = os.path.join(here, "DESIGN.md")
s = open(D).read()
s = region(region(s, "table", t), "seeded", sd)
open(D, "w").write(s)
