#!/usr/bin/env python3
"""Writes properties.jsonl, checks/*.json and MANIFEST.json from the one table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], {}, []

COMMON = ["Go's compiler front end and go/ssa translate the source faithfully; goroutines are scheduled at blocking operations, sends, receives, locks and timers (not between two plain memory accesses)",
          "z3 answers are right; every counterexample is replayed against the compiled code before it is reported, and sampled paths are replayed to compare the encoding with the compiled code",
          "logging (zerolog) has no effect on behaviour; only the number of events per level is kept where a property is about warnings"]
PROXY = ["the upstream connection is the HTTP client interface of the gateway: a stub answers with any scripted outcome (error, status, headers, body, delay) and records what it was sent; net/http's own transport and server loops are not encoded"]
GZ = ["compress/gzip is replaced, in the executor only, by a lossless toy codec with the same magic bytes and reset/reuse contract; replays use the real one"]
BOOT = ["start-up runs the real boot sequence on a configuration structure; YAML/JSON decoding is only exercised in the replays; opening the listening socket, ending the process and sampling process statistics are stand-ins that record the call"]

def prop(id, title, statement, over, text, why, files, mech, entries=None, harness=(), overlays=(), bounds="", outside="", assume=(), reason=None, observe=None, note=""):
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: p["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    props.append(p)
    if entries:
        es = []
        for e in entries:
            name, cov = e[0], e[1]
            kw = e[2] if len(e) > 2 else {}
            d = {"name": "vfH_" + name, "covers": cov, "quick_s": 120, "thorough_s": 600}
            d.update(kw)
            es.append(d)
        checks[id] = {"property": id, "harness": list(harness), "level": "model_checking", "entries": es, "overlays": list(overlays),
                      "bounds": bounds, "outside": outside, "assumptions": COMMON + list(assume), "note": note}
    else:
        na.append({"property": id, "reason": reason or "no check yet"})

exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
os.makedirs(os.path.join(V, "checks"), exist_ok=True)
for id, c in checks.items():
    c = dict(c); c.pop("note")
    json.dump(c, open(os.path.join(V, "checks", id + ".json"), "w"), indent=1)
for f in os.listdir(os.path.join(V, "checks")):
    if f[:-5] not in checks: os.remove(os.path.join(V, "checks", f))
man = {"version": 1, "setup_cmd": "bash /verif/run.sh setup", "checks": [], "not_applicable": na,
       "notes": "symgo (engine/) symbolically executes the SSA form of /repo's current source together with the in-package harnesses of harness/ and lets z3 decide every assertion; counterexamples are replayed against the compiled repository through a build overlay. No hooks in /repo. known_findings.json lists repaired defects and open findings."}
for id in sorted(checks):
    c = checks[id]
    man["checks"].append({"property": id, "quick_cmd": f"bash /verif/run.sh check {id}", "thorough_cmd": f"VERIF_TIER=thorough bash /verif/run.sh check {id}",
        "technique": "bounded symbolic execution of the Go SSA of the real code, assertions decided by z3, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": ("Holds for every value within the stated bounds on every path explored. Bounds: " + c["bounds"] + " Outside: " + c["outside"] + (" " + c["note"] if c["note"] else "")).strip()})
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties", len(checks), "checks", len(na), "not applicable")

def tool(n): return open(os.path.join(V, "tools", n)).read()
d = tool("design_head.md") + "## The properties\n\nFor each: what is claimed, how it is decided, the bounds. Common assumptions: " + "; ".join(COMMON) + ".\n"
for p in props:
    c = checks.get(p["id"])
    d += "\n### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"])
    d += "\nOver: %s. Tests: %s.\n" % (p["quantifier"]["text"], p["why_tests_cant"])
    if c:
        d += "\nDecided by: %s (harness files %s%s), anchored in %s.\n" % (", ".join("`%s`" % e["name"] for e in c["entries"]), ", ".join(c["harness"]), "; replay build with " + ", ".join(c["overlays"]) if c["overlays"] else "", ", ".join(p["anchors"]["files"]))
        d += "\nBounds: %s\n\nOutside: %s\n" % (c["bounds"], c["outside"])
        rest = [a for a in c["assumptions"] if a not in COMMON]
        if rest: d += "\nAssumes: %s.\n" % "; ".join(rest)
    else:
        d += "\nNot applicable: see MANIFEST.json.\n"
k = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
tail = tool("design_tail.md").replace("@FINDINGS@", "\n".join("* %s (%s, %s): %s." % (f["property"], f["status"], f.get("commit", ""), f["what"]) for f in k))
caught = {}
try: caught = json.load(open(os.path.join(V, "tools", "caught.json")))
except OSError: pass
rows = ["| bug | property | what breaks | needs | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(V, "seeded")
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "?")))
d += tail.replace("@SEEDS@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(d)
