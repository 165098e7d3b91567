#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, MANIFEST.json and checks.json from props/*.json."""
import glob, json, os, re
D = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the LLVM IR of /repo's current source with Z3 (assertions decided by SMT over all values in the bounds; native replay)"
props, checks, na, cfg = [], [], [], {}
for f in sorted(glob.glob(D + "/props/*.json")):
    p = json.load(open(f))
    i = p["id"]
    props.append({"id": i, "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["quantifier"]},
                  "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}})
    if p.get("not_applicable"):
        na.append({"property": i, "reason": p["not_applicable"]})
        continue
    c = {"harness": i + ".cpp", "groups": p.get("groups", ["core"]), "quick_s": p.get("quick_s", 50), "thorough_s": p.get("thorough_s", 1200),
         "bounds": p["bounds"], "outside": p["outside"], "assumptions": p.get("assumptions", [])}
    cfg[i] = c
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": TECH, "level": "model_checking",
                   "level_note": "Bounded: " + p["bounds"] + " Outside: " + p["outside"] + " Trusted: clang's lowering, the executor's models of libstdc++/pthread/boost primitives, Z3; every violation is replayed natively before it is reported (schedule counterexamples: replayed on the IR)."})
open(D + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in props))
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "LPP_VERIF", "enable": "the checks compile /repo's sources with -DLPP_VERIF; no source in /repo uses it at present", "source_commits": []}},
          open(D + "/MANIFEST.json", "w"), indent=1)
json.dump(cfg, open(D + "/checks.json", "w"), indent=1)

# DESIGN.md: the general part, the defects found, one section per property, the planted bugs
def entries(i):
    r, prev = [], ""
    for l in open(D + "/harness/%s.cpp" % i):
        m = re.match(r"SX_ENTRY\((\w+)\)", l)
        if m:
            r.append([m.group(1), prev[2:].strip() if prev.startswith("//") else "", []])
        elif r and (l.startswith("static") or l.startswith("struct")):
            r.append(["", "", []])      # helper: its assertions belong to no single entry
        if r:
            for m in re.finditer(r'(?:req|sx_assert)\(.*?, "([^"]+)"\)', l):
                if m.group(1) not in r[-1][2]:
                    r[-1][2].append(m.group(1))
        prev = l
    return [x for x in r if x[0]]
o = [open(D + "/design/head.md").read()]
k = json.load(open(D + "/known_findings.json"))
o.append("Repaired in `/repo` (one `fix:` commit each; the check that found it passes on the repaired tree and fails again if the defect returns):\n\n")
for l in k["fixed"]:
    p_, c_, w_ = l.split(" ", 3)[1:]
    o.append("* %s, commit %s: %s\n" % (p_.split("=")[1], c_, w_))
o.append("\nRecorded and not repaired (`known_findings.json`; the check prints `KNOWN-FINDING` for exactly these):\n\n")
for l in k["findings"]:
    o.append("* %s, entry `%s`: %s\n" % (l["property"], l["entry"], l["what"] + (". " + l["why_not_repaired"] if l.get("why_not_repaired") else "")))
o.append("\n## The properties\n")
for f in sorted(glob.glob(D + "/props/*.json")):
    p = json.load(open(f)); i = p["id"]
    o.append("\n### %s %s\n\n%s\n\n" % (i, p["title"], p["statement"]))
    if p.get("not_applicable"):
        o.append("Not applicable: %s\n" % p["not_applicable"]); continue
    o.append("*Over all:* %s. *Anchored in:* %s (%s).\n\n" % (p["quantifier"], ", ".join("`%s`" % x for x in p["files"]), ", ".join("%s: `%s`" % (a, b) for a, b in p["mechanism"])))
    o.append("Why tests cannot settle it: %s.\n\n" % p["why"])
    o.append("Decided by `harness/%s.cpp`; every entry is explored to the end or cut at the time limit (%d s quick, %d s thorough, on 8 cores):\n\n" % (i, p.get("quick_s", 50), p.get("thorough_s", 1200)))
    for n, c, a in entries(i):
        t = [x for x in (c, "asserts: " + "; ".join(a[:6]) if a else "") if x]
        o.append("* `%s`%s\n" % (n, ": " + ". ".join(t) if t else ""))
    o.append("\nBounds: %s. Outside: %s.%s\n" % (p["bounds"].rstrip("."), p["outside"].rstrip("."), " Assumptions: " + "; ".join(p["assumptions"]) + "." if p.get("assumptions") else ""))
o.append("\n## Planted bugs\n\nEach is in `seeded/<id>` with a demonstration; every one passes all 1486 tests.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n")
cb = json.load(open(D + "/design/caught.json"))
for i in sorted(cb):
    mf = D + "/seeded/%s/meta.json" % i
    m = json.load(open(mf)) if os.path.exists(mf) else cb[i]
    o.append("| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), cb[i]["caught"]))
o.append("\n" + open(D + "/design/tail.md").read())
open(D + "/DESIGN.md", "w").write("".join(o))
print(len(props), "properties,", len(checks), "checks")
