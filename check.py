#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property by symbolic execution of the code in /repo."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib
from sxlib import VERIF, CACHE

SCHED_KINDS = ("deadlock", "lock")


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def known_match(known, entry, v, inputs):
    for k in known:
        if k.get("entry") not in (None, entry):
            continue
        if k.get("kind") not in (None, v["kind"]):
            continue
        if k["message"] not in v["msg"]:
            continue
        if k.get("site") and k["site"] not in v["where"]:
            continue
        if k.get("inputs"):
            txt = {}
            for ln in inputs.splitlines():
                n, _, x = ln.partition(" ")
                txt.setdefault(n, x)
            if any(txt.get(n) not in [str(y) for y in (x if isinstance(x, list) else [x])] for n, x in k["inputs"].items()):
                continue
        return k
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = json.load(open(os.path.join(VERIF, "checks.json"))).get(prop, {"harness": prop + ".cpp"})
    t0 = time.time()
    harness = os.path.join(VERIF, "harness", cfg["harness"])
    m = re.search(r"^// groups: (.*)$", open(harness).read(), re.M)   # library parts the harness needs beside the core
    if m:
        cfg["groups"] = m.group(1).split()
    defs = ["SX_THOROUGH=1"] if tier == "thorough" else []
    secs = float(os.environ.get("SX_SECS", cfg.get("thorough_s", 1500) if tier == "thorough" else cfg.get("quick_s", 60)))
    try:
        exe, libs, models, hbc = sxlib.build_all(harness, cfg.get("groups", ["core"]), defs)
    except sxlib.BuildError as e:
        print("BUILD-ERROR: %s" % e)
        sys.exit(2)
    t_build = time.time() - t0
    out = os.path.join(CACHE, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.environ["GLIBC_TUNABLES"] = "glibc.malloc.hugetlb=1"
    cmd = [exe, "-o", out, "-t", str(secs), "-j", str(sxlib.JOBS), "-solver-ms", str(cfg.get("solver_ms", 20000))]
    if os.environ.get("SX_ENTRY"):
        cmd += ["-e", "sx_h_" + os.environ["SX_ENTRY"]]
    cmd += [hbc, models] + libs
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs * 2 + 300)
    if r.stdout.strip():
        print(r.stdout[-3000:])
    entries = {}
    for p in sorted(glob.glob(out + "/*/result.json")):
        entries[os.path.basename(os.path.dirname(p))] = json.load(open(p))
    if not entries:
        print("ENGINE-ERROR: no result")
        sys.exit(2)
    native = None
    known = load_known(prop)
    violations, unconfirmed, knownhits = [], [], {}
    validated = mismatched = 0
    mismatch_notes = []
    samples = []
    tovalidate = []
    vacuous = []
    totals = {}
    funcs = set()
    incompl = []
    per_entry = {}

    def get_native():
        nonlocal native
        if native is None:
            native = sxlib.build_native(libs, hbc)
        return native

    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + "-*")):
        os.unlink(old)
    for name, res in entries.items():
        d = os.path.join(out, name)
        for k, v in res.items():
            if isinstance(v, int) and k not in ("load_us", "killed", "abnormal"):
                totals[k] = max(totals.get(k, 0), v) if k.startswith("max_") else totals.get(k, 0) + v
        funcs |= set(res["functions"])
        inc = open(d + "/incomplete.txt").read().splitlines() if os.path.exists(d + "/incomplete.txt") else []
        incompl += ["%s: %s" % (name, x[:300]) for x in inc]
        viols = []
        if os.path.exists(d + "/violations.txt"):
            for ln in open(d + "/violations.txt", errors="replace"):
                f = ln.rstrip("\n").split("\t")
                if len(f) >= 4:
                    viols.append({"file": f[0], "kind": f[1], "msg": f[2], "where": f[3], "sched": f[4] if len(f) > 4 else ""})
        per_entry[name[5:] if name.startswith("sx_h_") else name] = {
            "paths": res["paths"], "pruned": res["paths_pruned"], "cut": res["paths_error"], "queries": res["queries"], "asserts": res["asserts"],
            "asserts_decided_by_solver": res["asserts_solver_decided"], "covers": res["covers"], "seconds": round(res["run_us"] / 1e6, 2),
            "exhausted_within_bounds": res["incomplete"] == 0 and res["unknown"] == 0 and not res["killed"]}
        if res["paths"] == 0 and not viols:
            vacuous.append(name)
        for v in viols:
            inp = os.path.join(d, v["file"] + ".inputs")
            text = open(inp).read() if os.path.exists(inp) else ""
            conf, note = None, ""
            sched = v["kind"] in SCHED_KINDS or v["sched"].strip()
            kinds = []
            try:
                nat = get_native()
                kinds = [False, True] if v["kind"] == "memory" else [False]
                for vg in kinds:
                    oc, txt = sxlib.native_run(nat, inp, name, timeout=20 if not vg else 120, valgrind=vg)
                    note = oc + ": " + txt
                    if oc in ("reproduced", "crash") or (oc == "hang" and v["kind"] in ("deadlock", "stack", "loop")):
                        conf = "native replay (%s)" % oc
                        break
            except sxlib.BuildError as e:
                note = "native build failed: " + str(e)[:300]
            if not conf and sched:
                conf = "schedule replayed by the executor on the IR of the real code (native threads cannot be forced into it)"
            v["entry"], v["inputs"], v["confirmed"], v["note"] = name, text, conf, note
            if not conf:
                unconfirmed.append(v)
                continue
            k = known_match(known, name[5:] if name.startswith("sx_h_") else name, v, text)
            if k:
                knownhits[k["id"]] = k
                continue
            violations.append(v)
        # sampled completed paths, to be validated against a native run of the same code
        if os.path.exists(d + "/samples.txt") and res["thread_switches"] == 0:
            for i, ln in enumerate(open(d + "/samples.txt").read().splitlines()[:6]):
                samples.append("%s: %s" % (name[5:], ln[:300]))
                if viols:
                    continue
                sp = os.path.join(d, "sample-%d.inputs" % i)
                open(sp, "w").write(ln.replace(";", "\n"))
                tovalidate.append((name, sp))
    if tovalidate:
        nat = get_native()
        t_end = time.time() + 25

        def validate(x):
            if time.time() > t_end:
                return None
            return sxlib.native_run(nat, x[1], x[0], timeout=20)
        with cf.ThreadPoolExecutor(sxlib.JOBS) as ex:
            for (name, sp), r in zip(tovalidate, ex.map(validate, tovalidate)):
                if r is None or r[0] == "hang":
                    continue
                if r[0] == "ok":
                    validated += 1
                else:
                    mismatched += 1
                    mismatch_notes.append("%s: %s: %s" % (name, r[0], r[1][-200:]))
    for k in knownhits.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    n = 0
    for v in violations:
        n += 1
        rp = os.path.join(rdir, "%s-%d.txt" % (prop, n))
        with open(rp, "w") as f:
            f.write("property: %s\nentry: %s\nkind: %s\nwhat: %s\nwhere: %s\nconfirmed by: %s\nschedule:%s\n\n# inputs (name value), in order; replay: native executable <inputs> %s\n%s\n# native replay output\n%s\n" %
                    (prop, v["entry"], v["kind"], v["msg"], v["where"], v["confirmed"], v["sched"], v["entry"], v["inputs"], v["note"]))
        print("  %s: %s (%s)" % (v["kind"], v["msg"], v["confirmed"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    for v in unconfirmed:
        print("  note: candidate not reproduced natively, not reported: %s: %s [%s]" % (v["kind"], v["msg"], v["note"][:200].replace("\n", " ")))
        if os.environ.get("SX_VERBOSE"):
            print(v["where"][:600]); print(v["inputs"][:400])
    for m in mismatch_notes:
        print("  note: native run of a sampled path differs: " + m)
    exhausted = all(e["exhausted_within_bounds"] for e in per_entry.values())
    cov = {
        "states": totals.get("paths", 0) + totals.get("paths_pruned", 0) + totals.get("paths_error", 0),
        "transitions": totals.get("forks", 0),
        "traces_validated_against_impl": validated,
        "samples": samples[:20],
        "exhaustive": exhausted,
        "explanation": "symbolic execution of the LLVM IR compiled from /repo; states = symbolic paths ended (each stands for every input satisfying its path condition), transitions = solver-decided forks",
        "bounds": cfg.get("bounds", ""),
        "outside_bounds": cfg.get("outside", ""),
        "paths_completed": totals.get("paths", 0),
        "paths_pruned_by_assumptions": totals.get("paths_pruned", 0),
        "paths_cut": totals.get("paths_error", 0),
        "solver_queries": totals.get("queries", 0), "sat": totals.get("sat", 0), "unsat": totals.get("unsat", 0), "unknown": totals.get("unknown", 0),
        "query_cache_hits": totals.get("query_cache_hits", 0), "queries_decided_over_small_domains": totals.get("finite_domain_decisions", 0), "solver_seconds": round(totals.get("solver_us", 0) / 1e6, 2),
        "slowest_query_seconds": round(totals.get("max_query_us", 0) / 1e6, 3),
        "assertions_evaluated": totals.get("asserts", 0), "assertions_decided_by_solver": totals.get("asserts_solver_decided", 0),
        "ir_instructions_executed": totals.get("instructions", 0),
        "functions_encoded_count": len(funcs), "functions_encoded": sorted(funcs)[:400],
        "per_entry": per_entry, "incomplete_reasons": incompl[:20],
        "candidates_not_reproduced": ["%s: %s" % (v["kind"], v["msg"]) for v in unconfirmed][:10],
        "native_disagreements": mismatch_notes[:5],
        "known_findings_seen": sorted(knownhits),
        "build_seconds": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": len(violations),
          "assumptions": cfg.get("assumptions", []) + [
              "clang 18 lowers the source to IR faithfully (-O2, no vectorisation); x86-64, 4-byte wchar_t, C locale",
              "calls into libstdc++/libm run natively on concrete values; pthread, allocation, exceptions, time are modelled by the executor",
              "Z3's verdicts; every satisfying model is re-evaluated by an independent evaluator before use"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for name, e in per_entry.items():
        print("  %-28s paths=%d pruned=%d cut=%d queries=%d asserts=%d/%d %.1fs%s" % (name, e["paths"], e["pruned"], e["cut"], e["queries"], e["asserts_decided_by_solver"], e["asserts"], e["seconds"], "" if e["exhausted_within_bounds"] else "  (not exhausted)"))
    if os.environ.get("SX_VERBOSE"):
        for x in incompl[:12]:
            print("  incomplete:", x[:400])
        print(json.dumps({n: e["covers"] for n, e in per_entry.items()}))
    print("%s %s: %d paths, %d solver queries, %.1fs solver, build %.1fs, wall %.1fs" % (prop, tier, totals.get("paths", 0), totals.get("queries", 0), totals.get("solver_us", 0) / 1e6, t_build, time.time() - t0))
    if not os.environ.get("SX_KEEP"):
        shutil.rmtree(out, ignore_errors=True)
    if violations:
        sys.exit(1)
    if vacuous:
        print("VACUOUS: no completed path in %s" % vacuous)
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
