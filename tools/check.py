#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property
   check.py --replay <file>                      re-run a recorded violation
   check.py --setup                              verify the tool chain

Builds what the property's harnesses need from /repo's current tree, runs the
bounded explorations, writes evidence/<property>.json and exits
  0  the property held on everything explored
  1  violated (VIOLATION line, replay file)
  2  the check itself could not run
"""
import concurrent.futures
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild  # noqa: E402
from registry import CHECKS  # noqa: E402

VERIF = vbuild.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")

ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                        "handle_abort=0:detect_stack_use_after_return=0:malloc_context_size=8:"
                        "quarantine_size_mb=8:max_allocation_size_mb=6000",
           UBSAN_OPTIONS="print_stacktrace=1", TZ="UTC", LC_ALL="C")


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop]


def build_one(run):
    return vbuild.build_harness(run["harness"], run["variant"], tuple(run["srcs"]),
                                tuple(run.get("defs", ())), tuple(run.get("cxxflags", ())),
                                tuple(run.get("ldflags", ())), tuple(run.get("csrcs", ("common/tw.c",))),
                                run.get("libinc", False))


def run_cmd(run, binary, tier, extra):
    a = [binary, "--tier", tier] + [str(x) for x in run.get("args", [])]
    a += [str(x) for x in run.get(tier + "_args", [])]
    if run.get("cli"):
        a += ["--cli", os.path.join(vbuild.build_lib(run["variant"]), "toywasm")]
    return a + extra


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        for t in ("clang-18", "clang++-18", "cmake", "ninja"):
            if subprocess.run(["which", t], stdout=subprocess.DEVNULL).returncode:
                print("missing tool", t)
                return 2
        vbuild.build_lib("rel")
        print("setup ok")
        return 0
    if args and args[0] == "--replay":
        with open(args[1]) as f:
            r = json.load(f)
        run = r["run"]
        b = build_one(run)
        cmd = run_cmd(run, b, r["tier"], ["--case", str(r["case"])])
        print(" ".join(cmd), flush=True)
        return subprocess.run(cmd, env=ENV).returncode
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[prop]
    runs = [r for r in chk["runs"] if tier in r.get("tiers", ("quick", "thorough"))]
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            bins = list(ex.map(build_one, runs))
    except vbuild.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    tb = time.time() - t0
    total_limit = float(os.environ.get("VERIF_LIMIT", "780" if tier == "quick" else "100000"))
    results, viol = [], []
    for run, b in zip(runs, bins):
        out = os.path.join(EVID, ".%s-%s-%s.json" % (prop, run["harness"], run["variant"]))
        if os.path.exists(out):
            os.unlink(out)
        left = total_limit - (time.time() - t0)
        extra = ["--out", out, "--budget", "%.0f" % max(20, left - 60)]
        cmd = run_cmd(run, b, tier, extra)
        print("[run]", " ".join(cmd), flush=True)
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if not os.path.exists(out) or p.returncode not in (0, 1):
            print(p.stdout[-4000:])
            print("HARNESS-ERROR %s %s exit %d" % (run["harness"], run["variant"], p.returncode))
            return 2
        with open(out) as f:
            res = json.load(f)
        os.unlink(out)
        res["variant"] = run["variant"]
        res["args"] = run.get("args", [])
        results.append(res)
        for v in res["violations"]:
            viol.append((run, v))
        print("[done] %s/%s cases=%d/%d distinct=%d %.1fs violations=%d %s" % (
            run["harness"], run["variant"], res["cases"], res["cases_total"], res["distinct"], res["wall_s"],
            len(res["violations"]), json.dumps(res["counters"])), flush=True)
        if viol and not known_findings(prop):
            break
    # split off listed findings
    kf = known_findings(prop)
    unlisted, hit = [], []
    for run, v in viol:
        for k in kf:
            if run["harness"] == k["harness"] and re.search(k["match"], v["text"]):
                hit.append(k)
                break
        else:
            unlisted.append((run, v))
    for k in kf:
        if k in hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    lines = []
    for n, (run, v) in enumerate(unlisted[:5]):
        rp = os.path.join(EVID, "%s-replay-%d.json" % (prop, n))
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": tier, "run": run, "case": v["case"], "text": v["text"],
                       "replay": "python3 tools/check.py --replay " + rp}, f, indent=1)
        print("---- %s %s case %s\n%s" % (run["harness"], run["variant"], v["case"], v["text"][:3000]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
    wall = time.time() - t0
    tot = {}
    for r in results:
        for k, c in r["counters"].items():
            tot[k] = tot.get(k, 0) + c
    cases = sum(r["cases"] for r in results)
    states = tot.get("states", 0) or sum(r["distinct"] for r in results)
    trans = tot.get("transitions", 0) or sum(tot.values()) or cases
    samples = []
    for r in results:
        samples += r["samples"][:6]
    cov = {
        "exhaustive": all(r["exhaustive"] for r in results),
        "samples": samples[:24] or ["none"],
        "runs": [{"harness": r["harness"], "variant": r["variant"], "args": r["args"], "cases": r["cases"],
                  "cases_total": r["cases_total"], "exhaustive": r["exhaustive"], "distinct": r["distinct"],
                  "wall_s": r["wall_s"], "counters": r["counters"], "notes": r["notes"]} for r in results],
        "bounds": chk["bounds"],
        "build_s": round(tb, 1),
        # every explored execution is an execution of the implementation
        "states": states,
        "transitions": trans,
        "traces_validated_against_impl": tot.get("traces", cases),
        "evaluations": tot.get("checks", trans),
        "distinct_nontrivial": sum(r["distinct"] for r in results),
        "rule": chk["rule"],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": chk["level"], "coverage": cov,
          "wall_s": round(wall, 2), "assumptions": chk.get("assumptions", []), "violations": len(unlisted)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for l in lines:
        print(l)
    if not lines:
        print("OK %s %s cases=%d distinct=%d exhaustive=%s %.0fs" % (prop, tier, cases, cov["distinct_nontrivial"],
                                                                    cov["exhaustive"], wall))
    return 1 if lines else 0


if __name__ == "__main__":
    sys.exit(main())
