#!/opt/venv/bin/python
"""check driver:  run.py <property> [--tier quick|thorough] [--only harness] | run.py --replay case.json"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
PY = "/opt/venv/bin/python"

from vp import worker  # noqa: E402


def spawn(args, devices, timeout, env_extra=None):
    env = worker.env_for(devices)
    env.update(env_extra or {})
    p = subprocess.Popen([PY, os.path.join(ROOT, "vp", "worker.py")] + args, env=env, cwd=tempfile.gettempdir(),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "timeout"


def run_harness(spec, tier, deadline, scratch, done=lambda: False):
    out = os.path.join(scratch, spec.id + ".json")
    t = max(10, deadline - time.time())
    cap = spec.opts.get("cap", {}).get(tier, 400 if tier == "quick" else None)
    if cap:
        t = min(t, cap)
    t0 = time.time()
    rc, txt = spawn(["sym", spec.id, out, tier], spec.devices, t)
    if rc == 0 and os.path.exists(out):
        r = json.load(open(out))
    else:
        r = {"status": "undecided", "cexs": [], "unknown": [("worker", "rc=%s %s" % (rc, (txt or "")[-1500:]))],
             "paths": 0, "pruned": 0, "labels": [], "checks": 0, "stats": {}, "functions": [], "wall": time.time() - t0}
        if "Error" in (txt or "") and rc is not None:
            r["import_error"] = txt[-1500:]
    r["total_wall"] = time.time() - t0
    # confirm candidates on the real code; a loss of precision needs a closer look
    confirmed = []
    tol = 5e-9 if r.get("narrowed") else 1e-7
    for i, c in enumerate(r["cexs"]):
        case = os.path.join(scratch, "%s.case%d.json" % (spec.id, i))
        json.dump({"harness": spec.id, "values": c["values"], "label": c["label"], "seed": 0, "tol": tol},
                  open(case, "w"), default=str)
        res = case + ".res"
        left = deadline + 100 - time.time()
        if left < 5:
            c["replay"] = {"result": "error", "detail": "no time left"}
            continue
        rc, txt = spawn(["replay", case, res], spec.devices, min(240, left))
        if os.path.exists(res):
            rr = json.load(open(res))
            c["replay"] = rr
            if rr["result"] == "violated":
                confirmed.append({"case": {"harness": spec.id, "values": rr["inputs"], "seed": 0, "tol": tol,
                                           "label": rr["label"], "detail": rr["detail"], "devices": spec.devices,
                                           "tb": rr.get("tb")}})
                break
        else:
            c["replay"] = {"result": "error", "detail": (txt or "")[-1000:]}
    left = deadline + 100 - time.time()
    if not confirmed and r["status"] in ("cex", "undecided") and left > 5 and not done():
        # the encoding did not decide: look for a concrete failing input of the same scenario
        so = os.path.join(scratch, spec.id + ".search.json")
        rc, txt = spawn(["search", spec.id, so, "12", repr(tol)], spec.devices, min(240, left))
        if os.path.exists(so):
            s = json.load(open(so))
            r["search"] = {"tried": s["tried"], "found": bool(s["found"])}
            if s["found"]:
                f = s["found"]
                confirmed.append({"case": {"harness": spec.id, "values": f["values"], "seed": f["seed"], "tol": tol,
                                           "label": f["label"], "detail": f["detail"], "devices": spec.devices,
                                           "tb": f.get("tb")}})
        else:
            r["search"] = {"tried": 0, "found": False, "error": (txt or "")[-800:]}
    r["confirmed"] = confirmed
    return r


def brief(x):
    """frames of the repository and of the checks only"""
    x = str(x)
    if "Traceback" not in x and "File " not in x:
        return x[:400]
    ls = x.split("\n")
    keep = [ls[i].strip()[-110:] + " | " + ls[i + 1].strip()[:120] for i in range(len(ls) - 1)
            if "File " in ls[i] and "site-packages" not in ls[i]]
    return "\n      " + "\n      ".join(keep[-7:])


def load_known():
    f = os.path.join(ROOT, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else {"findings": [], "fixed": []}


def matches(k, prop, case):
    return (k["property"] == prop and k["harness"] == case["harness"] and k.get("label") in (None, case["label"])
            and re.search(k.get("detail_regex", ""), case.get("detail") or "")
            and all(str(case["values"].get(a)) == str(b) for a, b in k.get("inputs", {}).items()))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        case = json.load(open(a.replay))
        rc, txt = spawn(["replay", os.path.abspath(a.replay)], case.get("devices", 1), 300)
        print(txt)
        sys.exit(rc if rc is not None else 2)
    t0 = time.time()
    reg = worker.load_checks()
    specs = [s for s in reg.values() if s.prop == a.prop and a.tier in s.tiers and (not a.only or a.only in s.name)]
    if not specs:
        print("no harness for", a.prop)
        sys.exit(2)
    budget = 800 if a.tier == "quick" else 6 * 3600
    deadline = t0 + budget - 60
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % a.prop)
    results = {}
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            known = load_known()
            # the search is a fallback: it is not needed once a violation is confirmed
            done = lambda: a.tier == "quick" and any(not any(matches(k, a.prop, c["case"]) for k in known["findings"])
                                                     for r in list(results.values()) for c in r["confirmed"])
            futs = {ex.submit(run_harness, s, a.tier, deadline, scratch, done): s
                    for s in sorted(specs, key=lambda s: -s.opts.get("weight", 1))}
            for f in cf.as_completed(futs):
                s = futs[f]
                results[s.id] = f.result()
                r = results[s.id]
                print("%-44s %-9s paths=%d obligations=%d queries=%d %.1fs" % (
                    s.id, r["status"], r["paths"], r.get("stats", {}).get("obligations", 0),
                    r.get("stats", {}).get("queries", 0), r["total_wall"]), flush=True)
                if a.v or (r["status"] == "undecided" and not r["confirmed"]):
                    for u in r["unknown"]:
                        print("   UNDECIDED", *[brief(x) for x in u], flush=True)
                for c in r["cexs"]:
                    if a.v:
                        print("   candidate", c["label"], c["detail"][:300], brief(c.get("tb", "")), str(c.get("replay"))[:300], flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    violations, found_known = [], []
    ev_dir = os.path.join(ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    n = 0
    for hid, r in sorted(results.items()):
        for c in r["confirmed"]:
            case = c["case"]
            k = next((k for k in known["findings"] if matches(k, a.prop, case)), None)
            if k is not None:
                found_known.append(k)
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
                continue
            path = os.path.join(ev_dir, "replay-%s-%d.json" % (a.prop, n))
            n += 1
            json.dump(case, open(path, "w"), indent=1, default=str)
            violations.append({"harness": hid, "label": case["label"], "detail": case["detail"], "replay": path})
            print("counterexample in %s: %s: %s" % (hid, case["label"], case["detail"]))
            print("VIOLATION property=%s replay=%s" % (a.prop, path), flush=True)
    funcs = sorted(set(f for r in results.values() for f in r.get("functions", [])))
    tot = lambda k: sum(r.get("stats", {}).get(k, 0) for r in results.values())
    decided = [h for h, r in results.items() if r["status"] == "proved"]
    undecided = [h for h, r in results.items() if r["status"] != "proved" and not r["confirmed"]]
    ev = {
        "property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "0")), "level": "other",
        "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "explanation": "The repository's functions listed under functions_encoded were executed symbolically from "
                           "/repo's working tree on this run; every obligation was negated and given to z3 "
                           "(unsat = holds for every value of the symbolic inputs within the stated bounds); "
                           "candidate counterexamples are replayed on the unpatched code before they are reported.",
            "discharged": sum(r.get("stats", {}).get("obligations", 0) for r in results.values()
                              if r["status"] == "proved"),
            "functions_encoded": funcs,
            "harnesses": {h: {"status": r["status"], "bounds": reg[h].bounds, "devices": reg[h].devices,
                              "paths": r["paths"], "pruned_paths": r["pruned"], "obligation_labels": r["labels"],
                              "obligations": r.get("stats", {}).get("obligations", 0),
                              "queries": r.get("stats", {}).get("queries", 0),
                              "solver_s": round(r.get("stats", {}).get("time", 0), 3),
                              "symbolic_primitives": r.get("prims", 0),
                              "undecided": [str(u)[:400] for u in r["unknown"]],
                              "wall_s": round(r["total_wall"], 1)} for h, r in sorted(results.items())},
            "bounds": {h: reg[h].bounds for h in sorted(results)},
            "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"),
            "queries_unknown": tot("unknown"), "obligations": tot("obligations"), "reachability_queries": tot("reach"),
            "solver_time_s": round(tot("time"), 3), "encoded_terms": tot("smt_size"),
            "decided_harnesses": len(decided), "undecided_harnesses": undecided,
            "paths": sum(r["paths"] for r in results.values()),
        },
        "assumptions": [
            "arithmetic is over the reals (constant folding noise below 1e-9 is ignored); rounding, overflow and "
            "non-finite intermediate values are outside the encoding",
            "denominators that occur are non-zero",
            "jax.pmap is modelled as vmap over the device axis; counterexamples are replayed with the real pmap",
        ],
        "violations": len(violations),
        "violation_details": violations,
        "known_findings": [k["what"] for k in found_known],
    }
    json.dump(ev, open(os.path.join(ev_dir, a.prop + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d/%d harnesses decided, %d violations, %d queries, solver %.1fs, wall %.1fs" % (
        a.prop, a.tier, len(decided), len(results), len(violations), tot("queries"), tot("time"), time.time() - t0))
    if violations:
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
