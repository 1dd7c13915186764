#!/usr/bin/env python3
"""Decide one property: python3-vt check.py C01 [--tier quick|thorough]

1. the contracts of the property are verified on the source in /repo, function
   by function (pyver);
2. the ground facts about the data tables the contracts use are evaluated;
3. the running code is searched for a failing input: to have one to show when
   an obligation fails, and as the bounded stand-in for what was undecided.

Exit 0: nothing found against the property.  Exit 1: VIOLATION line printed.
python3-vt check.py --replay FILE runs a recorded failing input again.
"""
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from pyver import props                      # noqa: E402


def known():
    """the findings recorded as not repaired: {property: [record]}"""
    out = {}
    p = os.path.join(HERE, "known_findings.json")
    for r in json.load(open(p))["findings"]:
        out.setdefault(r["property"], []).append(r)
    return out


def search_child(q, prop, seed, seconds):
    try:
        sys.setrecursionlimit(3000)
        from pyver import world, native
        w = world.world()
        calls, broken = {}, {}
        if seed % 1000 == 0:
            from pyver import monitor
            calls, broken = monitor.install(w, prop)
        P = native.Pkg(w.modules)
        r = native.search(P, prop, seed, seconds)
        r["monitored"], r["broken"] = calls, broken
        if r["violation"]:
            r["violation"] = native.shrink(P, prop, r["violation"])
        q.put(json.dumps(r, default=repr))
    except BaseException as e:
        q.put(json.dumps({"evaluations": 0, "distinct": 0, "samples": [], "violation": None, "error": repr(e)}))


def search(prop, seed, seconds, jobs):
    from pyver import native
    if prop not in native.GENS:
        return []
    ctx = mp.get_context("fork")
    ps = []
    for i in range(jobs):
        q = ctx.SimpleQueue()
        p = ctx.Process(target=search_child, args=(q, prop, seed * 1000 + i, seconds), daemon=True)
        p.start()
        ps.append((p, q, time.time()))
    return ps


def collect(ps, seconds):
    out = {"evaluations": 0, "distinct": 0, "samples": [], "violations": [], "errors": [], "monitored": {}, "broken": {}}
    for p, q, t in ps:
        while q.empty() and p.is_alive() and time.time() - t < seconds + 60:
            time.sleep(0.05)
        if q.empty():
            out["errors"].append("search process ended without an answer")
            if p.is_alive():
                p.kill()
            continue
        r = json.loads(q.get())
        p.join(5)
        out["evaluations"] += r["evaluations"]
        out["distinct"] += r["distinct"]
        out["samples"] += r["samples"][:2]
        out["monitored"].update(r.get("monitored") or {})
        out["broken"].update(r.get("broken") or {})
        if r["violation"]:
            out["violations"].append(r["violation"])
        if r.get("error"):
            out["errors"].append(r["error"])
    return out


def replay(path):
    from pyver import world, native
    r = json.load(open(path))
    if r.get("failing_input") is None:
        print("no failing input was found; failed obligations:")
        print(json.dumps(r["failed_obligations"], indent=1))
        return 0
    v = r["failing_input"]
    if v["kind"] == "contract":
        from pyver import confirm
        m = confirm.check(v["function"], v["args"], v["prop"], v["label"])
        print(v["function"], v["args"], "->", m)
        return 1 if m else 0
    w = world.world()
    if v["kind"] == "data tables":
        bad = [g for g in w.ground(v["property"]) if g["ok"] is False]
        print(json.dumps(bad, indent=1, default=repr))
        return 1 if bad else 0
    P = native.Pkg(w.modules)
    msg, e = native.judge(P, v["property"], v["kind"], tuple(v["args"]))
    print(json.dumps(e.describe(), indent=1))
    print("VIOLATED: " + msg if msg else "holds for this input")
    return 1 if msg else 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    meta = props.PROPS[prop]
    from pyver import world, driver
    w = world.world()
    keys = [k for k, c in w.contracts.items() if c.duties(prop) and prop not in c.bounded]
    bounded = [k for k, c in w.contracts.items() if c.duties(prop) and prop in c.bounded]
    lim = meta.get("limit", 120) * (3 if tier == "thorough" else 1)
    base = 25 if tier == "quick" else 240
    ps = search(prop, seed, base, 3 if tier == "quick" else 4)
    reports = driver.run(prop, keys, lambda k: lim, jobs=6)
    ground = w.ground(prop)
    found = collect(ps, base)

    obl, failed, undecided = [], [], []
    for k in keys:
        r = reports[k]
        for o in r["obligations"]:
            obl.append(dict(o, function=k))
            if o["status"] == "sat":
                failed.append(dict(o, function=k))
            elif o["status"] != "unsat":
                undecided.append({"function": k, "what": o["label"], "why": "%s %s" % (o["status"], o["info"])})
        if r.get("unsupported"):
            undecided.append({"function": k, "what": "function", "why": r["unsupported"]})
        if r.get("error"):
            undecided.append({"function": k, "what": "function", "why": r["error"]})
        elif not r.get("unsupported") and (not r["obligations"] or not r.get("returns")):
            undecided.append({"function": k, "what": "function", "why": "vacuous: no obligation or no reachable return"})
    for k in w.missing:
        undecided.append({"function": k, "what": "function", "why": "not found in the current source"})
    for k, m in found["broken"].items():
        undecided.append({"function": k, "what": "contract the callers assume, tested only", "why": "broken: " + m})
    for g in ground:
        obl.append({"function": "data tables", "kind": "ground", "label": g["label"], "status": "unsat" if g["ok"] else "sat" if g["ok"] is False else "unknown",
                    "backend": "evaluation", "time": 0.0})
        if g["ok"] is None:
            undecided.append({"function": "data tables", "what": g["label"], "why": g["detail"]})
        elif not g["ok"]:
            failed.append({"function": "data tables", "kind": "ground", "label": g["label"], "info": g["detail"]})

    # a counterexample of the verifier, run on the real code
    confirmed = None
    if failed and not found["violations"]:
        from pyver import confirm
        for o in failed:
            if o.get("model"):
                m = confirm.check(o["function"], o["model"], prop, o["label"])
                if m:
                    confirmed = {"kind": "contract", "function": o["function"], "args": o["model"], "prop": prop,
                                 "label": o["label"], "message": m}
                    break
    extra = None
    if (failed or undecided) and not found["violations"] and not confirmed:
        secs = 60 if tier == "quick" else 300
        extra = collect(search(prop, seed + 77, secs, 8), secs)
        found["evaluations"] += extra["evaluations"]
        found["distinct"] += extra["distinct"]
        found["violations"] += extra["violations"]

    kn = known().get(prop, [])
    viols, hit = [], []
    for v in found["violations"]:
        m = [r for r in kn if r.get("kind") == v["kind"] and r.get("args") == v["args"]]
        (hit if m else viols).append(v)
    for r in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, r["what"]))

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    by = {}
    for o in obl:
        if o["status"] == "unsat":
            by[o["backend"] or "syntactic"] = by.get(o["backend"] or "syntactic", 0) + 1
    stats = {}
    for r in reports.values():
        for b, v in (r.get("stats") or {}).items():
            if isinstance(v, list):
                a = stats.setdefault(b, [0, 0.0])
                a[0] += v[0]
                a[1] += v[1]
    proved = [k for k in keys if reports[k]["obligations"] and all(o["status"] == "unsat" for o in reports[k]["obligations"])
              and not reports[k].get("unsupported") and not reports[k].get("error")]
    trusted = sorted({t for r in reports.values() for t in r.get("trusted", [])})
    used = sorted({c for r in reports.values() for c in r.get("called", [])} - set(keys))
    cov = {
        "obligations": len(obl),
        "discharged": sum(o["status"] == "unsat" for o in obl),
        "checker_cmd": "python3-vt check.py %s" % prop,
        "trusted_base": props.TRUSTED + trusted,
        "functions_under_contract": sorted(keys),
        "functions_proved": sorted(proved),
        "contracts_assumed_and_only_tested": {k: {
            "label": "bounded: evaluated at each call the random search makes; not counted as proved",
            "calls": found["monitored"].get(k, 0)} for k in bounded},
        "functions_inlined": sorted({c for r in reports.values() for c in r.get("inlined", [])}),
        "contracts_assumed_at_calls_without_clauses_for_this_property": used,
        "discharged_by_back_end": by,
        "solver_queries_and_seconds": {b: [v[0], round(v[1], 2)] for b, v in stats.items()},
        "loop_invariants": {k: v for r in reports.values() for k, v in (r.get("loops") or {}).items()},
        "obligation_list": ["%s:%s %s [%s] %s %.2fs" % (o["function"], o.get("line", ""), o["label"], o["kind"], o["status"],
                                                        o["time"]) for o in obl][:400],
        "undecided": undecided,
        "bounded_search": {
            "label": "bounded; not counted as proved",
            "evaluations": found["evaluations"], "distinct_nontrivial": found["distinct"],
            "rule": "random and mutated words, tanru and options run on the real package; non-trivial: the call returned a "
                    "result instead of rejecting the input; distinct: by call and arguments",
            "samples": found["samples"][:6], "errors": found["errors"]},
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta["level"], "coverage": cov,
          "assumptions": props.ASSUMPTIONS + meta.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": len(viols) + (1 if failed and not viols else 0)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)

    print("%s: %d of %d obligations discharged in %d functions, %d undecided; %d native evaluations; %.0f s" % (
        prop, cov["discharged"], cov["obligations"], len(keys), len(undecided), found["evaluations"], time.time() - t0))
    for u in undecided[:10]:
        print("  undecided: %(function)s %(what)s: %(why)s" % u)
    if not viols and not failed:
        return 0
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    fi = viols[0] if viols else confirmed
    if not fi:
        for o in failed:
            if o["kind"] == "ground":       # the entries of the table are the failing input
                fi = {"kind": "data tables", "property": prop, "message": "%s: %s" % (o["label"], o["info"])}
                break
    with open(path, "w") as f:
        json.dump({"property": prop, "failing_input": fi, "failed_obligations": failed,
                   "run": "cd %s && python3-vt check.py --replay %s" % (HERE, path)}, f, indent=1, default=repr)
    for o in failed[:5]:
        print("failed obligation: %s: %s (line %s)" % (o["function"], o["label"], o.get("line")))
    if fi:
        print("failing input: %s" % fi["message"])
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if fi else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    sys.exit(main())
