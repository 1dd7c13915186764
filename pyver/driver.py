"""Verification of the contracts of one property: one process per function."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


def load():
    import world
    return world


def verify_fn(prop, key, limit, opts=None):
    """verify one function; returns a report dict"""
    sys.setrecursionlimit(20000)
    from . import smt, execu, zs
    from .smt import Unsupported
    from . import world as W
    t0 = time.time()
    w = W.world()
    eng = execu.Exec(w.source, w.contracts, w.specns, w.tables, prop, opts)
    eng.deadline = t0 + limit * 0.6
    from . import props
    eng.leanon = set(props.PROPS.get(prop, {}).get("depends", ()))
    c = w.contracts[key]
    rep = {"function": key, "prop": prop, "obligations": [], "unsupported": None, "error": None}
    try:
        eng.verify(c, w.functions[key])
    except Unsupported as u:
        rep["unsupported"] = str(u)
        tb = traceback.extract_tb(u.__traceback__)
        rep["where"] = "; ".join("%s:%d" % (os.path.basename(x.filename), x.lineno) for x in tb[-4:])
    except RecursionError as u:
        rep["unsupported"] = "recursion limit of the verifier"
    solve(eng, rep, t0, limit)
    rep["loops"] = {"%s:%s" % k: v[-1] for k, v in eng.loop_report.items()}
    rep["found"] = {k: sorted(v) for k, v in eng.found.items()}
    rep["inlined"] = sorted(eng.inlined)
    rep["called"] = sorted(eng.called)
    rep["trusted"] = sorted(eng.trusted)
    rep["returns"] = eng.retsites
    rep["safety_sites"] = len(eng.safety_sites)
    rep["time"] = time.time() - t0
    rep["stats"] = {k: v for k, v in smt.STATS.items()}
    return rep


def split_goal(g):
    import z3
    if z3.is_expr(g) and z3.is_and(g):
        return [x for c in g.children() for x in split_goal(c)]
    return [g]


def solve(eng, rep, t0, limit):
    from . import smt, zs
    import z3
    for ob in eng.obls:
        if ob.status is None:
            if time.time() - t0 > limit * 0.9:
                ob.status, ob.info = "unknown", "time budget exhausted"
            elif ob.goal is False:
                r = smt.check(ob.facts, timeout=4000, want_model=True)
                ob.status, ob.backend, ob.time, ob.model = r.status, r.backend, r.time, r.model
            else:
                st, tm, be = "unsat", 0.0, set()
                for g in split_goal(ob.goal):
                    r = smt.prove(ob.facts, g, timeout=8000, want_model=True)
                    tm += r.time
                    be.add(r.backend)
                    if r.status != "unsat":
                        st = r.status
                        ob.model = r.model
                        if st == "sat":
                            break
                ob.status, ob.time, ob.backend = st, tm, "+".join(sorted(be))
        d = {"kind": ob.kind, "label": ob.label, "line": ob.line, "status": ob.status, "backend": ob.backend,
             "time": round(ob.time, 4), "info": ob.info}
        if ob.model is not None:
            d["model"] = model_args(ob.model)
        rep["obligations"].append(d)


def model_args(m):
    from . import zs
    out = {}
    for d in m.decls():
        n = d.name()
        if n.startswith("arg.") and d.arity() == 0:
            v = zs.lit(m[d])
            out[n[4:]] = v if isinstance(v, (str, int, bool)) else str(v)
    return out


def _child(q, prop, key, limit, opts):
    try:
        q.put(verify_fn(prop, key, limit, opts))
    except BaseException as e:      # a bug of the verifier is reported as an undecided function
        q.put({"function": key, "prop": prop, "obligations": [], "unsupported": None,
               "error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-3000:], "time": 0.0})


def run(prop, keys, limits, jobs=8, opts=None):
    """limits: key -> seconds"""
    ctx = mp.get_context("fork")
    todo = sorted(keys, key=lambda k: -limits(k))
    live, done = {}, {}
    while todo or live:
        while todo and len(live) < jobs:
            k = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_child, args=(q, prop, k, limits(k), opts), daemon=True)
            p.start()
            live[k] = (p, q, time.time())
        time.sleep(0.02)
        for k, (p, q, t) in list(live.items()):
            if not q.empty():
                done[k] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[k]
            elif not p.is_alive():
                if not q.empty():
                    done[k] = q.get()
                else:
                    done[k] = {"function": k, "prop": prop, "obligations": [], "unsupported": None,
                               "error": "verifier process ended (exit code %s)" % p.exitcode, "time": time.time() - t}
                del live[k]
            elif time.time() - t > limits(k) + 10:
                p.kill()
                done[k] = {"function": k, "prop": prop, "obligations": [], "unsupported": None,
                           "error": "time limit of %d s" % limits(k), "time": time.time() - t}
                del live[k]
    return done
