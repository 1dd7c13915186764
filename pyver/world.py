"""The real modules, their syntax trees, the contracts and the specification."""
import importlib
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "latkerlo_jvotci"
MODS = ["data", "exceptions", "tarmi", "tools", "jvozba", "katna"]
_w = []


class World:
    def ground(self, prop):
        """evaluate the facts about the data tables that property `prop` uses"""
        from . import contracts
        out = []
        try:
            facts = contracts.ground(self.modules)
        except Exception as e:
            return [{"label": "the data tables", "ok": None, "detail": "%s: %s" % (type(e).__name__, e)}]
        for label, tags, f in facts:
            if prop in tags:
                try:
                    bad = f()
                    out.append({"label": label, "ok": not bad, "detail": repr(bad)[:600]})
                except Exception as e:
                    out.append({"label": label, "ok": None, "detail": "%s: %s" % (type(e).__name__, e)})
        return out


def world():
    if _w:
        return _w[0]
    p = os.path.join(REPO, "py")
    if p not in sys.path:
        sys.path.insert(0, p)
    sys.dont_write_bytecode = True
    mods = {m: importlib.import_module(PKG + "." + m) for m in ["katna"] + MODS}
    from . import engine, spec, contracts
    w = World()
    w.modules = mods
    w.source = engine.Source([mods[m] for m in MODS] + [spec])
    w.specns = spec.namespace(mods)
    w.contracts = contracts.build()
    w.functions = {}
    missing = []
    for k, c in list(w.contracts.items()):
        m, f = k.split(".", 1)
        fn = getattr(mods[m], f, None)
        if fn is None or w.source.node_of(fn) is None:
            missing.append(k)
            del w.contracts[k]
            continue
        w.functions[k] = fn
        c.exc = {n: getattr(mods["exceptions"], n, None) or getattr(__import__("builtins"), n) for n in c.raises}
    w.missing = missing
    w.tables = contracts.tables(mods)
    _w.append(w)
    return w
