"""Run a counterexample of the verifier on the real code: does the real
function, called with the arguments of the model, break the clause?"""
from . import world, spec


def check(key, args, prop, label):
    w = world.world()
    c = w.contracts.get(key)
    if c is None or key not in w.functions:
        return None
    vals = []
    for n, t in c.params:
        if n in args and type(args[n]).__name__ == t:
            vals.append(args[n])
        elif t in ("str", "int", "bool"):
            vals.append({"str": "", "int": 0, "bool": False}[t])
        else:
            return None
    ns = dict(w.specns)
    env = dict(zip([n for n, _ in c.params], vals))
    use = lambda tags: tags == "*" or prop in tags
    try:
        for _, tags, text in c.requires:
            if use(tags) and not eval(text, ns, dict(env)):
                return None
    except Exception:
        return None
    shown = "%s(%s)" % (key, ", ".join(repr(v) for v in vals))
    try:
        r = w.functions[key](*vals)
    except Exception as e:
        if type(e).__name__ in c.raises or not c.total:
            return None
        return "%s raises %s: %s" % (shown, type(e).__name__, e)
    for lb, tags, text in c.ensures:
        if use(tags) and (lb == label):
            ns2 = dict(ns, **dict(env, result=r))
            try:
                ok = eval(text, ns2)
            except Exception:
                return None
            if not ok:
                return "%s returns %r: not %s" % (shown, r, text)
    return None
