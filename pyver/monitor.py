"""Bounded stand-in: the contracts no proof reached, evaluated at every call the
native search makes.  A broken one is reported in the evidence (the proofs of
the callers assumed it), not as a violation: only behaviour a user can see is."""
import functools


def install(w, prop):
    calls, broken = {}, {}
    for k, c in w.contracts.items():
        if prop not in c.bounded:
            continue
        calls[k] = 0
        fn = w.functions[k]
        cl = [(lb, compile(t.strip(), lb, "eval")) for lb, tags, t in c.ensures if tags == "*" or prop in tags]
        names = [n for n, _ in c.params]

        def wrap(*a, _fn=fn, _k=k, _cl=cl, _names=names, **kw):
            r = _fn(*a, **kw)
            calls[_k] += 1
            if _k not in broken:
                import inspect
                try:
                    b = inspect.signature(_fn).bind(*a, **kw)
                    b.apply_defaults()
                    env = dict(w.specns, **dict(b.arguments, result=r))
                    for lb, code in _cl:
                        if not eval(code, env):
                            broken[_k] = "%s%r returns %r: not %s" % (_k, tuple(b.arguments.values()), r, lb)
                except Exception as e:
                    broken[_k] = "%s: %r" % (_k, e)
            return r
        functools.update_wrapper(wrap, fn)
        for m in w.modules.values():
            for n, v in list(vars(m).items()):
                if v is fn:
                    setattr(m, n, wrap)
    return calls, broken
