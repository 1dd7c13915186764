"""Concrete runs, used only to throw away wrong candidate invariants early.

A candidate that is false in some real execution cannot be an invariant; the
ones that survive are still proved.  Nothing here is trusted."""
import copy
import random
import signal
import sys

LIMIT = 160


class Stop(Exception):
    pass


def snapshots(w, key, seconds=4.0):
    """locals at every line of the loops of function `key` in runs on generated
    words and tanru: {line: [environment]}"""
    from . import native
    fn = w.functions[key]
    code = fn.__code__
    fname = code.co_filename
    out = {}
    argn = code.co_varnames[:code.co_argcount]
    entry = {}
    want = loop_lines(w, fname)
    pos = {}              # frame -> [previous line, {loop line: iteration}]
    seen, R2 = {}, random.Random(5)

    def local(frame, event, arg):
        if event == "line":
            p = pos.setdefault(id(frame), [0, {}])
            n = want.get(frame.f_lineno)
            if n is not None:
                p[1][frame.f_lineno] = p[1].get(frame.f_lineno, 0) + 1 if n[0] <= p[0] <= n[1] else 0
            p[0] = frame.f_lineno
        if event == "line" and frame.f_lineno in want:
            snaps = out.setdefault(frame.f_lineno, [])
            seen[frame.f_lineno] = c = seen.get(frame.f_lineno, 0) + 1
            if c <= LIMIT or R2.random() < LIMIT / c:
                env = {k: snap(v) for k, v in frame.f_locals.items()}
                ix = pos[id(frame)][1][frame.f_lineno]
                if want[frame.f_lineno][2]:
                    env["_ix"] = ix
                    if isinstance(env.get(want[frame.f_lineno][2]), (list, str)):
                        env["_done"] = env[want[frame.f_lineno][2]][:ix]
                env.update({k + "__0": v for k, v in entry.get(id(frame), {}).items()})
                if c <= LIMIT:
                    snaps.append(env)
                else:
                    snaps[R2.randrange(LIMIT)] = env
        elif event == "return":
            entry.pop(id(frame), None)
            pos.pop(id(frame), None)
        return local

    def tracer(frame, event, arg):
        if event == "call" and frame.f_code is code:
            entry[id(frame)] = {k: snap(frame.f_locals[k]) for k in argn}
            return local
        return None

    def on_alarm(*a):
        raise Stop()

    P = native.Pkg(w.modules)
    G = native.Gen(P, 7)
    R = random.Random(11)
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        words = list(native.FILL) + [G.R.choice(G.gis) for _ in range(20)]
        n = 0
        while True:
            n += 1
            sys.settrace(None)
            k = R.random()
            if k < .25:
                e = ("build", (G.tanru(), R.random() < .3, native.settings(R)))
            elif k < .45 and words:
                e = ("analyse", (R.choice(words) + R.choice(["", "y", "'y", "y'"]) * (k < .4) + R.choice(words) * (k < .4), native.settings(R)))
            else:
                e = ("analyse", (G.word(), native.settings(R)))
            sys.settrace(tracer)
            r = native.observe(P, *e)
            sys.settrace(None)
            if r.exc is None and e[0] == "analyse":
                words.append(e[1][0])
            if n > 3000 or (n > 700 and out and all(len(v) >= LIMIT for v in out.values())):
                break
    except Stop:
        pass
    except RecursionError:
        pass
    finally:
        sys.settrace(None)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return out


def snap(v):
    if isinstance(v, (str, int, bool, type(None))):
        return v
    if isinstance(v, (list, tuple, dict)):
        try:
            return copy.deepcopy(v)
        except Exception:
            return v
    return v


def loop_lines(w, fname):
    """line -> (first line, last line, name of the sequence a for loop runs over or a mark)"""
    import ast
    out = {}
    for m in w.source.modules:
        if getattr(m, "__file__", None) == fname:
            for n in ast.walk(w.source.trees[m.__name__]):
                if isinstance(n, (ast.While, ast.For)):
                    it = None
                    if isinstance(n, ast.For):
                        it = n.iter
                        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate":
                            it = it.args[0]
                        it = it.id if isinstance(it, ast.Name) else "?"
                    out[n.lineno] = (n.lineno, n.end_lineno, it)
    return out


def refuted(text, snaps, ns):
    """is the candidate false in one of the recorded states?  (an evaluation
    that fails for lack of a ghost variable says nothing)"""
    try:
        c = compile(text, "<candidate>", "eval")
    except SyntaxError:
        return False
    for env in snaps:
        try:
            if not eval(c, dict(ns, **env)):
                return True
        except Exception:
            continue
    return False
