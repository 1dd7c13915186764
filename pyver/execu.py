"""Statements, loops, calls of functions under contract, and the verification
of one function against its contract."""
import ast
import itertools
import json
import time
import z3

from . import zs, smt
from .zs import And, Or, Not, Implies, Ite
from .smt import (Unsupported, Opt, LV, ListEq, lv_concat, elems, opq, type_of, join_type, mk, mk_fresh, fresh,
                  lv_term, lv_len, fold_lv, make_fold, lst_len, LIST)
from .engine import (DView, Ref, Obj, Const, Table, Closure, Bound, Iter, Match, Choice, NeedFork, State, SCALAR, Obligation,
                     char_fold, UNBOUND, NameErr, assigned_names)
from .expr import Expr, ExcVal, take, drop, mentions

MAXPATHS = 6000
UNROLL = 10
import os
DEBUG = os.environ.get('PYVER_DEBUG')


class ExcInfo:
    __slots__ = ("cls", "node", "msg")

    def __init__(self, cls, node, msg=""):
        self.cls, self.node, self.msg = cls, node, msg


class Exec(Expr):
    curloop = None

    # ------------------------------------------------------------ blocks
    def exec_block(self, stmts, st):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for kind, y, v in self.exec_stmt(s, x):
                    if kind == "next":
                        nxt.append(y)
                    else:
                        done.append((kind, y, v))
            cur = self.merge_all(nxt, len(st.pc)) if len(nxt) > 1 else nxt
            if len(cur) + len(done) > MAXPATHS:
                raise Unsupported("too many paths")
            if not cur:
                break
        return done + [("next", x, None) for x in cur]

    def relevant(self, cls):
        """does this exception class need to be followed?"""
        if self.prop == "C03" or self.opts.get("all_exc"):
            return True
        return any(issubclass(cls, h) for hs in self.handlers for h in hs)

    def flush(self, st):
        outs = []
        ex, st.excs = st.excs, []
        for c, cls, node in ex:
            if self.relevant(cls):
                f = self.feasible(st, c)
                if not self.nofeas:
                    self.safety(cls, node, not f)
                if f:
                    s2 = st.copy()
                    s2.assume(c)
                    outs.append(("exc", s2, ExcInfo(cls, node)))
            st.assume(Not(c))
        return outs

    def safety(self, cls, node, ok):
        if not self.quiet:
            k = (self.cur, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), cls.__name__)
            self.safety_sites[k] = self.safety_sites.get(k, 0) + 1

    def exec_stmt(self, s, st):
        self.tick()
        st.frames["cur"]["hoist"] = {}
        return self.run_stmt(s, st, 0)

    def run_stmt(self, s, st, depth):
        if depth > 40:
            raise Unsupported("too many case splits in one statement")
        work = st.copy()
        try:
            return self.stmt(s, work)
        except NeedFork as nf:
            why = nf.why
            if isinstance(s, (ast.For, ast.While, ast.Try, ast.If, ast.With)) and not getattr(nf, "own", None) is s:
                raise Unsupported("case split out of place")
            outs = []
            if why[0] == "cond":
                cases = [why[1], Not(why[1])]
            elif why[0] == "cases":
                cases = why[1]
            else:
                base, f, args, kw = why[1:]
                for k, o in st.heap.items():
                    if base.heap.get(k) is not o:
                        raise Unsupported("side effect before a call in one statement")
                base.excs, ex = [], base.excs
                base.excs = ex
                outs = self.flush(base)
                for kind, y, v in self.call_fork(f, args, kw, nf.node, base):
                    if kind == "ret":
                        y.frames["cur"] = dict(y.frames["cur"], hoist=dict(st.frames["cur"].get("hoist") or {}))
                        y.frames["cur"]["hoist"][id(nf.node)] = v
                        outs.extend(self.run_stmt(s, y, depth + 1))
                    else:
                        outs.append((kind, y, v))
                return outs
            for c in cases:
                y = st.copy()
                y.frames["cur"] = dict(st.frames["cur"])
                y.assume(c)
                if self.feasible(y):
                    outs.extend(self.run_stmt(s, y, depth + 1))
            return outs

    def forkable(self, s, f):
        """run f, marking a case split as belonging to the compound statement s"""
        try:
            return f()
        except NeedFork as nf:
            nf.own = s
            raise

    def stmt(self, s, st):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        try:
            return m(s, st)
        except NameErr as n:
            if self.quiet or self.prop != "C03":
                raise Unsupported("undefined name %s" % n.name)
            return [("exc", st, ExcInfo(NameError, s, n.name))]

    def st_Pass(self, s, st):
        return [("next", st, None)]

    def st_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [("next", st, None)]
        self.ev(s.value, st)
        return self.flush(st) + [("next", st, None)]

    def st_Assign(self, s, st):
        v = self.ev(s.value, st)
        outs = self.flush(st)
        for t in s.targets:
            self.assign(t, v, st)
            outs += self.flush(st)
        return outs + [("next", st, None)]

    def st_AnnAssign(self, s, st):
        if s.value is None:
            return [("next", st, None)]
        v = self.ev(s.value, st)
        outs = self.flush(st)
        self.assign(s.target, v, st)
        return outs + self.flush(st) + [("next", st, None)]

    def st_AugAssign(self, s, st):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(id=t.id, ctx=ast.Load()), st)
        elif isinstance(t, ast.Subscript):
            cur = self.ev_Subscript(t, st, True)
        else:
            raise Unsupported("augmented assignment target")
        v = self.ev(s.value, st)
        if isinstance(cur, Ref) and op == "Add" and st.heap[cur.oid].kind == "list":
            it = self.iter_of(st, v, s, True)
            new = lv_concat(st.heap[cur.oid].val, self.iter_lv(st, it))
            outs = self.flush(st)
            self.mutate(st, cur, new, s)
            return outs + [("next", st, None)]
        cur, v = self.need(st, cur, s, True), self.need(st, v, s, True)
        r = self.binop(st, op, cur, v, s, True)
        outs = self.flush(st)
        self.assign(t, r, st)
        return outs + self.flush(st) + [("next", st, None)]

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            fr = st.frames["cur"]
            if t.id in fr.get("globals", ()):
                self.frame_violation(st, None, t)
                return
            fid = fr["fid"]
            if t.id in fr.get("nonlocals", ()):
                f = st.parents.get(fid)
                while f is not None and t.id not in st.frames[f]:
                    f = st.parents.get(f)
                fid = f
            st.frames[fid] = dict(st.frames[fid])
            st.frames[fid][t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            for x, y in zip(t.elts, self.unpack(st, v, len(t.elts), t)):
                self.assign(x, y, st)
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            if isinstance(base, Const):
                self.frame_violation(st, None, t)
                return
            if isinstance(base, Table):
                self.frame_violation(st, None, t)
                return
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("slice assignment")
            i = self.ev(t.slice, st)
            fam = self.family(st, base)
            if fam is not None:
                if fam.dims:
                    raise Unsupported("a dict of a nested list is replaced")
                o = st.heap[fam.ref.oid]
                self.mutate(st, fam.ref, lv_concat(o.val, elems([(fam.idx + (i,), self.freeze_soft(st, v))])), t)
                return
            if self.is_dict(st, base):
                o = st.heap[base.oid]
                self.mutate(st, base, lv_concat(o.val, elems([(i, self.freeze_soft(st, v))])), t)
                return
            if self.is_list(st, base) and isinstance(base, Ref):
                self.store(st, base, i, v, t)
                return
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.frame_violation(st, None, t)
            return
        raise Unsupported("assignment target %s" % type(t).__name__)

    def store(self, st, base, i, v, t):
        o = st.heap[base.oid]
        lv = o.val
        i = zs.lit(i)
        if not zs.is_int(i):
            raise Unsupported("list store with a non-integer index")
        if lv.concrete:
            its = lv.items()
            if isinstance(i, int):
                if -len(its) <= i < len(its):
                    its[i] = v
                    self.mutate(st, base, elems(its), t)
                else:
                    self.exc(st, True, IndexError, t, True)
                return
            for k in range(len(its)):
                if self.decide(st, zs.ieq(i, k)) is True:
                    its[k] = v
                    self.mutate(st, base, elems(its), t)
                    return
            raise NeedFork(("cases", [zs.ieq(i, k) for k in range(len(its))] + [Or(zs.lt(i, 0), zs.le(len(its), i))]), t)
        n = lv_len(lv)
        self.exc(st, Or(zs.le(n, i), zs.lt(i, zs.sub(0, n))), IndexError, t, True)
        if isinstance(i, int) and i < 0:
            i = zs.add(n, i)
        elif not self.known(st, zs.le(0, i)):
            raise Unsupported("store at a possibly negative index")
        # known prefix length: replace in place
        pos, acc = 0, []
        x, p, d = self.split_at(st, lv, i, And(zs.le(0, i), zs.lt(i, n)))
        self.mutate(st, base, lv_concat(p, elems([self.freeze(st, v)]), d), t)

    def st_Delete(self, s, st):
        raise Unsupported("del")

    def st_Global(self, s, st):
        st.frames["cur"] = dict(st.frames["cur"], globals=set(st.frames["cur"].get("globals", ())) | set(s.names))
        return [("next", st, None)]

    def st_Nonlocal(self, s, st):
        st.frames["cur"] = dict(st.frames["cur"], nonlocals=set(st.frames["cur"].get("nonlocals", ())) | set(s.names))
        return [("next", st, None)]

    def st_Import(self, s, st):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            self.assign(ast.Name(id=a.asname or a.name.split(".")[0], ctx=ast.Store()), Const(m), st)
        return [("next", st, None)]

    def st_ImportFrom(self, s, st):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            if a.name == "*":
                raise Unsupported("import *")
            self.assign(ast.Name(id=a.asname or a.name, ctx=ast.Store()), self.from_py(st, getattr(m, a.name), a.name), st)
        return [("next", st, None)]

    def st_FunctionDef(self, s, st):
        fr = st.frames["cur"]
        self.assign(ast.Name(id=s.name, ctx=ast.Store()), Closure(s, fr["fid"], fr["globs"], s.name), st)
        return [("next", st, None)]

    def st_Assert(self, s, st):
        c = self.decide(st, self.truth(st, self.ev(s.test, st)))
        self.exc(st, Not(c), AssertionError, s, True)
        outs = self.flush(st)
        if c is False:
            return outs
        return outs + [("next", st, None)]

    def st_Return(self, s, st):
        v = None if s.value is None else self.ev(s.value, st)
        return self.flush(st) + [("ret", st, v)]

    def st_Break(self, s, st):
        return [("brk", st, None)]

    def st_Continue(self, s, st):
        return [("cont", st, None)]

    def st_Raise(self, s, st):
        if s.exc is None:
            e = st.frames["cur"].get("exc")
            if e is None:
                raise Unsupported("bare raise")
            return [("exc", st, e)]
        v = self.ev(s.exc, st)
        outs = self.flush(st)
        if isinstance(v, ExcVal):
            cls = v.cls
        elif isinstance(v, Const) and isinstance(v.obj, type) and issubclass(v.obj, BaseException):
            cls = v.obj
        elif isinstance(v, ExcInfo):
            cls = v.cls
        else:
            raise Unsupported("raise of %r" % (v,))
        if not self.relevant(cls) and not self.raise_clause(cls):
            return outs
        return outs + [("exc", st, ExcInfo(cls, s))]

    def raise_clause(self, cls):
        c = self.contract
        return c is not None and any(self.use(t) for n, cl in c.raises.items() for _, t, _ in cl)

    def st_If(self, s, st):
        n0 = len(st.pc)

        def test():
            return self.decide(st, self.truth(st, self.ev(s.test, st)))
        c = self.forkable(s, test)
        self.leak(s, c)
        outs = self.flush(st)
        if c is True:
            return outs + self.exec_block(s.body, st)
        if c is False:
            return outs + self.exec_block(s.orelse, st)
        a, b = st.copy(), st
        a.assume(c)
        b.assume(Not(c))
        fa = self.feasible(a)
        fb = self.feasible(b) if fa else True
        nxt = []
        for f, x, body in ((fa, a, s.body), (fb, b, s.orelse)):
            if not f:
                continue
            for o in self.exec_block(body, x):
                if o[0] == "next":
                    nxt.append(o[1])
                else:
                    outs.append(o)
        if fa and fb and len(nxt) > 1:
            nxt = self.merge_all(nxt, n0)
        return outs + [("next", x, None) for x in nxt]

    def merge_all(self, states, n0):
        """merge states that differ only in scalars of small types"""
        if self.opts.get("nomerge"):
            return states
        out = []
        for s in states:
            for k, t in enumerate(out):
                m = self.try_merge(t, s)
                if m is not None:
                    out[k] = m
                    break
            else:
                out.append(s)
        return out

    def try_merge(self, s1, s2):
        if s1.heap is not s2.heap:
            for k, o in s1.heap.items():
                p = s2.heap.get(k)
                if p is not None and p is not o and not (p.val is o.val and p.owned == o.owned):
                    return None
        diffs = []
        for f in s1.frames:
            if f == "cur":
                continue
            if f not in s2.frames:
                continue
            a, b = s1.frames[f], s2.frames[f]
            if a is b:
                continue
            for n in set(a) | set(b):
                x, y = a.get(n, UNBOUND), b.get(n, UNBOUND)
                if x is y or (zs.is_sym(x) and zs.is_sym(y) and x.eq(y)):
                    continue
                if isinstance(x, SCALAR) and isinstance(y, SCALAR) and type(x) is type(y) and x == y:
                    continue
                if x is UNBOUND or y is UNBOUND:
                    diffs.append((f, n, UNBOUND, UNBOUND))
                    continue
                ok = lambda v: v is None or zs.is_int(v) or zs.is_bool(v) or isinstance(v, (Closure, Const)) or \
                    (isinstance(v, Opt) and (zs.is_int(v.val) or zs.is_bool(v.val)))
                if ok(x) and ok(y) and not isinstance(x, Closure) and not isinstance(y, Closure):
                    diffs.append((f, n, x, y))
                elif isinstance(x, Closure) and isinstance(y, Closure) and x.node is y.node and x.fid == y.fid:
                    continue
                elif isinstance(x, Const) and isinstance(y, Const) and x.obj is y.obj:
                    continue
                elif isinstance(x, Ref) and isinstance(y, Ref) and x.oid == y.oid:
                    continue
                elif isinstance(x, ExcInfo) or isinstance(y, ExcInfo):
                    diffs.append((f, n, UNBOUND, UNBOUND))
                else:
                    return None
        i = 0
        while i < len(s1.pc) and i < len(s2.pc) and (s1.pc[i] is s2.pc[i] or
                                                      (zs.is_sym(s1.pc[i]) and zs.is_sym(s2.pc[i]) and s1.pc[i].eq(s2.pc[i]))):
            i += 1
        d1, d2 = s1.pc[i:], s2.pc[i:]
        b1 = [p for p in d1 if not isinstance(p, ListEq)]
        b2 = [p for p in d2 if not isinstance(p, ListEq)]
        # complementary first literals give the case condition; otherwise a fresh choice
        if b1 and b2 and zs.same(zs.lit(Not(b1[0])), b2[0]):
            c = b1[0]
            r1, r2 = b1[1:], b2[1:]
        else:
            c = fresh("bool", "choice")
            self.freshfacts += 1
            r1, r2 = b1, b2
        m = s1.copy()
        m.pc = s1.pc[:i]
        if r1:
            m.pc.append(Or(Not(c), And(*r1)))
        if r2:
            m.pc.append(Or(c, And(*r2)))
        m.pc = [p for p in m.pc if zs.lit(p) is not True] if False else m.pc
        m.pc = [p for p in m.pc if not (isinstance(p, bool) and p)]
        for d, cc in ((d1, c), (d2, Not(c))):
            for p in d:
                if isinstance(p, ListEq):
                    m.pc.append(ListEq(And(cc, p.cond), p.term, p.lv))
        for k, o in s2.heap.items():
            m.heap.setdefault(k, o)
        for f, fr in s2.frames.items():
            if f not in m.frames:
                m.frames[f] = fr
                m.parents[f] = s2.parents.get(f)
        for f, n, x, y in diffs:
            if x is UNBOUND:
                m.frames[f][n] = UNBOUND
            else:
                m.frames[f][n] = self.ite_value(m, c, x, y)
        return m

    def st_Try(self, s, st):
        classes = []
        for h in s.handlers:
            if h.type is None:
                classes.append((BaseException,))
            else:
                v = self.ev(h.type, st)
                vs = v if isinstance(v, tuple) else (v,)
                if not all(isinstance(x, Const) and isinstance(x.obj, type) for x in vs):
                    raise Unsupported("exception class")
                classes.append(tuple(x.obj for x in vs))
        self.handlers.append([c for cs in classes for c in cs])
        try:
            outs = self.exec_block(s.body, st)
        finally:
            self.handlers.pop()
        res = []
        for kind, y, v in outs:
            if kind == "exc":
                for h, cs in zip(s.handlers, classes):
                    if any(issubclass(v.cls, c) for c in cs):
                        y.frames["cur"] = dict(y.frames["cur"], exc=v)
                        if h.name:
                            self.assign(ast.Name(id=h.name, ctx=ast.Store()), v, y)
                        res.extend(self.exec_block(h.body, y))
                        break
                else:
                    res.append((kind, y, v))
            elif kind == "next" and s.orelse:
                res.extend(self.exec_block(s.orelse, y))
            else:
                res.append((kind, y, v))
        if s.finalbody:
            out2 = []
            for kind, y, v in res:
                for k2, z, w in self.exec_block(s.finalbody, y):
                    out2.append((kind, z, v) if k2 == "next" else (k2, z, w))
            res = out2
        nx = [y for k, y, v in res if k == "next"]
        if len(nx) > 1:
            nx = self.merge_all(nx, 0)
            res = [r for r in res if r[0] != "next"] + [("next", y, None) for y in nx]
        return res

    # ------------------------------------------------------------ inlined calls
    def bind_args(self, node, args, kw, st, defaults):
        a = node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Unsupported("parameters of %s" % node.name)
        names = [x.arg for x in a.args] + [x.arg for x in a.kwonlyargs]
        env = {}
        if len(args) > len(a.args):
            raise Unsupported("too many arguments for %s" % node.name)
        for n, v in zip(names, args):
            env[n] = v
        for n, v in kw.items():
            if n not in names or n in env:
                raise Unsupported("argument %s of %s" % (n, node.name))
            env[n] = v
        for n, d in defaults.items():
            if n not in env:
                env[n] = d() if callable(d) else d
        for n in names:
            if n not in env:
                raise Unsupported("missing argument %s of %s" % (n, node.name))
        return env

    def fn_parts(self, f, st):
        """(node, parent frame, globals, defaults, name)"""
        if isinstance(f, Closure):
            node, globs = f.node, f.globs
            if node.args.defaults or node.args.kw_defaults:
                def dv(d):
                    return lambda: self.eval_in(d, st, f.fid, globs)
                n = [x.arg for x in node.args.args]
                defs = {k: dv(d) for k, d in zip(n[len(n) - len(node.args.defaults):], node.args.defaults)}
            else:
                defs = {}
            return node, f.fid, globs, defs, f.name
        o = f.obj
        node = self.src.node_of(o)
        if node.decorator_list:
            raise Unsupported("decorated function %s" % o.__name__)
        n = [x.arg for x in node.args.args]
        defs = {}
        for k, d in zip(n[len(n) - len(o.__defaults__ or ()):], o.__defaults__ or ()):
            defs[k] = (lambda d=d: self.from_py(st, d, owned=False))
        for k, d in (o.__kwdefaults__ or {}).items():
            defs[k] = (lambda d=d: self.from_py(st, d, owned=False))
        return node, None, o.__globals__, defs, o.__qualname__

    def eval_in(self, e, st, fid, globs):
        cur = st.frames["cur"]
        st.frames["cur"] = {"fid": fid, "globs": globs, "hoist": {}}
        try:
            return self.ev(e, st)
        finally:
            st.frames["cur"] = cur

    def run_body(self, f, args, kw, node, st):
        """outcomes of the body in state st (modified); frames restored by the caller"""
        if isinstance(f, Const):
            self.inlined.add(f.obj.__module__.split(".")[-1] + "." + f.obj.__qualname__)
        if self.depth > 14:
            raise Unsupported("inlining too deep at %s" % getattr(node, "lineno", "?"))
        fn, parent, globs, defs, name = self.fn_parts(f, st)
        for x in ast.walk(fn):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                raise Unsupported("generator function %s" % name)
        env = self.bind_args(fn, args, kw, st, defs)
        if name in self.callstack and self.callstack.count(name) > 2:
            raise Unsupported("recursion through %s, which has no contract" % name)
        self.fid[0] += 1
        fid = self.fid[0]
        st.frames[fid] = env
        st.parents[fid] = parent
        st.frames["cur"] = {"fid": fid, "globs": globs, "hoist": {}}
        self.depth += 1
        self.callstack.append(name)
        try:
            outs = self.exec_block(fn.body, st)
        finally:
            self.depth -= 1
            self.callstack.pop()
        res = []
        for kind, y, v in outs:
            if kind == "next":
                kind, v = "ret", None
            res.append((kind, y, v))
        return res

    def call_fork(self, f, args, kw, node, st):
        cur = st.frames["cur"]
        outs = self.run_body(f, args, kw, node, st)
        for kind, y, v in outs:
            y.frames["cur"] = dict(cur)
        return outs

    def inline_expr(self, f, args, kw, e, st, g):
        cur = st.frames["cur"]
        work = st.copy()
        work.excs = []
        work.assume(g)
        n0 = len(work.pc)
        base = State()
        base = work.copy()
        ff = self.freshfacts
        self.nofeas += 1
        try:
            outs = self.run_body(f, args, kw, e, work)
        finally:
            self.nofeas -= 1
        # drop outcomes that are trivially impossible
        outs = [o for o in outs if not any(zs.lit(p) is False for p in o[1].pc if not isinstance(p, ListEq))]
        if not outs:
            raise Unsupported("call without outcome")
        pure = all(self.unchanged(base, y) for k, y, v in outs)
        if len(outs) == 1 and outs[0][0] == "ret" and (pure or zs.lit(g) is True):
            _, y, v = outs[0]
            st.heap, st.frames, st.parents = y.heap, y.frames, y.parents
            for p in y.pc[n0:]:
                st.pc.append(p if isinstance(p, ListEq) else Implies(g, p)) if zs.lit(g) is True or isinstance(p, ListEq) \
                    else st.assume(Implies(g, p))
            st.frames["cur"] = cur
            return v
        if not pure:
            if zs.lit(g) is not True:
                raise NeedFork(("cond", g), e)
            raise NeedFork(("call", st.copy(), f, args, kw), e)
        conds, vals = [], []
        deltas = []
        for kind, y, v in outs:
            d = y.pc[n0:]
            deltas.append(And(*[p for p in d if not isinstance(p, ListEq)]))
        if self.freshfacts != ff:
            # outcomes carry facts about fresh values: select by a choice
            self.freshfacts += 1
            rest = True
            for i, d in enumerate(deltas):
                b = fresh("bool", "choice") if i < len(deltas) - 1 else True
                conds.append(And(rest, b))
                rest = And(rest, Not(b)) if b is not True else rest
            for c, d in zip(conds, deltas):
                st.assume(Implies(And(g, c), d))
        else:
            conds = deltas
        val, have = None, False
        rets = [(c, o) for c, o in zip(conds, outs) if o[0] == "ret"]
        for c, (kind, y, v) in zip(conds, outs):
            for p in y.pc[n0:]:
                if isinstance(p, ListEq):
                    st.pc.append(ListEq(And(c, p.cond), p.term, p.lv))
            if kind == "exc":
                self.exc(st, c, v.cls, v.node, g)
        if not rets:
            return None
        fz = []
        for c, (kind, y, v) in rets:
            if isinstance(v, Ref):
                if v.oid not in st.heap:
                    if zs.lit(g) is not True:
                        raise NeedFork(("cond", g), e)
                    raise NeedFork(("call", st.copy(), f, args, kw), e)
            fz.append((c, v))
        val = fz[-1][1]
        for c, v in reversed(fz[:-1]):
            val = self.ite_value(st, c, v, val)
        if isinstance(val, Choice) and not isinstance(val.a, (Ref, Const, LV)):
            pass
        st.frames["cur"] = cur
        return val

    def unchanged(self, a, b):
        for k, o in a.heap.items():
            if b.heap.get(k) is not o:
                return False
        for f, fr in a.frames.items():
            if f == "cur":
                continue
            g = b.frames.get(f)
            if g is fr:
                continue
            if g is None or set(g) != set(fr):
                return False
            for n in fr:
                x, y = fr[n], g[n]
                if x is y:
                    continue
                if isinstance(x, Ref) and isinstance(y, Ref) and x.oid == y.oid:
                    continue
                return False
        return True

    # ------------------------------------------------------------ contract calls
    def call_contract(self, c, o, args, kw, e, st, g, outcome_only=False):
        node = self.src.node_of(o)
        _, _, _, defs, _ = self.fn_parts(Const(o), st)
        env = self.bind_args(node, args, kw, st, defs)
        names = [x.arg for x in node.args.args] + [x.arg for x in node.args.kwonlyargs]
        self.called.add(c.key)
        # contract parameters are matched by position with the real ones
        vals = {}
        for i, (pn, pt) in enumerate(c.params):
            if i >= len(names):
                raise Unsupported("%s has fewer parameters than its contract" % c.key)
            vals[pn] = self.coerce(st, env[names[i]], pt, e, g)
        for n in names[len(c.params):]:
            # a parameter the contract does not know: only its default is covered
            d = defs.get(n)
            if d is None:
                raise Unsupported("%s has a new parameter %s" % (c.key, n))
        for label, tags, text in c.requires:
            if self.use(tags):
                goal = self.eval_spec(text, vals, st)
                self.oblige("precondition", "%s.%s" % (c.key, label), tags, e, st, self.truth(st, goal), g)
        return self.apply_contract(c, vals, e, st, g, outcome_only)

    def coerce(self, st, v, t, e, g):
        if t == "any":
            return zs.lit(v) if zs.is_sym(v) else self.freeze_soft(st, v)
        if isinstance(v, Choice):
            raise Unsupported("conditional argument")
        v = self.freeze_soft(st, v)
        if t == "int" and zs.is_bool(v):
            return Ite(v, 1, 0)
        if isinstance(t, tuple) and t[0] == "opt":
            return v
        if isinstance(v, Opt):
            self.exc(st, v.isnone, TypeError, e, g)
            v = v.val
        tv = type_of(v)
        if tv == t or (isinstance(t, tuple) and isinstance(tv, tuple) and t[0] == tv[0]):
            return v
        raise Unsupported("argument of type %s where the contract has %s" % (tv, t))

    def sig_of(self, c, vals):
        """(name suffix, terms) for the function symbols of a call"""
        suffix, terms, types = "", [], []
        for pn, pt in c.params:
            v = vals[pn]
            if pt == "any":
                if isinstance(v, str):
                    suffix += "|%s=%s" % (pn, v)
                    types.append(("lit", v))
                    continue
                pt = type_of(v)
                suffix += "|%s:%s" % (pn, pt)
            terms.extend(smt.to_term(x) for x in smt.scalars(v, pt))
            types.append(pt)
        return suffix, terms, types

    def apply_contract(self, c, vals, e, st, g, outcome_only=False):
        suffix, terms, types = self.sig_of(c, vals)
        sig = [t.sort() for t in terms]
        base = c.key + suffix
        outname = "out." + base

        def facts_for(*zt):
            env, k = {}, 0
            for (pn, _), t in zip(c.params, types):
                if isinstance(t, tuple) and t[0] == "lit":
                    env[pn] = t[1]
                    continue
                m = len(smt.scalar_sorts(t))
                it = iter(zt[k:k + m])
                env[pn] = mk(t, lambda p, s: next(it))
                k += m
            facts = []
            pre = []
            for label, tags, text in c.requires:
                if (self.use(tags) or self.lean(tags, c.key, label)) and not getattr(c, "total", False):
                    pre.append(self.truth(None, self.eval_spec(text, env)))
            pre = And(*pre)
            normal = True
            if c.raises:
                out = smt.DECLS[outname][0](*zt)
                normal = out == 0
                facts.append(And(out >= 0, out <= len(c.raises)))
                for i, (xn, cl) in enumerate(c.raises.items()):
                    for label, tags, text in cl:
                        if self.use(tags) or self.lean(tags, c.key, label):
                            facts.append(Implies(And(pre, out == i + 1), self.truth(None, self.eval_spec(text, env))))
            if c.ret != "none":
                res = mk(c.ret, lambda p, s: smt.DECLS["ret%s.%s" % (p, base)][0](*zt))
                env2 = dict(env, result=res)
                for label, tags, text in c.ensures:
                    if self.use(tags) or self.lean(tags, c.key, label):
                        facts.append(Implies(And(pre, normal), self.truth(None, self.eval_spec(text, env2))))
            return facts

        def gen(*zt):
            return self.templated("contract " + base, facts_for, zt)
        res = None
        if c.ret != "none":
            res = mk(c.ret, lambda p, s: smt.decl("ret%s.%s" % (p, base), sig, smt.SORTS[s], gen)(*terms) if terms else
                     smt.decl("ret%s.%s" % (p, base), sig, smt.SORTS[s])())
        if c.raises:
            out = smt.decl(outname, sig, z3.IntSort(), gen)(*terms)
            if outcome_only:
                return out
            if not self.spec:
                for i, xn in enumerate(c.raises):
                    self.exc(st, out == i + 1, c.exc_class(xn), e, g)
        elif outcome_only:
            return z3.IntVal(0)
        if c.functional is not None and self.use(c.functional[0]):
            res = self.eval_spec(c.functional[1], vals, st)
            return res
        if isinstance(c.ret, tuple) and c.ret[0] == "list" and not self.spec:
            return self.new_ref(st, Obj("list", res))
        return res

    def templated(self, key, f, zt):
        """f(*zt), a list of scalars, computed once for placeholders"""
        if any(t.sort() == LIST and (t.eq(smt.EMPTY) or smt.comp_of(t) is not None) for t in zt):
            return f(*zt)
        sorts = tuple(str(t.sort()) for t in zt)
        if (key, sorts) not in self.templates:
            phs = [z3.Const("tph%d:%s" % (i, t.sort()), t.sort()) for i, t in enumerate(zt)]
            n = smt.CAPTURED[0]
            body = [zs.lit(x) for x in f(*phs)]
            self.templates[(key, sorts)] = (phs, body if smt.CAPTURED[0] == n else None)
        phs, body = self.templates[(key, sorts)]
        if body is None:
            return f(*zt)
        return [smt.subst(x, phs, zt) for x in body]

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, label, tags, node, st, goal, g=True):
        if self.quiet or self.spec:
            return
        goal = zs.lit(goal)
        if goal is True:
            self.trivial += 1
            ob = Obligation(kind, label, tags, self.cur, getattr(node, "lineno", 0), [], True)
            ob.status, ob.backend = "unsat", "syntactic"
            self.obls.append(ob)
            return
        ob = Obligation(kind, label, tags, self.cur, getattr(node, "lineno", 0), st.pc + ([g] if zs.lit(g) is not True else []), goal)
        self.obls.append(ob)

    def frame_violation(self, st, o, node):
        if self.quiet:
            return
        ob = Obligation("frame", "writes only to objects created by the call", ("C14",), self.cur, getattr(node, "lineno", 0),
                        list(st.pc), False)
        self.obls.append(ob)

    # ------------------------------------------------------------ loops
    def st_While(self, s, st):
        if s.orelse:
            raise Unsupported("while-else")
        return self.loop(s, st, None)

    def st_For(self, s, st):
        it = self.forkable(s, lambda: self.iter_of(st, self.ev(s.iter, st), s, True))
        outs = self.flush(st)
        oid = None
        if it.kind == "list":
            oid = it.args[1]
        if it.kind == "gen":
            it = Iter("list", self.comp(it.args[0], st, True), None)
            outs += self.flush(st)
        # known elements: unroll
        try:
            lv = self.iter_lv(st, it)
        except Unsupported:
            lv = None
        if it.kind == "range" and lv is not None and len(lv.items()) > 1 and self.open_loop_in(s.body):
            lv = None           # its copies would each need an invariant for the loop within
        if lv is not None and lv.concrete and len(lv.items()) <= UNROLL:
            return outs + self.unroll(s, st, lv.items(), oid)
        if lv is not None and not lv.concrete and it.kind == "list":
            it = Iter("list", LV(lv.segs, lv.elt), oid)
        return outs + self.loop(s, st, it)

    def open_loop_in(self, body):
        """is there a loop below that is not over a literal range?"""
        return any(isinstance(x, ast.While) or isinstance(x, ast.For) and not (
            isinstance(x.iter, ast.Call) and getattr(x.iter.func, "id", "") == "range" and
            all(isinstance(a, ast.Constant) for a in x.iter.args)) for b in body for x in ast.walk(b))

    def unroll(self, s, st, items, oid):
        cur, outs, broke = [st], [], []
        for x in items:
            nxt = []
            for y in cur:
                before = y.heap.get(oid)
                self.assign(s.target, x, y)
                for kind, z, v in self.exec_block(s.body, y):
                    if oid is not None and z.heap.get(oid) is not before:
                        raise Unsupported("the iterated list changes during the loop")
                    if kind in ("next", "cont"):
                        nxt.append(z)
                    elif kind == "brk":
                        broke.append(z)
                    else:
                        outs.append((kind, z, v))
            cur = self.merge_all(nxt, 0) if len(nxt) > 1 else nxt
        for y in cur:
            if s.orelse:
                outs.extend(self.exec_block(s.orelse, y))
            else:
                outs.append(("next", y, None))
        return outs + [("next", y, None) for y in self.merge_all(broke, 0)]

    # --- loop heads for iterables
    def iter_head(self, it, st):
        """a state at an arbitrary iteration: adds facts to st; returns
        (element, ghosts at head, ghosts after the iteration)"""
        k = it.kind
        if k == "list":
            term, elt = lv_term(it.args[0])
            if elt is None:
                raise Unsupported("loop over a list of unknown type")
            cp = smt.comp_of(term)
            if cp is not None and cp[1][5] is True:
                _, belt, welt, ph, w, _ = cp[1]
                bx, bg, bg2 = self.iter_head(Iter("list", opq(cp[0], belt), None), st)
                from .expr import subst_value
                f = lambda v: subst_value(w, welt, smt.scalars(ph, belt), smt.scalars(v, belt))
                x = f(bx)
                p, r = self.map_lv(st, bg["_done"], f), self.map_lv(st, bg["_rest"], f)
                st.pc.append(ListEq(True, term, lv_concat(p, elems([x]), r)))
                return x, {"_done": p, "_ix": bg["_ix"], "_rest": r, "_base": bg["_done"]}, \
                    {"_done": lv_concat(p, elems([x])), "_ix": bg2["_ix"], "_base": bg2["_done"]}
            p = opq(fresh("list", "done"), elt)
            x = mk_fresh(elt, "item")
            r = opq(fresh("list", "rest"), elt)
            st.pc.append(ListEq(True, term, lv_concat(p, elems([x]), r)))
            ix = lv_len(p)
            st.assume(zs.ieq(zs.add(zs.add(ix, 1), lv_len(r)), lst_len(term)))
            # the element is the one found by indexing
            xi, _, _ = self.split_at(st, opq(term, elt), ix, True)
            for a, b in zip(smt.scalars(x, elt), smt.scalars(xi, elt)):
                st.assume(smt.eq_scalar(a, b) if not (zs.is_sym(a) and a.sort() == LIST) else a == b)
            st.assume(p.segs[0][1] == take(term, ix))
            return x, {"_done": p, "_ix": ix, "_rest": r}, {"_done": lv_concat(p, elems([x])), "_ix": zs.add(ix, 1)}
        if k == "str":
            s = it.args[0]
            i = fresh("int", "pos")
            st.assume(zs.le(0, i))
            st.assume(zs.lt(i, zs.length(s)))
            smt.NONNEG[i.get_id()] = i
            x = zs.substr(s, i, 1)
            p = zs.substr(s, 0, i)
            return x, {"_done": p, "_ix": i}, {"_done": zs.concat(p, x), "_ix": zs.add(i, 1)}
        if k == "range":
            lo, hi = it.args
            i = fresh("int", "i")
            st.assume(zs.le(lo, i))
            st.assume(zs.lt(i, hi))
            if isinstance(lo, int) and lo >= 0:
                smt.NONNEG[i.get_id()] = i
            return i, {"_ix": i, "_done": None}, {"_ix": zs.add(i, 1), "_done": None}
        if k == "enum":
            x, g1, g2 = self.iter_head(it.args[0], st)
            return (zs.add(g1["_ix"], it.args[1]), x), g1, g2
        if k == "zip":
            ls = it.args[0]
            if len(ls) == 2 and all(l.kind in ("list", "str") for l in ls):
                i = fresh("int", "i")
                xs = []
                for l in ls:
                    if l.kind == "str":
                        st.assume(zs.lt(i, zs.length(l.args[0])))
                        xs.append(zs.substr(l.args[0], i, 1))
                    else:
                        st.assume(zs.lt(i, lv_len(l.args[0])))
                        xs.append(self.split_at(st, l.args[0], i, True)[0])
                st.assume(zs.le(0, i))
                return tuple(xs), {"_ix": i, "_done": None}, {"_ix": zs.add(i, 1), "_done": None}
        if k == "table":
            t, what = it.args
            term, elt = lv_term(self.table_items(t))
            key = fresh("str", "key")
            st.assume(self.table_has(t, key))
            val = self.table_val(t, key)
            p, r = opq(fresh("list", "done"), elt), opq(fresh("list", "rest"), elt)
            st.pc.append(ListEq(True, term, lv_concat(p, elems([(key, val)]), r)))
            x = {"keys": key, "items": (key, val), "values": val}[what]
            done2 = lv_concat(p, elems([(key, val)]))
            ix = lv_len(p)
            if what != "items":
                p, done2 = (self.map_lv(None, y, lambda x: x[0 if what == "keys" else 1]) for y in (p, done2))
            return x, {"_ix": ix, "_done": p}, {"_ix": zs.add(ix, 1), "_done": done2}
        if k == "fam":
            fam, what, oid = it.args
            lv = st.heap[oid].val
            if not lv.segs:
                raise Unsupported("loop over an empty dict")
            term, elt = lv_term(lv)
            p, r = opq(fresh("list", "done"), elt), opq(fresh("list", "rest"), elt)
            kv = mk_fresh(elt, "entry")
            st.pc.append(ListEq(True, term, lv_concat(p, elems([kv]), r)))
            for a, b in zip(kv[0], fam.idx):
                st.assume(zs.ieq(a, b))
            st.assume(self.dict_has(st, lv, kv[0]))
            x = {"keys": kv[0][-1], "items": (kv[0][-1], kv[1]), "values": kv[1]}[what]
            return x, {"_ix": None, "_done": None}, {"_ix": None, "_done": None}
        if k in ("dict", "dictitems", "dictvalues"):
            lv = it.args[0]
            if not lv.segs:
                raise Unsupported("loop over an empty dict")
            term, elt = lv_term(lv)
            p, r = opq(fresh("list", "done"), elt), opq(fresh("list", "rest"), elt)
            kv = mk_fresh(elt, "entry")
            st.pc.append(ListEq(True, term, lv_concat(p, elems([kv]), r)))
            st.assume(self.dict_has(st, lv, kv[0]))
            x = {"dict": kv[0], "dictitems": kv, "dictvalues": kv[1]}[k]
            return x, {"_ix": None, "_done": p}, {"_ix": None, "_done": None}
        raise Unsupported("loop over %s" % k)

    def iter_entry(self, it):
        k = it.kind
        if k == "list":
            return {"_done": LV([], it.args[0].elt_type()), "_ix": 0}
        if k == "str":
            return {"_done": "", "_ix": 0}
        if k == "range":
            return {"_ix": it.args[0], "_done": None}
        if k == "enum":
            return self.iter_entry(it.args[0])
        if k == "zip":
            return {"_ix": 0, "_done": None}
        return {"_ix": None, "_done": None}

    def iter_exit(self, it, st):
        k = it.kind
        if k == "list":
            lv = it.args[0]
            term, elt = lv_term(lv)
            return {"_done": lv, "_ix": lv_len(lv)}
        if k == "str":
            return {"_done": it.args[0], "_ix": zs.length(it.args[0])}
        if k == "range":
            lo, hi = it.args
            return {"_ix": Ite(zs.lt(lo, hi), hi, lo), "_done": None}
        if k == "enum":
            return self.iter_exit(it.args[0], st)
        if k == "zip":
            ns = [zs.length(l.args[0]) if l.kind == "str" else lv_len(l.args[0]) for l in it.args[0]]
            return {"_ix": Ite(zs.lt(ns[0], ns[1]), ns[0], ns[1]), "_done": None}
        if k == "table":
            lv = self.iter_lv(st, it)
            return {"_ix": lv_len(lv), "_done": lv}
        return {"_ix": None, "_done": None}

    # --- havoc
    def havoc_value(self, v, alts, st, frozen):
        """a fresh value covering v and the values in alts"""
        vals = [v] + alts
        if all(isinstance(x, Ref) for x in vals):
            objs = [st.heap.get(x.oid) or a for x, a in zip(vals, [None] * len(vals))]
        if isinstance(v, (Const, Closure, Table)):
            return v
        raise AssertionError

    def shape(self, st, v):
        """type descriptor of a value including heap structure"""
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if o.kind == "dict":
                t = None
                for s in o.val.segs:
                    t = join_type(t, s[2] if s[0] == "o" else type_of(self.freeze(st, s[-1])))
                return ("family", o.kv, t) if o.kv is not None else ("dict", t)
            if o.val.concrete and any(isinstance(x, Ref) for x in o.val.items()):
                return ("struct",) + tuple(self.shape(st, x) for x in o.val.items())
            return ("list", self.lv_type(st, o.val))
        if isinstance(v, Opt):
            return ("opt", self.shape(st, v.val))
        if isinstance(v, LV):
            return ("list", self.lv_type(st, v))
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.shape(st, x) for x in v)
        if isinstance(v, (Const, Closure, Table, ExcInfo, Bound, Iter, Match, ExcVal)) or v is UNBOUND:
            return ("fixed", id(v))
        if isinstance(v, Choice):
            return join_shape(self.shape(st, v.a), self.shape(st, v.b))
        return type_of(v)

    def lv_type(self, st, lv):
        t = lv.elt
        for s in lv.segs:
            t = join_type(t, s[2] if s[0] == "o" else type_of(self.freeze(st, s[-1])))
        return t

    def fresh_shape(self, sh, st, hint, frozen):
        if isinstance(sh, tuple):
            if sh[0] == "family":
                val = LV([], None) if sh[2] is None else opq(fresh("list", hint), sh[2])
                return self.new_ref(st, Obj("dict", val, owned=True, frozen=frozen, kv=sh[1]))
            if sh[0] == "dict":
                val = LV([], None) if sh[1] is None else opq(fresh("list", hint), sh[1])
                return self.new_ref(st, Obj("dict", val, owned=True, frozen=frozen))
            if sh[0] == "struct":
                return self.new_ref(st, Obj("list", elems([self.fresh_shape(x, st, hint, frozen) for x in sh[1:]]), frozen=frozen))
            if sh[0] == "list":
                val = LV([], None) if sh[1] is None else opq(fresh("list", hint), sh[1])
                return self.new_ref(st, Obj("list", val, frozen=frozen))
            if sh[0] == "opt":
                return Opt(fresh("bool", hint + ".n"), self.fresh_shape(sh[1], st, hint, frozen))
            if sh[0] == "tuple":
                return tuple(self.fresh_shape(x, st, hint, frozen) for x in sh[1:])
            raise Unsupported("loop changes a value of kind %s" % sh[0])
        if sh == "none":
            return None
        return fresh(sh, hint)

    def reach(self, st, v, acc):
        if isinstance(v, Ref):
            if v.oid not in acc:
                acc.add(v.oid)
                for s in st.heap[v.oid].val.segs:
                    self.reach(st, s[-1] if s[0] != "o" else None, acc)
        elif isinstance(v, tuple):
            for x in v:
                self.reach(st, x, acc)
        elif isinstance(v, Opt):
            self.reach(st, v.val, acc)

    def loop(self, s, st, it):
        self.tick()
        self.freshfacts += 1
        names = assigned_names([s])
        fid = st.frames["cur"]["fid"]
        entry = st
        ghosts0 = self.iter_entry(it) if it is not None else {}
        depth = len(self.loopstack)
        outer = {}
        for d, gh in enumerate(self.loopstack):
            outer.update({k + "_%d" % d: v for k, v in gh.items() if v is not None})
        # modified frame variables (this frame and enclosing ones) and objects
        mod = {}          # (fid, name) -> shape
        for n in names:
            if n in entry.frames[fid] and entry.frames[fid][n] is not UNBOUND:
                mod[(fid, n)] = self.shape(entry, entry.frames[fid][n])
        mobj = {}         # oid -> shape
        owned0 = {}
        rounds = 0
        cands = None
        self.quiet += 1
        if self.nofeas:
            saved_nofeas, self.nofeas = self.nofeas, 0
        else:
            saved_nofeas = 0
        alias_pairs = set()
        try:
            while True:
                rounds += 1
                if rounds > 25:
                    raise Unsupported("loop invariant search did not converge")
                head = self.havoc(entry, mod, mobj, s, alias_pairs)
                if cands is None:
                    cands = self.candidates(s, entry, head, ghosts0, outer, fid, it)
                res = self.one_iteration(s, head, it, cands, fid, outer)
                backs, outs = res["backs"], res["outs"]
                # discover further modified state
                grew = False
                for b, _ in backs:
                    for f in entry.frames:
                        if f == "cur" or f not in b.frames:
                            continue
                        for n, v in b.frames[f].items():
                            if f == fid and n not in entry.frames[f]:
                                continue
                            if n not in entry.frames[f] or entry.frames[f][n] is UNBOUND:
                                continue
                            h = res["head"].frames[f].get(n)
                            same = v is h or (isinstance(v, Ref) and isinstance(h, Ref) and v.oid == h.oid) or \
                                (zs.is_sym(v) and zs.is_sym(h) and v.eq(h)) or \
                                (isinstance(v, SCALAR) and isinstance(h, SCALAR) and type(v) is type(h) and v == h)
                            if same and not isinstance(v, Ref):
                                continue
                            if same:
                                continue
                            if (f, n) not in mod:
                                mod[(f, n)] = self.shape(entry, entry.frames[f][n])
                                grew = True
                            sh = join_shape(mod[(f, n)], self.shape(b, v))
                            if sh != mod[(f, n)]:
                                mod[(f, n)] = sh
                                grew = True
                    for k, o in res["head"].heap.items():
                        p = b.heap.get(k)
                        if p is not o and p is not None and p.val is not o.val:
                            k0 = res["hmap"].get(k, k)
                            if k0 not in entry.heap:
                                continue       # object of a havocked variable: covered by its shape
                            sh = self.shape(b, Ref(k))
                            old = mobj.get(k0, self.shape(entry, Ref(k0)))
                            new = join_shape(old, sh)
                            if k0 not in mobj or new != mobj[k0]:
                                mobj[k0] = new
                                grew = True
                    # objects of havocked variables may change their element type
                    for (f, n), sh0 in list(mod.items()):
                        v = b.frames.get(f, {}).get(n)
                        if v is None or v is UNBOUND:
                            continue
                        sh = join_shape(sh0, self.shape(b, v))
                        if sh != sh0:
                            mod[(f, n)] = sh
                            grew = True
                if grew:
                    cands = None
                    continue
                self.check_alias(entry, backs, mod, alias_pairs)
                drop_ = self.drops(cands, backs, outer, fid)
                if drop_:
                    if self.loopstack:
                        self.dropped.setdefault(self.loop_name(s), set()).update(c[0] for c in drop_)
                    ids = set(id(c) for c in drop_)
                    cands = [c for c in cands if id(c) not in ids]
                if not drop_:
                    break
        finally:
            self.quiet -= 1
        try:
            # final run with obligations recorded
            head = self.havoc(entry, mod, mobj, s, alias_pairs)
            key = (self.cur, s.lineno)
            rep = self.loop_report.setdefault(key, [])
            rep.append([c[0] for c in cands])
            if not self.quiet:
                self.found.setdefault(self.loop_name(s), set()).update(c[0] for c in cands)
            for c in cands:
                if not self.quiet:
                    self.oblige_inv(c, s, len(backs) + 1)
            res = self.one_iteration(s, head, it, cands, fid, outer)
            if self.leaks is not None:
                self.leak(s, *(it.args if it is not None else ()))
                self.leak_state(s, entry, mod, mobj)
                for b, _ in res["backs"]:
                    self.leak_state(s, b, mod, mobj)
            if not self.quiet and self.prop == "C18" and it is None:
                self.check_variant(s, res, fid)
        finally:
            if saved_nofeas:
                self.nofeas = saved_nofeas
        outs = res["outs"]
        return outs

    def oblige_inv(self, cand, s, n):
        ob = Obligation("loop invariant", cand[0], (self.prop,), self.cur, s.lineno, [], True)
        ob.status, ob.backend, ob.info = "unsat", "z3", "holds at entry and is kept by %d back edges" % (n - 1)
        self.obls.append(ob)

    def check_alias(self, entry, backs, mod, alias_pairs):
        """variables that share an object at the head of only some iterations"""
        def groups(st):
            by = {}
            for (f, n) in mod:
                v = st.frames.get(f, {}).get(n)
                acc = set()
                self.reach(st, v, acc)
                for o in acc:
                    by.setdefault(o, set()).add((f, n))
            return by
        for st in [entry] + [b for b, _ in backs]:
            for o, vs in groups(st).items():
                if len(vs) > 1:
                    alias_pairs.update(vs)

    def havoc(self, entry, mod, mobj, s, alias_pairs):
        h = entry.copy()
        h.frames["cur"] = dict(entry.frames["cur"])
        hmap = {}
        for k, sh in mobj.items():
            o = entry.heap[k]
            if sh[0] == "struct":
                raise Unsupported("loop changes the elements of a nested list")
            sh = sh[1:] if sh[0] == "family" else sh
            val = LV([], None) if sh[1] is None else opq(fresh("list", "h"), sh[1])
            h.heap[k] = Obj(o.kind, val, o.owned, o.frozen, o.origin, o.kv)
        for (f, n), sh in mod.items():
            v = entry.frames[f][n]
            if isinstance(sh, tuple) and sh[0] == "fixed":
                continue
            if isinstance(v, Ref) and self.keeps_ref(s, n, sh):
                continue
            h.frames[f] = dict(h.frames[f])
            h.frames[f][n] = self.fresh_shape(sh, h, n, frozen=(f, n) in alias_pairs)
        return h

    def keeps_ref(self, s, n, sh):
        """a list variable that the loop only updates in place keeps its object"""
        return n not in rebound_names(s)

    def one_iteration(self, s, head, it, cands, fid, outer):
        """runs the body once from the head; returns back-edge states and the
        outcomes that leave the loop"""
        h = head.copy()
        h.frames["cur"] = dict(head.frames["cur"])
        body_state = h.copy()
        outs = []
        ghosts = {}
        after = {}
        run = []
        if it is not None:
            b = body_state
            try:
                x, ghosts, after = self.iter_head(it, b)
            except Unsupported as u:
                if "empty dict" in str(u):
                    x = None
                    b = None
                else:
                    raise
            # exit
            ex = h.copy()
            gx = self.iter_exit(it, ex)
            self.assume_inv(cands, ex, dict(outer, **gx), fid)
            if it.kind == "dict" or it.kind.startswith("dict") or it.kind == "table":
                pass
            if s.orelse:
                outs.extend(self.exec_block(s.orelse, ex))
            else:
                outs.append(("next", ex, None))
            if b is not None:
                self.assume_inv(cands, b, dict(outer, **ghosts), fid)
                self.assign(s.target, x, b)
                run.append(b)
        else:
            b = body_state
            self.assume_inv(cands, b, dict(outer), fid)
            b.frames["cur"] = dict(b.frames["cur"], hoist={})
            stmts = [ast.copy_location(ast.If(test=s.test, body=[ast.copy_location(ast.Pass(), s)],
                                              orelse=[ast.copy_location(ast.Break(), s)]), s)]
            ast.fix_missing_locations(stmts[0])
            saved = self.opts.get("nomerge")
            for kind, y, v in self.exec_stmt(stmts[0], b):
                if kind == "next":
                    run.append(y)
                elif kind == "brk":
                    outs.append(("next", y, None))
                else:
                    outs.append((kind, y, v))
        backs = []
        self.loopstack.append(ghosts)
        oid = it.args[-1] if it is not None and it.kind in ("list", "dict", "fam", "dictitems", "dictvalues") else None
        try:
            for b in run:
                if not self.feasible(b):
                    continue
                b0 = b.heap.get(oid)
                for kind, y, v in self.exec_block(s.body, b):
                    if oid is not None and kind in ("next", "cont") and y.heap.get(oid) is not b0:
                        if not (it.kind == "list" and self.index_store_only(s)):
                            raise Unsupported("the iterated container changes during the loop")
                    if kind in ("next", "cont"):
                        backs.append(y)
                    elif kind == "brk":
                        outs.append(("next", y, None))
                    else:
                        outs.append((kind, y, v))
        finally:
            self.loopstack.pop()
        backs = self.merge_all(backs, len(head.pc)) if len(backs) > 1 else backs
        return {"backs": [(y, after) for y in backs], "outs": outs, "head": h, "hmap": {}, "run": run}

    def index_store_only(self, s):
        return False

    # --- invariants
    def candidates(self, s, entry, head, ghosts0, outer, fid, it):
        """candidate invariants: the function's pool (its holes filled with the
        variables in scope) that hold on entry"""
        pool = []
        self.curloop = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
        for tags, text in (self.contract.invs if self.contract else []):
            if self.use(tags):
                m = text.startswith("@")
                if m and int(text[1]) != len(self.loopstack):
                    continue
                pool.append(text[3:] if m else text)
        env0 = self.visible(entry, fid, dict(outer, **ghosts0))
        insts = []
        seen = set()
        for text in pool:
            for t in self.fill(text, env0, entry, head, self.visible(head, fid, {})):
                dep = None
                if " :: " in t:          # parent :: child
                    dep, t = t.split(" :: ")
                    if dep not in seen:
                        seen.add(dep)
                        insts.append((dep, ast.parse(dep, mode="eval").body, None))
                if t not in seen:
                    seen.add(t)
                    insts.append((t, ast.parse(t, mode="eval").body, dep))
        insts = self.auto_candidates(s, entry, head, env0, fid, it) + insts
        key = self.loop_name(s)
        hint = (self.opts or {}).get("hints")
        if hint is not None:
            insts = [c for c in insts if c[0] in hint.get(key, ())]
        else:
            insts = self.dynamic_filter(s, fid, insts)
        gone = self.dropped.get(key, ())
        insts = [c for c in insts if c[0] not in gone and c[2] not in gone]
        ok = []
        for c in insts:
            if c[2] is not None and not any(o[0] == c[2] for o in ok):
                continue
            try:
                v = self.truth(entry, self.eval_spec(c[1], env0, entry))
            except Unsupported:
                continue
            except (TypeError, AttributeError, KeyError, z3.Z3Exception):
                continue
            v = zs.lit(v)
            if v is False:
                continue
            # must also be evaluable at the head, and say something the loop may change
            try:
                g1 = {k: mk_ghost(x) for k, x in ghosts0.items()}
                w = self.truth(head, self.eval_spec(c[1], self.visible(head, fid, dict(outer, **g1)), head))
            except (Unsupported, TypeError, AttributeError, KeyError, z3.Z3Exception) as ex:
                if DEBUG:
                    print("cannot evaluate", c[0], ex, flush=True)
                continue
            if zs.same(v, zs.lit(w)) and not isinstance(v, bool):
                continue
            if v is True or self.entails(entry, v):
                ok.append(c)
            elif DEBUG:
                print("not at entry", c[0], v)
        return ok

    def loop_name(self, s):
        """function and position of the loop in it"""
        return self.src.loops.get(id(s)) or "%s:%d" % (self.cur, s.lineno)

    def dynamic_filter(self, s, fid, insts):
        """drop the candidates that a recorded execution refutes"""
        if len(insts) < 4 or self.cur not in self.functions:
            return insts
        if self.dyn is None:
            from . import dyn, world
            try:
                self.dyn = dyn.snapshots(world.world(), self.cur)
            except Exception:
                self.dyn = {}
        snaps = self.dyn.get(s.lineno, [])
        from . import dyn
        bad = {c[0] for c in insts if dyn.refuted(c[0], snaps, self.specns)}
        return [c for c in insts if c[0] not in bad and c[2] not in bad]

    def auto_candidates(self, s, entry, head, env0, fid, it):
        out = []
        if it is not None and it.kind == "range" or it is None or it.kind in ("list", "str", "enum", "zip"):
            for n, v in entry.frames[fid].items():
                w = head.frames[fid].get(n)
                if v is UNBOUND or w is v:
                    continue
                if zs.is_int(v) and zs.is_sym(w):
                    out.append("0 <= %s" % n)
                if isinstance(w, Opt) and zs.is_int(w.val):
                    out.append("%s is None or 0 <= %s" % (n, n))
        none = [n for n, v in entry.frames[fid].items() if v is None and head.frames[fid].get(n) is not None]
        for a, b in zip(none, none[1:]):
            out.append("(%s is None) == (%s is None)" % (a, b))
        return [(t, ast.parse(t, mode="eval").body, None) for t in out]

    def visible(self, st, fid, ghosts):
        env = {}
        chain = []
        f = fid
        while f is not None:
            chain.append(f)
            f = st.parents.get(f)
        for f in reversed(chain):
            for n, v in st.frames[f].items():
                if v is not UNBOUND:
                    env[n] = v
        for n, v in self.entry_env.items():
            env[n + "__0"] = v
        env.update({k: v for k, v in ghosts.items()})
        return env

    def fill(self, text, env, st, head, henv):
        """instances of a candidate whose holes $s (string), $L (list of
        strings), $i (integer), $b (Boolean) range over the variables"""
        import re as _re
        holes = sorted(set(_re.findall(r"\$[A-Za-z]\w*", text)))
        if not holes:
            return [text]
        opts = []
        for h in holes:
            k = h[1]
            names = []
            for n, v in env.items():
                if n.startswith("_") or n.endswith("__0"):
                    continue
                if k in "sLTD" and not self.changed(st, head, v, henv.get(n)):
                    continue
                if k == "u" and self.curloop is not None and n not in self.curloop:
                    continue
                if isinstance(v, Opt):
                    ok = k == "o" and zs.is_int(v.val) or k == "i" and False
                elif k in "su":
                    ok = zs.is_str(v) and not (k == "u" and any(zs.same(v, x) for x in self.entry_env.values() if zs.is_str(x)))
                elif k == "i":
                    ok = zs.is_int(v)
                elif k == "o":
                    ok = v is None
                elif k == "b":
                    ok = zs.is_bool(v)
                elif k == "L":
                    ok = self.is_list(st, v) and self.lv_type(st, self.lv(st, v)) in ("str", None)
                elif k == "T":
                    ok = self.is_list(st, v) and isinstance(self.lv_type(st, self.lv(st, v)), (tuple, type(None)))
                elif k == "D":
                    ok = isinstance(v, Ref) and isinstance(self.shape(st, v), tuple) and self.shape(st, v)[0] in ("struct", "dict", "family")
                else:
                    ok = False
                if ok:
                    names.append(n)
            opts.append(names)
        out = []
        for combo in itertools.product(*opts):
            if len(set(combo)) != len(combo):
                continue
            t = text
            for h, n in sorted(zip(holes, combo), key=lambda x: -len(x[0])):
                t = t.replace(h, n)
            out.append(t)
            if len(out) > 400:
                break
        return out

    def changed(self, st, head, v, h):
        if isinstance(v, Ref):
            if not isinstance(h, Ref) or h.oid != v.oid or head.heap.get(v.oid) is not st.heap.get(v.oid):
                return True
            o = st.heap[v.oid]
            return o.kind == "list" and o.val.concrete and any(
                isinstance(x, Ref) and self.changed(st, head, x, x) for x in o.val.items())
        return not (h is v or zs.same(h, v))

    def inv_value(self, c, st, ghosts, fid):
        try:
            return zs.lit(self.truth(st, self.eval_spec(c[1], self.visible(st, fid, ghosts), st)))
        except (Unsupported, TypeError, AttributeError, KeyError, z3.Z3Exception):
            return None

    def assume_inv(self, cands, st, ghosts, fid):
        for c in cands:
            v = self.inv_value(c, st, ghosts, fid)
            if v is not None:
                n = len(st.pc)
                st.assume(v)
                self.invfacts.update(p.get_id() for p in st.pc[n:] if zs.is_sym(p))

    def shown(self, st, v):
        """does the candidate hold here?  Tried first from the invariants alone,
        which is the same question on every path"""
        v = zs.lit(v)
        if v is True:
            return True
        if not zs.is_sym(v):
            return False
        parts = v.children() if z3.is_and(v) else [v]
        few = [p for p in st.pc if zs.is_sym(p) and p.get_id() in self.invfacts]
        for g in parts:
            if any(zs.is_sym(p) and p.eq(g) for p in few):
                continue
            if few and smt.check(few + [zs.Not(g)], timeout=1000, nofallback=True).status == "unsat":
                continue
            if not self.entails(st, g):
                return False
        return True

    def drops(self, cands, backs, outer, fid):
        """the candidates that some back edge does not keep (of one such edge);
        many edges are shared out over processes"""
        n = min(5, len(backs) // 6)
        if n < 2 or not cands:
            for b, g2 in backs:
                bad = self.failing(cands, b, dict(outer, **g2), fid)
                if bad:
                    return bad
            return []
        kids = []
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    base = {x: list(v) for x, v in smt.STATS.items() if isinstance(v, list)}
                    out = {"bad": []}
                    try:
                        for b, g2 in backs[k::n]:
                            bad = self.failing(cands, b, dict(outer, **g2), fid)
                            if bad:
                                out["bad"] = [c[0] for c in bad]
                                break
                    except Unsupported as u:
                        out["unsup"] = str(u)
                    out["stats"] = {x: [v[0] - base.get(x, [0, 0])[0], v[1] - base.get(x, [0, 0])[1]]
                                    for x, v in smt.STATS.items() if isinstance(v, list)}
                    with os.fdopen(w, "w") as f:
                        f.write(json.dumps(out))
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        bad, unsup = set(), None
        for pid, r in kids:
            with os.fdopen(r) as f:
                t = f.read()
            _, status = os.waitpid(pid, 0)
            if status or not t:
                unsup = "a process checking back edges ended early"
                continue
            o = json.loads(t)
            unsup = o.get("unsup") or unsup
            bad.update(o["bad"])
            for x, (c, dt) in o["stats"].items():
                v = smt.STATS.setdefault(x, [0, 0.0])
                v[0] += c
                v[1] += dt
        if unsup:
            raise Unsupported(unsup)
        return [c for c in cands if c[0] in bad]

    def failing(self, cands, st, ghosts, fid):
        deps = {c[2] for c in cands if c[2] is not None}
        bad = []
        for c in cands:
            if c[0] in deps:
                v = self.inv_value(c, st, ghosts, fid)
                if v is None or v is not True and not self.entails(st, v):
                    bad.append(c)
        if bad:
            names = {c[0] for c in bad}
            return bad + [c for c in cands if c[2] in names]
        # one by one: what is shown to hold at this back edge helps with the next
        st = st.copy()
        bad = []
        for c in cands:
            v = self.inv_value(c, st, ghosts, fid)
            if c[0] not in deps and (v is None or not self.shown(st, v)):
                bad.append(c)
                if DEBUG:
                    print("dropped", c[0], v is None, flush=True)
            elif v is not None and zs.is_sym(v):
                n = len(st.pc)
                st.assume(v)
                self.invfacts.update(p.get_id() for p in st.pc[n:] if zs.is_sym(p))
                self.keep.append(v)
        return bad

    def check_variant(self, s, res, fid):
        """some measure of the pool decreases on every back edge and is non-negative"""
        head = res["head"]
        env0 = self.visible(head, fid, {})
        pool = [t for tags, t in self.contract.variants]
        pool += ["len(%s)" % n for n, v in head.frames[fid].items() if zs.is_str(v)]
        for text in pool:
            e = ast.parse(text, mode="eval").body
            try:
                m0 = self.eval_spec(e, env0, head)
                good = True
                for y, _ in res["backs"]:
                    m1 = self.eval_spec(e, self.visible(y, fid, {}), y)
                    if not self.entails(y, And(zs.le(0, m1), zs.lt(m1, m0))):
                        good = False
                        break
                if good:
                    ob = Obligation("loop variant", text, ("C18",), self.cur, s.lineno, [], True)
                    ob.status, ob.backend = "unsat", "z3"
                    self.obls.append(ob)
                    return
            except Unsupported:
                continue
        ob = Obligation("loop variant", "no measure of the pool decreases", ("C18",), self.cur, s.lineno, [], False)
        ob.status = "unknown"
        self.obls.append(ob)

    # ------------------------------------------------------------ one function
    def verify(self, c, fn):
        """collect the obligations of contract c for the real function fn"""
        self.contract = c
        self.cur = c.key
        node = self.src.node_of(fn)
        self.callstack = [node.name]
        self.light = c.light is True or self.prop in (c.light or ())
        for case in c.case_list():
            self.verify_case(c, fn, node, case)

    def verify_case(self, c, fn, node, case):
        st = State()
        env = {}
        names = [a.arg for a in node.args.args] + [a.arg for a in node.args.kwonlyargs]
        spec_env = {}
        for i, (pn, pt) in enumerate(c.params):
            if i >= len(names):
                raise Unsupported("%s has fewer parameters than its contract" % c.key)
            t = case.get(pn, pt)
            if isinstance(t, tuple) and t[0] == "const":
                v = t[1]
            else:
                v = mk(t, lambda p, so: z3.Const("arg." + pn + p, smt.SORTS[so]))
            spec_env[pn] = v
            if isinstance(v, LV):
                v = self.new_ref(st, Obj("list", v, owned=False, origin=("param", pn)))
            env[names[i]] = v
        _, _, _, defs, _ = self.fn_parts(Const(fn), st)
        for n in names[len(c.params):]:
            if n not in defs:
                raise Unsupported("%s has a new parameter %s without default" % (c.key, n))
            env[n] = defs[n]()
        st.frames[1] = dict(env)
        self.fid[0] = max(self.fid[0], 1)
        st.parents[1] = None
        st.frames["cur"] = {"fid": 1, "globs": fn.__globals__, "hoist": {}}
        self.entry_env = dict(spec_env)
        for n, v in env.items():
            self.entry_env.setdefault(n, v)
        for label, tags, text in c.requires:
            if self.use(tags):
                st.assume(self.truth(st, self.eval_spec(text, spec_env, st)))
        if not self.feasible(st):
            ob = Obligation("vacuity", "the precondition can be met", "*", self.cur, node.lineno, [], False)
            ob.status = "sat"
            self.obls.append(ob)
            return
        self.handlers = []
        self.leaks = None
        if c.flow and self.use(c.flow[0]):
            v = spec_env[c.flow[1]]
            self.leaks, self.watched = [], [0, lv_term(v)[0] if isinstance(v, LV) else v,
                                            r"\.(tools|jvozba|katna)\.(%s)(_7c_|$)" % "|".join(c.flow[2])]
        if c.raises and self.raise_clause(Exception):
            self.handlers = [[c.exc_class(x) for x in c.raises]]
        outs = self.exec_block(node.body, st)
        nret = 0
        for kind, y, v in outs:
            if kind == "next":
                kind, v = "ret", None
            if kind == "ret":
                nret += 1
                self.leak(node, st_value(y, v))
                self.ensure(c, spec_env, y, v, node)
            elif kind == "exc":
                self.exceptional(c, spec_env, y, v, node)
            else:
                raise Unsupported("%s outside a loop" % kind)
        self.retsites += nret
        if self.leaks is not None:
            ob = Obligation("flow", "%s matters only through %s" % (c.flow[1], ", ".join(c.flow[2])), c.flow[0], self.cur, node.lineno,
                            [], True)
            ob.status, ob.backend = "unknown" if self.leaks else "unsat", "syntactic"
            ob.info = "%d places looked at" % self.watched[0] if not self.leaks else "may depend on it otherwise at line %s" % (
                sorted(set(self.leaks)))
            self.obls.append(ob)

    def ensure(self, c, env, st, v, node):
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if not o.owned and self.use(("C14",)):
                self.oblige("frame", "the result is not shared with the module or the arguments", ("C14",), node, st, False)
        if c.ret == "none":
            return
        val = v
        self.curnode = node
        try:
            val = self.coerce_ret(st, v, c.ret)
        except Unsupported as u:
            self.oblige("postcondition", "type of the result", "*", node, st, False)
            self.obls[-1].info = str(u) if not self.quiet else ""
            return
        e2 = dict(env, result=val)
        clauses = list(c.ensures)
        if c.functional is not None:
            clauses.append(("result", c.functional[0], "result == (%s)" % c.functional[1]))
        for label, tags, text in clauses:
            if self.use(tags):
                goal = self.truth(st, self.eval_spec(text, e2, st))
                self.oblige("postcondition", label, tags, node, st, goal)

    def coerce_ret(self, st, v, t):
        if isinstance(t, tuple) and t[0] == "opt":
            if v is None:
                ph = mk_fresh(t[1], "none")
                return Opt(True, ph)
            if isinstance(v, Opt):
                return Opt(v.isnone, self.coerce_ret(st, v.val, t[1]))
            return Opt(False, self.coerce_ret(st, v, t[1]))
        if isinstance(v, Choice):
            return self.ite_value(st, v.cond, self.coerce_ret(st, v.a, t), self.coerce_ret(st, v.b, t))
        if isinstance(v, Opt):
            self.oblige("postcondition", "no None in the result", "*", self.curnode, st, Not(v.isnone))
            return self.coerce_ret(st, v.val, t)
        if isinstance(t, tuple) and t[0] == "list":
            if self.is_list(st, v):
                lv = self.lv(st, self.freeze(st, v))
                return LV(lv.segs, t[1])
        elif isinstance(t, tuple) and t[0] == "tuple":
            if isinstance(v, tuple) and len(v) == len(t) - 1:
                return tuple(self.coerce_ret(st, x, y) for x, y in zip(v, t[1:]))
        elif t == "int" and zs.is_bool(v):
            return Ite(v, 1, 0)
        elif t == "any" or type_of(v) == t:
            return v
        raise Unsupported("the result has type %s, the contract says %s" % (type_of(v), t))

    def exceptional(self, c, env, st, v, node):
        name = v.cls.__name__
        for xn, clauses in c.raises.items():
            if issubclass(v.cls, c.exc_class(xn)):
                for label, tags, text in clauses:
                    if self.use(tags):
                        goal = self.truth(st, self.eval_spec(text, env, st))
                        self.oblige("exceptional postcondition", "%s: %s" % (xn, label), tags, v.node, st, goal)
                return
        if self.prop == "C03":
            self.oblige("exception", "no %s" % name, ("C03",), v.node, st, False)
            if not self.quiet:
                self.obls[-1].info = "%s may be raised at line %s" % (name, getattr(v.node, "lineno", "?"))


def st_value(st, v):
    """a value with the contents of the list it may be"""
    if isinstance(v, Ref):
        return st_value(st, st.heap[v.oid].val)
    if isinstance(v, tuple):
        return tuple(st_value(st, x) for x in v)
    if isinstance(v, LV):
        return [st_value(st, x) for s in v.segs for x in s[1:] if s[0] != "o" or zs.is_sym(x)]
    return v


def mk_ghost(v):
    """a fresh value for a loop ghost (only to see whether a candidate depends on it)"""
    if isinstance(v, LV):
        return opq(fresh("list", "gh"), v.elt_type()) if v.elt_type() is not None else v
    if zs.is_str(v):
        return fresh("str", "gh")
    if zs.is_int(v):
        return fresh("int", "gh")
    return v


def rebound_names(s):
    out = set()
    for x in ast.walk(s):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
        # += on a list keeps the object; treat its target as rebound only if it
        # is not a list, which the caller knows
    for x in ast.walk(s):
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            if not any(isinstance(y, (ast.Assign, ast.AnnAssign, ast.For)) and x.target.id in plain_targets(y)
                       for y in ast.walk(s)):
                out.discard(x.target.id)
    return out


def plain_targets(y):
    ts = y.targets if isinstance(y, ast.Assign) else [y.target]
    return {n.id for t in ts for n in ast.walk(t) if isinstance(n, ast.Name)}


def join_shape(a, b):
    if a == b or b is None:
        return a
    if a is None:
        return b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[0] == b[0] == "family" and a[1] == b[1]:
            return ("family", a[1], join_type(a[2], b[2]))
        if a[0] == b[0] == "dict":
            return ("dict", join_type(a[1], b[1]))
        if a[0] == b[0] == "struct" and len(a) == len(b):
            return ("struct",) + tuple(join_shape(x, y) for x, y in zip(a[1:], b[1:]))
        if a[0] == b[0] == "list":
            return ("list", join_type(a[1], b[1]))
        if a[0] == b[0] == "tuple" and len(a) == len(b):
            return ("tuple",) + tuple(join_shape(x, y) for x, y in zip(a[1:], b[1:]))
    if isinstance(a, tuple) and a[0] == "opt" or isinstance(b, tuple) and b[0] == "opt" or a == "none" or b == "none":
        ia = a[1] if isinstance(a, tuple) and a[0] == "opt" else a
        ib = b[1] if isinstance(b, tuple) and b[0] == "opt" else b
        if ia == "none":
            return ("opt", ib)
        if ib == "none":
            return ("opt", ia)
        return ("opt", join_shape(ia, ib))
    return join_type(a, b)
