"""Symbolic executor for the verified Python subset.

It executes the abstract syntax trees of the real functions (read from /repo on
every run) path by path, cuts loops at invariants, replaces calls of functions
under contract by their contracts, and collects proof obligations.
"""
import ast
import builtins
import inspect
import re
import time
import types as pytypes
import z3

from . import zs, smt
from .zs import And, Or, Not, Implies, Ite
from .smt import (Unsupported, Opt, LV, ListEq, lv_concat, elems, opq, type_of, join_type, mk, mk_fresh, fresh,
                  lv_term, lv_len, fold_lv, make_fold, lst_len, LIST, Hom)

MAXUNROLL = 12


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return "Ref(%d)" % self.oid


class Obj:
    """a heap object: kind 'list' (val LV) or 'dict' (val LV of (key, value))"""
    __slots__ = ("kind", "val", "owned", "frozen", "origin", "kv")

    def __init__(self, kind, val, owned=True, frozen=False, origin="", kv=None):
        self.kind, self.val, self.owned, self.frozen, self.origin, self.kv = kind, val, owned, frozen, origin, kv

    def with_val(self, val):
        return Obj(self.kind, val, self.owned, self.frozen, self.origin, self.kv)


class Const:
    """a Python object of the real program that is not a scalar: function,
    class, module, regular-expression match, ..."""
    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj

    def __repr__(self):
        return "Const(%r)" % (self.obj,)


class Table:
    """a module-level dict that is only looked up"""
    __slots__ = ("obj", "name", "spec")

    def __init__(self, obj, name, spec):
        self.obj, self.name, self.spec = obj, name, spec


class Closure:
    __slots__ = ("node", "fid", "globs", "name")

    def __init__(self, node, fid, globs, name):
        self.node, self.fid, self.globs, self.name = node, fid, globs, name


class Bound:
    """a bound method"""
    __slots__ = ("recv", "name", "node")

    def __init__(self, recv, name, node):
        self.recv, self.name, self.node = recv, name, node


class Iter:
    """an iterable: ('list', LV) ('str', s) ('range', lo, hi) ('enum', Iter, start)
    ('zip', [Iter]) ('gen', node, env)"""
    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args


class Match:
    """result of a regular-expression match"""
    __slots__ = ("groups",)

    def __init__(self, groups):
        self.groups = groups


class Choice:
    """value that is a under cond, else b (for values that are not scalars)"""
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class DView:
    """part of a family: a nested list of dicts, kept as one dict whose keys
    are the indices followed by the key"""
    __slots__ = ("ref", "idx", "dims")

    def __init__(self, ref, idx, dims):
        self.ref, self.idx, self.dims = ref, idx, dims


class NeedFork(Exception):
    def __init__(self, why, node):
        self.why, self.node = why, node


class State:
    __slots__ = ("frames", "heap", "pc", "excs", "parents")

    def __init__(self):
        self.frames, self.heap, self.pc, self.excs, self.parents = {}, {}, [], [], {}

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.parents = dict(self.parents)
        return s

    def assume(self, c):
        if isinstance(c, ListEq):
            self.pc.append(c)
            return
        c = zs.lit(c)
        if c is True:
            return
        if zs.is_sym(c) and z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        self.pc.append(c)


class Obligation:
    __slots__ = ("kind", "label", "tags", "fn", "line", "facts", "goal", "status", "backend", "time", "info", "env", "model")

    def __init__(self, kind, label, tags, fn, line, facts, goal, info=""):
        self.kind, self.label, self.tags, self.fn, self.line = kind, label, tags, fn, line
        self.facts, self.goal, self.info = facts, goal, info
        self.status, self.backend, self.time, self.env, self.model = None, "", 0.0, None, None


SCALAR = (str, int, bool, type(None))


class Source:
    """the real modules and their syntax trees"""

    def __init__(self, modules):
        self.modules = modules
        self.trees = {}
        self.defs = {}
        self.loops = {}
        for m in modules:
            src = inspect.getsource(m)
            tree = ast.parse(src)
            self.trees[m.__name__] = tree
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    self.defs[(m.__name__, n.name)] = n
                elif isinstance(n, ast.ClassDef):
                    for k in n.body:
                        if isinstance(k, ast.FunctionDef):
                            self.defs[(m.__name__, n.name + "." + k.name)] = k

        for (m, f), n in self.defs.items():
            for i, y in enumerate(x for x in ast.walk(n) if isinstance(x, (ast.For, ast.While))):
                self.loops[id(y)] = "%s.%s:%d" % (m.split(".")[-1], f, i)

    def node_of(self, f):
        return self.defs.get((f.__module__, f.__qualname__))


def assigned_names(nodes):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)
            for x in ast.walk(n):
                if isinstance(x, ast.Nonlocal):
                    out.update(x.names)

        def visit_Import(self, n):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def comp(self, n):
            pass          # comprehension variables are local to it
        visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comp

        def visit_Lambda(self, n):
            pass
    v = V()
    for n in nodes:
        v.visit(n)
    return out


CFOLD = {}


def char_fold(kind, f):
    """homomorphism over the characters of a string: kind 'and' or 'sum'"""
    ph = zs.PHC
    body = zs.lit(f(ph))
    if kind == "and":
        cs = zs.char_set(body)
        if cs is not None:
            return zs.InClass(cs)
    key = (kind, body.sexpr() if zs.is_sym(body) else repr(body))
    smt.note_capture(key[1])
    if key not in CFOLD:
        def at(c):
            return zs.lit(z3.simplify(z3.substitute(body, (ph, smt.to_term(c))))) if zs.is_sym(body) else body
        if kind == "and":
            h = Hom("cf%d_and" % len(CFOLD), "bool", lambda s: And(*[at(c) for c in s]), lambda a, b, x, y: And(a, b),
                    lambda t, h: [Implies(zs.ieq(zs.length(t), 1), zs.Iff(h.decl(t), smt.subst(body, [ph], [t]))),
                                  Implies(zs.ieq(zs.length(t), 0), h.decl(t))])
        else:
            h = Hom("cf%d_sum" % len(CFOLD), "int", lambda s: sum2([at(c) for c in s]), lambda a, b, x, y: zs.add(a, b),
                    lambda t, h: [Implies(zs.ieq(zs.length(t), 1), zs.ieq(h.decl(t), smt.subst(body, [ph], [t]))),
                                  Implies(zs.ieq(zs.length(t), 0), h.decl(t) == 0)])
        CFOLD[key] = h
    return CFOLD[key]


def sum2(xs):
    t = 0
    for x in xs:
        t = zs.add(t, x)
    return t


class Engine:
    def __init__(self, source, contracts, specns, tables, prop, opts=None):
        self.src, self.contracts, self.specns, self.tables, self.prop = source, contracts, specns, tables, prop
        self.opts = opts or {}
        self.obls = []
        self.handlers = []
        self.spec = 0
        self.nofeas = 0
        self.depth = 0
        self.oid = [0]
        self.fid = [0]
        self.cur = None
        self.loopstack = []
        self.loop_report = {}
        self.dropped = {}
        self.invfacts = set()
        self.keep = []
        self.found = {}
        self.assumed = set()
        self.inlined = set()
        self.templates = {}
        self.called = set()
        self.deadline = None
        self.feas_timeout = 1500
        self.inv_timeout = 3000
        self.unsup = []
        self.trusted = set()
        self.retsites = 0
        self.quiet = 0
        self.light = False
        self.safety_sites = {}
        self.trivial = 0
        self.freshfacts = 0
        self.callstack = []
        self.contract = None
        self.entry_env = {}
        self.dyn = None
        self.leaks = None
        self.leanon = set()
        self.functions = set(contracts)

    # ------------------------------------------------------------ utilities
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the function exhausted")

    def feasible(self, st, cond=True):
        cond = zs.lit(cond)
        if cond is False:
            return False
        if self.nofeas:
            return True
        self.tick()
        if smt.light_unsat(st.pc + [cond]):
            return False
        if self.light:
            return True
        r = smt.check(st.pc + [cond], timeout=self.feas_timeout, nofallback=True)
        return r.status != "unsat"

    def entails(self, st, cond, timeout=None, extra=()):
        cond = zs.lit(cond)
        if cond is True:
            return True
        self.tick()
        r = smt.prove(st.pc + list(extra), cond, timeout=timeout or self.inv_timeout)
        return r.status == "unsat"

    def known(self, st, cond):
        """cheap entailment used to pick a simpler encoding"""
        cond = zs.lit(cond)
        if isinstance(cond, bool):
            return cond
        if self.spec or self.nofeas:
            cs = cond.get_id()
            return any(zs.is_sym(p) and p.get_id() == cs for p in st.pc)
        if smt.light_unsat(st.pc + [Not(cond)]):
            return True
        if self.light:
            return False
        r = smt.check(st.pc + [Not(cond)], timeout=400, nofallback=True)
        return r.status == "unsat"

    def new_ref(self, st, obj):
        self.oid[0] += 1
        st.heap[self.oid[0]] = obj
        return Ref(self.oid[0])

    def leak(self, node, *terms):
        """note terms that depend on the watched parameter other than through
        the functions the contract names"""
        if self.leaks is None or self.quiet or self.spec:
            return
        self.watched[0] += 1
        todo, seen = list(terms), set()
        while todo:
            t = todo.pop()
            if isinstance(t, LV):
                todo.extend(x for s in t.segs for x in s[1:] if s[0] != "o" or zs.is_sym(x))
            elif isinstance(t, (tuple, list)):
                todo.extend(t)
            elif isinstance(t, Opt):
                todo += [t.isnone, t.val]
            elif isinstance(t, Choice):
                todo += [t.cond, t.a, t.b]
            elif isinstance(t, Iter):
                todo.extend(t.args)
            elif isinstance(t, ListEq):
                todo += [t.cond, t.term, t.lv]
            elif zs.is_sym(t):
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                d = t.decl().name()
                if d.startswith(("ret", "out.")) and re.search(self.watched[2], d) and t.num_args() and t.arg(0).eq(self.watched[1]):
                    todo.extend(t.children()[1:])
                elif t.eq(self.watched[1]):
                    self.leaks.append(getattr(node, "lineno", 0))
                    return
                else:
                    todo.extend(t.children())

    def leak_state(self, node, st, names, oids=()):
        for f, n in names:
            v = st.frames.get(f, {}).get(n)
            self.leak(node, st.heap[v.oid].val if isinstance(v, Ref) and v.oid in st.heap else v)
        for k in oids:
            if k in st.heap:
                self.leak(node, st.heap[k].val)

    def exc(self, st, cond, cls, node, guard):
        if self.spec:
            return
        c = And(guard, cond)
        self.leak(node, c)
        if zs.lit(c) is False:
            return
        st.excs.append((c, cls, node))

    # ------------------------------------------------------------ constants
    def from_py(self, st, v, name="", owned=False):
        if isinstance(v, SCALAR):
            return v
        if isinstance(v, tuple):
            return tuple(self.from_py(st, x, name) for x in v)
        if isinstance(v, (list, set, frozenset)) and all(isinstance(x, SCALAR) or isinstance(x, tuple) for x in v):
            key = ("g", id(v))
            for k, o in st.heap.items():
                if o.origin == key:
                    return Ref(k)
            return self.new_ref(st, Obj("list", elems([self.from_py(st, x) for x in v]), owned=owned, origin=key))
        if isinstance(v, dict):
            for t in self.tables:
                if t["match"](v):
                    return Table(v, name, t)
            if all(isinstance(x, SCALAR) for x in v) and all(isinstance(x, SCALAR) for x in v.values()):
                key = ("g", id(v))
                for k, o in st.heap.items():
                    if o.origin == key:
                        return Ref(k)
                return self.new_ref(st, Obj("dict", elems([(a, b) for a, b in v.items()]), owned=False, origin=key))
            return Const(v)
        return Const(v)

    # ------------------------------------------------------------ names
    def lookup(self, st, fid, name, globs, node):
        f = fid
        while f is not None:
            fr = st.frames[f]
            if name in fr:
                v = fr[name]
                if v is UNBOUND:
                    raise Unsupported("local %r may be unbound" % name)
                return v
            f = st.parents.get(f)
        if name in globs:
            return self.from_py(st, globs[name], name)
        if hasattr(builtins, name):
            return Const(getattr(builtins, name))
        if self.spec:
            raise Unsupported("name %r is not defined here" % name)
        raise NameErr(name)

    # ------------------------------------------------------------ list access
    def lv(self, st, v):
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if o.kind == "dict":
                return LV([("e", s[1][0]) if s[0] == "e" else s for s in o.val.segs]) if o.val.concrete else self.map_lv(
                    st, o.val, lambda e: e[0])
            return o.val
        if isinstance(v, LV):
            return v
        if isinstance(v, Opt):
            return self.lv(st, v.val)
        if isinstance(v, tuple):
            return elems(v)
        raise Unsupported("expected a list, got %r" % (v,))

    def is_list(self, st, v):
        return isinstance(v, LV) or (isinstance(v, Ref) and st.heap[v.oid].kind == "list")

    def is_dict(self, st, v):
        return isinstance(v, Ref) and st.heap[v.oid].kind == "dict" and st.heap[v.oid].kv is None

    def family(self, st, v):
        """v as a view of a family of dicts, or None"""
        if isinstance(v, DView):
            return v
        if isinstance(v, Ref) and st.heap[v.oid].kind == "dict" and st.heap[v.oid].kv is not None:
            return DView(v, (), st.heap[v.oid].kv)
        return None

    def as_family(self, st, nodes, vals):
        """the object for a list display whose elements are new empty dicts, or None"""
        if not vals or not all(isinstance(n, (ast.Dict, ast.List, ast.ListComp)) for n in nodes):
            return None
        if not all(isinstance(v, Ref) and st.heap[v.oid].kind == "dict" and not st.heap[v.oid].val.segs for v in vals):
            return None
        if len({st.heap[v.oid].kv for v in vals}) != 1:
            return None
        return Obj("dict", LV([], None), kv=(len(vals),) + (st.heap[vals[0].oid].kv or ()))

    def freeze(self, st, v, deep=True):
        """the immutable value of v (snapshot of lists)"""
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if o.kind != "list":
                raise Unsupported("a dict is used as a value")
            return LV([(s[0], s[1], self.freeze(st, s[2])) if s[0] == "c" else ("e", self.freeze(st, s[1])) if s[0] == "e" else s
                       for s in o.val.segs], o.val.elt)
        if isinstance(v, tuple):
            return tuple(self.freeze(st, x) for x in v)
        if isinstance(v, Opt):
            return Opt(v.isnone, self.freeze(st, v.val))
        return v

    def store_elem(self, st, v, target):
        """value stored into a container: nested mutable lists stay references
        only in lists whose elements are known one by one"""
        return v

    def map_lv(self, st, lv, f, cond=None):
        """[f(x) for x in lv if cond(x)] as a list value, by fold fusion on opaque parts"""
        segs, elt = [], None
        for s in lv.segs:
            if s[0] == "o":
                segs.append(self.map_opaque(s, f, cond))
                elt = join_type(elt, segs[-1][2])
            else:
                v = s[-1]
                c = s[1] if s[0] == "c" else True
                if cond is not None:
                    c = And(c, cond(v))
                w = f(v)
                if zs.lit(c) is False:
                    continue
                segs.append(("e", w) if zs.lit(c) is True else ("c", c, w))
        return LV(segs, elt)

    def map_opaque(self, s, f, cond):
        _, term, elt = s
        ph = mk(elt, lambda p, so: z3.Const("ph%s:%s" % (p, so), smt.SORTS[so]))
        w = f(ph)
        c = zs.lit(cond(ph)) if cond is not None else True
        welt = type_of(w)
        ws = smt.scalars(w, welt)
        if c is True and ws and all(zs.same(a, b) for a, b in zip(ws, smt.scalars(ph, elt))) and repr(welt) == repr(elt):
            return s
        key = (repr(elt), repr(welt), tuple(x.sexpr() if zs.is_sym(x) else repr(x) for x in ws),
               c.sexpr() if zs.is_sym(c) else repr(c))
        smt.note_capture(repr(key))
        if key not in smt.COMPS:
            smt.COMPS[key] = ("comp%d" % len(smt.COMPS), elt, welt, ph, w, c)
            name = smt.COMPS[key][0]
            smt.decl(name, [LIST], LIST)
            smt.COMP_BY_NAME[name] = smt.COMPS[key]
        name = smt.COMPS[key][0]
        return ("o", smt.DECLS[name][0](term), welt)


UNBOUND = object()


class NameErr(Exception):
    def __init__(self, name):
        self.name = name
