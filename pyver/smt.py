"""Logical layer: registered function symbols with axiom generators, list
folds, string homomorphisms, the axiom closure of a query, and the solvers.

No query contains a quantifier.  A function symbol that stands for a real
function, a specification function, a list fold or a string homomorphism has a
generator that yields its defining facts for given arguments; the closure of a
query instantiates them for the applications that occur in it.
"""
import itertools
import re
import threading
import time
import z3
from . import zs
from .zs import And, Or, Not, Implies, Ite

LIST = z3.DeclareSort("Lst")
SORTS = {"str": z3.StringSort(), "int": z3.IntSort(), "bool": z3.BoolSort(), "list": LIST}


class Unsupported(Exception):
    """the code is outside the verified subset; carries the reason"""


# ------------------------------------------------------------ function symbols
_safe = {}


def safe(name):
    """the name as a plain SMT-LIB symbol"""
    if name not in _safe:
        _safe[name] = re.sub("[^A-Za-z0-9_.!]", lambda m: "_%x_" % ord(m.group()), name)
    return _safe[name]


class Decls(dict):
    def __getitem__(self, k):
        return dict.__getitem__(self, safe(k))

    def __contains__(self, k):
        return dict.__contains__(self, safe(k))

    def __setitem__(self, k, v):
        dict.__setitem__(self, safe(k), v)


DECLS = Decls()        # name -> (FuncDecl, generator or None)


def decl(name, argsorts, ressort, gen=None):
    name = safe(name)
    if name not in DECLS:
        DECLS[name] = [z3.Function(name, *argsorts, ressort), gen]
    elif gen is not None and DECLS[name][1] is None:
        DECLS[name][1] = gen
    return DECLS[name][0]


_fresh = [0]


def fresh_name(hint):
    _fresh[0] += 1
    return "%s!%d" % (hint, _fresh[0])


def fresh(sort, hint="v"):
    return z3.Const(fresh_name(hint), SORTS.get(sort, sort))


# ------------------------------------------------------------ values and types
class Opt:
    """a value that may be None: None exactly when `isnone` holds"""
    __slots__ = ("isnone", "val")

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val

    def __repr__(self):
        return "Opt(%s,%s)" % (self.isnone, self.val)


class LV:
    """an immutable list value: a concatenation of known elements ('e', v) and
    opaque parts ('o', term of sort List, element type) and conditional
    elements ('c', condition, v)"""
    __slots__ = ("segs", "elt")

    def __init__(self, segs, elt=None):
        self.segs = tuple(segs)
        self.elt = elt

    def __repr__(self):
        return "LV%r" % (self.segs,)

    @property
    def concrete(self):
        return all(s[0] == "e" for s in self.segs)

    def items(self):
        assert self.concrete
        return [s[1] for s in self.segs]

    def elt_type(self):
        if self.elt is not None:
            return self.elt
        for s in self.segs:
            if s[0] == "o":
                return s[2]
        t = None
        for s in self.segs:
            t = join_type(t, type_of(s[-1]))
        return t


def lv_concat(*ls):
    segs, elt = [], None
    for l in ls:
        elt = join_type(elt, l.elt_type())
        segs.extend(l.segs)
    return LV(segs, elt)


def elems(vals):
    return LV([("e", v) for v in vals])


def opq(term, elt):
    return LV([("o", term, elt)], elt)


def type_of(v):
    if v is None:
        return "none"
    if zs.is_bool(v):
        return "bool"
    if zs.is_int(v):
        return "int"
    if zs.is_str(v):
        return "str"
    if isinstance(v, Opt):
        return ("opt", type_of(v.val))
    if isinstance(v, tuple):
        return ("tuple",) + tuple(type_of(x) for x in v)
    if isinstance(v, LV):
        return ("list", v.elt_type())
    return "other"


def join_type(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if a == "none":
        return b if isinstance(b, tuple) and b[0] == "opt" else ("opt", b)
    if b == "none":
        return join_type(b, a)
    if isinstance(a, tuple) and a[0] == "opt":
        return ("opt", join_type(a[1], b[1] if isinstance(b, tuple) and b[0] == "opt" else b))
    if isinstance(b, tuple) and b[0] == "opt":
        return join_type(b, a)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
        if a[0] == "tuple" and len(a) == len(b):
            return ("tuple",) + tuple(join_type(x, y) for x, y in zip(a[1:], b[1:]))
        if a[0] == "list":
            return ("list", join_type(a[1], b[1]))
    if {a, b} == {"int", "bool"}:
        return "int"
    raise Unsupported("values of types %s and %s meet" % (a, b))


def mk(t, f, path=""):
    """build a value of type t whose scalars are f(path, sort)"""
    if t in ("str", "int", "bool"):
        return f(path, t)
    if t == "none":
        return None
    if isinstance(t, tuple):
        if t[0] == "opt":
            return Opt(f(path + ".n", "bool"), mk(t[1], f, path + ".v"))
        if t[0] == "tuple":
            return tuple(mk(x, f, "%s.%d" % (path, i)) for i, x in enumerate(t[1:]))
        if t[0] == "list":
            return opq(f(path, "list"), t[1])
    raise Unsupported("no symbolic value of type %r" % (t,))


def mk_fresh(t, hint):
    return mk(t, lambda p, s: fresh(s, hint + p))


def scalars(v, t=None):
    """the scalar terms of a value, in the order mk() makes them (t: its type)"""
    t = t or type_of(v)
    if t in ("str", "int", "bool"):
        return [v]
    if t == "none":
        return []
    if isinstance(t, tuple):
        if t[0] == "opt":
            if v is None:
                return [True] + [default(s) for s in scalar_sorts(t[1])]
            if isinstance(v, Opt):
                return [v.isnone] + scalars(v.val, t[1])
            return [False] + scalars(v, t[1])
        if t[0] == "tuple":
            return [y for x, tt in zip(v, t[1:]) for y in scalars(x, tt)]
        if t[0] == "list":
            return [lv_term(v)[0]]
    raise Unsupported("scalars of %r" % (t,))


def scalar_sorts(t):
    out = []
    mk(t, lambda p, s: out.append(s))
    return out


def default(s):
    return {"str": "", "int": 0, "bool": False, "list": EMPTY}[s]


EMPTY = z3.Const("EMPTY", LIST)


def to_term(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, str):
        return z3.StringVal(v)
    return v


_names = {}


def lv_key(v):
    if isinstance(v, LV):
        return ("L",) + tuple((s[0],) + tuple(lv_key(x) for x in s[1:2 if s[0] == "o" else None]) for s in v.segs)
    if isinstance(v, tuple):
        return ("T",) + tuple(lv_key(x) for x in v)
    if isinstance(v, Opt):
        return ("O", lv_key(v.isnone), lv_key(v.val))
    if zs.is_sym(v):
        return ("z", v.get_id())
    return (type(v).__name__, v)


_keep = []
DEFS = {}       # list constant id -> (constant, LV): unconditional definitions


def lv_term(v):
    """a List term equal to the value: the opaque part itself, or a constant
    defined to be the list"""
    if isinstance(v, LV):
        if len(v.segs) == 1 and v.segs[0][0] == "o":
            return v.segs[0][1], v.segs[0][2]
        if not v.segs:
            DEFS.setdefault(EMPTY.get_id(), (EMPTY, LV([], None)))
            return EMPTY, v.elt
        k = lv_key(v)
        if k not in _names:
            c = fresh(LIST, "lst")
            _names[k] = c
            _keep.append(v)
            DEFS[c.get_id()] = (c, v)
        return _names[k], v.elt_type()
    raise Unsupported("not a list value: %r" % (v,))


# ------------------------------------------------------------ folds
FOLDS = {}        # decl name -> Fold
_fold_ix = {}


class Fold:
    """monoid homomorphism from lists: and, sum, cat, join"""

    def __init__(self, name, monoid, ph, body, elt):
        self.name, self.monoid, self.ph, self.body, self.elt = name, monoid, ph, body, elt
        self.phs = [p for p in scalars(ph, elt)]

    def at(self, v):
        return subst(self.body, self.phs, scalars(v, self.elt))

    @property
    def sort(self):
        m = self.monoid[0]
        return {"and": "bool", "sum": "int", "cat": "str", "join": "str"}[m]


def subst(body, phs, vals):
    if not zs.is_sym(body):
        return body
    return simp_top(z3.substitute(body, *[(p, to_term(v)) for p, v in zip(phs, vals)]))


def simp_top(t):
    return zs.lit(t)


def norm_elt(t):
    return t


def make_fold(monoid, elt, f):
    """f: element value -> scalar term.  Returns a function LV -> scalar"""
    key0 = ("ph", elt)
    ph = mk(elt, lambda p, s: z3.Const("ph%s:%s" % (p, s), SORTS[s]))
    body = zs.lit(f(ph))
    return body_fold(monoid, elt, ph, body)


CAPTURED = [0]


def note_capture(text):
    """a fold or comprehension whose body speaks about a template placeholder
    cannot be instantiated by substitution"""
    if "tph" in text:
        CAPTURED[0] += 1


def body_fold(monoid, elt, ph, body):
    key = (monoid, repr(elt), body.sexpr() if zs.is_sym(body) else repr(body))
    note_capture(key[2])
    if key not in _fold_ix:
        name = "fold%d_%s" % (len(_fold_ix), monoid[0])
        fo = Fold(name, monoid, ph, body, elt)
        _fold_ix[key] = fo
        FOLDS[name] = fo
        decl(name, [LIST], SORTS[fo.sort])
    return _fold_ix[key]


_lenf = None


def lst_len(l):
    if l.eq(EMPTY):
        return 0
    cp = comp_of(l)
    if cp is not None:
        c = cp[1][5]
        if c is True:
            return lst_len(cp[0])
        return fold_term(body_fold(("sum",), cp[1][1], cp[1][3], Ite(c, 1, 0)), cp[0])
    return decl("len", [LIST], z3.IntSort(), lambda L: [z3.Function("len", LIST, z3.IntSort())(L) >= 0])(l)


COMPS = {}          # key -> (name, elt, welt, ph, w, cond)
COMP_BY_NAME = {}


def comp_of(l):
    """(base, comprehension) when l is [w(x) for x in base if c(x)]"""
    if l.num_args() == 1 and l.decl().name() in COMP_BY_NAME:
        return l.arg(0), COMP_BY_NAME[l.decl().name()]
    return None


def fuse(fo, comp):
    """fold over a comprehension as a fold over its base list"""
    _, elt, welt, ph, w, c = comp
    m = fo.monoid[0]
    b = subst(fo.body, fo.phs, scalars(w, welt))
    if m == "and":
        b = Implies(c, b)
    elif c is not True:
        if m == "join":
            raise Unsupported("join of a filtered list")
        b = Ite(c, b, 0 if m == "sum" else "")
    return body_fold(fo.monoid, elt, ph, b)


def fold_term(fo, l):
    if l.eq(EMPTY):
        return {"and": True, "sum": 0, "cat": "", "join": ""}[fo.monoid[0]]
    m, b = fo.monoid[0], fo.body
    cp = comp_of(l)
    if cp is not None:
        return fold_term(fuse(fo, cp[1]), cp[0])
    if m == "and" and b is True:
        return True
    if m == "sum" and not zs.is_sym(b):
        return lst_len(l) if b == 1 else (0 if b == 0 else lst_len(l) * b)
    if m == "cat" and b == "":
        return ""
    return DECLS[fo.name][0](l)


def fold_lv(fo, lv):
    """value of the fold on a list value"""
    m = fo.monoid[0]
    if m == "and":
        return And(*[Implies(s[1], fo.at(s[2])) if s[0] == "c" else fo.at(s[1]) if s[0] == "e" else fold_term(fo, s[1])
                     for s in lv.segs])
    if m == "sum":
        t = 0
        for s in lv.segs:
            t = zs.add(t, Ite(s[1], fo.at(s[2]), 0) if s[0] == "c" else fo.at(s[1]) if s[0] == "e" else fold_term(fo, s[1]))
        return t
    if m == "cat":
        return zs.concat(*[Ite(s[1], fo.at(s[2]), "") if s[0] == "c" else fo.at(s[1]) if s[0] == "e" else fold_term(fo, s[1])
                           for s in lv.segs])
    if m == "join":
        sep = fo.monoid[1]
        acc, non = "", False           # non: is the list so far non-empty
        for s in lv.segs:
            if s[0] == "o":
                n1, v = zs.lt(0, lst_len(s[1])), fold_term(fo, s[1])
            elif s[0] == "c":
                n1, v = s[1], fo.at(s[2])
            else:
                n1, v = True, fo.at(s[1])
            if n1 is True:
                acc = zs.concat(zs.concat(acc, sep), v) if non is True else \
                    v if non is False else zs.concat(Ite(non, zs.concat(acc, sep), ""), v)
            elif non is True:
                acc = zs.concat(acc, Ite(n1, zs.concat(sep, v), ""))
            elif non is False:
                acc = Ite(n1, v, "")
            else:
                acc = Ite(non, zs.concat(acc, Ite(n1, zs.concat(sep, v), "")), Ite(n1, v, ""))
            non = Or(non, n1)
        return acc
    raise AssertionError(m)


def lv_len(lv):
    n = 0
    for s in lv.segs:
        n = zs.add(n, Ite(s[1], 1, 0) if s[0] == "c" else 1 if s[0] == "e" else
                   (0 if s[1].eq(EMPTY) else lst_len(s[1])))
    return n


class ListEq:
    """path fact: when cond holds, the list `term` equals `lv`"""
    __slots__ = ("cond", "term", "lv")

    def __init__(self, cond, term, lv):
        self.cond, self.term, self.lv = cond, term, lv


def list_fact_axioms(fo, eq):
    a = fold_term(fo, eq.term)
    b = fold_lv(fo, eq.lv)
    return Implies(eq.cond, eq_scalar(a, b))


def eq_scalar(a, b):
    if zs.is_bool(a):
        return zs.Iff(a, b)
    if zs.is_str(a):
        return zs.seq(a, b)
    return zs.ieq(a, b)


# ------------------------------------------------------------ string homomorphisms
HOMS = {}     # decl name -> Hom


class Hom:
    """a function of a string that is determined on x++y by its values on x and
    y and the characters at the boundary.
    literal(str) -> value;  combine(vx, vy, x, y) -> value of x++y"""

    def __init__(self, name, ressort, literal, combine, lemmas=None, cut=None, short=None, k=None):
        self.short = short
        self.k = k          # a Boolean homomorphism is decided by the substrings of length k + 1
        self.over = {}
        self.name, self.literal, self.combine, self.lemmas, self.cut = name, literal, combine, lemmas, cut
        self.decl = decl(name, [z3.StringSort()], SORTS[ressort])
        HOMS[safe(name)] = self

    def __call__(self, s):
        s = zs.lit(s)
        if isinstance(s, str):
            return self.literal(s)
        return self.decl(s)

    def holds_over(self, r):
        """true on every word over the character class r: true on all words of length at most k + 1"""
        key = r.get_id()
        if key not in self.over:
            cs = class_chars(r)
            ok = cs is not None and self.k is not None and len(cs) ** (self.k + 1) < 20000
            n = 0
            while ok and n <= self.k + 1:
                ok = all(self.literal("".join(w)) is True for w in itertools.product(cs, repeat=n))
                n += 1
            self.over[key] = (r, ok)
        return self.over[key][1]

    def axioms(self, t):
        """facts about decl(t)"""
        out = []
        if self.lemmas:
            out.extend(self.lemmas(t, self))
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            out.append(eq_scalar(self.decl(t), Ite(c, self(a), self(b))))
            return out
        ps = zs.concat_parts(t)
        if len(ps) > 1:
            x, y = ps[0], zs.concat(*ps[1:])
            out.append(eq_scalar(self.decl(t), self.combine(self(x), self(y), x, y)))
        return out

    def split(self, s, k):
        """s = s[:k] ++ s[k:]"""
        x, y = zs.substr(s, 0, k), zs.suffix(s, k)
        c = And(zs.le(0, k), zs.le(k, zs.length(s)))
        if self.cut is not None:
            return Implies(c, eq_scalar(self(s), And(self(x), self(y), self.cut(s, k, zs.length(s)))))
        return Implies(c, eq_scalar(self(s), self.combine(self(x), self(y), x, y)))


# ------------------------------------------------------------ closure
_sub_cache = {}
_gen = {}         # application id -> (application, its defining facts)
_lfa = {}


def subterms(t):
    """(apps of uninterpreted decls, string terms) below t"""
    k = t.get_id()
    if k in _sub_cache:
        return _sub_cache[k][1]
    seen, stack, apps, strs = set(), [t], [], []
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                apps.append(x)
            if x.sort() == zs.StringSort and not z3.is_string_value(x):
                strs.append(x)
            stack.extend(x.children())
    _sub_cache[k] = (t, (apps, strs))
    return apps, strs


_star_cache = {}


def stars_in(t):
    """the memberships s in C* (C a character class) below t"""
    k = t.get_id()
    if k not in _star_cache:
        out, seen, stack = [], set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_SEQ_IN_RE):
                if z3.is_app_of(x.arg(1), z3.Z3_OP_RE_STAR):
                    out.append(x)
            elif z3.is_app(x) and x.num_args() and x.sort() == z3.BoolSort():
                stack.extend(x.children())
        _star_cache[k] = (t, out)
    return _star_cache[k][1]


def class_chars(r):
    """the characters of C in C*, or None"""
    out, stack = [], [r.arg(0)]
    while stack:
        x = stack.pop()
        if z3.is_app_of(x, z3.Z3_OP_RE_UNION):
            stack.extend(x.children())
        elif z3.is_app_of(x, z3.Z3_OP_SEQ_TO_RE) and z3.is_string_value(x.arg(0)) and len(zs.lit(x.arg(0))) == 1:
            out.append(zs.lit(x.arg(0)))
        else:
            return None
    return out


IMPLIED = {}     # (fold name P, fold name Q) -> bool: P(x) => Q(x) is valid
STRICT = threading.local()


def closure(facts, depth=400, stars=True):
    """facts: list of z3 Bool / python bool / ListEq.  Returns z3 Bools with all
    instantiated axioms, or None when trivially inconsistent"""
    out, eqs = [], []
    work = []
    for f in facts:
        if isinstance(f, ListEq):
            eqs.append(f)
        else:
            f = zs.lit(f)
            if f is False:
                return None
            if f is True:
                continue
            work.append(f)
    seen_f, seen_app = set(), set()
    used_folds = {}       # list term id -> (term, {fold names})
    hom_used = {}
    strterms = {}
    streqs, topeq, shaped = [], set(), set()
    by_term = {}
    for e in eqs:
        by_term.setdefault(e.term.get_id(), []).append(e)
    done_pairs = set()
    done_split = set()
    n = 0
    eq_terms = {e.term.get_id(): e.term for e in eqs}

    def push(f):
        f = zs.lit(f)
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        work.append(f)

    def want(fo, term):
        tid = term.get_id()
        d = used_folds.setdefault(tid, (term, {}))[1]
        if fo.name in d:
            return
        d[fo.name] = fo
        # basic facts
        L = lst_len(term)
        a = fold_term(fo, term)
        m = fo.monoid[0]
        if m == "sum" and nonneg_body(fo):
            push(zs.le(0, a))
        push(Implies(L == 0, eq_scalar(a, {"and": True, "sum": 0, "cat": "", "join": ""}[m])))
        inst(fo, term)
        if m == "and":
            for g in list(d.values()):
                if g.monoid[0] == "and" and g is not fo:
                    for p, q in ((g, fo), (fo, g)):
                        if implied(p, q):
                            push(Implies(fold_term(p, term), fold_term(q, term)))

    def inst(fo, term):
        tid = term.get_id()
        es = by_term.get(tid, [])
        if tid in DEFS:
            es = es + [ListEq(True, DEFS[tid][0], DEFS[tid][1])]
        for e in es:
            k = (fo.name, id(e.lv))
            if k in done_pairs:
                continue
            done_pairs.add(k)
            kk = (fo.name, id(e.lv), id(e.cond), e.term.get_id())
            if kk not in _lfa:
                _lfa[kk] = (e, e.cond, zs.lit(list_fact_axioms(fo, e)))
            push(_lfa[kk][2])

    def take_instances():
        """what holds of all of L[:n] holds of the elements of L known by their index, and of all of L[:i], i <= n"""
        for t, fos in [x for x in used_folds.values() if x[0].decl().name() == "take"]:
            L, n = t.children()
            for e in eqs:
                sg = e.lv.segs
                if len(sg) != 3 or sg[0][0] != "o" or sg[1][0] != "e" or sg[0][1].decl().name() != "take":
                    continue
                T, i = sg[0][1].children()
                off = 0
                while T.decl().name() == "drop" and not T.eq(L):
                    off, T = zs.add(off, T.arg(1)), T.arg(0)
                if not T.eq(L):
                    continue
                for fo in list(fos.values()):
                    k = ("take", fo.name, t.get_id(), id(e.lv))
                    if fo.monoid[0] == "and" and k not in done_pairs:
                        done_pairs.add(k)
                        push(Implies(And(e.cond, fold_term(fo, t), zs.le(0, i), zs.lt(zs.add(off, i), n), zs.le(n, lst_len(L))),
                                     fold_lv(fo, elems([sg[1][1]]))))

    def len_eq(term):
        tid = term.get_id()
        es = by_term.get(tid, [])
        if tid in DEFS:
            es = es + [ListEq(True, DEFS[tid][0], DEFS[tid][1])]
        for e in es:
            k = ("len", id(e.lv))
            if k in done_pairs:
                continue
            done_pairs.add(k)
            push(Implies(e.cond, zs.ieq(lst_len(e.term), lv_len(e.lv))))

    star = {}             # (string term id, regex id) -> (term, regex)

    def star_instances():
        """a part of a word over a character class is a word over it, and a
        word is one when its two parts are"""
        views = {}
        for t in list(strterms.values()):
            v = zs.view(t)
            if v is not None:
                views.setdefault(v[0].get_id(), []).append((t, v))
        for (tid, rid), (t, r) in list(star.items()):
            for sub, v in views.get(tid, ()):
                k = ("star", sub.get_id(), rid)
                if k not in done_split:
                    done_split.add(k)
                    push(Implies(z3.InRe(t, r), z3.InRe(sub, r)))
            for hn, (h, apps) in list(hom_used.items()):
                k = ("over", hn, tid, rid)
                if h.k is not None and k not in done_split and any(a.arg(0).get_id() == tid for a in apps):
                    done_split.add(k)
                    if h.holds_over(r):
                        push(Implies(z3.InRe(t, r), h(t)))

    def hom_instances():
        """split axioms for cuts of a base string under a homomorphism"""
        for hn, (h, apps) in list(hom_used.items()):
            bases = {}
            if h.cut is not None:
                ids = {a.arg(0).get_id() for a in apps}
                if h.short:
                    for a in list(apps):
                        k = (hn, "short", a.arg(0).get_id())
                        if a.arg(0).get_id() in shaped and k not in done_split and zs.maxlen(a.arg(0)) is None:
                            done_split.add(k)
                            push(Implies(zs.le(zs.length(a.arg(0)), 6), h.short(a.arg(0), h)))
                for e in streqs:
                    for x, y in (e.children(), e.children()[::-1]):
                        k = (hn, "eq", e.get_id())
                        if x.get_id() in ids and y.get_id() not in ids and k not in done_split:
                            done_split.add(k)
                            push(eq_scalar(h(x), h(y)) if e.get_id() in topeq else Implies(e, eq_scalar(h(x), h(y))))
                for a in list(apps):
                    t = a.arg(0)
                    v = zs.view(t)
                    if v is None:
                        continue
                    base, lo, ln = v
                    if not (isinstance(lo, int) and lo == 0):
                        bases.setdefault(base.get_id(), (base, []))[1].append(lo)
                    if ln is not None:
                        b = zs.lit(zs.suffix(base, lo))
                        if zs.is_sym(b):
                            bases.setdefault(b.get_id(), (b, []))[1].append(ln)
                pre = {}
                for a in list(apps):
                    v = zs.view(a.arg(0))
                    if v is not None and v[2] is not None and isinstance(v[1], int) and v[1] == 0:
                        pre.setdefault(v[0].get_id(), []).append((a, v[0], v[2]))
                for xs in pre.values():
                    for a1, b, e1 in xs:
                        for a2, _, e2 in xs:
                            k = (hn, "grow", a1.get_id(), a2.get_id())
                            if a1 is a2 or k in done_split:
                                continue
                            done_split.add(k)
                            d = zs.lit(z3.simplify(zs.I(zs.sub(e2, e1))))
                            if isinstance(d, int) and 1 <= d <= 3:
                                push(Implies(And(zs.le(0, e1), zs.le(e2, zs.length(b))), eq_scalar(
                                    h(a2.arg(0)), And(h(a1.arg(0)), h(zs.substr(b, e1, d)), h.cut(b, e1, e2)))))
                for e in streqs:
                    for x, y in (e.children(), e.children()[::-1]):
                        ps = zs.concat_parts(y)
                        if len(ps) < 2:
                            continue
                        for a in list(apps):
                            v = zs.view(a.arg(0))
                            k = (hn, "pre", e.get_id(), a.arg(0).get_id())
                            if v is None or not v[0].eq(x) or v[2] is None or v[1] != 0 or k in done_split:
                                continue
                            done_split.add(k)
                            n = 0
                            for i in range(1, len(ps)):
                                n = zs.add(n, zs.length(ps[i - 1]))
                                pre = zs.concat(*ps[:i])
                                if zs.same(pre, a.arg(0)):
                                    continue
                                push(Implies(And(e, zs.ieq(n, v[2])), And(a.arg(0) == zs.S(pre), eq_scalar(h(a.arg(0)), h(pre)))))
            for tid, t in list(strterms.items()) if h.cut is None else ():
                v = zs.view(t)
                if v is None:
                    continue
                base, lo, ln = v
                cuts = []
                if not (isinstance(lo, int) and lo == 0):
                    cuts.append(lo)
                if ln is not None:
                    cuts.append(zs.add(lo, ln))
                bases.setdefault(base.get_id(), (base, []))[1].extend(cuts)
            for bid, (base, cuts) in bases.items():
                if z3.is_string_value(base):
                    continue
                for c in cuts:
                    k = (hn, bid, c if isinstance(c, int) else ("z", z3.simplify(zs.I(c)).get_id()))
                    if k in done_split:
                        continue
                    done_split.add(k)
                    push(h.split(base, c))

    while work:
        n += 1
        if n > 6000:
            break
        f = work.pop(0)
        fid = f.get_id()
        if fid in seen_f:
            if not work:
                hom_instances()
                star_instances()
                take_instances()
            continue
        seen_f.add(fid)
        out.append(f)
        if z3.is_eq(f) and f.arg(0).sort() == z3.StringSort() and not z3.is_string_value(f.arg(0)) and \
                not z3.is_string_value(f.arg(1)):
            streqs.append(f)
            topeq.add(f.get_id())
        elif z3.is_or(f):           # a conditional equation of what a contract returns
            for e in f.children():
                if z3.is_eq(e) and e.arg(0).sort() == z3.StringSort() and z3.is_app(e.arg(0)) and e.arg(0).num_args() and \
                        e.arg(0).decl().name().startswith("ret.") and not z3.is_string_value(e.arg(1)):
                    streqs.append(e)
        apps, strs = subterms(f)
        for t in strs:
            strterms.setdefault(t.get_id(), t)
        for a in apps:
            aid = a.get_id()
            if aid in seen_app:
                continue
            seen_app.add(aid)
            name = a.decl().name()
            if name in ("spec.shape", "spec.gismu_shape"):
                shaped.add(a.arg(0).get_id())
            if name in FOLDS:
                want(FOLDS[name], a.arg(0))
                len_eq(a.arg(0))
                push(lst_len(a.arg(0)) >= 0)
            elif name == "len":
                push(a >= 0)
                len_eq(a.arg(0))
            elif name in HOMS:
                h = HOMS[name]
                hom_used.setdefault(name, (h, []))[1].append(a)
                if aid not in _gen:
                    _gen[aid] = (a, [zs.lit(x) for x in h.axioms(a.arg(0))])
                for ax in _gen[aid][1]:
                    push(ax)
            elif name in DECLS and DECLS[name][1] is not None:
                if aid not in _gen:
                    _gen[aid] = (a, [zs.lit(x) for x in DECLS[name][1](*a.children())])
                for ax in _gen[aid][1]:
                    push(ax)
        for a in stars_in(f) if stars else ():
            star.setdefault((a.arg(0).get_id(), a.arg(1).get_id()), (a.arg(0), a.arg(1)))
        if not work and hom_used:
            hom_instances()
        if not work and star:
            star_instances()
        if not work and used_folds:
            take_instances()
    return out


_nonneg = {}
NONNEG = {}      # fresh integers introduced with the fact that they are not negative


def nonneg_body(fo):
    if fo.name not in _nonneg:
        _nonneg[fo.name] = False
        b = fo.body
        if zs.is_sym(b) and z3.is_app_of(b, z3.Z3_OP_ITE) and all(z3.is_int_value(x) and x.as_long() >= 0 for x in b.children()[1:]):
            _nonneg[fo.name] = True
    return _nonneg[fo.name]


def implied(p, q):
    """P(x) => Q(x) valid, for the bodies of two 'and' folds over the same element type"""
    k = (p.name, q.name)
    if k not in IMPLIED:
        IMPLIED[k] = False
        if repr(p.elt) == repr(q.elt):
            r = check([p.body, Not(q.body)], timeout=1500, nofallback=True)
            IMPLIED[k] = r.status == "unsat"
    return IMPLIED[k]


# ------------------------------------------------------------ solvers
class Result:
    __slots__ = ("status", "model", "backend", "time", "reason")

    def __init__(self, status, model=None, backend="", time=0.0, reason=""):
        self.status, self.model, self.backend, self.time, self.reason = status, model, backend, time, reason


STATS = {"z3": [0, 0.0], "cvc5": [0, 0.0], "syntactic": [0, 0.0], "unknown": 0}


_info = {}


def info(t):
    """(constants, number of distinct subterms) of a term"""
    k = t.get_id()
    if k not in _info:
        seen, stack, cs = set(), [t], set()
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    cs.add(i)
                stack.extend(x.children())
        _info[k] = (t, cs, len(seen))
    return _info[k][1:]


def relevant(facts, goal, size):
    gc, _ = info(goal) if zs.is_sym(goal) else (set(), 0)
    gc = set(gc)
    eqs = [f for f in facts if isinstance(f, ListEq)]
    for _ in range(4):
        n = len(gc)
        for e in eqs:
            if info(e.term)[0] <= gc:
                for s in e.lv.segs:
                    for x in s[1:]:
                        if zs.is_sym(x):
                            gc |= info(x)[0]
        if len(gc) == n:
            break
    out = []
    for f in facts:
        if isinstance(f, ListEq):
            if info(f.term)[0] <= gc:
                out.append(f)
            continue
        if not zs.is_sym(f):
            out.append(f)
            continue
        c, m = info(f)
        if c <= gc and m <= size:
            out.append(f)
    return out


_worked = {}


def worked(t):
    """the string and list constants below t that a string or list operation is applied to"""
    k = t.get_id()
    if k not in _worked:
        out, seen, stack = set(), set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                op = x.decl().kind()
                for c in x.children():
                    stack.append(c)
                    if op not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_EQ, z3.Z3_OP_ITE) and c.num_args() == 0 and \
                            c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.sort() in (z3.StringSort(), LIST):
                        out.add(c.get_id())
                    elif c.num_args() == 0 and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and (
                            c.sort() == LIST or c.sort() == z3.StringSort() and op == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1
                            and x.sort() in (z3.StringSort(), LIST)):
                        out.add(c.get_id())
        _worked[k] = (t, out)
    return _worked[k][1]


def around(facts, goal, size):
    """the facts about the goal's strings and lists and no others"""
    gc, _ = info(goal)
    busy = set()
    for f in facts:
        if zs.is_sym(f):
            busy |= worked(f)
        elif isinstance(f, ListEq):
            busy |= worked(f.term)
    out = []
    for f in facts:
        if not zs.is_sym(f):
            continue
        c, m = info(f)
        if m <= size and c & gc and not (c & busy) - gc:
            out.append(f)
    return out


def core(facts, goal):
    """the small facts and the ones that speak about a contract or a
    specification function through an application on the goal's terms"""
    out = []
    for f in facts:
        if not zs.is_sym(f):
            out.append(f)
        elif info(f)[1] <= 14 or info(f)[1] <= 60 and any(HOMS.get(a.decl().name()) or a.decl().name().startswith("out.")
                                                          for a in subterms(f)[0]):
            out.append(f)
    return out


_cores = {}
_tries = {}


def fact_key(f):
    return f.get_id() if zs.is_sym(f) else id(f)


def learn(facts, goal):
    """remember a set of facts that was shown to imply the goal, reduced to the
    ones an unsatisfiable core names when that reduction can be confirmed"""
    ng = Not(goal)
    fs = closure(facts + [ng])
    best = facts
    if fs is not None and len(facts) > 2:
        s = z3.Solver()
        s.set("timeout", 1500)
        s.set("unsat_core", True)
        names = {}
        for i, f in enumerate(fs):
            b = z3.Bool("track!%d" % i)
            names["track!%d" % i] = f.get_id()
            s.assert_and_track(f, b)
        if s.check() == z3.unsat:
            used = {names[str(b)] for b in s.unsat_core()}
            few = [f for f in facts if not zs.is_sym(f) or f.get_id() in used]
            if len(few) < len(facts):
                r = check(few + [ng], timeout=1500, nofallback=True)
                if r.status == "unsat":
                    best = few
    _cores.setdefault(goal.get_id(), []).append((frozenset(fact_key(f) for f in best), list(best), goal))


def prove(facts, goal, timeout=4000, want_model=False):
    """prove_, with the proofs of the same goal on other paths tried first: a
    set of facts once shown to imply the goal does so wherever it holds"""
    goal = zs.lit(goal)
    if not zs.is_sym(goal):
        return prove_(facts, goal, timeout, want_model)
    here = None
    for ks, _, _ in _cores.get(goal.get_id(), ()):
        if here is None:
            here = {fact_key(f) for f in facts}
        if ks <= here:
            STATS.setdefault("repeated", [0, 0.0])[0] += 1
            return Result("unsat", backend="z3", time=0.0)
    used = []
    r = prove_(facts, goal, timeout, want_model, used)
    if r.status == "unsat" and used:
        n = _tries[goal.get_id()] = _tries.get(goal.get_id(), 0) + 1
        if n <= 3:
            learn(used[0], goal)
        else:
            _cores.setdefault(goal.get_id(), []).append((frozenset(fact_key(f) for f in used[0]), used[0], goal))
    return r


def prove_(facts, goal, timeout=4000, want_model=False, used=None):
    """is the goal a consequence of the facts?  First with the small facts that
    speak only about the goal's symbols, then with all of them"""
    goal = zs.lit(goal)
    ng = Not(goal)

    def keep(fs):
        if used is not None:
            used.append(list(fs))
    if zs.is_sym(goal):
        tiny = [f for f in relevant(facts, goal, 30) if isinstance(f, ListEq) or not zs.is_sym(f) or not stars_in(f)]
        if len(tiny) < len(facts):
            fs = closure(tiny + [ng], stars=False)
            if fs is None:
                keep(tiny)
                return Result("unsat", backend="syntactic")
            r = check_closed(fs, min(timeout, 500), nofallback=True)
            if r.status == "unknown":
                r = cvc5_solver(fs, 1000)
            if r.status == "unsat":
                keep(tiny)
                return r
        sub = relevant(facts, goal, 70)
        if len(sub) < len(facts):
            r = check(sub + [ng], timeout=min(timeout, 2000), nofallback=True)
            if r.status == "unsat":
                keep(sub)
                return r
        wide = around(facts, goal, 300)
        if len(sub) < len(wide) < len(facts):
            w2, g2, n = zs.peel(wide, goal)
            if n:
                if any(f is False for f in w2) or g2 is True:
                    keep(wide)
                    return Result("unsat", backend="syntactic")
                few = core(w2, g2)
                if len(few) < len(w2):
                    r = check(few + [Not(g2)], timeout=min(timeout, 2000), nofallback=True)
                    if r.status == "unsat":
                        keep(wide)
                        return r
                r = check(w2 + [Not(g2)], timeout=max(timeout, 6000), nofallback=True)
                if r.status == "unsat":
                    keep(wide)
                    return r
            few = core(wide, goal)
            if not n and len(few) < len(wide):
                r = check(few + [ng], timeout=min(timeout, 2000), nofallback=True)
                if r.status == "unsat":
                    keep(wide)
                    return r
            r = check(wide + [ng], timeout=2000 if n else max(timeout, 6000), nofallback=True)
            if r.status == "unsat":
                keep(wide)
                return r
    return check(facts + [ng], timeout=timeout, want_model=want_model)


def check(facts, timeout=4000, nofallback=False, want_model=False):
    fs = closure(facts)
    if fs is None:
        return Result("unsat", backend="syntactic")
    return check_closed(fs, timeout, nofallback, want_model)


_qcache = {}


def check_closed(fs, timeout=4000, nofallback=False, want_model=False):
    key = None
    if not want_model:
        key = frozenset(f.get_id() for f in fs)
        if key in _qcache:
            return _qcache[key][0]
    s = z3.Solver()
    for f in fs:
        s.add(f)
    t0 = time.time()
    try:
        r = z3.unsat if timeout > 3000 and no_regex(fs, 600) else z3.unknown     # z3 may overrun its limit on memberships
        if r == z3.unknown:
            s.set("timeout", timeout)
            r = s.check()
    except z3.Z3Exception as e:
        r = z3.unknown
    dt = time.time() - t0
    STATS["z3"][0] += 1
    STATS["z3"][1] += dt
    st = str(r) if str(r) in ("sat", "unsat") else "unknown"
    res = Result(st, backend="z3", time=dt)
    if st == "sat" and want_model:
        res.model = s.model()
    if st == "unknown":
        res.reason = s.reason_unknown()
        if not nofallback:
            res2 = cvc5_check(s.to_smt2(), timeout)
            if res2.status != "unknown":
                res = res2
    if res.status == "unknown":
        STATS["unknown"] += 1
    if key is not None:
        _qcache[key] = (res, fs)
    return res


def no_regex(fs, timeout):
    """is fs unsatisfiable with memberships in character classes read as predicates? (unsat here is unsat of fs)"""
    memo, seen = {}, {}

    def pred(c):
        return z3.Function("class." + c.name, z3.StringSort(), z3.BoolSort())

    def member(c, t):
        seen.setdefault(c.name, (c, {}))[1][t.get_id()] = t
        return pred(c)(t)

    def walk(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        r = t
        if z3.is_app(t) and t.num_args():
            cs = [walk(c) for c in t.children()] if t.decl().kind() != z3.Z3_OP_SEQ_IN_RE else None
            if t.decl().kind() == z3.Z3_OP_SEQ_IN_RE:
                c = zs.CLASSES.get(t.arg(1).get_id())
                r = member(c[1], walk(t.arg(0))) if c is not None else t
            elif t.decl().kind() == z3.Z3_OP_SEQ_CONTAINS and isinstance(zs.lit(cs[1]), str) and len(zs.lit(cs[1])) == 1:
                r = z3.Not(member(zs.InClass((set(), {zs.lit(cs[1])}, True)), cs[0]))
            elif z3.is_quantifier(t):
                r = t
            elif any(a.get_id() != b.get_id() for a, b in zip(cs, t.children())):
                r = t.decl()(*cs)
        memo[k] = (t, r)
        return r

    try:
        out = [walk(f) for f in fs]
    except z3.Z3Exception:
        return False
    if not seen:
        return False
    terms = {}
    for c, ts in seen.values():
        terms.update(ts)
    cl = [c for c, _ in seen.values()]
    consts = {}

    def lits(t):
        if t.get_id() in consts:
            return
        consts[t.get_id()] = t
        for c in t.children():
            lits(c)

    for f in out:
        lits(f)
    vals = [t for t in consts.values() if z3.is_string_value(t)]
    for c in cl:
        for v in vals:
            x = pred(c)(v)
            out.append(x if all(c.ok(ch) for ch in zs.lit(v)) else z3.Not(x))
        for t in terms.values():
            out.append(z3.Or(t != z3.StringVal(""), pred(c)(t)))
        for d in cl:
            if c is d:
                continue
            if c.within(d):
                out += [z3.Or(z3.Not(pred(c)(t)), pred(d)(t)) for t in terms.values()]
            if c.disjoint(d) and c.name < d.name:
                out += [z3.Or(z3.Not(pred(c)(t)), z3.Not(pred(d)(t)), t == z3.StringVal("")) for t in terms.values()]
    if len(out) > 4000:
        return False
    s = z3.Solver()
    s.set("timeout", timeout)
    for f in out:
        s.add(f)
    t0 = time.time()
    r = s.check()
    STATS["z3"][0] += 1
    STATS["z3"][1] += time.time() - t0
    return r == z3.unsat


def cvc5_solver(fs, timeout):
    key = ("cvc5",) + tuple(sorted(f.get_id() for f in fs))
    if key not in _qcache:
        s = z3.Solver()
        for f in fs:
            s.add(f)
        _qcache[key] = (cvc5_check(s.to_smt2(), timeout), fs)
    return _qcache[key][0]


def cvc5_check(smt2, timeout):
    import cvc5
    t0 = time.time()
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        sol = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        sol.setOption("tlimit-per", str(timeout))
        sol.setOption("strings-exp", "true")
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + smt2.replace("(set-info", "; (set-info"), "q")
        sm = p.getSymbolManager()
        st = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(sol, sm)
            o = str(out).strip()
            if o in ("sat", "unsat", "unknown"):
                st = o
            elif o.startswith("(error"):
                return Result("unknown", backend="cvc5", time=time.time() - t0, reason=o[:200])
    except Exception as e:        # parse or internal error of the fallback back end: no answer
        return Result("unknown", backend="cvc5", time=time.time() - t0, reason=str(e)[:200])
    dt = time.time() - t0
    STATS["cvc5"][0] += 1
    STATS["cvc5"][1] += dt
    return Result(st, backend="cvc5", time=dt)


# ------------------------------------------------------------ propositional abstraction
_abs = {}
_absn = {}


def abstract(t):
    """a formula that t implies propositionally equals after naming its atoms
    about strings and lists: used only to drop impossible paths"""
    k = t.get_id()
    if k in _abs:
        return _abs[k][1]
    if z3.is_true(t) or z3.is_false(t):
        r = t
    elif z3.is_and(t) or z3.is_or(t) or z3.is_not(t) or z3.is_implies(t) or (z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_bool(t)) \
            or (z3.is_eq(t) and z3.is_bool(t.arg(0))):
        cs = [abstract(c) for c in t.children()]
        r = z3.And(*cs) if z3.is_and(t) else z3.Or(*cs) if z3.is_or(t) else z3.Not(cs[0]) if z3.is_not(t) else \
            z3.Implies(*cs) if z3.is_implies(t) else z3.If(*cs) if z3.is_app_of(t, z3.Z3_OP_ITE) else cs[0] == cs[1]
    elif z3.is_eq(t) and t.arg(0).sort() == z3.StringSort():
        a, b = t.children()
        if a.get_id() > b.get_id():
            a, b = b, a
        r = absname(a) == absname(b)
    elif z3.is_app(t) and all(c.sort() == z3.IntSort() for c in t.children()) and t.num_args():
        r = t.decl()(*[absint(c) for c in t.children()])
    else:
        r = z3.Bool("abs%d" % k)
    _abs[k] = (t, r)
    return r


def absname(t):
    k = t.get_id()
    if k not in _absn:
        if z3.is_string_value(t):
            _absn[k] = (t, z3.IntVal(1000000 + len(LITS)))
            LITS.append(t)
        else:
            _absn[k] = (t, z3.Int("str%d" % k))
    return _absn[k][1]


LITS = []


def absint(t):
    if z3.is_int_value(t):
        return t
    k = t.get_id()
    if k not in _absn:
        if z3.is_add(t) or z3.is_sub(t) or z3.is_mul(t):
            cs = [absint(c) for c in t.children()]
            r = cs[0]
            for c in cs[1:]:
                r = r + c if z3.is_add(t) else r - c if z3.is_sub(t) else r * c
        elif z3.is_app_of(t, z3.Z3_OP_ITE):
            r = z3.If(abstract(t.arg(0)), absint(t.arg(1)), absint(t.arg(2)))
        else:
            r = z3.Int("abi%d" % k)
        _absn[k] = (t, r)
    return _absn[k][1]


class Prefix:
    """an incremental solver over the abstractions of a path condition: the
    paths are explored depth first, so successive queries share a prefix"""

    def __init__(self):
        self.s = z3.SimpleSolver()
        self.s.set("timeout", 300)
        self.stack = []          # one level per fact
        self.keep = []

    def unsat(self, fs):
        n = 0
        m = min(len(self.stack), len(fs))
        while n < m and self.stack[n] == fs[n].get_id():
            n += 1
        if n < len(self.stack):
            self.s.pop(len(self.stack) - n)
            del self.stack[n:]
            del self.keep[n:]
        for f in fs[n:]:
            self.s.push()
            self.s.add(abstract(f))
            self.stack.append(f.get_id())
            self.keep.append(f)
        return str(self.s.check()) == "unsat"


_prefix = []
_lightc = {}


def light_unsat(facts):
    fs = []
    for f in facts:
        if isinstance(f, ListEq):
            continue
        if not zs.is_sym(f):
            if f is False:
                return True
            continue
        f1 = zs.lit(f)
        if f1 is False:
            return True
        if f1 is not True:
            fs.append(f)
    key = frozenset(f.get_id() for f in fs)
    if key in _lightc:
        return _lightc[key][0]
    if not _prefix:
        _prefix.append(Prefix())
    STATS.setdefault("light", [0, 0.0])
    t0 = time.time()
    r = _prefix[0].unsat(fs)
    STATS["light"][0] += 1
    STATS["light"][1] += time.time() - t0
    _lightc[key] = (r, fs)
    return r
