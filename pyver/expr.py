"""Expression evaluation: one pass, no forks.  Every expression yields a value
and a list of (condition, exception class) pairs in st.excs."""
import ast
import builtins
import re
import types as pytypes
import z3

from . import zs, smt
from .zs import And, Or, Not, Implies, Ite
from .smt import (Unsupported, Opt, LV, ListEq, lv_concat, elems, opq, type_of, join_type, mk, mk_fresh, fresh,
                  lv_term, lv_len, fold_lv, make_fold, lst_len, LIST)
from .engine import (DView, Engine, Ref, Obj, Const, Table, Closure, Bound, Iter, Match, Choice, NeedFork, State, SCALAR,
                     char_fold, UNBOUND, NameErr)


class ExcVal:
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls


def nonneg(t, pc=()):
    t = zs.lit(t)
    if isinstance(t, int):
        return t >= 0
    k = t.decl().kind()
    if pc:
        i = zs.le(0, t).get_id()
        if any(zs.is_sym(p) and p.get_id() == i for p in pc):
            return True
    if k == z3.Z3_OP_SEQ_LENGTH:
        return True
    if t.decl().name() == "len" or t.get_id() in smt.NONNEG:
        return True
    if k == z3.Z3_OP_ADD:
        return all(nonneg(c, pc) for c in t.children())
    if k == z3.Z3_OP_ITE:
        return nonneg(t.arg(1), pc) and nonneg(t.arg(2), pc)
    return False


class Expr(Engine):

    # ------------------------------------------------------------ helpers
    def truth(self, st, v):
        if zs.is_bool(v):
            return zs.lit(v)
        if v is None:
            return False
        if zs.is_int(v):
            return Not(zs.ieq(v, 0))
        if zs.is_str(v):
            return Not(zs.seq(v, ""))
        if isinstance(v, Opt):
            return And(Not(v.isnone), self.truth(st, v.val))
        if isinstance(v, LV):
            return zs.lt(0, lv_len(v))
        if isinstance(v, Ref):
            return zs.lt(0, lv_len(st.heap[v.oid].val))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (Match, Const, Closure, Bound)):
            return True
        if isinstance(v, Table):
            return bool(v.obj)
        if isinstance(v, Choice):
            return Ite(v.cond, self.truth(st, v.a), self.truth(st, v.b))
        raise Unsupported("truth value of %r" % (v,))

    def decide(self, st, c):
        """use a literal of the path condition to decide a condition"""
        c = zs.lit(c)
        if isinstance(c, bool):
            return c
        cid = c.get_id()
        nid = None
        n = Not(c)
        if zs.is_sym(n):
            nid = n.get_id()
        for p in st.pc:
            if isinstance(p, ListEq) or not zs.is_sym(p):
                continue
            i = p.get_id()
            if i == cid:
                return True
            if i == nid:
                return False
        return c

    def ite_value(self, st, c, a, b):
        c = zs.lit(c)
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        sa, sb = zs.is_sym(a) or isinstance(a, SCALAR), zs.is_sym(b) or isinstance(b, SCALAR)
        if a is None and b is None:
            return None
        if sa and sb and a is not None and b is not None:
            if zs.is_bool(a) and zs.is_int(b):
                a = Ite(a, 1, 0)
            if zs.is_int(a) and zs.is_bool(b):
                b = Ite(b, 1, 0)
            try:
                return Ite(c, a, b)
            except TypeError:
                return Choice(c, a, b)
        if a is None or b is None or isinstance(a, Opt) or isinstance(b, Opt):
            if a is None:
                return self.ite_value(st, Not(c), b, a)
            if b is None:
                if isinstance(a, Opt):
                    return Opt(Or(Not(c), a.isnone), a.val)
                return Opt(Not(c), a)
            na, va = (a.isnone, a.val) if isinstance(a, Opt) else (False, a)
            nb, vb = (b.isnone, b.val) if isinstance(b, Opt) else (False, b)
            return Opt(Ite(c, na, nb), self.ite_value(st, c, va, vb))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite_value(st, c, x, y) for x, y in zip(a, b))
        if isinstance(a, LV) and isinstance(b, LV) and smt.lv_key(a) == smt.lv_key(b):
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
            return a
        if isinstance(a, DView) and isinstance(b, DView) and a.ref.oid == b.ref.oid and a.dims == b.dims:
            return DView(a.ref, tuple(self.ite_value(st, c, x, y) for x, y in zip(a.idx, b.idx)), a.dims)
        if isinstance(a, Const) and isinstance(b, Const) and a.obj is b.obj:
            return a
        return Choice(c, a, b)

    def over_choice(self, v, f):
        if isinstance(v, Choice):
            return self.over_choice2(v, f)
        return f(v)

    def over_choice2(self, v, f):
        a = self.over_choice(v.a, f)
        b = self.over_choice(v.b, f)
        return self.ite_value(None, v.cond, a, b)

    def need(self, st, v, node, g, what="value"):
        """strip Opt: TypeError when None"""
        if isinstance(v, Opt):
            self.exc(st, v.isnone, TypeError, node, g)
            return v.val
        return v

    # ------------------------------------------------------------ equality and order
    def eq(self, st, a, b):
        if isinstance(a, Choice):
            return Ite(a.cond, self.eq(st, a.a, b), self.eq(st, a.b, b))
        if isinstance(b, Choice):
            return self.eq(st, b, a)
        if isinstance(a, Opt):
            if b is None:
                return a.isnone
            if isinstance(b, Opt):
                return Or(And(a.isnone, b.isnone), And(Not(a.isnone), Not(b.isnone), self.eq(st, a.val, b.val)))
            return And(Not(a.isnone), self.eq(st, a.val, b))
        if isinstance(b, Opt):
            return self.eq(st, b, a)
        if a is None or b is None:
            return a is None and b is None
        if zs.is_bool(a) and zs.is_bool(b):
            return zs.Iff(a, b)
        if zs.is_bool(a) and zs.is_int(b):
            return zs.ieq(Ite(a, 1, 0), b)
        if zs.is_int(a) and zs.is_bool(b):
            return zs.ieq(Ite(b, 1, 0), a)
        if zs.is_int(a) and zs.is_int(b):
            return zs.ieq(a, b)
        if zs.is_str(a) and zs.is_str(b):
            return zs.seq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eq(st, x, y) for x, y in zip(a, b)])
        la, lb = self.is_list(st, a), self.is_list(st, b)
        if la and lb:
            return self.list_eq(st, self.lv(st, a), self.lv(st, b))
        if isinstance(a, Const) and isinstance(b, Const):
            if a.obj is b.obj:
                return True
        if la != lb or type_of(a) != type_of(b):
            ta, tb = type_of(a), type_of(b)
            if "other" not in (ta, tb):
                return False
        raise Unsupported("equality of %r and %r" % (a, b))

    def list_eq(self, st, x, y):
        if smt.lv_key(x) == smt.lv_key(y):
            return True
        if x.concrete and y.concrete:
            a, b = x.items(), y.items()
            if len(a) != len(b):
                return False
            return And(*[self.eq(st, p, q) for p, q in zip(a, b)])
        # element-wise alignment (sufficient for equality); used to prove, so
        # only in goals; in assumptions the plain term equality is used
        al = self.align(st, list(x.segs), list(y.segs))
        te = smt.lv_term(self.freeze(st, x))[0] == smt.lv_term(self.freeze(st, y))[0]
        if self.spec and al is not None:
            return Or(te, al) if zs.lit(al) is not True else True
        if not x.segs or not y.segs:
            return zs.ieq(lv_len(x if x.segs else y), 0)
        return te

    def align(self, st, xs, ys):
        if not xs and not ys:
            return True
        if xs and ys:
            a, b = xs[0], ys[0]
            if a[0] == "o" and b[0] == "o":
                r = self.align(st, xs[1:], ys[1:])
                return None if r is None else r if a[1].eq(b[1]) else And(a[1] == b[1], r)
            if a[0] == "e" and b[0] == "e":
                r = self.align(st, xs[1:], ys[1:])
                return None if r is None else And(self.eq(st, a[1], b[1]), r)
            if a[0] == "c" and b[0] == "c":
                r = self.align(st, xs[1:], ys[1:])
                return None if r is None else And(zs.Iff(a[1], b[1]), Implies(a[1], self.eq(st, a[2], b[2])), r)
        for p, q, fl in ((xs, ys, 0), (ys, xs, 1)):
            if p and p[0][0] == "c":
                skip = self.align(st, *((p[1:], q) if not fl else (q, p[1:])))
                take = None
                if q and q[0][0] == "e":
                    take = self.align(st, *((p[1:], q[1:]) if not fl else (q[1:], p[1:])))
                    if take is not None:
                        take = And(p[0][1], self.eq(st, p[0][2], q[0][1]), take)
                alts = []
                if skip is not None:
                    alts.append(And(Not(p[0][1]), skip))
                if take is not None:
                    alts.append(take)
                return Or(*alts) if alts else None
        return None

    def contains(self, st, x, coll, node, g):
        """x in coll"""
        if isinstance(coll, Choice):
            return Ite(coll.cond, self.contains(st, x, coll.a, node, And(g, coll.cond)),
                       self.contains(st, x, coll.b, node, And(g, Not(coll.cond))))
        if isinstance(x, Choice):
            return Ite(x.cond, self.contains(st, x.a, coll, node, g), self.contains(st, x.b, coll, node, g))
        if zs.is_str(coll):
            x = self.need(st, x, node, g)
            if not zs.is_str(x):
                self.exc(st, True, TypeError, node, g)
                return False
            if isinstance(coll, str):
                return zs.chars_in(x, coll)
            if isinstance(x, str) and isinstance(zs.maxlen(coll), int) and zs.maxlen(coll) < len(x):
                return False
            return z3.Contains(zs.S(coll), zs.S(x))
        if isinstance(coll, Table):
            return self.table_has(coll, x)
        if isinstance(coll, Const) and isinstance(coll.obj, dict):
            raise Unsupported("membership in a dict")
        fam = self.family(st, coll)
        if fam is not None:
            if fam.dims:
                raise Unsupported("membership in a list of dicts")
            return self.dict_has(st, st.heap[fam.ref.oid].val, fam.idx + (x,))
        lv = self.lv(st, coll)
        if isinstance(coll, Ref) and st.heap[coll.oid].kind == "dict" and not lv.concrete:
            return self.dict_has(st, st.heap[coll.oid].val, x)
        return self.lv_contains(st, x, lv, node, g)

    def lv_contains(self, st, x, lv, node, g):
        if isinstance(x, Opt):
            inner = self.lv_contains(st, x.val, lv, node, g)
            none = self.lv_contains(st, None, lv, node, g)
            return Ite(x.isnone, none, inner)
        if lv.concrete:
            its = lv.items()
            if zs.is_str(x):
                strs = [i for i in its if isinstance(i, str)]
                rest = [i for i in its if not isinstance(i, str)]
                return Or(zs.in_strings(x, strs), *[self.eq(st, x, r) for r in rest])
            return Or(*[self.eq(st, x, i) for i in its])
        out = []
        for s in lv.segs:
            if s[0] == "e":
                out.append(self.eq(st, x, s[1]))
            elif s[0] == "c":
                out.append(And(s[1], self.eq(st, x, s[2])))
            else:
                xs = smt.scalars(self.freeze(st, x), s[2])
                name = "in_" + repr(s[2])
                d = smt.decl(name, [LIST] + [smt.SORTS[t] for t in smt.scalar_sorts(s[2])], z3.BoolSort())
                t = d(s[1], *[smt.to_term(v) for v in xs])
                if not self.spec:
                    # an element that is present occurs at some position
                    a = smt.decl("pre_" + repr(s[2]), list_sig(d), LIST)(*t.children())
                    b = smt.decl("post_" + repr(s[2]), list_sig(d), LIST)(*t.children())
                    st.pc.append(ListEq(t, s[1], lv_concat(opq(a, s[2]), elems([x]), opq(b, s[2]))))
                out.append(t)
        return Or(*out)

    def dict_has(self, st, val, k):
        out = []
        for s in val.segs:
            if s[0] == "e":
                out.append(self.eq(st, k, s[1][0]))
            elif s[0] == "c":
                out.append(And(s[1], self.eq(st, k, s[2][0])))
            else:
                kt = s[2][1]
                ks = smt.scalars(k, kt)
                d = smt.decl("dhas_" + repr(s[2]), [LIST] + [smt.SORTS[t] for t in smt.scalar_sorts(kt)], z3.BoolSort())
                out.append(d(s[1], *[smt.to_term(v) for v in ks]))
        return Or(*out)

    def dict_get(self, st, val, k, node, g):
        """value stored under k; the newest entry wins"""
        has = self.dict_has(st, val, k)
        cur = None
        first = True
        for s in val.segs:
            if s[0] == "e":
                v = s[1][1]
                cur = v if first else self.ite_value(st, self.eq(st, k, s[1][0]), v, cur)
            elif s[0] == "c":
                v = s[2][1]
                cur = v if first else self.ite_value(st, And(s[1], self.eq(st, k, s[2][0])), v, cur)
            else:
                kt, vt = s[2][1], s[2][2]
                args = [s[1]] + [smt.to_term(x) for x in smt.scalars(k, kt)]
                sig = [a.sort() for a in args]
                v = mk(vt, lambda p, so: smt.decl("dget%s_%r" % (p, s[2]), sig, smt.SORTS[so])(*args))
                a = smt.decl("dpre_%r" % (s[2],), sig, LIST)(*args)
                b = smt.decl("dpost_%r" % (s[2],), sig, LIST)(*args)
                h = smt.decl("dhas_" + repr(s[2]), sig, z3.BoolSort())(*args)
                st.pc.append(ListEq(h, s[1], lv_concat(opq(a, s[2]), elems([(k, v)]), opq(b, s[2]))))
                cur = v if first else self.ite_value(st, h, v, cur)
            first = False
        return has, cur

    def table_has(self, t, x):
        if isinstance(x, str):
            return x in t.obj
        if not zs.is_str(x):
            raise Unsupported("table lookup with %r" % (x,))
        nm = "tbl_has_" + t.spec["name"]

        def gen(k):
            return [Implies(smt.DECLS[nm][0](k), ax) for ax in self.table_key_facts(t, k)]
        return smt.decl(nm, [z3.StringSort()], z3.BoolSort(), gen)(x)

    def table_items(self, t):
        d = smt.decl("tbl_items_" + t.spec["name"], [], LIST)
        return opq(d() if not zs.is_sym(d) else d, ("tuple", "str", ("list", "str")))

    def table_key_facts(self, t, k):
        out = []
        for tags, text in t.spec["lemmas"]:
            if self.use(tags):
                lam = ast.parse(text, mode="eval").body
                val = self.table_val(t, k)
                out.append(self.eval_spec(lam.body, {lam.args.args[0].arg: k, lam.args.args[1].arg: val}))
        return out

    def table_val(self, t, k):
        if isinstance(k, str):
            return elems(list(t.obj[k])) if k in t.obj else elems([])
        nm = "tbl_val_" + t.spec["name"]

        def gen(kk):
            h = self.table_has(t, kk)
            return [Implies(h, ax) for ax in self.table_key_facts(t, kk)]
        return opq(smt.decl(nm, [z3.StringSort()], LIST, gen)(k), "str")

    def use(self, tags):
        return tags == "*" or self.prop in tags

    def lean(self, tags, key, label):
        """may the clause be assumed at a call although another property's check decides it?"""
        if tags == "*" or not (self.leanon & set(tags)):
            return False
        self.trusted.add("clause '%s' of %s, decided by the check of %s" % (label, key, "/".join(sorted(self.leanon & set(tags)))))
        return True

    # ------------------------------------------------------------ strings
    def clamp(self, st, i, n, g):
        """Python slice bound: negative counts from the end, then clamp to [0, n]"""
        i = zs.lit(i)
        if isinstance(i, int):
            if i >= 0:
                return i                       # SMT-LIB substr clamps the upper end
            return ("neg", -i)
        if nonneg(i, st.pc) or self.known(st, zs.le(0, i)):
            return i
        return Ite(zs.lt(i, 0), Ite(zs.lt(zs.add(n, i), 0), 0, zs.add(n, i)), i)

    def str_slice(self, st, s, lo, hi, g):
        if isinstance(s, str) and isinstance(lo, (int, type(None))) and isinstance(hi, (int, type(None))):
            return s[lo:hi]
        n = zs.length(s)
        lo = self.clamp(st, 0 if lo is None else lo, n, g)
        if isinstance(lo, tuple):
            k = lo[1]
            ps = zs.concat_parts(s)
            if hi is None and len(ps) > 1 and isinstance(ps[-1], str) and len(ps[-1]) >= k:
                return ps[-1][-k:]
            m = zs.maxlen(s)
            lo = Ite(zs.le(k, n), zs.sub(n, k), 0)
            if hi is None:
                r = z3.SubString(zs.S(s), zs.I(lo), zs.I(k)) if not isinstance(s, str) else s[-k:]
                if self.spec and len(ps) > 1 and zs.is_sym(ps[-1]):
                    last = ps[-1]
                    return Ite(zs.le(k, zs.length(last)), z3.SubString(last, zs.I(Ite(
                        zs.le(k, zs.length(last)), zs.sub(zs.length(last), k), 0)), zs.I(k)), r)
                return r
        if hi is None:
            return zs.suffix(s, lo)
        hi = self.clamp(st, hi, n, g)
        if isinstance(hi, tuple):
            k = hi[1]
            if isinstance(lo, int) and lo == 0:
                ps = zs.concat_parts(s)
                if len(ps) > 1 and isinstance(ps[-1], str) and len(ps[-1]) >= k:
                    return zs.concat(*(ps[:-1] + ([ps[-1][:-k]] if len(ps[-1]) > k else [])))
            hi = zs.sub(n, k)
        if isinstance(lo, int) and lo == 0:
            return zs.substr(s, 0, hi)
        return zs.substr(s, lo, zs.sub(hi, lo))

    def str_index(self, st, s, i, node, g):
        n = zs.length(s)
        i = zs.lit(i)
        if isinstance(i, int):
            if isinstance(s, str):
                if -len(s) <= i < len(s):
                    return s[i]
                self.exc(st, True, IndexError, node, g)
                return ""
            if i >= 0:
                self.exc(st, zs.le(n, i), IndexError, node, g)
                return zs.substr(s, i, 1)
            self.exc(st, zs.lt(n, -i), IndexError, node, g)
            ps = zs.concat_parts(s)
            if len(ps) > 1 and isinstance(ps[-1], str) and len(ps[-1]) >= -i:
                return ps[-1][i]
            return zs.substr(s, zs.add(n, i), 1)
        if nonneg(i, st.pc) or self.known(st, zs.le(0, i)):
            self.exc(st, zs.le(n, i), IndexError, node, g)
            return zs.substr(s, i, 1)
        self.exc(st, Or(zs.le(n, i), zs.lt(zs.add(n, i), 0)), IndexError, node, g)
        return zs.substr(s, Ite(zs.lt(i, 0), zs.add(n, i), i), 1)

    # ------------------------------------------------------------ list indexing
    def split_at(self, st, lv, i, cond, want=True):
        """element i of lv (0 <= i < len(lv) holds under cond); adds the path fact
        lv = take ++ [element] ++ drop.  Returns (element, take LV, drop LV)"""
        term, elt = lv_term(lv)
        if elt is None:
            raise Unsupported("element of a list of unknown type")
        i = smt.to_term(i)
        cp = smt.comp_of(term)
        if cp is not None and cp[1][5] is True:
            _, belt, welt, ph, w, c = cp[1]
            bx, bp, bd = self.split_at(st, opq(cp[0], belt), i, cond)
            f = lambda v: subst_value(w, welt, smt.scalars(ph, belt), smt.scalars(v, belt))
            x, p, d = f(bx), self.map_lv(st, bp, f), self.map_lv(st, bd, f)
            st.pc.append(ListEq(cond, term, lv_concat(p, elems([x]), d)))
            return x, p, d
        x = mk(elt, lambda p, s: smt.decl("at%s_%r" % (p, elt), [LIST, z3.IntSort()], smt.SORTS[s])(term, i))
        p = opq(take(term, i), elt)
        d = opq(drop(term, zs.I(zs.add(i, 1))), elt)
        st.pc.append(ListEq(cond, term, lv_concat(p, elems([x]), d)))
        return x, p, d

    def list_index(self, st, lv, i, node, g):
        n = lv_len(lv)
        i = zs.lit(i)
        segs = lv.segs
        if isinstance(i, int):
            if i >= 0:
                k = i
                for s in segs:
                    if s[0] != "e":
                        break
                    if k == 0:
                        return s[1]
                    k -= 1
                else:
                    self.exc(st, True, IndexError, node, g)
                    return self.dummy(lv, node)
                self.exc(st, zs.le(n, i), IndexError, node, g)
                pos = i
            else:
                k = -i
                for s in reversed(segs):
                    if s[0] != "e":
                        break
                    k -= 1
                    if k == 0:
                        return s[1]
                else:
                    self.exc(st, True, IndexError, node, g)
                    return self.dummy(lv, node)
                self.exc(st, zs.lt(n, -i), IndexError, node, g)
                pos = zs.add(n, i)
                if len(segs) > 1 and segs[-1][0] == "o" and i == -1:
                    # last element of the last opaque part
                    o = segs[-1]
                    ln = lst_len(o[1])
                    if self.known(st, zs.lt(0, ln)):
                        return self.split_at(st, LV([o], o[2]), zs.sub(ln, 1), And(g, zs.lt(0, ln)))[0]
            cond = And(g, zs.le(0, pos), zs.lt(pos, n))
            return self.split_at(st, lv, pos, cond)[0]
        if lv.concrete:
            its = lv.items()
            N = len(its)
            for k in range(N):
                if self.decide(st, zs.ieq(i, k)) is True:
                    return its[k]
            if all(zs.is_sym(x) or isinstance(x, SCALAR) for x in its) and its:
                self.exc(st, Or(zs.le(N, i), zs.lt(zs.add(i, N), 0)), IndexError, node, g)
                v = its[-1]
                for k in range(N - 2, -1, -1):
                    v = self.ite_value(st, Or(zs.ieq(i, k), zs.ieq(i, k - N)), its[k], v)
                return v
            for k in range(N):
                if self.decide(st, Or(zs.ieq(i, k), zs.ieq(i, k - N))) is True:
                    return its[k]
            out = Or(zs.lt(i, -N), zs.le(N, i))
            if self.decide(st, out) is True:
                self.exc(st, True, IndexError, node, g)
                return its[0]
            raise NeedFork(("cases", [Or(zs.ieq(i, k), zs.ieq(i, k - N)) for k in range(N)] + [out]), node)
        if nonneg(i, st.pc) or self.known(st, zs.le(0, i)):
            self.exc(st, zs.le(n, i), IndexError, node, g)
            return self.split_at(st, lv, i, And(g, zs.le(0, i), zs.lt(i, n)))[0]
        self.exc(st, Or(zs.le(n, i), zs.lt(zs.add(n, i), 0)), IndexError, node, g)
        j = Ite(zs.lt(i, 0), zs.add(n, i), i)
        return self.split_at(st, lv, j, And(g, zs.le(0, j), zs.lt(j, n)))[0]

    def dummy(self, lv, node):
        t = lv.elt_type()
        if t is None:
            return ""
        return mk_fresh(t, "undef")

    def list_slice(self, st, lv, lo, hi, g):
        n = lv_len(lv)
        if lv.concrete and isinstance(lo, (int, type(None))) and isinstance(hi, (int, type(None))):
            return LV(lv.segs[lo:hi], lv.elt)
        if hi is None and isinstance(lo, int) and lo >= 0:
            segs = list(lv.segs)
            k = lo
            while segs and segs[0][0] == "e" and k:
                segs.pop(0)
                k -= 1
            if k == 0 or not segs:
                return LV(segs, lv.elt_type())
            rest = LV(segs, lv.elt_type())
            term, elt = lv_term(rest)
            m = lv_len(rest)
            d = drop(term, zs.I(k))
            xs = []
            for j in range(k):
                xs.append(mk(elt, lambda p, s: smt.decl("at%s_%r" % (p, elt), [LIST, z3.IntSort()], smt.SORTS[s])(term, z3.IntVal(j))))
            st.pc.append(ListEq(And(g, zs.le(k, m)), term, lv_concat(elems(xs), opq(d, elt))))
            st.pc.append(ListEq(And(g, zs.lt(m, k)), d, LV([], elt)))
            return opq(d, elt)
        if lo in (None, 0) and isinstance(hi, int) and hi == -1 and lv.segs and lv.segs[-1][0] == "e":
            return LV(lv.segs[:-1], lv.elt_type())
        term, elt = lv_term(lv)
        if lo in (None, 0) and hi is not None:
            k = hi if not isinstance(hi, int) or hi >= 0 else zs.add(n, hi)
            t, d = take(term, zs.I(k)), drop(term, zs.I(k))
            if not (isinstance(k, int) or nonneg(k, st.pc) or self.known(st, zs.le(0, k)) or (isinstance(hi, int) and hi < 0)):
                raise Unsupported("list slice with a possibly negative bound")
            st.pc.append(ListEq(And(g, zs.le(0, k), zs.le(k, n)), term, lv_concat(opq(t, elt), opq(d, elt))))
            st.pc.append(ListEq(And(g, zs.lt(n, k)), t, lv))
            if isinstance(hi, int) and hi < 0:
                st.pc.append(ListEq(And(g, zs.lt(k, 0)), t, LV([], elt)))
            return opq(t, elt)
        if hi is None and (nonneg(lo, st.pc) or self.known(st, zs.le(0, lo))):
            t, d = take(term, zs.I(lo)), drop(term, zs.I(lo))
            st.pc.append(ListEq(And(g, zs.le(0, lo), zs.le(lo, n)), term, lv_concat(opq(t, elt), opq(d, elt))))
            st.pc.append(ListEq(And(g, zs.lt(n, lo)), d, LV([], elt)))
            return opq(d, elt)
        raise Unsupported("this form of list slice")

    # ------------------------------------------------------------ evaluation
    def ev(self, e, st, g=True):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, st, g)

    def ev_Constant(self, e, st, g):
        if isinstance(e.value, SCALAR):
            return e.value
        raise Unsupported("constant %r" % (e.value,))

    def ev_Name(self, e, st, g):
        return self.lookup(st, st.frames["cur"]["fid"], e.id, st.frames["cur"]["globs"], e)

    def ev_JoinedStr(self, e, st, g):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, st, g)
                x = zs.lit(x) if zs.is_sym(x) else x
                if v.format_spec is None and v.conversion in (-1, 115) and zs.is_str(x):
                    out.append(x)
                elif isinstance(x, int) and not isinstance(x, bool) and v.format_spec is None:
                    out.append(str(x))
                else:
                    out.append(fresh("str", "fmt"))
        return zs.concat(*out)

    def ev_BinOp(self, e, st, g):
        a, b = self.ev(e.left, st, g), self.ev(e.right, st, g)
        a, b = self.need(st, a, e, g), self.need(st, b, e, g)
        op = type(e.op).__name__
        return self.binop(st, op, a, b, e, g)

    def binop(self, st, op, a, b, e, g):
        if isinstance(a, Choice):
            return self.ite_value(st, a.cond, self.binop(st, op, a.a, b, e, g), self.binop(st, op, a.b, b, e, g))
        if isinstance(b, Choice):
            return self.ite_value(st, b.cond, self.binop(st, op, a, b.a, e, g), self.binop(st, op, a, b.b, e, g))
        num = lambda x: zs.is_int(x) or zs.is_bool(x)
        toint = lambda x: Ite(x, 1, 0) if zs.is_bool(x) else x
        if op == "Add":
            if zs.is_str(a) and zs.is_str(b):
                return zs.concat(a, b)
            if num(a) and num(b):
                return zs.add(toint(a), toint(b))
            if self.is_list(st, a) and self.is_list(st, b):
                r = lv_concat(self.lv(st, a), self.lv(st, b))
                return r if self.spec else self.new_ref(st, Obj("list", r))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            self.exc(st, True, TypeError, e, g)
            raise Unsupported("+ on %s and %s" % (type_of(a), type_of(b)))
        if op == "Sub" and num(a) and num(b):
            return zs.sub(toint(a), toint(b))
        if op == "Mult":
            if num(a) and num(b):
                a, b = zs.lit(toint(a)), zs.lit(toint(b))
                if isinstance(a, int) and isinstance(b, int):
                    return a * b
                return zs.I(a) * zs.I(b)
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(b, str) and isinstance(a, int):
                return a * b
        if op in ("FloorDiv", "Mod") and num(a) and num(b):
            a, b = zs.lit(toint(a)), zs.lit(toint(b))
            if isinstance(b, int) and b > 0:
                if isinstance(a, int):
                    return a // b if op == "FloorDiv" else a % b
                return zs.I(a) / b if op == "FloorDiv" else zs.I(a) % b
        if op == "Pow" and isinstance(a, int) and isinstance(b, int) and b >= 0:
            return a ** b
        if op == "BitAnd" and zs.is_bool(a) and zs.is_bool(b):
            return And(a, b)
        if op == "BitOr" and zs.is_bool(a) and zs.is_bool(b):
            return Or(a, b)
        raise Unsupported("operator %s on %s and %s" % (op, type_of(a), type_of(b)))

    def ev_BoolOp(self, e, st, g):
        is_and = isinstance(e.op, ast.And)
        vals, gg = [], g
        truths = []
        for i, x in enumerate(e.values):
            v = self.ev(x, st, gg)
            t = self.decide(st, self.truth(st, v))
            vals.append(v)
            truths.append(t)
            if t is (not is_and):
                break
            gg = And(gg, t if is_and else Not(t))
            if zs.lit(gg) is False:
                break
        if all(zs.is_bool(v) for v in vals):
            return And(*truths) if is_and else Or(*truths)
        r = vals[-1]
        for v, t in reversed(list(zip(vals, truths))[:-1]):
            r = self.ite_value(st, t, r, v) if is_and else self.ite_value(st, t, v, r)
        return r

    def ev_UnaryOp(self, e, st, g):
        v = self.ev(e.operand, st, g)
        if isinstance(e.op, ast.Not):
            return Not(self.truth(st, v))
        if isinstance(e.op, ast.USub):
            v = self.need(st, v, e, g)
            if zs.is_int(v):
                return zs.sub(0, v)
        raise Unsupported("unary operator")

    def ev_IfExp(self, e, st, g):
        c = self.decide(st, self.truth(st, self.ev(e.test, st, g)))
        if c is True:
            return self.ev(e.body, st, g)
        if c is False:
            return self.ev(e.orelse, st, g)
        a = self.ev(e.body, st, And(g, c))
        b = self.ev(e.orelse, st, And(g, Not(c)))
        return self.ite_value(st, c, a, b)

    def ev_NamedExpr(self, e, st, g):
        if zs.lit(g) is not True:
            raise NeedFork(("cond", g), e)
        v = self.ev(e.value, st, g)
        self.assign(e.target, v, st)
        return v

    def ev_Compare(self, e, st, g):
        left = self.ev(e.left, st, g)
        out, gg = [], g
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, gg)
            c = self.compare(st, op, left, right, e, gg)
            out.append(c)
            gg = And(gg, c)
            left = right
        return And(*out)

    def compare(self, st, op, a, b, e, g):
        n = type(op).__name__
        if n in ("Eq", "NotEq"):
            r = self.eq(st, a, b)
            return r if n == "Eq" else Not(r)
        if n in ("Is", "IsNot"):
            if a is None or b is None:
                r = self.eq(st, a, b)
            elif isinstance(a, bool) or isinstance(b, bool):
                r = self.eq(st, a, b) if zs.is_bool(a) and zs.is_bool(b) else False
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a.oid == b.oid
            elif isinstance(a, Const) and isinstance(b, Const):
                r = a.obj is b.obj
            else:
                raise Unsupported("is on values")
            return r if n == "Is" else Not(r)
        if n in ("In", "NotIn"):
            r = self.contains(st, a, b, e, g)
            return r if n == "In" else Not(r)
        a, b = self.need(st, a, e, g), self.need(st, b, e, g)
        if isinstance(a, Choice):
            return Ite(a.cond, self.compare(st, op, a.a, b, e, g), self.compare(st, op, a.b, b, e, g))
        if isinstance(b, Choice):
            return Ite(b.cond, self.compare(st, op, a, b.a, e, g), self.compare(st, op, a, b.b, e, g))
        toint = lambda x: Ite(x, 1, 0) if zs.is_bool(x) else x
        a, b = toint(a), toint(b)
        if zs.is_int(a) and zs.is_int(b):
            return {"Lt": lambda: zs.lt(a, b), "LtE": lambda: zs.le(a, b), "Gt": lambda: zs.lt(b, a), "GtE": lambda: zs.le(b, a)}[n]()
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[n]
        raise Unsupported("order comparison of %s and %s" % (type_of(a), type_of(b)))

    def ev_Tuple(self, e, st, g):
        return tuple(self.ev(x, st, g) for x in e.elts)

    def ev_List(self, e, st, g):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.lv(st, self.ev(x.value, st, g)).segs)
            else:
                segs.append(("e", self.ev(x, st, g)))
        lv = LV(segs)
        if not self.spec:
            fam = self.as_family(st, e.elts, [s[1] for s in segs]) if len(segs) == len(e.elts) else None
            if fam is not None:
                return self.new_ref(st, fam)
        return lv if self.spec else self.new_ref(st, Obj("list", lv))

    def ev_Lambda(self, e, st, g):
        return Closure(e, st.frames["cur"]["fid"], st.frames["cur"]["globs"], "<lambda>")

    def ev_Set(self, e, st, g):
        lv = elems([self.ev(x, st, g) for x in e.elts])
        return lv if self.spec else self.new_ref(st, Obj("list", lv, frozen=True))

    def ev_Dict(self, e, st, g):
        kv = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            kv.append((self.ev(k, st, g), self.freeze_soft(st, self.ev(v, st, g))))
        return self.new_ref(st, Obj("dict", elems(kv)))

    def freeze_soft(self, st, v):
        return self.freeze(st, v) if not (isinstance(v, Ref) and st.heap[v.oid].kind == "dict") else v

    def ev_Attribute(self, e, st, g):
        v = self.ev(e.value, st, g)
        if isinstance(v, Const) and isinstance(v.obj, pytypes.ModuleType):
            if not hasattr(v.obj, e.attr):
                raise Unsupported("module attribute %s" % e.attr)
            return self.from_py(st, getattr(v.obj, e.attr), e.attr)
        if isinstance(v, Const) and isinstance(v.obj, type):
            return Const(getattr(v.obj, e.attr))
        return Bound(v, e.attr, e)

    def ev_Subscript(self, e, st, g):
        v = self.ev(e.value, st, g)
        v = self.need(st, v, e, g)
        if isinstance(e.slice, ast.Slice):
            if e.slice.step is not None:
                step = self.ev(e.slice.step, st, g)
                if step == -1 and e.slice.lower is None and e.slice.upper is None and isinstance(v, (str, tuple)):
                    return v[::-1]
                raise Unsupported("slice with a step")
            lo = None if e.slice.lower is None else self.need(st, self.ev(e.slice.lower, st, g), e, g)
            hi = None if e.slice.upper is None else self.need(st, self.ev(e.slice.upper, st, g), e, g)
            return self.over_choice(v, lambda x: self.slice_of(st, x, lo, hi, g, e))
        i = self.ev(e.slice, st, g)
        i = self.need(st, i, e, g)
        return self.over_choice(v, lambda x: self.index_of(st, x, i, e, g))

    def slice_of(self, st, v, lo, hi, g, e):
        if zs.is_str(v):
            return self.str_slice(st, v, lo, hi, g)
        if isinstance(v, tuple):
            if isinstance(lo, (int, type(None))) and isinstance(hi, (int, type(None))):
                return v[lo:hi]
        if self.is_list(st, v):
            r = self.list_slice(st, self.lv(st, v), lo, hi, g)
            return r if self.spec else self.new_ref(st, Obj("list", r))
        raise Unsupported("slice of %s" % type_of(v))

    def index_of(self, st, v, i, e, g):
        if zs.is_str(v):
            if not zs.is_int(i):
                self.exc(st, True, TypeError, e, g)
                return ""
            return self.str_index(st, v, i, e, g)
        if isinstance(v, tuple):
            i = zs.lit(i)
            if isinstance(i, int):
                if -len(v) <= i < len(v):
                    return v[i]
                self.exc(st, True, IndexError, e, g)
                return v[0] if v else None
            return self.list_index(st, elems(v), i, e, g)
        if isinstance(v, Table):
            h = self.table_has(v, i)
            self.exc(st, Not(h), KeyError, e, g)
            lv = self.table_val(v, i)
            return lv if self.spec else self.new_ref(st, Obj("list", lv, owned=False, origin=("table", v.name)))
        fam = self.family(st, v)
        if fam is not None and fam.dims:
            return DView(fam.ref, fam.idx + (self.family_index(st, fam, i, e, g),), fam.dims[1:])
        if self.is_dict(st, v) or fam is not None:
            val = st.heap[v.oid if fam is None else fam.ref.oid].val
            if fam is not None:
                i = fam.idx + (i,)
            if not val.segs:
                self.exc(st, True, KeyError, e, g)
                return None
            has, x = self.dict_get(st, val, i, e, g)
            self.exc(st, Not(has), KeyError, e, g)
            return x
        if self.is_list(st, v):
            if not (zs.is_int(i) or zs.is_bool(i)):
                raise Unsupported("list index of type %s" % type_of(i))
            if zs.is_bool(i):
                i = Ite(i, 1, 0)
            return self.list_index(st, self.lv(st, v), i, e, g)
        if isinstance(v, Match):
            raise Unsupported("match indexing")
        if v is None:
            self.exc(st, True, TypeError, e, g)
            raise Unsupported("subscript of None")
        raise Unsupported("subscript of %s" % type_of(v))

    def family_index(self, st, fam, i, e, g):
        if not zs.is_int(i):
            raise Unsupported("list index of type %s" % type_of(i))
        n = fam.dims[0]
        self.exc(st, Or(zs.le(n, i), zs.lt(zs.add(n, i), 0)), IndexError, e, g)
        if nonneg(i, st.pc):
            return i
        return Ite(zs.lt(i, 0), zs.add(i, n), i)

    # ------------------------------------------------------------ comprehensions
    def iter_of(self, st, v, node, g):
        fam = self.family(st, v)
        if fam is not None:
            if fam.dims:
                return Iter("list", elems([DView(fam.ref, fam.idx + (k,), fam.dims[1:]) for k in range(fam.dims[0])]), fam.ref.oid)
            return Iter("fam", fam, "keys", fam.ref.oid)
        if isinstance(v, Iter):
            return v
        if isinstance(v, Opt):
            v = self.need(st, v, node, g)
        if zs.is_str(v):
            return Iter("str", v)
        if isinstance(v, tuple):
            return Iter("list", elems(v), None)
        if isinstance(v, LV):
            return Iter("list", v, None)
        if isinstance(v, Ref):
            o = st.heap[v.oid]
            if o.kind == "dict":
                return Iter("dict", o.val, v.oid)
            return Iter("list", o.val, v.oid)
        if isinstance(v, Table):
            return Iter("table", v, "keys")
        raise Unsupported("iteration over %r" % (v,))

    def ev_ListComp(self, e, st, g):
        r = self.comp(e, st, g)
        if not self.spec and r.concrete:
            fam = self.as_family(st, [e.elt], r.items())
            if fam is not None:
                return self.new_ref(st, fam)
        return r if self.spec else self.new_ref(st, Obj("list", r))

    def ev_SetComp(self, e, st, g):
        raise Unsupported("set comprehension")

    def ev_GeneratorExp(self, e, st, g):
        return Iter("gen", e)

    def comp(self, e, st, g):
        """a one-clause comprehension as a list value"""
        if len(e.generators) != 1 or e.generators[0].is_async:
            raise Unsupported("nested comprehension")
        gen = e.generators[0]
        it = self.iter_of(st, self.ev(gen.iter, st, g), e, g)
        lv = self.iter_lv(st, it)
        return self.map_iter(e.elt, gen, lv, st, g)

    def iter_lv(self, st, it):
        if it.kind == "list":
            return it.args[0]
        if it.kind == "str" and isinstance(it.args[0], str):
            return elems(list(it.args[0]))
        if it.kind == "range" and all(isinstance(a, int) for a in it.args):
            return elems(list(range(*it.args)))
        if it.kind == "enum":
            lv = self.iter_lv(st, it.args[0])
            if lv.concrete and isinstance(it.args[1], int):
                return elems([(i + it.args[1], x) for i, x in enumerate(lv.items())])
        if it.kind == "zip":
            ls = [self.iter_lv(st, x) for x in it.args[0]]
            if all(l.concrete for l in ls):
                return elems([tuple(x) for x in zip(*[l.items() for l in ls])])
        if it.kind == "gen":
            return self.comp(it.args[0], st, True)
        if it.kind == "dict":
            if it.args[0].concrete:
                return elems([x[0] for x in it.args[0].items()])
        if it.kind == "table":
            lv = self.table_items(it.args[0])
            i = {"keys": 0, "values": 1}.get(it.args[1])
            return lv if i is None else self.map_lv(None, lv, lambda x: x[i])
        raise Unsupported("comprehension over %s" % it.kind)

    def map_iter(self, elt, gen, lv, st, g):
        segs, et = [], None
        for s in lv.segs:
            if s[0] == "o":
                r = self.map_one_opaque(elt, gen, s, st, g)
                segs.append(r)
                et = join_type(et, r[2])
            else:
                c0 = s[1] if s[0] == "c" else True
                c, w = self.elem_body(elt, gen, s[-1], st, And(g, c0))
                c = And(c0, c)
                if zs.lit(c) is False:
                    continue
                segs.append(("e", w) if zs.lit(c) is True else ("c", c, w))
        return LV(segs, et)

    def elem_body(self, elt, gen, x, st, g):
        cur = st.frames["cur"]
        self.fid[0] += 1
        f = self.fid[0]
        st.frames[f] = {}
        st.parents[f] = cur["fid"]
        st.frames["cur"] = dict(cur, fid=f)
        try:
            self.bind_target(gen.target, x, st)
            c = True
            for t in gen.ifs:
                c = And(c, self.decide(st, self.truth(st, self.ev(t, st, And(g, c)))))
            if zs.lit(c) is False:
                return False, None
            w = self.ev(elt, st, And(g, c)) if elt is not None else None
            w = self.freeze_soft(st, w)
        finally:
            st.frames["cur"] = cur
        return c, w

    def on_placeholder(self, elt, gen, etype, st, g):
        """evaluate a comprehension body on the placeholder element; returns
        (placeholder, condition, value, [(exception condition, class, node)])"""
        ph = mk(etype, lambda p, so: z3.Const("ph%s:%s" % (p, so), smt.SORTS[so]))
        saved = st.excs
        st.excs = []
        npc = len(st.pc)
        c, w = self.elem_body(elt, gen, ph, st, True)
        ex = st.excs
        st.excs = saved
        if len(st.pc) != npc and any(mentions(p, "|ph") for p in st.pc[npc:]):
            if any(not isinstance(p, ListEq) for p in st.pc[npc:]):
                raise Unsupported("comprehension body adds path facts")
        return ph, c, w, ex

    def map_one_opaque(self, elt, gen, s, st, g):
        _, term, etype = s
        ph, c, w, ex = self.on_placeholder(elt, gen, etype, st, g)
        for cond, cls, node in ex:
            fo = smt.body_fold(("and",), etype, ph, zs.lit(Not(cond)))
            self.exc(st, Not(smt.fold_term(fo, term)), cls, node, g)
        if zs.lit(c) is False:
            return ("o", smt.EMPTY, etype)
        return self.map_opaque_vals(s, ph, c, w)

    def map_opaque_vals(self, s, ph, c, w):
        return self.map_opaque(s, lambda _: w, (lambda _: c) if zs.lit(c) is not True else None)

    def quant(self, kind, it, st, g, node):
        """all / any / sum over an iterable or generator expression"""
        if it.kind == "gen":
            e = it.args[0]
            if len(e.generators) != 1:
                raise Unsupported("nested generator")
            gen = e.generators[0]
            src = self.iter_of(st, self.ev(gen.iter, st, g), node, g)
            elt = e.elt
        else:
            gen = ast.comprehension(target=ast.Name(id="_q", ctx=ast.Store()), iter=None, ifs=[], is_async=0)
            elt = ast.Name(id="_q", ctx=ast.Load())
            src = it

        def val(c, w, neutral):
            if kind == "all":
                return Implies(c, self.truth(st, w))
            if kind == "any":
                return Implies(c, Not(self.truth(st, w)))
            w = Ite(w, 1, 0) if zs.is_bool(w) else w
            if not zs.is_int(w):
                raise Unsupported("sum of non-integers")
            return Ite(c, w, 0)
        if src.kind == "str" and not isinstance(src.args[0], str):
            s = src.args[0]
            ph0 = zs.PHC
            saved, st.excs = st.excs, []
            c, w = self.elem_body(elt, gen, ph0, st, True)
            ex, st.excs = st.excs, saved
            for cond, cls, n in ex:
                h = char_fold("and", lambda _: Not(cond))
                self.exc(st, Not(h(s)), cls, n, g)
            body = val(c, w, None)
            h = char_fold("sum" if kind == "sum" else "and", lambda _: body)
            r = h(s)
            return Not(r) if kind == "any" else r
        lv = self.iter_lv(st, src)
        if isinstance(src.args[0], LV) and not lv.concrete or any(s[0] != "e" for s in lv.segs):
            out = [] if kind != "sum" else 0
            for s in lv.segs:
                if s[0] == "o":
                    ph, c, w, ex = self.on_placeholder(elt, gen, s[2], st, g)
                    for cond, cls, n in ex:
                        fo = smt.body_fold(("and",), s[2], ph, zs.lit(Not(cond)))
                        self.exc(st, Not(smt.fold_term(fo, s[1])), cls, n, g)
                    fo = smt.body_fold(("sum",) if kind == "sum" else ("and",), s[2], ph, zs.lit(val(c, w, None)))
                    t = smt.fold_term(fo, s[1])
                else:
                    c0 = s[1] if s[0] == "c" else True
                    c, w = self.elem_body(elt, gen, s[-1], st, And(g, c0))
                    t = val(And(c0, c), w, None) if w is not None or zs.lit(c) is not False else (0 if kind == "sum" else True)
                out = zs.add(out, t) if kind == "sum" else out + [t]
            if kind == "sum":
                return out
            r = And(*out)
            return Not(r) if kind == "any" else r
        outs, gg = [], g
        for x in lv.items():
            c, w = self.elem_body(elt, gen, x, st, gg)
            if zs.lit(c) is False:
                continue
            v = val(c, w, None)
            outs.append(v)
            if kind != "sum":
                gg = And(gg, v)
        if kind == "sum":
            t = 0
            for v in outs:
                t = zs.add(t, v)
            return t
        r = And(*outs)
        return Not(r) if kind == "any" else r

    def bind_target(self, target, v, st):
        if isinstance(target, ast.Name):
            st.frames[st.frames["cur"]["fid"]][target.id] = v
            return
        if isinstance(target, (ast.Tuple, ast.List)):
            vs = self.unpack(st, v, len(target.elts), target)
            for t, x in zip(target.elts, vs):
                self.bind_target(t, x, st)
            return
        raise Unsupported("assignment target")

    def unpack(self, st, v, n, node):
        if isinstance(v, Opt):
            v = self.need(st, v, node, True)
        if isinstance(v, tuple):
            if len(v) != n:
                self.exc(st, True, ValueError, node, True)
                raise Unsupported("tuple of wrong length unpacked")
            return list(v)
        if isinstance(v, Choice):
            return [self.ite_value(st, v.cond, a, b) for a, b in
                    zip(self.unpack(st, v.a, n, node), self.unpack(st, v.b, n, node))]
        if self.is_list(st, v):
            lv = self.lv(st, v)
            if lv.concrete and len(lv.items()) == n:
                return lv.items()
        raise Unsupported("unpacking of %s" % type_of(v))

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, st, g):
        h = st.frames["cur"].get("hoist")
        if h and id(e) in h:
            return h[id(e)]
        f = self.ev(e.func, st, g)
        if isinstance(f, Choice):
            raise Unsupported("call of a conditional function")
        if isinstance(f, Const) and f.obj is builtins.isinstance:
            return self.b_isinstance(e, st, g)
        if isinstance(f, Const) and f.obj is builtins.type and len(e.args) == 1:
            self.ev(e.args[0], st, g)
            return Const(object)
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            raise Unsupported("star arguments")
        if isinstance(f, Const) and isinstance(f.obj, SpecSpecial):
            return f.obj.fn(self, st, [a for a in e.args], g)
        args = [self.ev(a, st, g) for a in e.args]
        kw = {k.arg: self.ev(k.value, st, g) for k in e.keywords}
        return self.call(f, args, kw, e, st, g)

    def call(self, f, args, kw, e, st, g):
        if isinstance(f, Bound):
            return self.call_method(f, args, kw, e, st, g)
        if isinstance(f, Closure):
            return self.inline_expr(f, args, kw, e, st, g)
        if isinstance(f, Const):
            o = f.obj
            if isinstance(o, smt.Hom):
                return o(args[0])
            if isinstance(o, pytypes.BuiltinFunctionType) or o in BUILTIN_TYPES:
                return self.call_builtin(o, args, kw, e, st, g)
            if isinstance(o, type) and issubclass(o, BaseException):
                return ExcVal(o)
            if isinstance(o, pytypes.FunctionType):
                if getattr(o, "_spec", None):
                    return self.call_spec(o, args, kw, st)
                if o.__module__ == "re":
                    return self.call_re(o, args, kw, e, st, g)
                if self.src.node_of(o) is not None:
                    c = self.contracts.get(o.__module__.split(".")[-1] + "." + o.__qualname__)
                    if c is not None and c.active(self.prop):
                        return self.call_contract(c, o, args, kw, e, st, g)
                    return self.inline_expr(f, args, kw, e, st, g)
            raise Unsupported("call of %r" % (getattr(o, "__name__", o),))
        raise Unsupported("call of %r" % (f,))

    def b_isinstance(self, e, st, g):
        v = self.ev(e.args[0], st, g)
        c = self.ev(e.args[1], st, g)
        cs = c if isinstance(c, tuple) else (c,)
        t = type_of(v)
        if isinstance(v, Opt):
            raise Unsupported("isinstance of an optional value")
        out = False
        for k in cs:
            if not (isinstance(k, Const) and isinstance(k.obj, type)):
                raise Unsupported("isinstance with an unknown class")
            out = out or {str: t == "str", int: t in ("int", "bool"), bool: t == "bool",
                          list: self.is_list(st, v), tuple: isinstance(v, tuple), dict: self.is_dict(st, v)}.get(k.obj, False)
        return out

    def call_builtin(self, o, args, kw, e, st, g):
        n = getattr(o, "__name__", "")
        if kw and n not in ("enumerate", "sum", "min", "max", "print", "sorted"):
            raise Unsupported("keyword arguments of %s" % n)
        if n not in ("next", "print"):
            args = [self.need(st, a, e, g) if isinstance(a, Opt) else a for a in args]
        if n == "len":
            v = args[0]
            if isinstance(v, Choice):
                return self.ite_value(st, v.cond, self.call_builtin(o, [v.a], kw, e, st, g), self.call_builtin(o, [v.b], kw, e, st, g))
            if zs.is_str(v):
                return zs.length(v)
            if isinstance(v, tuple):
                return len(v)
            if self.is_list(st, v):
                return lv_len(self.lv(st, v))
            if self.is_dict(st, v) and not st.heap[v.oid].val.segs:
                return 0
            if isinstance(v, Table):
                return len(v.obj)
            raise Unsupported("len of %s" % type_of(v))
        if n in ("all", "any"):
            return self.quant(n, self.iter_of(st, args[0], e, g), st, g, e)
        if n == "sum":
            if len(args) > 1 or kw:
                raise Unsupported("sum with a start")
            return self.quant("sum", self.iter_of(st, args[0], e, g), st, g, e)
        if n in ("min", "max"):
            if kw or len(args) < 2 or not all(zs.is_int(a) for a in args):
                raise Unsupported("%s of these arguments" % n)
            r = args[0]
            for a in args[1:]:
                r = Ite(zs.lt(a, r), a, r) if n == "min" else Ite(zs.lt(r, a), a, r)
            return r
        if n == "bool":
            return self.truth(st, args[0]) if args else False
        if n == "str":
            if args and zs.is_str(args[0]):
                return args[0]
            return fresh("str", "str")
        if n == "int" and args and (zs.is_int(args[0]) or zs.is_bool(args[0])):
            return Ite(args[0], 1, 0) if zs.is_bool(args[0]) else args[0]
        if n == "range":
            if len(args) == 1:
                return Iter("range", 0, args[0])
            if len(args) == 2:
                return Iter("range", args[0], args[1])
            if all(isinstance(a, int) for a in args):
                return Iter("list", elems(list(range(*args))), None)
            raise Unsupported("range with a step")
        if n == "enumerate":
            start = args[1] if len(args) > 1 else kw.get("start", 0)
            return Iter("enum", self.iter_of(st, args[0], e, g), start)
        if n == "zip":
            return Iter("zip", [self.iter_of(st, a, e, g) for a in args])
        if n == "reversed":
            it = self.iter_of(st, args[0], e, g)
            lv = self.iter_lv(st, it)
            if lv.concrete:
                return Iter("list", elems(lv.items()[::-1]), None)
            raise Unsupported("reversed")
        if n == "next":
            return self.b_next(args, e, st, g)
        if n in ("list", "tuple"):
            if not args:
                return self.new_ref(st, Obj("list", LV([]))) if n == "list" else ()
            it = self.iter_of(st, args[0], e, g)
            lv = self.iter_lv(st, it) if it.kind != "dict" else self.lv(st, args[0])
            if n == "tuple":
                return tuple(lv.items()) if lv.concrete else lv
            return self.new_ref(st, Obj("list", lv)) if not self.spec else lv
        if n == "dict" and not args:
            return self.new_ref(st, Obj("dict", LV([])))
        if n == "print":
            return None
        if n == "abs" and zs.is_int(args[0]):
            return Ite(zs.lt(args[0], 0), zs.sub(0, args[0]), args[0])
        if n in ("chr", "ord") and not zs.is_sym(args[0]):
            return o(args[0])
        raise Unsupported("builtin %s" % n)

    def b_next(self, args, e, st, g):
        """next((elt for [i,] c in [enumerate](s) if cond), default): the first match"""
        if len(args) != 2 or not isinstance(args[0], Iter) or args[0].kind != "gen":
            raise Unsupported("next")
        ge = args[0].args[0]
        if len(ge.generators) != 1:
            raise Unsupported("next over nested generators")
        gen = ge.generators[0]
        it = self.iter_of(st, self.ev(gen.iter, st, g), e, g)
        start = None
        base = it
        if it.kind == "enum":
            start, base = it.args[1], it.args[0]
        if base.kind != "str":
            raise Unsupported("next over %s" % base.kind)
        s = base.args[0]
        conds = gen.ifs

        def body(elt, k, c):
            gg = ast.comprehension(target=gen.target, iter=None, ifs=conds, is_async=0)
            return self.elem_body(elt, gg, c if start is None else (zs.add(k, start), c), st, True)
        if isinstance(s, str):
            r = args[1]
            for k in range(len(s) - 1, -1, -1):
                c, w = body(ge.elt, k, s[k])
                if zs.lit(c) is not False:
                    r = self.ite_value(st, c, w, r)
            return r
        ph0 = z3.Const("phc:str", z3.StringSort())
        idx = z3.Const("phi:int", z3.IntSort())
        saved, st.excs = st.excs, []
        c, w = body(ge.elt, idx, ph0)
        ex, st.excs = st.excs, saved
        if mentions(c, "|phi:") or ex:
            raise Unsupported("next with an index in the condition")
        c = zs.lit(c)
        none = char_fold("and", lambda _: Not(c))
        k = smt.decl("first_" + none.name, [z3.StringSort()], z3.IntSort(), lambda t: first_axioms(t, none, c, ph0))(zs.S(s))
        hit = self.elem_body(ge.elt, ast.comprehension(target=gen.target, iter=None, ifs=[], is_async=0),
                             zs.substr(s, k, 1) if start is None else (zs.add(k, start), zs.substr(s, k, 1)), st, True)[1]
        return self.ite_value(st, zs.le(0, k), hit, args[1])

    # ------------------------------------------------------------ methods
    def call_method(self, f, args, kw, e, st, g):
        r, n = f.recv, f.name
        if isinstance(r, Opt):
            r = self.need(st, r, e, g)
        if isinstance(r, Choice):
            return self.ite_value(st, r.cond, self.call_method(Bound(r.a, n, e), args, kw, e, st, And(g, r.cond)),
                                  self.call_method(Bound(r.b, n, e), args, kw, e, st, And(g, Not(r.cond))))
        if zs.is_str(r):
            return self.str_method(r, n, args, kw, e, st, g)
        if isinstance(r, Match):
            if n == "groups":
                return r.groups
            if n == "group" and args and isinstance(args[0], int) and args[0] >= 1:
                return r.groups[args[0] - 1]
            raise Unsupported("match.%s" % n)
        if isinstance(r, Table):
            if n in ("items", "keys", "values"):
                return Iter("table", r, n)
            if n == "get":
                h = self.table_has(r, args[0])
                v = self.new_ref(st, Obj("list", self.table_val(r, args[0]), owned=False, origin=("table", r.name)))
                d = args[1] if len(args) > 1 else None
                if d is None:
                    return Opt(Not(h), v) if zs.lit(h) is not True else v
                return self.ite_value(st, h, v, d)
            raise Unsupported("dict method %s" % n)
        fam = self.family(st, r)
        if fam is not None:
            if not fam.dims and n in ("items", "keys", "values"):
                return Iter("fam", fam, n, fam.ref.oid)
            if not fam.dims and n == "get":
                val = st.heap[fam.ref.oid].val
                d = args[1] if len(args) > 1 else None
                if not val.segs:
                    return d
                has, x = self.dict_get(st, val, fam.idx + (args[0],), e, g)
                return self.ite_value(st, has, x, d)
            raise Unsupported("method %s of nested dicts" % n)
        if isinstance(r, Ref):
            o = st.heap[r.oid]
            if o.kind == "dict":
                if n == "items":
                    return Iter("dictitems", o.val, r.oid)
                if n == "keys":
                    return Iter("dict", o.val, r.oid)
                if n == "values":
                    return Iter("dictvalues", o.val, r.oid)
                if n == "get":
                    if not o.val.segs:
                        return args[1] if len(args) > 1 else None
                    has, x = self.dict_get(st, o.val, args[0], e, g)
                    return self.ite_value(st, has, x, args[1] if len(args) > 1 else None)
                raise Unsupported("dict method %s" % n)
            return self.list_method(r, n, args, kw, e, st, g)
        if isinstance(r, LV):
            if n == "copy":
                return self.new_ref(st, Obj("list", r))
            if n == "count":
                return self.list_count(st, r, args[0])
            raise Unsupported("list method %s on an immutable list value" % n)
        raise Unsupported("method %s of %s" % (n, type_of(r)))

    def list_count(self, st, lv, x):
        t = 0
        for s in lv.segs:
            if s[0] == "o":
                fo = make_fold(("sum",), s[2], lambda v: Ite(self.eq(st, v, x), 1, 0))
                t = zs.add(t, smt.fold_term(fo, s[1]))
            else:
                c = self.eq(st, s[-1], x)
                t = zs.add(t, Ite(And(s[1], c) if s[0] == "c" else c, 1, 0))
        return t

    def list_method(self, r, n, args, kw, e, st, g):
        o = st.heap[r.oid]
        if n == "copy":
            return self.new_ref(st, Obj("list", o.val))
        if n == "count":
            return self.list_count(st, o.val, args[0])
        if n in ("append", "insert", "extend", "pop", "clear"):
            if zs.lit(g) is not True:
                raise NeedFork(("cond", g), e)
            if n == "append":
                new = lv_concat(o.val, elems([self.elem_in(st, args[0])]))
                res = None
            elif n == "insert":
                if args[0] == 0:
                    new = lv_concat(elems([self.elem_in(st, args[1])]), o.val)
                else:
                    raise Unsupported("insert at a position")
                res = None
            elif n == "extend":
                new = lv_concat(o.val, self.iter_lv(st, self.iter_of(st, args[0], e, g)))
                res = None
            elif n == "clear":
                new, res = LV([], o.val.elt), None
            else:
                if args and args[0] not in (-1, 0):
                    raise Unsupported("pop at a position")
                i = args[0] if args else -1
                res = self.list_index(st, o.val, i, e, g)
                new = self.list_slice(st, o.val, None, -1, g) if i == -1 else self.list_slice(st, o.val, 1, None, g)
            self.mutate(st, r, new, e)
            return res
        raise Unsupported("list method %s" % n)

    def elem_in(self, st, v):
        """value to be stored as a list element; a list is stored by value and
        may not be changed from then on"""
        if isinstance(v, Ref) and st.heap[v.oid].kind == "list":
            o = st.heap[v.oid]
            if any(isinstance(s[-1], Ref) for s in o.val.segs if s[0] != "o"):
                return v
            w = Obj(o.kind, o.val, o.owned, True, o.origin, o.kv)
            st.heap[v.oid] = w
            return self.freeze(st, v)
        return v

    def mutate(self, st, r, new, node):
        o = st.heap[r.oid]
        if self.spec:
            raise Unsupported("mutation in a specification")
        if o.frozen:
            raise Unsupported("mutation of a possibly shared object")
        if not o.owned:
            self.frame_violation(st, o, node)
        st.heap[r.oid] = o.with_val(new)

    def str_method(self, s, n, args, kw, e, st, g):
        const = not zs.is_sym(s) and all(isinstance(a, SCALAR) for a in args)
        if n in ("lower", "upper", "casefold", "title", "swapcase", "capitalize") and not args:
            if const:
                return getattr(s, n)()
            return smt.decl("str_" + n, [z3.StringSort()], z3.StringSort(), STR_AX.get(n))(s)
        if n in ("startswith", "endswith") and len(args) == 1:
            a = args[0]
            if isinstance(a, tuple):
                return Or(*[self.str_method(s, n, [x], kw, e, st, g) for x in a])
            if isinstance(a, str):
                if n == "startswith":
                    return zs.seq(self.str_slice(st, s, 0, len(a), g), a)
                return self.ends_with(s, a)
            return z3.PrefixOf(zs.S(a), zs.S(s)) if n == "startswith" else z3.SuffixOf(zs.S(a), zs.S(s))
        if n == "replace" and len(args) == 2 and all(isinstance(a, str) for a in args):
            if const:
                return s.replace(*args)
            a, b = args
            return smt.decl("str_replace(%r,%r)" % (a, b), [z3.StringSort()], z3.StringSort(),
                            lambda t: replace_axioms(t, a, b))(s)
        if n == "count" and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
            if const:
                return s.count(args[0])
            return char_fold("sum", lambda c: Ite(zs.seq(c, args[0]), 1, 0))(s)
        if n in ("strip", "lstrip", "rstrip"):
            cs = args[0] if args else None
            if const:
                return getattr(s, n)(*args)
            if isinstance(cs, str) or cs is None:
                return self.strip(s, n, cs)
        if n == "split":
            if const:
                return self.new_ref(st, Obj("list", elems(s.split(*args)))) if not self.spec else elems(s.split(*args))
            if len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
                lv = self.split_by(s, args[0])
            elif not args:
                lv = opq(smt.decl("str_split_ws", [z3.StringSort()], LIST)(s), "str")
            else:
                raise Unsupported("split")
            return lv if self.spec else self.new_ref(st, Obj("list", lv))
        if n == "join" and len(args) == 1 and isinstance(s, str):
            it = self.iter_of(st, args[0], e, g)
            lv = self.iter_lv(st, it)
            return self.join(s, lv)
        if n == "find" and len(args) == 1:
            if const:
                return s.find(args[0])
            return z3.IndexOf(zs.S(s), zs.S(args[0]), z3.IntVal(0))
        if n == "index" and len(args) == 1:
            self.exc(st, Not(z3.Contains(zs.S(s), zs.S(args[0]))), ValueError, e, g)
            return z3.IndexOf(zs.S(s), zs.S(args[0]), z3.IntVal(0))
        if n == "removeprefix" and isinstance(args[0], str):
            c = zs.seq(self.str_slice(st, s, 0, len(args[0]), g), args[0])
            return self.ite_value(st, c, zs.suffix(s, len(args[0])), s)
        if n == "removesuffix" and isinstance(args[0], str):
            k = len(args[0])
            return self.ite_value(st, self.ends_with(s, args[0]), zs.substr(s, 0, zs.sub(zs.length(s), k)), s) if k else s
        if n in ("isalpha", "isspace", "isdigit", "isupper", "islower") and not args:
            if const:
                return getattr(s, n)()
            return smt.decl("str_" + n, [z3.StringSort()], z3.BoolSort())(s)
        if n == "format":
            return fresh("str", "fmt")
        raise Unsupported("string method %s" % n)

    def ends_with(self, s, a):
        if isinstance(s, str):
            return s.endswith(a)
        ps = zs.concat_parts(s)
        if len(ps) > 1 and isinstance(ps[-1], str) and len(ps[-1]) >= len(a):
            return ps[-1].endswith(a)
        k = len(a)
        return And(zs.le(k, zs.length(s)), zs.seq(zs.substr(s, zs.sub(zs.length(s), k), k), a)) if k else True

    def join(self, sep, lv):
        et = lv.elt_type() or "str"
        if et != "str":
            raise Unsupported("join of %r" % (et,))
        m = ("cat",) if sep == "" else ("join", sep)
        fo = make_fold(m, "str", lambda x: x)
        return fold_lv(fo, lv)

    def split_by(self, s, sep):
        name = "str_split(%r)" % sep

        def gen(t):
            L = smt.DECLS[name][0](t)
            return split_axioms(self, t, L, sep)
        return opq(smt.decl(name, [z3.StringSort()], LIST, gen)(s), "str")

    def strip(self, s, n, cs):
        nm = "str_%s(%r)" % (n, cs)
        d = lambda part: smt.decl(nm + part, [z3.StringSort()], z3.StringSort(), lambda t: strip_axioms(t, nm, n, cs))
        for part in ("", ".pre", ".post"):
            d(part)
        return d("")(s)

    def call_re(self, o, args, kw, e, st, g):
        n = o.__name__
        if kw or not isinstance(args[0], str):
            raise Unsupported("regular expression call")
        pat = args[0]
        if n in ("fullmatch", "match", "search"):
            s = self.need(st, args[1], e, g)
            import re as _re
            if isinstance(s, str):
                m = getattr(_re, n)(pat, s)
                return None if m is None else Match(tuple(m.groups()))
            cc = _re.fullmatch(r"(\^?)\[([A-Za-z'~, .]+)\]([+*])(\$?)", pat)
            if cc and "-" not in cc.group(2) and (n == "fullmatch" or (cc.group(4) and (cc.group(1) or n == "match"))):
                # the whole string consists of these characters; `$` also matches
                # before a final newline
                cls = cc.group(2)
                ok = char_fold("and", lambda c: zs.char_class(c, cls))(s)
                if n != "fullmatch":
                    body = zs.substr(s, 0, zs.sub(zs.length(s), 1))
                    ok = Or(ok, And(self.ends_with(s, "\n"), char_fold("and", lambda c: zs.char_class(c, cls))(body),
                                    zs.lt(1, zs.length(s)) if cc.group(3) == "+" else True))
                if cc.group(3) == "+":
                    ok = And(ok, Not(zs.seq(s, "")))
                return Opt(Not(ok), Match(()))
            ng = _re.compile(pat).groups
            key = "re_%s(%r)" % (n, pat)
            ok = smt.decl(key, [z3.StringSort()], z3.BoolSort())(s)
            groups = []
            for i in range(ng):
                groups.append(Opt(smt.decl("%s.n%d" % (key, i), [z3.StringSort()], z3.BoolSort())(s),
                                  smt.decl("%s.g%d" % (key, i), [z3.StringSort()], z3.StringSort())(s)))
            self.trusted.add("re.%s(%r): the match and its groups are unspecified functions of the string" % (n, pat))
            return Opt(Not(ok), Match(tuple(groups)))
        if n == "sub" and len(args) == 3:
            import re as _re
            if isinstance(args[2], str) and isinstance(args[1], str):
                return _re.sub(*args)
            m = _re.fullmatch(r"\^\[([^\]\\^-]+)\]\+\|\[([^\]\\^-]+)\]\+\$", pat)
            if m and args[1] == "" and sorted(m.group(1)) == sorted(m.group(2)):
                self.trusted.add("re.sub(%r, '', s) is s.strip(...) on strings without a newline" % pat)
                return self.strip(args[2], "strip", "".join(sorted(set(m.group(1)))))
        raise Unsupported("re.%s(%r)" % (n, pat))

    # ------------------------------------------------------------ specification calls
    def eval_spec(self, e, env, st=None, src=None):
        """value of a specification expression (total semantics)"""
        if isinstance(e, str):
            e = ast.parse(e.strip(), mode="eval").body
        s = State()
        if st is not None:
            s.heap = st.heap
            s.pc = st.pc
        s.frames[0] = dict(env)
        s.parents[0] = None
        s.frames["cur"] = {"fid": 0, "globs": self.specns}
        self.spec += 1
        try:
            v = self.ev(e, s, True)
        finally:
            self.spec -= 1
        return v

    def call_spec(self, o, args, kw, st):
        meta = o._spec
        if meta["kind"] == "special":
            return getattr(self, meta["fn"])(st, args, kw)
        args = [a.val if isinstance(a, Opt) else a for a in args]       # a clause guards it with "is None or"
        node = self.src.node_of(o)
        names = [a.arg for a in node.args.args]
        env = dict(zip(names, args))
        env.update(kw)
        for nme, d in zip(names[len(names) - len(o.__defaults__ or ()):], o.__defaults__ or ()):
            env.setdefault(nme, self.from_py(st, d))
        if meta["kind"] == "hom":
            if "hom" not in meta:
                meta["hom"] = self.make_hom(o, meta)
            return meta["hom"](args[0]) if len(args) == 1 else self.hom_args(o, meta, args)
        if meta["kind"] == "snoc":
            return self.snoc(o, meta, self.freeze(st, self.lv(st, args[0])) if not isinstance(args[0], LV) else args[0], st)
        if meta["kind"] == "opaque":
            ts, rt = meta["args"], meta["ret"]
            vals = [env[n] for n in names]
            if all(isinstance(v, SCALAR) for v in vals):
                return o(*vals)
            terms = [smt.to_term(x) for v, t in zip(vals, ts) for x in smt.scalars(self.freeze(st, v), t)]

            def facts_for(*zt):
                vs, k = [], 0
                for t in ts:
                    m = len(smt.scalar_sorts(t))
                    it = iter(zt[k:k + m])
                    vs.append(mk(t, lambda p, s: next(it)))
                    k += m
                body = self.spec_body(node.body, dict(zip(names, vs)), st)
                app = smt.DECLS["spec." + o.__name__][0](*zt)
                return [smt.eq_scalar(app, body)]

            def gen(*zt):
                return self.templated("spec " + o.__name__, facts_for, zt)
            return smt.decl("spec." + o.__name__, [t.sort() for t in terms], smt.SORTS[rt], gen)(*terms)
        return self.spec_body(node.body, env, st)

    def sp_returns(self, st, args, kw):
        o = args[0].obj
        c = self.contracts.get(o.__module__.split(".")[-1] + "." + o.__qualname__)
        if c is None or not c.active(self.prop):
            raise Unsupported("outcome of a function without contract")
        out = self.call_contract(c, o, args[1:], kw, None, st, True, outcome_only=True)
        return zs.lit(out == 0)

    def sp_each(self, st, args, kw):
        """every entry of a dict, or of the dicts of a nested list, satisfies the predicate"""
        d, f = args
        k, v = [a.arg for a in f.node.args.args]
        nm = lambda x: ast.Name(id=x, ctx=ast.Store())
        out = []

        def go(x):
            fam = self.family(st, x)
            if fam is not None and not fam.idx:
                put(st.heap[fam.ref.oid].val, ast.Tuple(elts=[nm("_%d" % i) for i in range(len(fam.dims))] + [nm(k)], ctx=ast.Store()))
            elif self.is_dict(st, x):
                put(st.heap[x.oid].val, nm(k))
            elif self.is_list(st, x) and self.lv(st, x).concrete:
                for y in self.lv(st, x).items():
                    go(y)
            else:
                raise Unsupported("entries of %r" % (x,))

        def put(val, pat):
            gen = ast.GeneratorExp(elt=f.node.body, generators=[ast.comprehension(
                target=ast.Tuple(elts=[pat, nm(v)], ctx=ast.Store()), iter=ast.Name(id="_each", ctx=ast.Load()), ifs=[], is_async=0)])
            fr = st.frames["cur"]["fid"]
            st.frames[fr] = dict(st.frames[fr], _each=val)
            out.append(self.quant("all", Iter("gen", gen), st, True, f.node))
        go(d)
        return And(*out)

    def sp_sub(self, st, args, kw):
        s, a, n = args
        return zs.substr(s, zs.add(a, 0), n)

    def snoc(self, o, meta, lv, st):
        """a list function defined element by element from the left:
        f([]) = [], f(p + [x]) = f(p) + ([value(p, x)] if cond(p, x) else [])"""
        name = "snoc." + o.__name__
        cond, val = [ast.parse(t, mode="eval").body for t in meta["step"]]
        out, pre = [], []
        for k, s in enumerate(lv.segs):
            p = LV(lv.segs[:k], lv.elt)
            if s[0] == "o":
                if k:
                    raise Unsupported("%s of a list with an opaque part in the middle" % o.__name__)
                out.append(("o", smt.decl(name, [LIST], LIST)(s[1]), meta["ret"]))
            elif s[0] == "e":
                env = {"p": p, "x": s[1]}
                c = zs.lit(self.truth(st, self.eval_spec(cond, env, st)))
                v = self.eval_spec(val, env, st)
                if c is True:
                    out.append(("e", v))
                elif c is not False:
                    out.append(("c", c, v))
            else:
                raise Unsupported("%s of a conditional list" % o.__name__)
        return LV(out, meta["ret"])

    def hom_args(self, o, meta, args):
        """a homomorphism with constant or Boolean extra arguments"""
        extra = args[1:]
        r = None

        def pick(ex, rest):
            if not rest:
                key = ("homx",) + tuple(ex)
                if key not in meta:
                    meta[key] = self.make_hom(o, meta, tuple(ex))
                return meta[key](args[0])
            x = zs.lit(rest[0])
            if isinstance(x, SCALAR):
                return pick(ex + [x], rest[1:])
            if zs.is_bool(x):
                return self.ite_value(None, x, pick(ex + [True], rest[1:]), pick(ex + [False], rest[1:]))
            raise Unsupported("argument of a homomorphism")
        return pick([], list(extra))

    def make_hom(self, o, meta, extra=()):
        ret = meta["ret"]
        bnd = meta.get("boundary")
        name = "hom.%s%r" % (o.__name__, tuple(extra))

        def combine(a, b, x, y):
            if ret == "int":
                return zs.add(a, b)
            if bnd is None:
                return And(a, b)
            return And(a, b, self.call_spec(bnd, [self.tail(x, meta["k"]), self.head(y, meta["k"])] + list(extra), {}, State()))

        def lemmas(t, h):
            out = []
            for lam in meta.get("lemmas", ()):
                e = ast.parse(lam, mode="eval").body
                env = {"s": t, "val": h.decl(t)}
                env.update({"x%d" % i: v for i, v in enumerate(extra)})
                out.append(self.eval_spec(e, env))
            n = zs.maxlen(t)
            if meta.get("short") and n is not None and n <= 6:
                out.append(short(t, h))
            return out

        def short(t, h):
            return zs.Iff(h.decl(t), self.call_spec(self.specns[meta["short"]], [t] + list(extra), {}, State()))
        cut = None
        if meta.get("at"):
            def cut(s, i, e):
                return zs.lit(self.truth(State(), self.call_spec(self.specns[meta["at"]], [s, i, e] + list(extra), {}, State())))
        return smt.Hom(name, ret, lambda s: o(s, *extra), combine, lemmas, cut, short if meta.get("short") else None,
                       (meta["k"] if bnd is not None else 0) if ret == "bool" else None)

    def tail(self, x, k):
        return self.str_slice(State(), x, -k, None, True) if zs.is_sym(x) else x[-k:]

    def head(self, y, k):
        return zs.substr(y, 0, k) if zs.is_sym(y) else y[:k]

    def spec_body(self, stmts, env, st):
        for k, s in enumerate(stmts):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Return):
                return self.eval_spec(s.value, env, st)
            if isinstance(s, ast.If):
                c = self.truth(st, self.eval_spec(s.test, env, st))
                rest = stmts[k + 1:]
                if zs.lit(c) is True:
                    return self.spec_body(s.body + rest, env, st)
                if zs.lit(c) is False:
                    return self.spec_body(s.orelse + rest, env, st)
                a = self.spec_body(s.body + rest, dict(env), st)
                b = self.spec_body(s.orelse + rest, dict(env), st)
                return self.ite_value(st, c, a, b)
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                env = dict(env)
                env[s.targets[0].id] = self.eval_spec(s.value, env, st)
                continue
            raise Unsupported("statement %s in a specification function" % type(s).__name__)
        return None


class SpecSpecial:
    def __init__(self, fn):
        self.fn = fn


BUILTIN_TYPES = (str, int, bool, list, tuple, dict, range, enumerate, zip, reversed)


def list_sig(d):
    return [d.domain(i) for i in range(d.arity())]


def mentions(t, prefix):
    if isinstance(t, ListEq):
        return mentions(t.cond, prefix) or any(mentions(x, prefix) for s in t.lv.segs for x in s[1:] if zs.is_sym(x))
    if not zs.is_sym(t):
        return False
    return prefix in t.sexpr()


def subst_value(w, welt, phs, vals):
    return mk_map(w, lambda x: smt.subst(x, phs, vals))


def mk_map(v, f):
    if isinstance(v, tuple):
        return tuple(mk_map(x, f) for x in v)
    if isinstance(v, Opt):
        return Opt(f(v.isnone), mk_map(v.val, f))
    if isinstance(v, LV):
        return LV([(s[0], f(s[1])) + s[2:] if s[0] == "o" else ("e", mk_map(s[1], f)) if s[0] == "e" else
                   ("c", f(s[1]), mk_map(s[2], f)) for s in v.segs], v.elt)
    return f(v)


def take(term, k):
    nm = "take"

    def gen(L, i):
        return [Implies(And(zs.le(0, i), zs.le(i, lst_len(L))), zs.ieq(lst_len(smt.DECLS[nm][0](L, i)), i)),
                lst_len(smt.DECLS[nm][0](L, i)) >= 0]
    return smt.decl(nm, [LIST, z3.IntSort()], LIST, gen)(term, zs.I(k))


def drop(term, k):
    nm = "drop"

    def gen(L, i):
        return [Implies(And(zs.le(0, i), zs.le(i, lst_len(L))), zs.ieq(lst_len(smt.DECLS[nm][0](L, i)), zs.sub(lst_len(L), i))),
                lst_len(smt.DECLS[nm][0](L, i)) >= 0]
    return smt.decl(nm, [LIST, z3.IntSort()], LIST, gen)(term, zs.I(k))


def first_axioms(t, none, c, ph):
    k = smt.DECLS["first_" + none.name][0](t)
    n = zs.length(t)
    ch = zs.substr(t, k, 1)
    return [And(k >= -1, zs.lt(k, n)),
            Implies(k == -1, none(t)),
            Implies(k >= 0, And(smt.subst(c, [ph], [ch]) if zs.is_sym(c) else c, none(zs.substr(t, 0, k))))]


def replace_axioms(t, a, b):
    r = smt.DECLS["str_replace(%r,%r)" % (a, b)][0](t)
    out = [Implies(Not(z3.Contains(t, z3.StringVal(a))), r == t)]
    if len(a) == 1:
        out.append(Implies(zs.InClass((set(), {a}, True))(t), r == t))
    if a not in b and len(a) == 1:
        out.append(Not(z3.Contains(r, z3.StringVal(a))))
    if len(a) == 1 and len(b) == 1:
        out.append(z3.Length(r) == z3.Length(t))
    if len(a) == 1 and b == "":
        out.append(z3.Length(r) <= z3.Length(t))
    return out


def lower_axioms(t):
    small = zs.InClass(({chr(i) for i in range(128) if not chr(i).isupper()}, set(), False))
    return [Implies(small(t), smt.DECLS["str_lower"][0](t) == t)]


STR_AX = {"lower": lower_axioms}


def strip_axioms(t, nm, n, cs):
    r, p, q = [smt.DECLS[nm + x][0](t) for x in ("", ".pre", ".post")]
    if cs is None:
        ws = " \t\n\r\x0b\x0c"
        return [z3.Length(r) <= z3.Length(t), z3.Contains(t, r)]
    inn = char_fold("and", lambda c: zs.char_class(c, cs))
    out = [t == z3.Concat(p, r, q), inn(p), inn(q)]
    if n == "lstrip":
        out.append(q == z3.StringVal(""))
    else:
        out.append(Not(zs.char_class(zs.substr(r, zs.sub(zs.length(r), 1), 1), cs)))
    if n == "rstrip":
        out.append(p == z3.StringVal(""))
    else:
        out.append(Not(zs.char_class(zs.substr(r, 0, 1), cs)))
    if n == "strip":
        out.append(Implies(r == z3.StringVal(""), q == z3.StringVal("")))
    # nothing to strip
    nol = Not(zs.char_class(zs.substr(t, 0, 1), cs))
    nor = Not(zs.char_class(zs.substr(t, zs.sub(zs.length(t), 1), 1), cs))
    out.append(Implies(And(nol if n != "rstrip" else True, nor if n != "lstrip" else True), r == t))
    if n != "rstrip":
        out.append(Implies(nol, p == z3.StringVal("")))
    if n != "lstrip":
        out.append(Implies(nor, q == z3.StringVal("")))
    return out


def split_axioms(eng, t, L, sep):
    """t.split(sep) for a one-character separator"""
    lv = opq(L, "str")
    free = make_fold(("and",), "str", lambda x: Not(z3.Contains(x, z3.StringVal(sep))))
    out = [zs.le(1, lst_len(L)), zs.seq(eng.join(sep, lv), t), smt.fold_term(free, L),
           zs.Iff(lst_len(L) == 1, Not(z3.Contains(t, z3.StringVal(sep))))]
    return out
