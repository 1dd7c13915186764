"""String and integer term constructors with local simplification.

A scalar value is either a Python constant (str, int, bool) or a z3 term of
sort String, Int or Bool.  All the string operations of the verified Python
subset go through this file, so that there is one place which says what a
Python string operation means in SMT-LIB.
"""
import z3
from . import fastz3      # noqa: F401

StringSort = z3.StringSort()
PHC = z3.Const("phc:str", StringSort)      # placeholder for one character


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def is_str(x):
    return isinstance(x, str) or (is_sym(x) and x.sort() == StringSort)


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (is_sym(x) and x.sort() == z3.IntSort())


def is_bool(x):
    return isinstance(x, bool) or (is_sym(x) and x.sort() == z3.BoolSort())


def S(x):
    return z3.StringVal(x) if isinstance(x, str) else x


def I(x):
    return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def lit(x):
    """python constant of a z3 value term, or the term"""
    if isinstance(x, z3.ExprRef):
        if x.num_args():
            return x
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_app_of(x, z3.Z3_OP_TRUE):
            return True
        if z3.is_app_of(x, z3.Z3_OP_FALSE):
            return False
        if z3.is_string_value(x):
            return unescape(x)
    return x


def unescape(x):
    s = x.as_string()
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


# ---------------------------------------------------------------- booleans
def And(*xs):
    out = []
    for x in xs:
        x = lit(x)
        if x is False:
            return False
        if x is True:
            continue
        if z3.is_and(x):
            out.extend(x.children())
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        x = lit(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(x):
    x = lit(x)
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = lit(a), lit(b)
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def Ite(c, a, b):
    c = lit(c)
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if is_bool(a) and is_bool(b):
        if a is True:
            return Or(c, b)
        if a is False:
            return And(Not(c), b)
        if b is True:
            return Or(Not(c), a)
        if b is False:
            return And(c, a)
        return z3.If(c, B(a), B(b))
    if is_str(a) and is_str(b):
        return z3.If(c, S(a), S(b))
    if is_int(a) and is_int(b):
        return z3.If(c, I(a), I(b))
    if is_sym(a) and is_sym(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    raise TypeError("ite of %r and %r" % (a, b))


def same(a, b):
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if is_sym(a) or is_sym(b):
        return False
    return type(a) is type(b) and a == b


# ---------------------------------------------------------------- integers
def linear(t, k, acc):
    """adds k*t to acc = [constant, {id: [term, coefficient]}]"""
    t = lit(t)
    if isinstance(t, int):
        acc[0] += k * t
    elif z3.is_add(t):
        for c in t.children():
            linear(c, k, acc)
    elif z3.is_sub(t):
        linear(t.arg(0), k, acc)
        for c in t.children()[1:]:
            linear(c, -k, acc)
    elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
        linear(t.arg(0), -k, acc)
    elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        linear(t.arg(1), k * t.arg(0).as_long(), acc)
    else:
        acc[1].setdefault(t.get_id(), [t, 0])[1] += k
    return acc


def unlinear(acc):
    """the sum, in a form that depends only on the linear function it denotes"""
    c, d = acc
    ts = [x for x in d.values() if x[1] != 0]
    if not ts:
        return c
    ts.sort(key=lambda x: (x[1] < 0, x[0].get_id()))
    out = None
    for t, k in ts:
        if out is None:
            out = t if k == 1 else -t if k == -1 else k * t
        elif k == 1:
            out = out + t
        elif k == -1:
            out = out - t
        else:
            out = out + k * t
    return out if c == 0 else out + c


def add(a, b):
    a, b = lit(a), lit(b)
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return unlinear(linear(b, 1, linear(a, 1, [0, {}])))


def sub(a, b):
    a, b = lit(a), lit(b)
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    if same(a, b):
        return 0
    return unlinear(linear(b, -1, linear(a, 1, [0, {}])))


def le(a, b):
    a, b = lit(a), lit(b)
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    d = sub(b, a)
    if isinstance(d, int):
        return d >= 0
    return I(a) <= I(b)


def lt(a, b):
    a, b = lit(a), lit(b)
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    d = sub(b, a)
    if isinstance(d, int):
        return d > 0
    return I(a) < I(b)


def ieq(a, b):
    a, b = lit(a), lit(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = sub(b, a)
    if isinstance(d, int):
        return d == 0
    return I(a) == I(b)


# ---------------------------------------------------------------- strings
def concat_parts(s):
    if isinstance(s, str):
        return [s] if s else []
    if is_sym(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in s.children():
            out.extend(concat_parts(c))
        return out
    return [lit(s)]


def concat(*xs):
    parts = []
    for x in xs:
        for p in concat_parts(lit(x)):
            if isinstance(p, str) and parts and isinstance(parts[-1], str):
                parts[-1] += p
            elif parts and is_sym(p) and is_sym(parts[-1]) and _join_views(parts[-1], p) is not None:
                parts[-1] = _join_views(parts[-1], p)
            else:
                parts.append(p)
    parts = [p for p in parts if not (isinstance(p, str) and p == "")]
    if not parts:
        return ""
    if len(parts) == 1:
        return parts[0]
    return z3.Concat(*[S(p) for p in parts])


def view(s):
    """(base, lo, n) of a substring term; n is None for a suffix"""
    if is_sym(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        base, lo, n = s.children()
        lo = lit(lo)
        if is_suffix_len(base, lo, n):
            return base, lo, None
        return base, lo, lit(n)
    return None


def is_suffix_len(base, lo, n):
    n = lit(n)
    if not is_sym(n):
        return False
    return z3.simplify(I(n) + I(lo) - z3.Length(base)).eq(z3.IntVal(0))


def _join_views(a, b):
    """substr(s,0,k) ++ substr(s,k,len-k) = s when k is a constant (SMT-LIB substr clamps)"""
    va, vb = view(a), view(b)
    if va and vb and va[0].eq(vb[0]) and isinstance(va[1], int) and isinstance(va[2], int) and isinstance(vb[1], int):
        if va[1] + va[2] == vb[1] and va[1] >= 0 and va[2] > 0:
            if vb[2] is None:
                return suffix(va[0], va[1])
            if isinstance(vb[2], int) and vb[2] > 0:
                return substr(va[0], va[1], va[2] + vb[2])
    return None


def length(s):
    s = lit(s)
    if isinstance(s, str):
        return len(s)
    parts = concat_parts(s)
    if len(parts) > 1:
        n = 0
        for p in parts:
            n = add(length(p), n) if isinstance(n, int) else add(n, length(p))
        return n
    if s.eq(PHC):
        return 1
    return z3.Length(s)


def maxlen(s):
    """syntactic upper bound of the length, or None"""
    s = lit(s)
    if isinstance(s, str):
        return len(s)
    if s.eq(PHC):
        return 1
    if s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and isinstance(lit(s.arg(2)), int):
        return max(lit(s.arg(2)), 0)
    if z3.is_app_of(s, z3.Z3_OP_ITE):
        a, b = maxlen(s.arg(1)), maxlen(s.arg(2))
        return None if a is None or b is None else max(a, b)
    ps = concat_parts(s)
    if len(ps) > 1:
        t = 0
        for p in ps:
            m = maxlen(p)
            if m is None:
                return None
            t += m
        return t
    return None


def cut_at(ps, p):
    """(i, k): position p of the concatenation of the parts ps lies k characters into part i; None if not seen"""
    cum = 0
    for i, x in enumerate(ps):
        d = sub(p, cum)
        if isinstance(d, int):
            if d < 0:
                return None
            if d == 0:
                return i, 0
            if isinstance(x, str) and d <= len(x):
                return i, d
        cum = add(cum, length(x))
    d = sub(p, cum)
    if isinstance(d, int) and d >= 0:
        return len(ps), 0
    return None


def between(ps, a, e):
    """the characters from position a to position e of a concatenation, or None"""
    x, y = cut_at(ps, a), cut_at(ps, e)
    if x is None or y is None:
        return None
    if x >= y:
        return ""
    out = []
    for i in range(x[0], min(y[0] + 1, len(ps))):
        p = ps[i]
        lo, hi = (x[1] if i == x[0] else 0), (y[1] if i == y[0] else None)
        if hi == 0:
            continue
        out.append(p[lo:hi] if isinstance(p, str) else p)
    return concat(*out)


def suffix(s, a):
    """s[a:] for a >= 0"""
    s, a = lit(s), lit(a)
    if is_sym(a):
        ps = concat_parts(s)
        if len(ps) > 1:
            r = between(ps, a, length(s))
            if r is not None:
                return r
    if isinstance(s, str) and isinstance(a, int):
        return s[a:]
    if isinstance(a, int):
        if a == 0:
            return s
        v = view(s)
        if v and isinstance(v[1], int) and v[1] >= 0:
            if v[2] is None:
                return suffix(v[0], v[1] + a)
            if isinstance(v[2], int):
                if a >= v[2]:
                    return ""
                return substr(v[0], v[1] + a, v[2] - a)
        ps = concat_parts(s)
        if len(ps) > 1 and isinstance(ps[0], str):
            if a <= len(ps[0]):
                return concat(ps[0][a:], *ps[1:])
            return suffix(concat(*ps[1:]), a - len(ps[0]))
    s = S(s)
    return z3.SubString(s, I(a), I(sub(z3.Length(s), a)))


def substr(s, a, n):
    """s[a:a+n] for a >= 0 (SMT-LIB semantics: empty if a >= len(s) or n <= 0)"""
    s, a, n = lit(s), lit(a), lit(n)
    if isinstance(n, int) and n <= 0:
        return ""
    if isinstance(s, str) and isinstance(a, int) and isinstance(n, int):
        return s[a:a + n] if a >= 0 else ""
    if is_sym(a) or is_sym(n):
        ps = concat_parts(s)
        if len(ps) > 1:
            r = between(ps, a, add(a, n))
            if r is not None:
                return r
        elif same(a, 0) and is_sym(s) and same(n, length(s)):
            return s
    if isinstance(a, int) and isinstance(n, int):
        v = view(s)
        if v and isinstance(v[1], int) and v[1] >= 0:
            if v[2] is None:
                return substr(v[0], v[1] + a, n)
            if isinstance(v[2], int):
                if a >= v[2]:
                    return ""
                return substr(v[0], v[1] + a, min(n, v[2] - a))
        if v and v[2] is None and a >= 0 and is_sym(v[1]):
            pass
        ps = concat_parts(s)
        if len(ps) > 1 and isinstance(ps[0], str):
            k = len(ps[0])
            if a >= k:
                return substr(concat(*ps[1:]), a - k, n)
            if a + n <= k:
                return ps[0][a:a + n]
            return concat(ps[0][a:], substr(concat(*ps[1:]), 0, n - (k - a)))
    return z3.SubString(S(s), I(a), I(n))


def chars_in(x, chars):
    """x in "chars" for a literal string `chars`: Python substring semantics"""
    x = lit(x)
    if isinstance(x, str):
        return x in chars
    m = maxlen(x)
    if m is not None and m <= 1:
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return Ite(x.arg(0), chars_in(x.arg(1), chars), chars_in(x.arg(2), chars))
        return Or(False if x.eq(PHC) else x == z3.StringVal(""), *[x == z3.StringVal(c) for c in chars])
    return z3.Contains(z3.StringVal(chars), x)


def seq(a, b):
    """string equality"""
    a, b = lit(a), lit(b)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if same(a, b):
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, str):
            m = maxlen(y)
            if m is not None and m < len(x):
                return False
    # strip common literal prefixes and suffixes
    pa, pb = concat_parts(a), concat_parts(b)
    if len(pa) > 1 or len(pb) > 1:
        while pa and pb:
            x, y = pa[0], pb[0]
            if same(x, y):
                pa, pb = pa[1:], pb[1:]
            elif isinstance(x, str) and isinstance(y, str):
                k = min(len(x), len(y))
                if x[:k] != y[:k]:
                    return False
                pa = ([x[k:]] if x[k:] else []) + pa[1:]
                pb = ([y[k:]] if y[k:] else []) + pb[1:]
            else:
                break
        while pa and pb:
            x, y = pa[-1], pb[-1]
            if same(x, y):
                pa, pb = pa[:-1], pb[:-1]
            elif isinstance(x, str) and isinstance(y, str):
                k = min(len(x), len(y))
                if x[-k:] != y[-k:]:
                    return False
                pa = pa[:-1] + ([x[:-k]] if x[:-k] else [])
                pb = pb[:-1] + ([y[:-k]] if y[:-k] else [])
            else:
                break
        a, b = concat(*pa), concat(*pb)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if not (concat_parts(a) and concat_parts(b)):
            # one side empty: every part of the other is empty
            rest = concat_parts(a) or concat_parts(b)
            return And(*[False if isinstance(p, str) else S(p) == z3.StringVal("") for p in rest])
    if same(a, b):
        return True
    return S(a) == S(b)


def in_strings(x, lits):
    """membership of a string in a finite set of literal strings"""
    x = lit(x)
    if isinstance(x, str):
        return x in lits
    m = maxlen(x)
    ls = [l for l in dict.fromkeys(lits) if m is None or len(l) <= m]
    if len(ls) <= 24:
        return Or(*[seq(x, l) for l in ls])
    # group two-letter tables by the first letter
    if all(len(l) == 2 for l in ls):
        by = {}
        for l in ls:
            by.setdefault(l[0], []).append(l[1])
        c0, c1 = substr(x, 0, 1), substr(x, 1, 1)
        groups = {}
        for k, v in by.items():
            groups.setdefault(tuple(sorted(v)), []).append(k)
        return And(ieq(length(x), 2),
                   Or(*[And(Or(*[seq(c0, k) for k in ks]), Or(*[seq(c1, v) for v in vs])) for vs, ks in groups.items()]))
    return Or(*[seq(x, l) for l in ls])


def char_class(x, cs):
    """one-character string term in a class (False for the empty string)"""
    x = lit(x)
    if isinstance(x, str):
        return len(x) == 1 and x in cs
    return Or(*[seq(x, c) for c in cs])


def char_set(body):
    """(characters, rest) of a condition on PHC built from equalities with
    literals: the characters mentioned that satisfy it, the ones that do not,
    and whether every other character does; None when it has another form"""
    body = lit(body)
    if isinstance(body, bool):
        return frozenset(), frozenset(), body
    seen = set()

    def scan(t):
        if z3.is_true(t) or z3.is_false(t):
            return True
        if z3.is_and(t) or z3.is_or(t) or z3.is_not(t) or (z3.is_app_of(t, z3.Z3_OP_ITE) and t.sort() == z3.BoolSort()):
            return all(scan(c) for c in t.children())
        if z3.is_eq(t):
            a, b = t.children()
            if z3.is_bool(a):
                return scan(a) and scan(b)
            if b.eq(PHC):
                a, b = b, a
            if a.eq(PHC) and z3.is_string_value(b):
                seen.add(unescape(b))
                return True
        return False
    if not scan(body):
        return None
    ev = lambda c: z3.is_true(z3.simplify(z3.substitute(body, (PHC, z3.StringVal(c)))))
    ones = {c for c in seen if len(c) == 1}
    other = "\ue000"
    return frozenset(c for c in ones if ev(c)), frozenset(c for c in ones if not ev(c)), ev(other)


def class_re(yes, no, rest):
    u = lambda cs: z3.Union(*[z3.Re(c) for c in sorted(cs)]) if len(cs) > 1 else z3.Re(sorted(cs)[0])
    if rest:
        anyc = z3.AllChar(z3.ReSort(StringSort))
        return z3.Diff(anyc, u(no)) if no else anyc
    return u(yes) if yes else z3.Empty(z3.ReSort(StringSort))


class InClass:
    """all characters of a string satisfy a condition: a regular-language membership"""

    def __init__(self, cs):
        self.yes, self.no, self.rest = cs
        self.name = "in[%s|%s|%s]" % ("".join(sorted(self.yes)), "".join(sorted(self.no)), self.rest)

    def ok(self, c):
        return c in self.yes or (self.rest and c not in self.no)

    def decl(self, t):
        return self(t)

    def __call__(self, s):
        s = lit(s)
        if isinstance(s, str):
            return all(self.ok(c) for c in s)
        ps = concat_parts(s)
        if len(ps) > 1:
            return And(*[self(p) for p in ps])
        if not self.rest and not self.yes:
            return s == z3.StringVal("")
        if self.rest and not self.no:
            return True
        r = z3.InRe(s, z3.Star(class_re(self.yes, self.no, self.rest)))
        CLASSES[r.arg(1).get_id()] = (r.arg(1), self)
        return r

    def within(self, o):
        """every string of this class is one of class o"""
        return all(o.ok(c) for c in self.chars() | o.chars()  if self.ok(c)) and (o.rest or not self.rest)

    def disjoint(self, o):
        return not (self.rest and o.rest) and not any(self.ok(c) and o.ok(c) for c in self.chars() | o.chars())

    def chars(self):
        return set(self.yes) | set(self.no)


CLASSES = {}        # id of a regular expression -> (the expression, its class)


# ------------------------------------------------------------ solved forms
def rebuild(t, m, memo):
    """t with the constants in m (id -> string value) replaced, simplified again"""
    k = t.get_id()
    if k in m:
        return m[k]
    if k in memo:
        return memo[k][1]
    if not z3.is_app(t) or t.num_args() == 0:
        r = lit(t)
    else:
        cs = [rebuild(c, m, memo) for c in t.children()]
        if all(same(lit(a), lit(b)) for a, b in zip(cs, t.children())):
            r = t
        else:
            r = remake(t, cs)
    memo[k] = (t, r)
    return r


def remake(t, cs):
    op = t.decl().kind()
    if op == z3.Z3_OP_SEQ_EXTRACT:
        s, a, n = cs
        return substr(s, a, n) if not (isinstance(lit(a), int) and lit(a) < 0) else ""
    if op == z3.Z3_OP_SEQ_CONCAT:
        return concat(*cs)
    if op == z3.Z3_OP_SEQ_LENGTH:
        return length(cs[0])
    if op == z3.Z3_OP_ADD:
        r = cs[0]
        for c in cs[1:]:
            r = add(r, c)
        return r
    if op == z3.Z3_OP_SUB:
        r = cs[0]
        for c in cs[1:]:
            r = sub(r, c)
        return r
    if op == z3.Z3_OP_AND:
        return And(*cs)
    if op == z3.Z3_OP_OR:
        return Or(*cs)
    if op == z3.Z3_OP_NOT:
        return Not(cs[0])
    if op == z3.Z3_OP_ITE:
        return Ite(cs[0], cs[1], cs[2])
    if op == z3.Z3_OP_EQ:
        if is_str(cs[0]):
            return seq(cs[0], cs[1])
        if is_int(cs[0]):
            return ieq(cs[0], cs[1])
        if is_bool(cs[0]):
            return Iff(cs[0], cs[1])
    if op in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        a, b = cs
        return le(a, b) if op == z3.Z3_OP_LE else le(b, a) if op == z3.Z3_OP_GE else lt(a, b) if op == z3.Z3_OP_LT else lt(b, a)
    zt = [z3.StringVal(c) if isinstance(c, str) else z3.BoolVal(c) if isinstance(c, bool) else z3.IntVal(c) if isinstance(c, int) else c
          for c in cs]
    return t.decl()(*zt)


def edge(f):
    """(constant, literal, at the front?) for a fact that fixes the first or last characters of a string constant"""
    if not is_sym(f) or not z3.is_eq(f):
        return None
    for a, b in (f.children(), f.children()[::-1]):
        if not (z3.is_string_value(b) and z3.is_app(a)):
            continue
        w = lit(b)
        if not w or a.decl().kind() != z3.Z3_OP_SEQ_EXTRACT:
            continue
        base, lo, n = a.children()
        if base.num_args() or base.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            continue
        if not same(lit(n), len(w)):
            continue
        if same(lit(lo), 0):
            return base, w, True
        if same(sub(add(lo, len(w)), z3.Length(base)), 0):
            return base, w, False
    return None


def peel(facts, goal):
    """facts and goal with string constants of known first or last characters
    replaced by those characters and a fresh constant for the rest"""
    todo, n = True, 0
    facts = list(facts)
    while todo and n < 12:
        todo = False
        for f in facts:
            x = edge(f)
            if x is None:
                continue
            base, w, front = x
            n += 1
            rest = z3.Const("%s~%d" % (base.decl().name(), n), z3.StringSort())
            new = concat(w, rest) if front else concat(rest, w)
            m, memo = {base.get_id(): new}, {}
            keep = (base, facts, goal)
            facts = [rebuild(g, m, memo) if is_sym(g) else g for g in facts]
            goal = rebuild(goal, m, memo) if is_sym(goal) else goal
            flat = []
            for g in facts:
                g = lit(g)
                if is_sym(g) and z3.is_and(g):
                    flat.extend(conj(g))
                elif g is not True:
                    flat.append(g)
            facts = flat
            todo = True
            del keep
            break
    return facts, goal, n


def conj(g):
    return [y for x in g.children() for y in conj(x)] if is_sym(g) and z3.is_and(g) else [g]
