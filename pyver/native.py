"""Search for concrete failing inputs on the real, running code.

The proof decides; this module only looks for an input to show when an
obligation fails, and covers (bounded, labelled so) what the verifier cannot
reach.  Every oracle below states the property itself over the public results,
with the tables of spec.py, never with those of the code under test.
"""
import ast
import os
import random
import re
import time
import traceback

from . import spec

C, V = spec.CONSONANTS, spec.VOWELS
YS = ["STANDARD", "ALLOW_Y", "FORCE_Y"]
CONS = ["CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"]
HY = set(spec.HYPHEN_PIECES)
FILL = ["spa", "spageti", "skrinyuma", "srutio", "klama", "glaidi", "sanfrandisko", "itku'ile", "ia", "ua", "iau", "uu",
        "klingon", "klingona", "briii", "iglu", "alga", "slinku'i", "tosmabru", "mabru", "tebdekre", "ninmu", "zbasu",
        "djandi", "mamza", "tokamzo", "tirxu", "ckulytcesa'ur", "bogy'ae", "latyia", "uinmo", "ckiku", "nu'i", "kei", "a'a"]
COMPS = ["spageti", "skrinyuma", "srutio", "klama", "glaidi", "sanfrandisko", "itku'ile", "ia", "ua", "iau", "uu", "klingona",
         "briii", "iglu", "alga", "u'u", "a'e'i", "co'e", "mo", "zo'e", "spaget-", "iglu-", "klingon-", "alg-",
         "sanfrandisk-", "-u'u-", "-a'e'i-", "-ia-", "-goo-", "-ua-", "-i'a-", "-rei-", "-zo'e-", "-spageti-", "-mamz-"]
SHAPES = ["CVV", "CVhV", "CVC", "CCV", "CVCC", "CCVC", "VhV", "VV", "CVhVhV", "CCVCV", "CVCCV", "V", "C", "CV", "VC", "VCCV",
          "VCV", "CCC", "CVCCCV", "CCCVCV", "VVV", "VhVV"]


class Pkg:
    """the real functions"""

    def __init__(self, mods):
        self.mods = mods
        for m in ("katna", "jvozba", "tools", "tarmi"):
            for k, v in vars(mods[m]).items():
                if callable(v) and getattr(v, "__module__", "") == mods[m].__name__:
                    setattr(self, k, v)
        self.X = {k: v for k, v in vars(mods["exceptions"]).items() if isinstance(v, type)}
        self.rafsi = mods["jvozba"].RAFSI_LIST


def settings(R):
    if R.random() < .35:
        return ["STANDARD", False, "CLUSTER", False, False]
    return [R.choice(YS), R.random() < .5, R.choice(CONS), R.random() < .5, R.random() < .5]


def mined(mods):
    """short string literals of the current source"""
    out = set()
    for m in mods.values():
        f = getattr(m, "__file__", None)
        if not f or f.endswith(("data.py", "rafsi.py")):
            continue
        for n in ast.walk(ast.parse(open(f).read())):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 10 and \
                    re.fullmatch(r"[a-z',.-]+", n.value):
                out.add(n.value)
    return sorted(out)


PAIRLIST = sorted(spec.PAIRS)
INITLIST = sorted(spec.INITIALS)


class Gen:
    def __init__(self, P, seed):
        self.P, self.R = P, random.Random(seed)
        self.gis = [k for k in P.rafsi if len(k) == 5]
        self.exp = [k for k in P.rafsi if len(k) != 5] or self.gis
        self.rafs = sorted({r for v in P.rafsi.values() for r in v})
        self.lits = [x for x in mined(P.mods)] or ["y"]
        self.corpus, self.sigs = [], set()
        self.tcorpus = []

    def shape(self, s):
        return "".join(self.R.choice(C if x == "C" else V if x == "V" else "'") for x in s)

    def piece(self):
        R = self.R
        k = R.random()
        if k < .25:
            return R.choice(self.rafs)
        if k < .33:
            return R.choice(self.gis)[:4]
        if k < .41:
            return R.choice(self.gis)
        if k < .53:
            return R.choice(["y", "'y", "y'", "'y'", "r", "n", "'"])
        if k < .72:
            return self.shape(R.choice(SHAPES))
        if k < .80:
            return R.choice(FILL)
        if k < .86:
            return R.choice(self.lits)
        return R.choice(C + V + "'y" * 3)

    def dirty(self, w):
        R = self.R
        k = R.random()
        if k < .3 and w:
            i = R.randrange(len(w) + 1)
            return w[:i] + R.choice([",", ",", "-", " ", ".", "q", "w", "h", "1", "\u00e9", "H", "\n"]) + w[i:]
        if k < .5:
            return "." + w
        if k < .7:
            return w.upper()
        if k < .85:
            return w.replace("'", "h")
        return "".join(c.upper() if R.random() < .3 else c for c in w)

    def mutate(self, w):
        R = self.R
        for _ in range(R.choice([1, 1, 1, 2, 3])):
            k = R.random()
            i = R.randrange(len(w) + 1)
            if k < .35 and i < len(w):
                c = w[i]
                w = w[:i] + R.choice(C if c in C else V if c in V else "'y") + w[i + 1:]
            elif k < .5:
                w = w[:i] + w[i + 1:]
            elif k < .7:
                w = w[:i] + R.choice([R.choice(C), R.choice(V), "y", "'", "r", "n", self.piece()]) + w[i:]
            elif k < .8 and self.corpus:
                o = R.choice(self.corpus)
                w = w[:i] + o[R.randrange(len(o) + 1):]
            elif k < .9:
                w = w + self.piece()
            else:
                w = self.piece() + w
        return w

    def word(self):
        R = self.R
        k = R.random()
        if k < .35 and self.corpus:
            w = self.mutate(R.choice(self.corpus))
        else:
            w = "".join(self.piece() for _ in range(R.choice([1, 2, 2, 3, 3, 4, 5, 5, 9])))
        if R.random() < .04:
            w = self.dirty(w)
        return w

    def comp(self):
        R = self.R
        k = R.random()
        if k < .42:
            return R.choice(self.gis)
        if k < .5:
            return R.choice(self.exp)
        if k < .62:
            return "-" + R.choice(self.rafs) + "-"
        if k < .67:
            return R.choice(self.gis)[:-1] + "-"
        if k < .72:
            return "-" + R.choice(self.gis)[:-1] + "-"
        if k < .74:                             # a zi'evla that to may break: CCVCCVC-
            return (R.choice(INITLIST) + R.choice(V) + R.choice(PAIRLIST + ["mz"] * 60) + R.choice(V) + R.choice("nlrsmkt") +
                    R.choice(["-", "a"]))
        if k < .84:
            c = R.choice(COMPS)
            at = [i for i in range(len(c) - 1) if c[i] in C and c[i + 1] in C]
            if at and R.random() < .35:         # the same shape with another pair
                i = R.choice(at)
                c = c[:i] + (R.choice(PAIRLIST) if R.random() < .7 else "mz") + c[i + 2:]
            return c
        if k < .9:
            return "-" + self.shape(R.choice(SHAPES)) + "-"
        if k < .95:
            return "-" + self.word() + "-"
        if k < .97:
            return self.word()
        return self.word() + "-"

    def tanru(self):
        R = self.R
        if self.tcorpus and R.random() < .3:
            t = list(R.choice(self.tcorpus))
            k = R.random()
            if k < .5:
                t[R.randrange(len(t))] = self.comp()
            elif k < .75:
                t.insert(R.randrange(len(t) + 1), self.comp())
            elif len(t) > 2:
                del t[R.randrange(len(t))]
            return t
        return [self.comp() for _ in range(R.choice([2, 2, 2, 2, 3, 3, 4, 5]))]

    def learn(self, w, sig):
        if sig not in self.sigs and len(self.corpus) < 3000 and 0 < len(w) < 60:
            self.sigs.add(sig)
            self.corpus.append(w)

    def tlearn(self, t, sig):
        if sig not in self.sigs and len(self.tcorpus) < 3000 and len(t) < 9:
            self.sigs.add(sig)
            self.tcorpus.append(t)


# ------------------------------------------------------------ events
class Ev:
    """one observation: a call of the public interface and what came back"""
    __slots__ = ("kind", "args", "out", "exc", "P")

    def __init__(self, P, kind, args):
        self.P, self.kind, self.args, self.out, self.exc = P, kind, args, None, None

    def describe(self):
        return {"call": self.kind, "args": list(self.args), "result": repr(self.out),
                "exception": None if self.exc is None else "%s: %s" % (type(self.exc).__name__, self.exc)}


DOC_WORD = ("NotBrivlaError",)
DOC_TANRU = ("NoLujvoFoundError", "InvalidClusterError", "NonLojbanCharacterError", "NotZihevlaError")


def observe(P, kind, args):
    e = Ev(P, kind, args)
    try:
        if kind == "analyse":
            e.out = P.analyse_brivla(args[0], *args[1])
        elif kind == "build":
            t = args[0]
            e.out = P.get_lujvo_with_analytics(list(t) if isinstance(t, list) else t, args[1], *args[2])
        else:
            e.out = getattr(P, kind)(*args)
    except Exception as x:
        e.exc = x
    return e


def norm(w):
    """the normal form the documentation describes"""
    if w[:1] == ".":
        w = w[1:]
    return w.lower().replace("h", "'").replace(",", "")


def phon(w, mz):
    """first broken phonotactic rule of a word, or None"""
    P = spec.PAIRS_MZ if mz else spec.PAIRS
    if not re.fullmatch("[aeioubcdfgjklmnprstvxz'y]+", w):
        return "a character outside the alphabet"
    if w[0] in "y'":
        return "starts with y or '"
    for i in range(len(w) - 1):
        if w[i] in C and w[i + 1] in C and w[i:i + 2] not in P:
            return "impermissible pair " + w[i:i + 2]
        if w[i:i + 3] in spec.TRIPLES:
            return "forbidden triple " + w[i:i + 3]
        if w[i] == "'" and (w[i - 1] not in V + "y" or w[i + 1] not in V + "y"):
            return "' not between vowels"
        if w[i:i + 2] == "yy":
            return "yy"
    if w[-1] in "'y":
        return "ends in ' or y"
    return None


# ------------------------------------------------------------ the oracles
def nonhy(d):
    return [x for x in d if x not in HY]


def o_lossless(P, e):
    if e.kind == "analyse" and e.exc is None and "".join(e.out[1]) != norm(e.args[0]):
        return "pieces %r do not spell %r" % (e.out[1], norm(e.args[0]))


def o_spans(P, e):
    if e.kind == "get_rafsi_indices":
        if e.exc is not None or e.out != spec.spans(e.args[0]):
            return "spans %r, expected %r" % (e.out if e.exc is None else e.exc, spec.spans(e.args[0]))
    if e.kind == "build" and e.exc is None:
        w, _, ix = e.out
        n = len(e.args[0]) if isinstance(e.args[0], list) else len(e.args[0].split())
        if len(ix) != n:
            return "%d spans for %d components" % (len(ix), n)
        at = 0
        for k, (a, b) in enumerate(ix):
            if not (at <= a < b <= len(w)):
                return "span %r of %r out of order or out of bounds" % ((a, b), w)
            if k == 0 and a != 0:
                return "the first span of %r does not start the word" % w
            if w[at:a] and w[at:a] not in HY:
                return "%r between two spans of %r is no hyphen" % (w[at:a], w)
            at = b
        if at != len(w):
            return "the last span does not end the word %r" % w


def empty_comp(t):
    cs = t if isinstance(t, list) else t.split()
    return any(not norm(c).strip("-") for c in cs) or len(cs) < 2


def o_total(P, e):
    if e.exc is None:
        return None
    n = type(e.exc).__name__
    if isinstance(e.exc, RecursionError):
        return None
    doc = {"analyse": DOC_WORD, "build": DOC_TANRU, "is_brivla": (), "get_veljvo": ("NotBrivlaError", "DecompositionError"),
           "score_lujvo": ("NotBrivlaError", "DecompositionError"), "get_lujvo": DOC_TANRU}[e.kind]
    if e.kind in ("build", "get_lujvo") and empty_comp(e.args[0]):
        return None
    if n not in doc:
        return "undocumented exception %s: %s" % (n, e.exc)


def o_labels(P, e):
    if e.kind == "analyse" and e.exc is None:
        t, d = e.out
        w = norm(e.args[0])
        mz = e.args[1][4]
        if t not in ("GISMU", "ZIhEVLA", "LUJVO", "EXTENDED_LUJVO", "CMEVLA"):
            return "unknown type %r" % (t,)
        if (t == "CMEVLA") != (w[-1:] in tuple(C)):
            return "type %s for a word ending in %r" % (t, w[-1:])
        if t != "CMEVLA" and w[-1:] not in tuple(V):
            return "a brivla ends in %r" % w[-1:]
        if (t == "GISMU") != spec.gismu(w, mz):
            return "type %s but gismu form is %s" % (t, spec.gismu(w, mz))
        if t in ("GISMU", "ZIhEVLA"):
            if d != [w]:
                return "%s %r decomposed as %r" % (t, w, d)
        elif len(nonhy(d)) < 2:
            return "%s %r has pieces %r: fewer than two rafsi" % (t, w, d)
        if t == "ZIhEVLA" and "y" in w:
            return "zi'evla with y: %r" % w
        if t == "LUJVO":
            for x in nonhy(d):
                if not spec.rafsi_ok(x, mz):
                    return "lujvo piece %r is not a rafsi" % x
    if e.kind == "is_brivla" and e.exc is None:
        a = observe(P, "analyse", (e.args[0], list(e.args[1:])))
        if a.exc is None or type(a.exc).__name__ == "NotBrivlaError":
            want = a.exc is None and a.out[0] != "CMEVLA"
            if e.out is not want:
                return "is_brivla says %r where the analysis gives %r" % (e.out, a.describe())


def o_phon_word(P, e):
    if e.kind == "analyse" and e.exc is None:
        w = norm(e.args[0])
        p = phon(w, e.args[1][4])
        if p:
            return "%s accepted as %s: %s" % (w, e.out[0], p)


def o_policy(P, e):
    if e.kind == "analyse" and e.exc is None and e.out[0] not in ("GISMU", "ZIhEVLA"):
        t, d = e.out
        y = e.args[1][0]
        if d[0] in HY or d[-1] in HY:
            return "a hyphen begins or ends %r" % (d,)
        for a, b in zip(d, d[1:]):
            if a in HY and b in HY:
                return "adjacent hyphens in %r" % (d,)
        for i, x in enumerate(d):
            if x in ("r", "n"):
                if y == "FORCE_Y":
                    return "%s-hyphen under FORCE_Y in %r" % (x, d)
                if spec.shape(d[i - 1]) not in (spec.CVV, spec.CVhV):
                    return "%s-hyphen after %r" % (x, d[i - 1])
                if d[i + 1][0] not in C or x == d[i + 1][0]:
                    return "%s-hyphen before %r" % (x, d[i + 1])
            if t == "LUJVO" and y == "STANDARD" and x in ("'y", "y'", "'y'"):
                return "%r hyphen in a lujvo under STANDARD: %r" % (x, d)


def o_classify(P, e):
    k, a = e.kind, e.args
    fs = {"is_vowel": lambda c: spec.vow(c), "is_consonant": lambda c: spec.con(c), "is_glide": lambda s: spec.glide(s),
          "is_gismu_shape": lambda s: spec.gismu_shape(s), "is_gismu": spec.gismu, "rafsi_tarmi": spec.shape,
          "is_valid_rafsi": spec.rafsi_ok, "contains_consonant": lambda s: any(spec.con(c) for c in s),
          "is_only_lojban_characters": lambda s: len(s) > 0 and all(c in spec.ALPHABET for c in s)}
    if k in fs:
        w = fs[k](*a)
        if e.exc is not None or e.out != w or isinstance(e.out, bool) != isinstance(w, bool):
            return "%s%r gives %r, the grammar says %r" % (k, a, e.out if e.exc is None else e.exc, w)


def o_struct(P, e):
    if e.kind == "build" and e.exc is None:
        t, cm, s = e.args
        w, _, ix = e.out
        cs = [norm(x) for x in (t if isinstance(t, list) else t.split())]
        if cm != (w[-1] in C) or (not cm and w[-1] not in V):
            return "%r ends in %r with generate_cmevla=%r" % (w, w[-1], cm)
        if len(ix) != len(cs):
            return "%d rafsi for %d components" % (len(ix), len(cs))
        for c, (a, b) in zip(cs, ix):
            x = w[a:b]
            if c[-1] == "-":
                ok = x == c.strip("-")
            else:
                ok = x in P.rafsi.get(c, []) or x == c or (len(c) == 5 and x == c[:-1])
            if not ok:
                return "%r in %r is no rafsi of %r" % (x, w, c)


def o_phon_built(P, e):
    if e.kind == "build" and e.exc is None:
        p = phon(e.out[0], e.args[2][4])
        if p:
            return "%s built from %r: %s" % (e.out[0], e.args[0], p)


def R_of(x):
    s = spec.shape(x)
    return 0 if s == spec.OTHER else s


def W_of(w):
    return 1000 * len(w) + 100 * w.count("y") - sum(w.count(v) for v in V)


def tie(w):
    return 1 if spec.shape(w[:3]) == spec.CVV and spec.shape(w[3:]) in (spec.CCV, spec.CCVC, spec.CVC, spec.CVCC) else 0


def o_score(P, e):
    if e.kind == "score" and e.exc is None:
        r = e.args[0]
        want = W_of(r) - 10 * R_of(re.sub("^['y]+|['y]+$", "", r))
        if e.out != want:
            return "score(%r) = %r, the formula gives %d" % (r, e.out, want)
    if e.kind == "build" and e.exc is None:
        w, sc, ix = e.out
        base = W_of(w) - 10 * sum(R_of(w[a:b]) for a, b in ix)
        lo = base - (1 if len(ix) == 2 else len(ix) - 1)
        if not lo <= sc <= base or (len(ix) == 2 and sc != base - tie(w)):
            return "score %d of %r, the formula gives %d" % (sc, w, base - tie(w))
    if e.kind == "score_lujvo" and e.exc is None:
        a = observe(P, "analyse", (e.args[0], list(e.args[1:])))
        if a.exc is None:
            d = a.out[1]
            w = "".join(d)
            want = W_of(w) - 10 * sum(R_of(re.sub("^['y]+|['y]+$", "", x)) for x in d) - tie(w)
            if e.out != want:
                return "score_lujvo %r of %r, the formula gives %d" % (e.out, d, want)


def key(e):
    return ("exc", type(e.exc).__name__) if e.exc is not None else ("ret", repr(e.out))


def o_forms(P, e):
    if e.kind == "normalise":
        w = e.args[0]
        if e.exc is not None or e.out != norm(w):
            return "normalise(%r) = %r" % (w, e.out if e.exc is None else e.exc)
    if e.kind == "analyse":
        w, s = e.args
        n = observe(P, "analyse", (norm(w), s)) if norm(w)[:1] != "." else e
        if key(n) != key(e):
            return "analysis of %r is %r, of its normal form %r it is %r" % (w, key(e), norm(w), key(n))
    if e.kind in ("is_brivla", "get_veljvo", "score_lujvo"):
        w = e.args[0]
        n = observe(P, e.kind, (norm(w),) + tuple(e.args[1:])) if norm(w)[:1] != "." else e
        if key(n) != key(e):
            return "%s of %r is %r, of its normal form %r it is %r" % (e.kind, w, key(e), norm(w), key(n))
    if e.kind == "build" and isinstance(e.args[0], list):
        t, cm, s = e.args
        n = [norm(c) for c in t]
        if all(x and x[0] != "." and not re.search(r"\s", x) and norm(x) == x for x in n):
            a = observe(P, "build", (n, cm, s))
            if key(a) != key(e):
                return "build of %r is %r, of its normal form %r" % (t, key(e), key(a))
            if not any(re.search(r"\s", c) for c in t):
                for txt in (" ".join(t), " %s\n" % "  ".join(t)):
                    b = observe(P, "build", (txt, cm, s))
                    if key(b) != key(e):
                        return "build of the list %r is %r, of the string %r it is %r" % (t, key(e), txt, key(b))


TABLES = ["VALID", "MZ_VALID", "INITIAL", "ZIhEVLA_INITIAL", "BANNED_TRIPLES", "START_VOWEL_CLUSTERS", "FOLLOW_VOWEL_CLUSTERS",
          "HYPHENS", "SETTINGS"]


def snapshot(P):
    out = []
    for m in ("data", "tarmi", "jvozba", "katna", "tools"):
        for k, v in sorted(vars(P.mods[m]).items()):
            if isinstance(v, (list, dict, set, tuple, str, int)) and not k.startswith("__"):
                out.append((m, k, repr(v)))
    return out


SNAP = []


def cheap_snap(P):
    t = []
    for m in ("data", "jvozba"):
        for k, v in vars(P.mods[m]).items():
            if isinstance(v, (list, dict)) and not k.startswith("__"):
                t.append((k, len(v), sum(len(x) for x in v.values()) if isinstance(v, dict) else repr(v)))
    return t


def spoil(x):
    """what a caller may do with a result: change it in place"""
    if isinstance(x, list):
        for y in x:
            spoil(y)
        x.append("spoilt")
    if isinstance(x, tuple):
        for y in x:
            spoil(y)


def o_pure(P, e):
    """repeat the call: same outcome; arguments and tables unchanged"""
    if not SNAP:
        SNAP.append(cheap_snap(P))
    k1 = key(e)
    if e.kind == "build":
        t = list(e.args[0]) if isinstance(e.args[0], list) else e.args[0]
        before = repr(t)
        try:
            r = P.get_lujvo_with_analytics(t, e.args[1], *e.args[2])
            k2 = ("ret", repr(r))
            spoil(r)
        except Exception as x:
            k2 = ("exc", type(x).__name__)
        if repr(t) != before:
            return "the tanru %s was changed into %r" % (before, t)
    elif e.kind == "get_rafsi_indices":
        a = list(e.args[0])
        k2 = key(observe(P, e.kind, (a,)))
        if a != list(e.args[0]):
            return "the piece list %r was changed into %r" % (e.args[0], a)
    elif e.kind == "selrafsi_list_from_rafsi_list":
        a = list(e.args[0])
        k2 = key(observe(P, e.kind, (a,) + tuple(e.args[1:])))
        if a != list(e.args[0]):
            return "the piece list %r was changed into %r" % (e.args[0], a)
    else:
        a = observe(P, e.kind, e.args)
        k2 = key(a)
        spoil(a.out)
    k3 = key(observe(P, e.kind, e.args))
    if not (k1 == k2 == k3):
        return "repeating the call gives %r, then %r, then %r" % (k1, k2, k3)
    s = cheap_snap(P)
    if s != SNAP[0]:
        return "a table changed: %r" % ([x[0] for x, y in zip(s, SNAP[0]) if x != y],)


def o_veljvo(P, e):
    if e.kind == "search_selrafsi_from_rafsi" and e.exc is None:
        r, out = e.args[0], e.out
        if out is None:
            if any(r in v for v in P.rafsi.values()):
                return "no source word for the listed rafsi %r" % r
        elif out not in P.rafsi:
            return "%r is not a dictionary word" % (out,)
        elif r not in P.rafsi[out] and not (len(r) == 4 and len(out) == 5 and out[:4] == r):
            return "%r is no rafsi of %r" % (r, out)
    if e.kind == "get_veljvo" and e.exc is None:
        a = observe(P, "analyse", (e.args[0], list(e.args[1:])))
        if a.exc is not None:
            return "source words %r for a word the analysis rejects" % (e.out,)
        t, d = a.out
        if t in ("GISMU", "ZIhEVLA"):
            return "source words %r for a %s" % (e.out, t)
        ps = nonhy(d)
        if len(ps) != len(e.out):
            return "%d source words for the rafsi %r" % (len(e.out), ps)
        for p, x in zip(ps, e.out):
            sel = x in P.rafsi and (p in P.rafsi[x] or (len(p) == 4 and x[:4] == p and len(x) == 5))
            if not (sel or x in (p, p + "-", "-" + p + "-")):
                return "%r shown for the rafsi %r" % (x, p)


def o_slinkuhi(P, e):
    if e.kind == "analyse" and e.exc is None and e.out[0] in ("ZIhEVLA", "EXTENDED_LUJVO", "LUJVO"):
        w, s = norm(e.args[0]), e.args[1]
        if w[0] in C and e.out[0] != "LUJVO":
            a = observe(P, "analyse", ("to" + w, [s[0], False, "CLUSTER", False, s[4]]))
            if a.exc is None and a.out[0] == "LUJVO":
                return "%s accepted as %s although to+%s is the lujvo %r" % (w, e.out[0], w, a.out[1])
    if e.kind == "build" and e.exc is None and not e.args[1]:
        w, s = e.out[0], e.args[2]
        if w[0] in C:
            a = observe(P, "analyse", ("to" + w, [s[0], False, "CLUSTER", False, s[4]]))
            if a.exc is None and a.out[0] == "LUJVO":
                return "built %s although to+%s is the lujvo %r" % (w, w, a.out[1])


def o_apart(P, e):
    if e.kind == "analyse" and e.exc is None and e.out[0] == "ZIhEVLA":
        w, s = norm(e.args[0]), e.args[1]
        m = re.search("[%s]{2}" % C, w)
        if not m:
            return "zi'evla %r without a consonant cluster" % w
        cl = m.start()
        if cl > 0 and syllables(w) > 2:
            for k in range(1, cl + 1):
                if k == cl or w[k] in C or spec.glide(w[k:]):
                    a = observe(P, "analyse", (w[k:], [s[0], False, "CLUSTER", False, s[4]]))
                    if a.exc is None and a.out[0] != "CMEVLA":
                        return "zi'evla %s falls apart as %s %s" % (w, w[:k], w[k:])


def syllables(w):
    """a lower bound of the number of syllables: maximal vowel runs"""
    return len(re.findall("[aeiou]+", w))


ORACLES = {"C01": o_lossless, "C02": o_spans, "C03": o_total, "C04": o_labels, "C05": o_phon_word, "C07": o_policy,
           "C08": o_classify, "C09": o_struct, "C10": o_phon_built, "C11": o_score, "C13": o_forms, "C14": o_pure,
           "C15": o_veljvo, "C16": o_slinkuhi, "C17": o_apart}


# ------------------------------------------------------------ what to call
def g_word(G):
    return "analyse", (G.word(), settings(G.R))


def g_build(G):
    t = G.tanru()
    if G.R.random() < .1:
        t = " ".join(t)
    return "build", (t, G.R.random() < .3, settings(G.R))


def g_pieces(G):
    R = G.R
    return "get_rafsi_indices", ([R.choice([G.piece, lambda: R.choice(sorted(HY))])() for _ in range(R.randrange(8))],)


def g_classify(G):
    R = G.R
    k = R.choice(["is_vowel", "is_consonant", "is_glide", "is_gismu_shape", "is_gismu", "rafsi_tarmi", "is_valid_rafsi",
                  "contains_consonant", "is_only_lojban_characters"])
    if k in ("is_vowel", "is_consonant"):
        return k, (R.choice("abcdefghijklmnopqrstuvwxyz',.-yAZ\u00e9 "),)
    q = R.random()
    s = R.choice(G.rafs) if q < .15 else R.choice(G.gis) if q < .25 else G.shape(R.choice(SHAPES)) if q < .7 else G.word()
    if R.random() < .2 and s:
        i = R.randrange(len(s) + 1)
        s = s[:i] + R.choice("y'hw,.q A\n" + C + V) + s[i + R.randrange(2):]
    if R.random() < .02:
        s = ""
    return k, ((s, R.random() < .5) if k in ("is_gismu", "is_valid_rafsi") else (s,))


def g_raf(G):
    R = G.R
    q = R.random()
    r = R.choice(G.rafs) if q < .4 else R.choice(G.gis)[:4] if q < .6 else G.piece()
    return "search_selrafsi_from_rafsi", (r,)


def accepted(G):
    R = G.R
    if G.corpus and R.random() < .6:
        return R.choice(G.corpus)
    return G.word()


def g_veljvo(G):
    return "get_veljvo", tuple([accepted(G)] + settings(G.R))


def g_scorelujvo(G):
    return "score_lujvo", tuple([accepted(G)] + settings(G.R))


def g_score(G):
    R = G.R
    return "score", (R.choice(["", "", "'"]) + G.piece() + R.choice(["", "", "y", "'y", "'"]),)


def g_isbrivla(G):
    return "is_brivla", tuple([G.word()] + settings(G.R))


def g_norm(G):
    w = G.word()
    return "normalise", (G.dirty(w) if G.R.random() < .8 else w,)


def g_dirtyword(G):
    return "analyse", (G.dirty(accepted(G)), settings(G.R))


def g_dirtyother(G):
    return G.R.choice(["is_brivla", "get_veljvo", "score_lujvo"]), tuple([G.dirty(accepted(G))] + settings(G.R))


def g_dirtybuild(G):
    t = [G.dirty(c) if G.R.random() < .5 else c for c in G.tanru()]
    return "build", (t, G.R.random() < .3, settings(G.R))


def g_sellist(G):
    R = G.R
    d = [R.choice([G.piece, lambda: R.choice(sorted(HY))])() for _ in range(R.randrange(1, 6))]
    return "selrafsi_list_from_rafsi_list", (d, R.choice(YS), R.random() < .5)


GENS = {"C01": [(9, g_word), (1, g_dirtyword)], "C02": [(3, g_pieces), (4, g_build)],
        "C03": [(6, g_word), (4, g_build), (1, g_veljvo), (1, g_scorelujvo), (1, g_isbrivla)],
        "C04": [(6, g_word), (1, g_isbrivla)], "C05": [(1, g_word)], "C07": [(1, g_word)], "C08": [(1, g_classify)],
        "C09": [(1, g_build)], "C10": [(1, g_build)], "C11": [(2, g_score), (4, g_build), (2, g_scorelujvo), (2, g_word)],
        "C13": [(3, g_norm), (3, g_dirtyword), (4, g_dirtybuild), (2, g_dirtyother)],
        "C14": [(4, g_word), (5, g_build), (1, g_pieces), (1, g_sellist), (1, g_veljvo)],
        "C15": [(3, g_raf), (3, g_veljvo), (3, g_word)], "C16": [(4, g_word), (2, g_build)], "C17": [(1, g_word)]}


def judge(P, prop, kind, args):
    e = observe(P, kind, args)
    return ORACLES[prop](P, e), e


def nontrivial(e):
    """the call came back with a result (most random words are rejected)"""
    return e.exc is None


def pattern(w):
    return "".join("C" if c in C else "V" if c in V else c for c in w)


def search(P, prop, seed, seconds, maxn=10 ** 9):
    """returns a report: evaluations, distinct non-trivial, samples, violation"""
    G = Gen(P, seed)
    t0 = time.time()
    n, seen, samples, viol = 0, set(), [], None
    gens = [g for k, g in GENS[prop] for _ in range(k)]
    for w in FILL:
        G.corpus.append(w)
    while time.time() - t0 < seconds and n < maxn:
        kind, args = G.R.choice(gens)(G)
        n += 1
        try:
            msg, e = judge(P, prop, kind, args)
        except RecursionError:
            continue
        if e.exc is None:
            h = (kind, repr(args))
            if h not in seen and len(seen) < 2000000:
                seen.add(h)
                if len(samples) < 4 and G.R.random() < .2:
                    samples.append(e.describe())
            if kind == "analyse":
                G.learn(norm(args[0]), (e.out[0], tuple(pattern(x) for x in e.out[1])))
            elif kind == "build":
                G.learn(e.out[0], ("b", pattern(e.out[0])))
                if isinstance(args[0], list):
                    G.tlearn(args[0], ("t", tuple(pattern(x) for x in args[0])))
        if msg:
            viol = {"property": prop, "kind": kind, "args": list(args), "message": msg}
            break
    return {"evaluations": n, "distinct": len(seen), "samples": samples, "violation": viol, "seconds": time.time() - t0}


def tup(kind, args):
    return tuple(args)


def shrink(P, prop, v, seconds=6):
    """a smaller input with the same verdict"""
    t0 = time.time()
    best = v

    def bad(args):
        try:
            return judge(P, prop, v["kind"], tuple(args))[0]
        except RecursionError:
            return None
    changed = True
    while changed and time.time() - t0 < seconds:
        changed = False
        a = best["args"]
        cands = []
        if isinstance(a[0], str):
            w = a[0]
            cands += [[w[:i] + w[i + 1:]] + a[1:] for i in range(len(w))]
        elif isinstance(a[0], list):
            cands += [[a[0][:i] + a[0][i + 1:]] + a[1:] for i in range(len(a[0]))]
        if v["kind"] in ("analyse", "build"):
            std = ["STANDARD", False, "CLUSTER", False, False]
            for i in range(5):
                if a[-1][i] != std[i]:
                    cands.append(a[:-1] + [a[-1][:i] + [std[i]] + a[-1][i + 1:]])
        for c in cands:
            m = bad(c)
            if m:
                best = {"property": prop, "kind": v["kind"], "args": c, "message": m}
                changed = True
                break
    return best
