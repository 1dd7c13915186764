"""Specification functions.

Each is an ordinary Python function, so that it also runs: the replay of a
counterexample and the search for inputs evaluate the same text the verifier
reasons about.  The tables are written down here from the reference grammar
(CLL chapters 3 and 4), independently of the tables of the code under test.
"""

VOWELS = "aeiou"
CONSONANTS = "bcdfgjklmnprstvxz"
ALPHABET = "aeioubcdfgjklmnprstvxz'"

UNVOICED = "ptkfcsx"
VOICED = "bdgvjz"
SIBILANT = "cjsz"
FORBIDDEN = ["cx", "kx", "xc", "xk", "mz"]


def _pair_ok(a, b):
    return a != b and not (a in UNVOICED and b in VOICED) and not (a in VOICED and b in UNVOICED) and \
        not (a in SIBILANT and b in SIBILANT) and a + b not in FORBIDDEN


PAIRS = [a + b for a in CONSONANTS for b in CONSONANTS if _pair_ok(a, b)]
PAIRS_MZ = PAIRS + ["mz"]
INITIALS = ["bl", "br", "cf", "ck", "cl", "cm", "cn", "cp", "cr", "ct", "dj", "dr", "dz", "fl", "fr", "gl", "gr", "jb",
            "jd", "jg", "jm", "jv", "kl", "kr", "ml", "mr", "pl", "pr", "sf", "sk", "sl", "sm", "sn", "sp", "sr", "st",
            "tc", "tr", "ts", "vl", "vr", "xl", "xr", "zb", "zd", "zg", "zm", "zv"]
TRIPLES = ["ndj", "ndz", "ntc", "nts"]
DIPHTHONGS = ["ai", "ei", "oi", "au"]
HYPHEN_PIECES = ["r", "n", "y", "'y", "y'", "'y'"]

HYPHEN, CVCCV, CVCC, CCVCV, CCVC, CVC, CVhV, CCV, CVV, OTHER = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9


# ---------------------------------------------------------------- decorators
def hom(ret, boundary=None, k=1, lemmas=(), short=None, at=None):
    """a function of s determined by its values on the two parts of any cut of
    s and `boundary` of the k characters before and after the cut; `short` is
    its value on strings of at most 6 characters; at(s, i, e) is the boundary
    condition of the cut of s[:e] at i"""
    def d(f):
        f._spec = {"kind": "hom", "ret": ret, "boundary": boundary, "k": k, "lemmas": lemmas, "short": short, "at": at}
        return f
    return d


def opaque(args, ret):
    def d(f):
        f._spec = {"kind": "opaque", "args": args, "ret": ret}
        return f
    return d


def plain(f):
    f._spec = {"kind": "plain"}
    return f


def special(name):
    def d(f):
        f._spec = {"kind": "special", "fn": name}
        return f
    return d


@special("sp_returns")
def returns(f, *args):
    """the call f(*args) returns normally"""
    try:
        f(*args)
        return True
    except Exception:
        return False


@special("sp_sub")
def sub(s, a, n):
    """the n characters of s from a on, where a >= 0"""
    return s[a:a + n] if a >= 0 else ""


@special("sp_each")
def each(d, f):
    """f(key, value) holds for every entry of a dict, or of the dicts of a nested list"""
    return all(each(x, f) for x in d) if isinstance(d, list) else all(f(k, v) for k, v in d.items())


@plain
def rafsi_count(pieces):
    """number of pieces that are not hyphens"""
    return sum(1 for x in pieces if x not in HYPHEN_PIECES)


# ---------------------------------------------------------------- characters
@plain
def vow(c):
    return len(c) == 1 and c in "aeiou"


@plain
def con(c):
    return len(c) == 1 and c in "bcdfgjklmnprstvxz"


@plain
def pair_ok(p, mz):
    """p is a permissible medial consonant pair"""
    return p in PAIRS or (mz and p == "mz")


@plain
def initial_ok(p):
    return p in INITIALS


@opaque(["str", "bool"], "bool")
def pair2(p, mz):
    """two letters that may stand side by side: not both consonants, or a permissible pair"""
    return not (con(p[0:1]) and con(p[1:2])) or pair_ok(p[0:2], mz)


@plain
def meet2(x, y, mz):
    return pair2(x + y, mz)


@plain
def meet2_at(s, i, e, mz):
    return i < 1 or i + 1 > e or pair2(sub(s, i - 1, 2), mz)


@hom("bool", boundary=meet2, k=1, short="pairs_short", at="meet2_at")
def pairs(s, mz):
    """every two consonants side by side in s are a permissible pair"""
    return all(pair2(s[i:i + 2], mz) for i in range(len(s) - 1))


@plain
def pairs_short(s, mz):
    return pair2(s[0:2], mz) and pair2(s[1:3], mz) and pair2(s[2:4], mz) and pair2(s[3:5], mz) and pair2(s[4:6], mz)


@opaque(["str"], "bool")
def no_triple3(p):
    return p not in TRIPLES


@plain
def meet3(x, y):
    return (len(x) < 2 or no_triple3(x + y[0:1])) and no_triple3(x[-1:] + y)


@plain
def meet3_at(s, i, e):
    return (i < 2 or i + 1 > e or no_triple3(sub(s, i - 2, 3))) and (i < 1 or i + 2 > e or no_triple3(sub(s, i - 1, 3)))


@hom("bool", boundary=meet3, k=2, short="triples_short", at="meet3_at")
def triples(s):
    """no forbidden triple in s"""
    return all(no_triple3(s[i:i + 3]) for i in range(len(s) - 2))


@plain
def triples_short(s):
    return no_triple3(s[0:3]) and no_triple3(s[1:4]) and no_triple3(s[2:5]) and no_triple3(s[3:6])


@plain
def yes_at(s, i, e):
    return True


@opaque(["str"], "bool")
def letter1(c):
    return c[0:1] in "aeioubcdfgjklmnprstvxz'y"


@plain
def letters_short(s):
    return letter1(s[0:1]) and letter1(s[1:2]) and letter1(s[2:3]) and letter1(s[3:4]) and letter1(s[4:5]) and letter1(s[5:6])


@hom("bool", short="letters_short", at="yes_at")
def letters(s):
    """only letters of the alphabet, y and the apostrophe"""
    return all(c in "aeioubcdfgjklmnprstvxz'y" for c in s)


@plain
def phon(s, mz):
    return letters(s) and pairs(s, mz) and triples(s)


@plain
def glide(s):
    """a glide begins s: i or u before a vowel"""
    return len(s) >= 2 and s[0] in "iu" and vow(s[1])


# ---------------------------------------------------------------- shapes
@plain
def v_at(s, i):
    return vow(s[i:i + 1])


@plain
def c_at(s, i):
    return con(s[i:i + 1])


@opaque(["str"], "bool")
def gismu_shape(s):
    return len(s) == 5 and c_at(s, 0) and c_at(s, 3) and v_at(s, 4) and (
        (v_at(s, 1) and c_at(s, 2)) or (c_at(s, 1) and v_at(s, 2)))


@opaque(["str", "bool"], "bool")
def gismu(s, mz):
    return gismu_shape(s) and ((v_at(s, 1) and pair_ok(s[2:4], mz)) or (c_at(s, 1) and s[0:2] in INITIALS))


@opaque(["str"], "int")
def shape(s):
    """the rafsi shape of s"""
    if s == "'y":
        return HYPHEN
    if len(s) == 1 and not vow(s):
        return HYPHEN
    if len(s) == 3 and c_at(s, 0) and v_at(s, 1) and c_at(s, 2):
        return CVC
    if len(s) == 3 and c_at(s, 0) and v_at(s, 1) and v_at(s, 2):
        return CVV
    if len(s) == 3 and c_at(s, 0) and c_at(s, 1) and v_at(s, 2):
        return CCV
    if len(s) == 4 and c_at(s, 0) and v_at(s, 1) and s[2] == "'" and v_at(s, 3):
        return CVhV
    if len(s) == 4 and c_at(s, 0) and v_at(s, 1) and c_at(s, 2) and c_at(s, 3):
        return CVCC
    if len(s) == 4 and c_at(s, 0) and c_at(s, 1) and v_at(s, 2) and c_at(s, 3):
        return CCVC
    if gismu_shape(s) and v_at(s, 2):
        return CCVCV
    if gismu_shape(s):
        return CVCCV
    return OTHER


@opaque(["str", "bool"], "bool")
def rafsi_ok(s, mz):
    """s is a well-formed CLL rafsi"""
    if shape(s) == CVCCV or shape(s) == CVCC:
        return pair_ok(s[2:4], mz)
    if shape(s) == CCVCV or shape(s) == CCVC or shape(s) == CCV:
        return s[0:2] in INITIALS
    if shape(s) == CVV:
        return s[1:3] in DIPHTHONGS
    return shape(s) == CVC or shape(s) == CVhV


@plain
def score_formula(r):
    """1000 per letter, 100 per y, 10 times the shape number and 1 per vowel off"""
    return 1000 * len(r) + 100 * r.count("y") - 10 * (shape(r.strip("'y")) % 9) - r.count("a") - r.count("e") - r.count("i") - \
        r.count("o") - r.count("u")


@plain
def tie(w):
    """one for a CVV rafsi followed by one short rafsi"""
    return 1 if shape(w[:3]) == CVV and shape(w[3:]) in [CCV, CCVC, CVC, CVCC] else 0


@plain
def dotless(w):
    return w[1:] if w[:1] == "." else w


@plain
def normalform(w):
    """one leading full stop removed, letters small, h is ' and commas gone"""
    return dotless(w).lower().replace("h", "'").replace(",", "")


@plain
def words(t):
    """the words of a tanru given as one string or as a list"""
    return t.split() if isinstance(t, str) else t


def snoc(ret, cond, val):
    def d(f):
        f._spec = {"kind": "snoc", "ret": ret, "step": (cond, val)}
        return f
    return d


@snoc(("tuple", "int", "int"), "x not in HYPHEN_PIECES", "(len(''.join(p)), len(''.join(p)) + len(x))")
def spans(pieces):
    """start and end of each piece that is not a hyphen, in order"""
    out, n = [], 0
    for x in pieces:
        if x not in HYPHEN_PIECES:
            out.append((n, n + len(x)))
        n += len(x)
    return out


def namespace(mods):
    ns = {k: v for k, v in globals().items() if not k.startswith("__")}
    d = {}
    for m in ("data", "exceptions", "tarmi"):
        for k, v in vars(mods[m]).items():
            if k.isupper() and isinstance(v, (str, int)):
                d.setdefault(k, v)
    import types
    for m in ("tarmi", "tools", "jvozba", "katna"):
        for k, v in vars(mods[m]).items():
            if isinstance(v, types.FunctionType) and v.__module__ == mods[m].__name__:
                d[k] = v
    d.update(ns)
    return d
