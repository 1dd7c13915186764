"""The contracts."""
from .contract import Contract
CL = {"C08", "C04", "C05", "C07", "C09", "C10", "C11", "C15", "C16"}       # the classification functions are verified for these
C8 = {"C08"}
ALL = {"C%02d" % i for i in range(1, 30)}


def build():
    out = {}

    def add(*a, **k):
        c = Contract(*a, **k)
        out[c.key] = c

    add("tarmi.is_vowel", inline=ALL, params=[("character", "str")], ret="bool",
        requires=[("one character", C8, "len(character) == 1")],
        ensures=[("exactly aeiou", C8, "result == vow(character)")])
    add("tarmi.is_consonant", inline=ALL, params=[("character", "str")], ret="bool",
        requires=[("one character", C8, "len(character) == 1")],
        ensures=[("exactly the 17 consonants", C8, "result == con(character)")])
    add("tarmi.is_glide", inline=ALL, params=[("string", "str")], ret="bool",
        ensures=[("i or u before a vowel", C8, "result == glide(string)")])
    add("tarmi.is_only_lojban_characters", [("string", "str")], "bool",
        ensures=[("non-empty and only letters of the alphabet", {"C08", "C03", "C09", "C10"}, "result == (len(string) > 0 and all(c in ALPHABET for c in string))")])
    add("tarmi.contains_consonant", [("string", "str")], "bool",
        ensures=[("some character is a consonant", C8, "result == any(con(c) for c in string)")],
        invs=[(C8, "not any(con(c) for c in _done)")])
    add("tarmi.is_gismu_shape", [("valsi", "str")], "bool",
        ensures=[("CVCCV or CCVCV", CL, "result == gismu_shape(valsi)")])
    add("tarmi.is_gismu", [("valsi", "str"), ("allow_mz", "bool")], "bool",
        ensures=[("shape and clusters of a gismu", CL, "result == gismu(valsi, allow_mz)")])
    add("tarmi.rafsi_tarmi", [("rafsi", "str")], "int",
        ensures=[("the shape", CL, "result == shape(rafsi)")])
    add("tarmi.is_valid_rafsi", [("rafsi", "str"), ("allow_mz", "bool")], "bool",
        ensures=[("well-formed rafsi", CL, "result == rafsi_ok(rafsi, allow_mz)"),
                 ("phonotactics", {"C10"}, "not result or phon(rafsi, allow_mz)")])

    STRIP = {"C02", "C07", "C09", "C10", "C11"}
    STR, BOOL, INT = "str", "bool", "int"
    PIECES = ("list", "str")
    Y = ("y_hyphens", STR)
    C1, C2, C4, C5 = {"C01"}, {"C02"}, {"C04"}, {"C05"}
    add("tools.get_rafsi_indices", [("rafsi_list", PIECES)], ("list", ("tuple", "int", "int")),
        ensures=[("the spans of the pieces that are not hyphens", C2, "result == spans(rafsi_list)")],
        invs=[(C2, "$i == len(''.join(_done))"), (C2, "$T == spans(_done)")])
    BRIV = [("valsi", STR), Y, ("exp_rafsi_shapes", BOOL), ("consonants", STR), ("glides", BOOL), ("allow_mz", BOOL)]
    DOC = {"DecompositionError": [], "InvalidClusterError": [], "NotBrivlaError": []}
    add("katna.jvokaha_2", [("lujvo", STR), Y, ("allow_mz", BOOL)], PIECES,
        ensures=[("pieces spell the word", C1, "''.join(result) == lujvo"),
                 ("pieces are hyphens or rafsi", C4, "all(x in HYPHEN_PIECES or rafsi_ok(x, allow_mz) for x in result)"),
                 ("hyphens are short and rafsi are not", C4, "rafsi_count(result) == sum(1 for x in result if len(x) > 2)"),
                 ("phonotactics", C5, "phon(lujvo, allow_mz)"),
                 ("begins with a consonant", C5, "lujvo == '' or con(lujvo[:1])"),
                 ("a rafsi in every word", C4, "(lujvo == '' or rafsi_count(result) >= 1) and (len(result) == 0 or rafsi_count(result) >= 1)")],
        raises=DOC, light=True,
        invs=[({"C01", "C05"}, "''.join($L) + $s == lujvo__0"),
              (C5, "letters(''.join($L))"), (C5, "pairs(''.join($L) + $s[:1], allow_mz)"), (C5, "triples(''.join($L) + $s[:2])"),
              (C5, "len($L) == 0 or con(lujvo__0[:1])"),
              (C4, "all(x in HYPHEN_PIECES or rafsi_ok(x, allow_mz) for x in $L)"),
              (C4, "rafsi_count($L) == sum(1 for x in $L if len(x) > 2)"),
              (C4, "$s == lujvo__0 or rafsi_count($L) >= 1"),
              (C4, "len($L) == 0 or rafsi_count($L) >= 1")])
    add("katna.jvokaha", [("lujvo", STR), Y, ("consonants", STR), ("glides", BOOL), ("allow_mz", BOOL)], PIECES,
        ensures=[("pieces spell the word", C1, "''.join(result) == lujvo"),
                 ("pieces are hyphens or rafsi", C4, "all(x in HYPHEN_PIECES or rafsi_ok(x, allow_mz) for x in result)"),
                 ("phonotactics", C5, "phon(lujvo, allow_mz)"),
                 ("begins with a consonant", C5, "lujvo == '' or con(lujvo[:1])"),
                 ("at least two rafsi", C4, "rafsi_count(result) >= 2")],
        raises=DOC, light=True)
    C9, C10, C11, C13, C16, C20 = {"C09"}, {"C10"}, {"C11"}, {"C13"}, {"C16"}, {"C20"}
    add("tools.normalise", [("word", STR)], STR, ensures=[
        ("the normal form", C13, "result == normalform(word)"),
        ("a word of small letters is normal", {"C03", "C09", "C10"}, "not all(c in ALPHABET for c in word) or result == word")])
    add("jvozba.score", [("rafsi", STR)], INT, ensures=[("the published formula", C11, "result == score_formula(rafsi)")])
    add("jvozba.tiebreak", [("lujvo", STR)], INT, ensures=[("one for CVV and a short rafsi", C11, "result == tie(lujvo)")])
    add("jvozba.process_tanru", [("tanru", "any")], PIECES, cases=[{"tanru": STR}, {"tanru": ("list", STR)}],
        ensures=[("the normal forms of the words", C13, "result == [normalise(x) for x in words(tanru)]")])
    add("tools.analyse_brivla", BRIV, ("tuple", STR, PIECES),
        ensures=[("pieces spell the normalised word", C1, "''.join(result[1]) == normalise(valsi)"),
                 ("phonotactics", C5, "phon(normalise(valsi), allow_mz)"),
                 ("begins with a vowel or a consonant", C5, "vow(normalise(valsi)[:1]) or con(normalise(valsi)[:1])"),
                 ("one of the five types", C4, "result[0] in ['GISMU', 'ZIhEVLA', 'LUJVO', 'EXTENDED_LUJVO', 'CMEVLA']"),
                 ("cmevla exactly when it ends in a consonant", C4, "(result[0] == 'CMEVLA') == con(normalise(valsi)[-1:])"),
                 ("other words end in a vowel", C4, "result[0] == 'CMEVLA' or vow(normalise(valsi)[-1:])"),
                 ("gismu exactly when it has gismu form", C4, "(result[0] == 'GISMU') == gismu(normalise(valsi), allow_mz)"),
                 ("gismu and zi'evla are undivided", C4, "result[0] not in ['GISMU', 'ZIhEVLA'] or "
                  "(len(result[1]) == 1 and ''.join(result[1]) == normalise(valsi))"),
                 ("no y in a zi'evla", C4, "result[0] != 'ZIhEVLA' or 'y' not in normalise(valsi)"),
                 ("lujvo pieces are hyphens or rafsi", C4, "result[0] != 'LUJVO' or "
                  "all(x in HYPHEN_PIECES or rafsi_ok(x, allow_mz) for x in result[1])"),
                 ("not a slinku'i", C16, "result[0] not in ['ZIhEVLA', 'EXTENDED_LUJVO'] or vow(normalise(valsi)[:1]) or "
                  "not returns(jvokaha, 'to' + normalise(valsi), y_hyphens, 'CLUSTER', False, allow_mz)"),
                 ("compounds have two rafsi", C4, "result[0] in ['GISMU', 'ZIhEVLA'] or rafsi_count(result[1]) >= 2")],
        raises={"NotBrivlaError": []}, light=True, flow=(C13, "valsi", ["normalise"]),
        invs=[(C1, "@0 ''.join($L) + $s == 'y'.join(_done)"),
              (C1, "@0 $s == '' or 'y'.join(_done)[-1:] == \"'\""),
              (C5, "@0 all(letters(x) for x in _done)"), (C5, "@0 all(pairs(x, allow_mz) for x in _done)"), (C5, "@0 all(triples(x) for x in _done)"),
              (C5, "@0 letters('y'.join(_done))"), (C5, "@0 pairs('y'.join(_done), allow_mz)"), (C5, "@0 triples('y'.join(_done))"),
              (C4, "@0 rafsi_count($L) >= len(_done)")])
    GLFL = [("valsi_list", ("list", STR)), ("generate_cmevla", BOOL), Y, ("exp_rafsi_shapes", BOOL), ("consonants", STR),
            ("glides", BOOL), ("allow_mz", BOOL)]
    BEST = ("tuple", STR, INT, ("list", ("tuple", INT, INT)))
    GENX = {"NoLujvoFoundError": [], "NonLojbanCharacterError": [], "InvalidClusterError": [], "NotZihevlaError": []}
    SPANS = ("list", ("tuple", INT, INT))
    CAND = ("list", ("tuple", STR, INT))
    add("jvozba.get_rafsi_for_rafsi", [("rafsi", STR), ("r_type", "any"), ("is_first", BOOL), ("is_last", BOOL), ("consonants", STR), ("glides", BOOL)],
        CAND, cases=[{"r_type": STR}, {"r_type": INT}],
        requires=[("not empty", C10, "len(rafsi) > 0"), ("the type is the shape", C10, "r_type in ['SHORT BRIVLA', 'LONG BRIVLA', 'EXPERIMENTAL RAFSI'] or r_type == shape(rafsi)")],
        ensures=[("phonotactics kept", C10, "not phon(rafsi, True) or all(phon(x[0], True) for x in result)"),
                 ("strict phonotactics kept", C10, "not phon(rafsi, False) or all(phon(x[0], False) for x in result)"),
                 ("none empty", C10, "all(len(x[0]) > 0 for x in result)"),
                 ("no triple can begin at the end", C10, "is_last or all(len(x[0]) >= 2 and x[0][-2:] not in ['nd', 'nt'] for x in result)")])
    MZ = [{"allow_mz": ("const", True)}, {"allow_mz": ("const", False)}]
    add("jvozba.get_rafsi_list_list", GLFL[:1] + GLFL[2:], ("list", CAND), raises=GENX, light=True, cases=MZ,
        ensures=[("phonotactics", C10, "all(all(phon(x[0], allow_mz) for x in L) for L in result)"),
                 ("none empty", C10, "all(all(len(x[0]) > 0 for x in L) for L in result)"),
                 ("no triple can begin at the end", C10, "all(all(len(x[0]) >= 2 and x[0][-2:] not in ['nd', 'nt'] for x in L) for L in result[:-1])")],
        invs=[(C10, "all(all(phon(x[0], allow_mz) for x in L) for L in $T)"), (C10, "all(all(len(x[0]) > 0 for x in L) for L in $T)"),
              (C10, "_ix == len(valsi_list) or all(all(len(x[0]) >= 2 and x[0][-2:] not in ['nd', 'nt'] for x in L) for L in $T)"),
              (C10, "all(all(len(x[0]) >= 2 and x[0][-2:] not in ['nd', 'nt'] for x in L) for L in $T[:-1])"),
              (C10, "len($T) == _ix"),
              (C10, "all(phon(x[0], allow_mz) for x in $T)"), (C10, "all(len(x[0]) > 0 for x in $T)"),
              (C10, "$b or all(len(x[0]) >= 2 and x[0][-2:] not in ['nd', 'nt'] for x in $T)")])
    add("jvozba.combine", [("lujvo", STR), ("rafsi", STR), ("lujvo_consonants", INT), ("rafsi_consonants", INT), ("lujvo_score", INT),
                           ("index_list", SPANS), ("tosmabru_type", INT), ("generate_cmevla", BOOL), ("tanru_len", INT), Y,
                           ("consonants", STR), ("glides", BOOL), ("allow_mz", BOOL)],
        ("opt", ("tuple", INT, INT, INT, STR, SPANS)), light=True,
        requires=[("two words to join", C10, "phon(lujvo, allow_mz) and phon(rafsi, allow_mz) and len(lujvo) > 0 and len(rafsi) > 0"),
                  ("no triple can begin before the join", C10, "lujvo[-2:] not in ['nd', 'nt']")],
        ensures=[("phonotactics", C10, "result is None or phon(result[3], allow_mz)"),
                 ("ends in the rafsi", {"C09"}, "result is None or result[3][-len(rafsi):] == rafsi"),
                 ("ends as the rafsi", C10, "result is None or (len(result[3]) > 0 and (len(rafsi) < 2 or result[3][-2:] == rafsi[-2:]))")])
    def built(w):
        """clauses of the three functions that build; w: the text of the built word"""
        return [("not a slinku'i unless a cmevla", C16, "generate_cmevla or vow(%s[:1]) or "
                 "not returns(jvokaha, 'to' + %s, y_hyphens, 'CLUSTER', False, allow_mz)" % (w, w)),
                ("phonotactics", C10, "phon(%s, allow_mz)" % w)]

    TANRU = [("tanru", STR)] + GLFL[1:]
    BOTH = [{"tanru": STR}, {"tanru": ("list", STR)}]
    REST = "generate_cmevla, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz"
    add("jvozba.get_lujvo_from_list", GLFL, BEST, raises=GENX, light=True, ensures=built("result[0]"),
        invs=[(C10, "each($D, lambda k, v: len(v[0]) > 0 and phon(v[0], allow_mz))"),
              (C10, "$o is None or phon($o, allow_mz)"),
              (C10, "len(rafsi_list_list) == 2 or each($D, lambda k, v: v[0][-2:] not in ['nd', 'nt'])"),
              (C10, "not all(len(x[0]) >= 2 and x[0][-2:] not in ['nd', 'nt'] for x in rafsi_list) or each($D, lambda k, v: v[0][-2:] not in ['nd', 'nt'])"),
              (C10, "@0 _ix >= len(rafsi_list_list) - 2 or each($D, lambda k, v: v[0][-2:] not in ['nd', 'nt'])")])
    FL = (C13, "tanru", ["process_tanru", "get_lujvo_with_analytics"])
    add("jvozba.get_lujvo_with_analytics", TANRU, BEST, raises=GENX, flow=FL, cases=BOTH, ensures=built("result[0]") + [
        ("built from the normal forms only", C13, "result == get_lujvo_from_list(process_tanru(tanru), %s)" % REST)])
    add("jvozba.get_lujvo", TANRU, STR, raises=GENX, flow=FL, cases=BOTH, ensures=built("result") + [
        ("built from the normal forms only", C13, "result == get_lujvo_from_list(process_tanru(tanru), %s)[0]" % REST)])
    add("tools.check_zihevla_or_rafsi", [("valsi", STR), ("require_zihevla", BOOL), Y, ("exp_rafsi_shapes", BOOL),
                                         ("allow_mz", BOOL)], STR, raises={"NotZihevlaError": []}, light=True, bounded={"C05"},
        invs=[(C5, "@0 $s == ''"),
              (C5, "@0 valsi__0 == valsi__0[:$i] + $s :: letters(valsi__0[:$i])"),
              (C5, "@0 valsi__0 == valsi__0[:$i] + $s :: pairs(valsi__0[:$i], allow_mz)"),
              (C5, "@0 valsi__0 == valsi__0[:$i] + $s :: triples(valsi__0[:$i])"),
              (C5, "@0 valsi__0 == valsi__0[:$i] + $s :: not con(valsi__0[:$i][-1:]) or not con($s[:1])"),
              (C5, "@0 valsi__0 == valsi__0[:$i] + $s :: 0 <= $i and $i <= len(valsi__0)"),
              (C5, "@1 valsi__0 == valsi__0[:$i] + $s1 + $s2 :: all(con(c) for c in $s1)"),
              (C5, "@1 valsi__0 == valsi__0[:$i] + $s1 + $s2 :: all(vow(c) for c in $s1)"),
              (C5, "@1 pairs($u[:_ix + 1], allow_mz)"), (C5, "@1 triples($u[:_ix + 2])")],
        ensures=[("phonotactics", C5, "phon(valsi, allow_mz)"), ("not a slinku'i", C16, "result != 'ZIhEVLA' or vow(valsi[:1]) or not returns(jvokaha, 'to' + valsi, y_hyphens, 'CLUSTER', False, allow_mz)"),
                 ("a zi'evla when one is required", C16, "not require_zihevla or result == 'ZIhEVLA'"),
                 ("long enough", C4, "not require_zihevla or len(valsi) >= 4"),
                 ("one of two answers", C4, "result in ['ZIhEVLA', 'RAFSI']")])
    add("tools.is_brivla", BRIV, BOOL, flow=(C13, "valsi", ["normalise", "analyse_brivla"]),
        ensures=[("yes exactly for accepted words that are not cmevla", C4, "result == (returns(analyse_brivla, valsi, y_hyphens, "
                  "exp_rafsi_shapes, consonants, glides, allow_mz) and analyse_brivla(valsi, y_hyphens, exp_rafsi_shapes, "
                  "consonants, glides, allow_mz)[0] != 'CMEVLA')")])
    SAME = "analyse_brivla(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)"
    LUJ = [("lujvo", STR)] + BRIV[1:]
    add("katna.selrafsi_list_from_rafsi_list", [("rafsi_list", PIECES), Y, ("allow_mz", BOOL)], PIECES)
    add("katna.get_veljvo", LUJ, PIECES, raises={"NotBrivlaError": [], "DecompositionError": []}, flow=(C13, "lujvo", ["analyse_brivla"]))
    add("katna.score_lujvo", LUJ, INT, raises={"NotBrivlaError": [], "DecompositionError": []},
        flow=(C13, "lujvo", ["analyse_brivla", "get_veljvo"]),
        ensures=[("sum over the pieces less the tie-break", C11, "result == sum(score(x) for x in %s[1]) - tiebreak(''.join(%s[1]))"
                  % (SAME, SAME))])
    add("tarmi.split_vowel_cluster", [("vowels", STR)], PIECES, raises={"DecompositionError": []})
    add("tarmi.is_zihevla_initial_cluster", [("cluster", STR)], BOOL)
    add("tarmi.is_zihevla_middle_cluster", [("cluster", STR)], BOOL)
    add("tarmi.strip_hyphens", [("rafsi", STR)], STR, ensures=[("the marks at the ends are gone", STRIP, "result == rafsi.strip(\"'y\")")])
    add("tarmi.tarmi_ignoring_hyphen", [("rafsi", STR)], INT,
        ensures=[("the shape without marks at the ends", STRIP & CL, "result == shape(rafsi.strip(\"'y\"))")])
    add("tools.is_slinkuhi", [("string", STR), Y, ("allow_mz", BOOL)], BOOL,
        ensures=[("to in front makes a lujvo", C16, "result == (not vow(string[:1]) and "
                  "returns(jvokaha, 'to' + string, y_hyphens, 'CLUSTER', False, allow_mz))")])
    return out


def tables(mods):
    """big dicts of lists of strings, kept abstract: what is assumed of them is listed here and evaluated on every entry"""
    def match(d):
        return isinstance(d, dict) and len(d) > 100 and all(isinstance(k, str) and isinstance(v, list) for k, v in d.items())
    lemmas = [({"C10"}, "lambda k, v: all(phon(r, True) for r in v)"), ({"C10"}, "lambda k, v: all(phon(r, False) for r in v)"),
              ({"C10"}, "lambda k, v: all(len(r) > 0 for r in v)")]
    return [{"name": "rafsi", "match": match, "lemmas": lemmas}]


def ground(mods):
    """facts about the finite data tables, decided by evaluation: (label, properties, f); f() is falsy when the fact holds"""
    from . import spec
    tabs = [t for t in (getattr(mods.get(m), "RAFSI_LIST", None) for m in ("rafsi", "jvozba", "katna")) if t is not None]
    if not tabs:
        raise LookupError("no table of rafsi")
    table = tabs[0]
    entries = [(w, r) for w in table for r in table[w]]

    def twice():
        first = {}
        return [(first[r], w, r) for w, r in entries if first.setdefault(r, w) != w or table[w].count(r) > 1]

    return [
        ("every listed rafsi is a well-formed bound form under the strict pair rules", {"C20"},
         lambda: [x for x in entries if not spec.rafsi_ok(x[1], False)]),
        ("no rafsi is listed for two words, nor twice", {"C20"}, twice),
        ("no listed rafsi has the shape of a whole word or of a hyphen", {"C20"},
         lambda: [x for x in entries if spec.shape(x[1]) not in (spec.CVC, spec.CCV, spec.CVV, spec.CVhV)]),
        ("a rafsi of a gismu is spelt with letters of that gismu only", {"C20"},
         lambda: [(w, r) for w, r in entries if spec.gismu(w, True) and not set(r) <= set(w + "'")]),
        ("the builder and the analyser use the same table", {"C20"}, lambda: [1 for t in tabs if t != table]),
    ] + [("every entry of the table: " + text, tags, lambda f=eval(text, dict(vars(spec))): [x for t in tabs for x in t.items() if not f(*x)])
         for tb in tables(mods) for tags, text in tb["lemmas"]]
