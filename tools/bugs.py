PRE = """from latkerlo_jvotci import *
from latkerlo_jvotci.tools import *
from latkerlo_jvotci.katna import *
from latkerlo_jvotci.jvozba import *
from latkerlo_jvotci.tarmi import *
import itertools
def accepted(w, **k):
    try: return analyse_brivla(w, **k)
    except NotBrivlaError: return None
OPTS = [dict(y_hyphens=y, exp_rafsi_shapes=e, consonants=c, glides=g, allow_mz=m)
        for y in ("STANDARD", "ALLOW_Y", "FORCE_Y") for e in (False, True)
        for c in ("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT") for g in (False, True) for m in (False, True)]
"""
BUGS = []
def bug(id, prop, needs, what, edits, demo):
    BUGS.append({"id": id, "property": prop, "needs": needs, "what_it_breaks": what, "edits": edits, "demo": PRE + demo})

bug("C01-a", "C01", "an extended lujvo one of whose parts has an apostrophe right after a four-letter rafsi",
    "the apostrophe is skipped with the hyphen and missing from the pieces",
    [["katna.py", 'if len(lujvo) == 4 or lujvo[4] == "y":', 'if len(lujvo) == 4 or lujvo[4] in "\'y":']],
"""
for w in ["klam'gismyspageti", "bard'gismyspageti", "blan'klamyspageti", "klam'gismuyspageti", "barda'yspageti", "bard'gismuyspageti", "gerku'yspageti"]:
    for o in OPTS:
        r = accepted(w, **o)
        assert r is None or "".join(r[1]) == w, (w, o, r)
""")
bug("C01-b", "C01", "an extended lujvo with an apostrophe on both sides of a y",
    "the first apostrophe of 'y' is dropped from the pieces",
    [["tools.py", """            part_copy = part
            next_hyphen += "'"

            if not part:""", """            part_copy = part
            next_hyphen = "y'"

            if not part:"""]],
"""
n = 0
for w in ["spageti'y'a'a", "spageti'y'ukau", "spageti'y'e'u", "spagety'a'a", "ci'y'a'e'i", "skrinyuma'y'u'u"]:
    for o in OPTS:
        r = accepted(w, **o)
        n += r is not None
        assert r is None or "".join(r[1]) == w, (w, o, r)
""")
bug("C02-a", "C02", "a piece list with a two-letter experimental rafsi",
    "the span of a short experimental rafsi is left out",
    [["tools.py", "if piece not in HYPHENS:\n            index_list", "if len(piece) > 2 or piece.isalpha() and piece not in HYPHENS and not is_vowel(piece[-1]):\n            index_list"]],
"""
assert get_rafsi_indices(["ia", "'y", "klama"]) == [(0, 2), (4, 9)]
assert get_rafsi_indices(["tcan", "y", "ja'a"]) == [(0, 4), (5, 9)]
""")
bug("C02-b", "C02", "a lujvo whose first part ends in an apostrophe before its hyphen",
    "the apostrophe that belongs to the hyphen is counted into the span of the first rafsi",
    [["jvozba.py", "[(0, len(strip_hyphens(rafsi0)))]", "[(0, len(rafsi0.rstrip('y')))]"]],
"""
for t in ["spageti klama", "-rei- cinki", "gerku zdani", "iglu cinki"]:
    for o in OPTS:
        try: w, s, ix = get_lujvo_with_analytics(t, **o)
        except NoLujvoFoundError: continue
        assert len(ix) == 2 and ix[0][0] == 0 and ix[-1][1] == len(w), (t, o, w, ix)
        assert w[ix[0][1]:ix[1][0]].strip("'ynr") == "", (t, o, w, ix)
        assert all(w[a] not in "y'" and w[b-1] not in "y'" for a, b in ix), (t, o, w, ix)
""")
bug("C04-a", "C04", "a word in mz such as mamza, with mz allowed",
    "a gismu with mz is labelled a zi'evla",
    [["tools.py", "        if is_gismu(valsi, allow_mz=allow_mz):\n            return GISMU", "        if is_gismu(valsi):\n            return GISMU"]],
"""
assert analyse_brivla("mamza", allow_mz=True)[0] == "GISMU"
assert analyse_brivla("mamta")[0] == "GISMU"
""")
bug("C04-b", "C04", "a brivla whose acceptance depends on glides counting as consonants",
    "the yes/no question forgets the glides option",
    [["tools.py", "return CMEVLA != analyse_brivla(valsi, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)[0]",
      "return CMEVLA != analyse_brivla(valsi, y_hyphens, exp_rafsi_shapes, consonants, False, allow_mz)[0]"]],
"""
seen = 0
for w in ["ia'yuau", "ua'yia", "mai'yua", "lau'yia", "ia'yrei", "rei'yia", "rai'yuai", "pau'yuau", "ci'a'yia"]:
    for o in OPTS:
        r = accepted(w, **o)
        seen += r is not None
        assert is_brivla(w, **o) == (r is not None and r[0] != "CMEVLA"), (w, o, r)
assert seen
""")
bug("C08-a", "C08", "a CVCC rafsi in mz, with mz allowed",
    "four-letter rafsi such as mamz are refused although mz is allowed",
    [["tarmi.py", "    if raftai in [CVCCV, CVCC]:\n        return rafsi[2:4] in (MZ_VALID if allow_mz else VALID)",
      "    if raftai == CVCCV and allow_mz:\n        return rafsi[2:4] in MZ_VALID\n    if raftai in [CVCCV, CVCC]:\n        return rafsi[2:4] in VALID"]],
"""
assert is_valid_rafsi("mamza", allow_mz=True) and not is_valid_rafsi("mamza")
assert is_valid_rafsi("mamz", allow_mz=True) and not is_valid_rafsi("mamz")
assert is_valid_rafsi("mamt")
""")
bug("C08-b", "C08", "a four-letter string whose third character is neither letter nor apostrophe",
    "strings such as bayi are taken for CV'V rafsi",
    [["tarmi.py", "if rafsi[2] in '\\'':", "if not is_vowel(rafsi[2]):"]],
"""
assert rafsi_tarmi("bayi") not in (CVhV,)
assert not is_valid_rafsi("baki"), "baki"
assert rafsi_tarmi("ba'i") == CVhV
""")
bug("C11-a", "C11", "a cmevla lujvo of a CVV rafsi and a five-letter rafsi",
    "the tie-break is also given when the second part is a whole gismu",
    [["jvozba.py", "in [CCV, CCVC, CVC, CVCC]) else 0", "in [CCV, CCVC, CVC, CVCC, CVCCV]) else 0"]],
"""
assert tiebreak("jaibalvi") == 0 and tiebreak("jaibra") == 1 and tiebreak("jaibal") == 1 and tiebreak("jaiblabi") == 0
""")
bug("C11-b", "C11", "a rafsi in which one vowel occurs twice",
    "a vowel that occurs twice is counted once",
    [["jvozba.py", """            rafsi.count("a")
            + rafsi.count("e")
            + rafsi.count("i")
            + rafsi.count("o")
            + rafsi.count("u")
""", """            sum(1 for v in "aeiou" if v in rafsi)
"""]],
"""
assert score("klama") == 1000 * 5 - 10 * rafsi_tarmi("klama") - 2
assert score("ba'i") - score("ba'a") == 0
""")
bug("C13-a", "C13", "the yes/no question for a word with a comma at its end",
    "a word is refused before it is normalised",
    [["tools.py", "    try:\n        return CMEVLA != analyse_brivla", "    if valsi[-1:] == \",\":\n        return False\n    try:\n        return CMEVLA != analyse_brivla"]],
"""
for w in ["klama", "bardymru", "jbobau", "spageti", "srutio", "zbasu"]:
    assert is_brivla(w) == is_brivla(w + ",") == is_brivla("." + w) == is_brivla(w.upper()), w
""")
bug("C13-b", "C13", "a tanru given as one string with two spaces between words",
    "an empty component appears between two spaces",
    [["jvozba.py", "valsi_list = tanru.split()", "valsi_list = tanru.split(' ')"]],
"""
def b(t):
    try: return get_lujvo(t)
    except Exception as e: return type(e).__name__
for t in ["lojbo bangu", "mamta barda", "klama gerku zdani"]:
    assert b(t) == b(t.split()) == b(t.replace(" ", "  ")) == b(" " + t) == b(t.replace(" ", "\\n")), t
""")
bug("C16-a", "C16", "a lujvo built with y-hyphens forced or mz allowed that is a slinku'i under that option only",
    "the builder's slinku'i test forgets the options",
    [["jvozba.py", "if not generate_cmevla and is_slinkuhi(best_lujvo, y_hyphens=y_hyphens, allow_mz=allow_mz):",
      "if not generate_cmevla and is_slinkuhi(best_lujvo):"]],
"""
def bad(w, **o):
    try: jvokaha("to" + w, **o)
    except (DecompositionError, InvalidClusterError): return False
    return w[0] not in "aeiou"
import sys
for t in ["klamzon- zdani", "klimzin- da", "brimzan- nanba", "klingon- nanba", "klingon- da dasni"]:
    for y in ("STANDARD", "ALLOW_Y", "FORCE_Y"):
        for m in (False, True):
            for e in (False, True):
                for c in ("CLUSTER", "TWO_CONSONANTS", "ONE_CONSONANT"):
                    try: w = get_lujvo(t, y_hyphens=y, allow_mz=m, exp_rafsi_shapes=e, consonants=c)
                    except Exception: continue
                    assert not bad(w, y_hyphens=y, allow_mz=m), (t, y, m, w)
""")
bug("C16-b", "C16", "an extended lujvo that starts with a consonant, has several y and is a slinku'i",
    "the last test of an extended lujvo is skipped when it has two hyphens",
    [["tools.py", """    if not (is_vowel(valsi[0]) and (is_consonant(valsi[1]) or valsi[1] == "y")):
        if is_slinkuhi""", """    if len(y_parts) < 3 and not (is_vowel(valsi[0]) and (is_consonant(valsi[1]) or valsi[1] == "y")):
        if is_slinkuhi"""]],
"""
def bad(w, **o):
    try: jvokaha("to" + w, **o)
    except (DecompositionError, InvalidClusterError): return False
    return w[0] not in "aeiou"
for w in ['tsaukubravytubrydza', "dzurtazyzilylo'u", 'clusterjuzyckenyjilsu', 'skanragykibycecycadga', 'klingonydzadasni']:
    for o in OPTS:
        r = accepted(w, **o)
        assert r is None or r[0] != "EXTENDED_LUJVO" or not bad(w, y_hyphens=o["y_hyphens"], allow_mz=o["allow_mz"]), (w, o)
""")
bug("C20-a", "C20", "a rafsi of one gismu repeated in the entry of another",
    "two words share a rafsi",
    [["rafsi.py", '"zmadu": [\'zma\', \'mau\'],', '"zmadu": [\'zma\', \'mau\', "ma\'u"],']],
"""
from latkerlo_jvotci.rafsi import RAFSI_LIST
seen = {}
for w, rs in RAFSI_LIST.items():
    for r in rs:
        assert seen.setdefault(r, w) == w, (r, w, seen[r])
""")
bug("C10-a", "C10", "a component that ends in n before one that begins with dj, dz, tc or ts",
    "the banned triple is looked for at the wrong place, and the word is built with it",
    [["jvozba.py", "if lujvo[-1] + rafsi[:2] in BANNED_TRIPLES:", "if lujvo[-2:] + rafsi[0] in BANNED_TRIPLES:"]],
"""
n = 0
for a in ["-zan-", "-jan-", "-men-", "-sin-", "manku", "minra"]:
    for b in ["-dja-", "-dza-", "-tce-", "-tsa-", "djacu", "tsani"]:
        for o in OPTS:
            for t in (a + " " + b, "klama " + a + " " + b):
                try: w = get_lujvo(t, **o)
                except NoLujvoFoundError: continue
                n += 1
                assert not any(x in w for x in ("ndj", "ndz", "ntc", "nts")), (t, o, w)
assert n > 50
""")
bug("C10-b", "C10", "a short brivla rafsi with mz in it while mz is not allowed",
    "the component is analysed as if mz were allowed, and the built word has mz",
    [["jvozba.py", '''                        valsi + "a",
                        y_hyphens=y_hyphens,
                        exp_rafsi_shapes=exp_rafsi_shapes,
                        allow_mz=allow_mz''', '''                        valsi + "a",
                        y_hyphens=y_hyphens,
                        exp_rafsi_shapes=exp_rafsi_shapes,
                        allow_mz=allow_mz or len(valsi) > 4''']],
"""
for t in ["kamzolin- klama", "klama spamzol- gerku", "jamzgast- zdani", "spamzet- klama", "klamzet- klama", "cimzel- bajra"]:
    for o in OPTS:
        if o["allow_mz"]: continue
        try: w = get_lujvo(t, **o)
        except (NoLujvoFoundError, NonLojbanCharacterError, InvalidClusterError, NotZihevlaError): continue
        assert "mz" not in w, (t, o, w)
""")
