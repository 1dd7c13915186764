import json
T="py/latkerlo_jvotci/tools.py";J="py/latkerlo_jvotci/jvozba.py";K="py/latkerlo_jvotci/katna.py";M="py/latkerlo_jvotci/tarmi.py";D="py/latkerlo_jvotci/data.py";L="py/latkerlo_jvotci/rafsi.py"
TEST="The only reliable existing test checks that dictionary gismu are recognised; the other suites compare a few thousand listed words for a few option settings. "
def p(id,title,st,text,why,files,mech,obs,over=("inputs","configurations")):
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":list(over),"text":text},"why_tests_cant":TEST+why,
     "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs,"hook_needed":None}}
OPT="every combination of the y-hyphen, experimental-rafsi, consonant, glide and mz options"
P=[
p("C01","Decomposition of a word is lossless",
 "Whenever the analyser accepts a word, the pieces it returns, concatenated in order, are exactly the normalised word: nothing is dropped, duplicated, inserted or reordered, whatever the options.",
 "every string and "+OPT,"They cannot cover all strings: a piece lost only for one placement of ' and y goes unnoticed.",[T,K],
 [("jvokaha_2 consumes a prefix for each appended piece",K),("analyse_brivla result_parts and next_hyphen",T)],["analyse_brivla"]),
p("C02","Rafsi index spans locate exactly the rafsi",
 "The span list computed for a piece list holds, in order, the start and end of every piece that is not a hyphen, and nothing else. The spans reported with a built lujvo are one per tanru component, in order, non-empty, disjoint and inside the word; the first starts the word and the text after the last span and between spans is hyphen material only.",
 "every piece list; every tanru of at least two non-empty components and "+OPT,"Off-by-one errors show only for particular hyphen sequences and word lengths.",[T,J],
 [("get_rafsi_indices accumulates piece lengths",T),("combine computes rafsi_start and rafsi_end",J)],["get_rafsi_indices","get_lujvo_with_analytics"]),
p("C03","Every input gets an answer or a documented exception",
 "Analysing any string, under any options, returns a result or raises the documented not-a-brivla exception, and the yes/no brivla question never raises; no index, key, type or internal decomposition error escapes. Building a lujvo from at least two non-empty components returns a result or raises one of the four documented exceptions of the builder.",
 "every string, every list of at least two non-empty component strings and "+OPT,"Escaping internal errors need odd inputs such as a trailing apostrophe after a particular shape.",[T,J,K,M],
 [("analyse_brivla exception handlers and emptiness guards",T),("get_rafsi_list_list validation",J)],["analyse_brivla","is_brivla","get_lujvo_with_analytics"]),
p("C04","Word-type labels are faithful",
 "An accepted word is labelled gismu exactly when it has gismu form under the mz option, and cmevla exactly when it ends in a consonant; every other accepted word ends in a vowel. Gismu and zi'evla are returned as a single undivided piece, zi'evla contain no y, every non-hyphen piece of a plain lujvo is a well-formed rafsi, and every compound has at least two non-hyphen pieces; the yes/no brivla question answers yes exactly for the words the analyser accepts as something other than cmevla.",
 "every string and "+OPT,"Labels must be right for every word, not for the listed ones.",[T,K,M],
 [("analyse_brivla returns",T),("jvokaha requires more than one rafsi",K)],["analyse_brivla","is_brivla"]),
p("C05","Accepted words obey the phonotactics of Lojban",
 "Every word the analyser accepts, of any type and under any options, uses only letters of the Lojban alphabet with y and ', contains only permissible consonant pairs (mz only when the option allows it) and no forbidden triple, and does not begin with y or an apostrophe.",
 "every string and "+OPT,"A bad pair can arise at any boundary between two pieces; the suites sample a handful.",[T,K,J,M,D],
 [("check_zihevla_or_rafsi cluster loops",T),("combine pair and triple tests",J),("jvokaha comparison with the correct lujvo",K)],["analyse_brivla"]),
p("C06","Consonant-rule option is enforced",
 "A brivla accepted under the cluster rule contains a consonant cluster once y and apostrophes are disregarded; under the two-consonant and one-consonant rules it contains at least two, respectively one, consonant (counting glides when that option is on).",
 "every string and "+OPT,"Needs counting across every combination of pieces.",[T,J],[("has_cluster and num_consonants",T),("total_consonants",J)],["analyse_brivla"]),
p("C07","Hyphens follow the hyphen policy",
 "In every accepted compound no hyphen begins or ends the word and no two hyphens are adjacent. A piece r or n occurs only after a rafsi of the form CVV or CV'V and before a consonant, n only before r and r not before r, and never when y-hyphens are forced; the long y-hyphens with an apostrophe never occur in a plain lujvo under the standard policy.",
 "every string and "+OPT,"Policies interact with piece shapes and options in ways no list of words spans.",[T,K,J],
 [("jvokaha_2 hyphen branch",K),("analyse_brivla next_hyphen",T)],["analyse_brivla"]),
p("C08","Letter, gismu and rafsi classification is exact",
 "The predicates for vowels, consonants, glides, alphabet membership, gismu form, rafsi shape and rafsi validity agree with the grammar for every string: each returns true or the shape exactly when the string has the form the Complete Lojban Language describes, with its tables of permissible and initial pairs.",
 "every string; for the character predicates every single character; mz on and off","The existing test asks one predicate about listed words; the complement (all strings that must be refused) is infinite.",[M,D],
 [("shape tests",M),("pair tables VALID, MZ_VALID, INITIAL",D)],["is_gismu","is_valid_rafsi","rafsi_tarmi","is_gismu_shape","is_vowel","is_consonant"]),
p("C09","A built lujvo is made of the tanru's own rafsi",
 "A lujvo built for a tanru ends in a consonant exactly when a cmevla was asked for and otherwise in a vowel. It holds one rafsi per component in order, and each rafsi, read off at its reported span, is one the dictionary lists for that component, the component itself, the component without its final vowel, or, for a component given as a rafsi, that rafsi itself.",
 "every tanru of at least two non-empty components, cmevla or not, and "+OPT,"The search tables keep partial results apart by last letter, consonant count and stability; an entry mixed up shows only for some tanru.",[J,L],
 [("get_rafsi_list_list candidates",J),("combine and update_current_best entries",J)],["get_lujvo_with_analytics"]),
p("C10","A built lujvo obeys the phonotactics of Lojban",
 "Every lujvo or cmevla built from a tanru, under any options, uses only letters of the Lojban alphabet with y and ', contains only permissible consonant pairs (mz only when the option allows it) and no forbidden triple.",
 "every tanru of at least two non-empty components and "+OPT,"Joins between all rafsi pairs and hyphens cannot be enumerated by examples.",[J,D,L],
 [("combine pair and triple tests",J),("rafsi table",L)],["get_lujvo_with_analytics","get_lujvo"]),
p("C11","Scores follow the published formula",
 "The score of a rafsi with its hyphens is 1000 per letter plus 100 per y minus 10 times its shape number minus one per vowel, for every string, and the tie-break subtracts one exactly for a CVV rafsi followed by one short rafsi. The score reported for a two-component lujvo is the sum over its pieces less the tie-break.",
 "every string; every two-component tanru and "+OPT,"Arithmetic over all strings.",[J,K],[("score",J),("tiebreak",J),("combine",J)],["score","get_lujvo_with_analytics","score_lujvo"]),
p("C12","The built lujvo has the least score",
 "No other admissible choice of rafsi and hyphens for the tanru has a lower score than the lujvo that is built.",
 "every tanru and "+OPT,"Optimality ranges over all combinations.",[J],[("dynamic programme over partial lujvo",J)],["get_lujvo_with_analytics"]),
p("C13","Spelling variants of the input make no difference",
 "A leading full stop, capital letters, commas and h written for the apostrophe make no difference: the analyser and the builder use their input word or tanru only through its normal form, in which one leading full stop is removed, letters are small, h is ' and commas are gone. A tanru given as one string and as the list of its words gives the same result.",
 "every string, every tanru and "+OPT,"It relates pairs of inputs; the suites hold almost no spelling variants.",[T,J],[("normalise",T),("process_tanru",J)],["normalise","analyse_brivla","get_lujvo"],("inputs","configurations","histories")),
p("C14","Calls have no side effects",
 "Analysing and building leave their list arguments, the dictionary and every table unchanged and keep no state, and the lists they return belong to the caller alone, so that repeating a call in any history gives the same answer.",
 "every history of public calls with any arguments","A shared or mutated list is visible only in a sequence of calls.",[T,J,K,M],[("fresh lists in every function",J)],["analyse_brivla","get_lujvo_with_analytics","get_veljvo"],("histories","inputs")),
p("C15","Recovered source words are faithful",
 "The dictionary word recovered for a rafsi lists that rafsi, or is the gismu that starts with it when it has four letters, and none is recovered only when no entry lists it. The veljvo of an accepted compound has exactly one item per rafsi, in order, each either such a dictionary word or the rafsi itself with or without the marks that show it is bound.",
 "every string and "+OPT,"The lookup ranges over every string and every decomposition.",[K,L],[("search_selrafsi_from_rafsi",K),("selrafsi_list_from_rafsi_list",K)],["get_veljvo","search_selrafsi_from_rafsi"]),
p("C16","No accepted or built word is a slinku'i",
 "A zi'evla or extended lujvo is accepted only if it starts with a vowel or putting the cmavo to in front of it does not give a well-formed lujvo. The same holds for every lujvo that is built when no cmevla is asked for.",
 "every string, every tanru and "+OPT,"The condition quantifies over the analysis of a second word.",[T,J],[("is_slinkuhi",T),("check in get_lujvo_from_list",J)],["analyse_brivla","get_lujvo_with_analytics"]),
p("C17","A zi'evla does not fall apart",
 "A word of more than two syllables whose first consonant cluster is not at its beginning is accepted as a zi'evla only if no suffix that starts at the cluster, or at a consonant or glide before it, is itself a brivla.",
 "every string, every suffix and "+OPT,"It quantifies over all suffixes of all words.",[T],[("check_zihevla_or_rafsi falls-apart loop",T)],["analyse_brivla"]),
p("C18","Analysis and building terminate","Every call of the analyser and of the builder returns or raises after finitely many steps, for every input.","every string, every tanru and "+OPT,"Non-termination needs one bad input.",[T,J,K,M],[("loops and mutual recursion",T)],["analyse_brivla","get_lujvo"]),
p("C19","What is built is analysed back to the same parts",
 "A lujvo built from a tanru is accepted by the analyser under the same options as a compound, and the spans of its pieces are the spans the builder reported.",
 "every tanru and "+OPT,"A relation between two independent algorithms.",[J,K,T],[("jvokaha compares with the builder",K)],["get_lujvo_with_analytics","analyse_brivla"]),
p("C20","The dictionary of rafsi is well-formed",
 "Every rafsi the dictionary lists is a well-formed bound form under the strict pair rules, no rafsi is listed for two words, and each rafsi listed for a gismu is spelt only with letters of that gismu.",
 "every entry of the dictionary","No test looks at the table as a whole.",[L],[("RAFSI_LIST",L)],["get_lujvo","get_veljvo"]),
p("C21","The three language ports agree","The Python, JavaScript and Rust implementations give the same result for the same input and options.","every input and "+OPT,"It relates three programs.",["js","rs",T],[("parallel implementations","js, rs, py")],["analyse_brivla and its ports"],("inputs","programs")),
]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
sc=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sc); assert len(x["title"])<=80
