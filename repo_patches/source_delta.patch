From f45a3c2fc3ccc88fba57d7d3cf4a94e7dba3b723 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 1/9] fix: import is_slinkuhi in jvozba

get_lujvo_from_list calls is_slinkuhi, which lives in tools, but the
module never imported it, so building almost any lujvo raised NameError.
---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 69b4add..42c358e 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -6,7 +6,7 @@ Modified by latkerlo (https://github.com/latkerlo), Copyright (c) 2023-2024
 """
 
 from latkerlo_jvotci.tarmi import *
-from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, normalise
+from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, is_slinkuhi, normalise
 from latkerlo_jvotci.rafsi import RAFSI_LIST
 from latkerlo_jvotci.data import BANNED_TRIPLES
 from latkerlo_jvotci.exceptions import NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError, NotBrivlaError
-- 
2.43.0


From 83181066bf9f7f57ce667939e744b137528e665d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 2/9] fix: normalise accepts the empty string

analyse_brivla and is_brivla documented NotBrivlaError/False for strings
that are not words and test for the empty string, but normalise indexed
word[0] first, so the empty string raised IndexError.
---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 42b498c..75c205a 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -19,7 +19,7 @@ def normalise(word: str) -> str:
     :param word: A lojban word.
     :return: The normalised form.
     """
-    if word[0] == ".":
+    if word[:1] == ".":
         word = word[1:]
     word = word.lower()
     word = word.replace("h", "'")
-- 
2.43.0


From 70a03d476771248c60435036629f817c2f6921f8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 3/9] fix: report a bad vowel sequence after y' as
 NotBrivlaError

split_vowel_cluster raises DecompositionError, which escaped from
analyse_brivla and is_brivla (e.g. is_brivla("bogy'ae")).
---
 py/latkerlo_jvotci/tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 75c205a..8948e41 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -324,8 +324,11 @@ def analyse_brivla(
                 raise NotBrivlaError("that was only a '")
             first_cons = next((i for i, c in enumerate(part) if not is_vowel(c)), -1)
             vchunk = part if first_cons == -1 else part[:first_cons]
-            if not is_vowel(part[0]) or split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS:
-                raise NotBrivlaError(f"consonant or glide after ': {{{part}}}")
+            try:
+                if not is_vowel(part[0]) or split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS:
+                    raise NotBrivlaError(f"consonant or glide after ': {{{part}}}")
+            except DecompositionError:
+                raise NotBrivlaError(f"bad vowel sequence after ': {{{part}}}")
         elif i > 0 and is_vowel(part[0]) and not is_glide(part):
             raise NotBrivlaError(f"non-glide vowel after y: {{{part}}}")
         if next_hyphen:
-- 
2.43.0


From df57291dc65185e9517fd4dda3146df118d80134 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 4/9] fix: do not index an empty part after 'y

analyse_brivla("n'yyp") raised IndexError instead of NotBrivlaError: the
part after the first y is empty there.
---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 8948e41..a617a1a 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -351,7 +351,7 @@ def analyse_brivla(
         did_add_a = False
         part_a = part + "a"
         if part[-1] == "'":
-            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and y_parts[i+1][0] != "'":
+            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and y_parts[i+1][:1] != "'":
                 require_cluster = True
             part = part[:-1]
             part_copy = part
-- 
2.43.0


From 021c493fc091597d06cf0e9cdf096ec9ef0949b6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 5/9] fix: jvokaha_2 must not index past a final r

A string ending in a CVV/CVhV rafsi plus r raised IndexError, which
escaped from analyse_brivla and get_lujvo through is_slinkuhi (e.g.
analyse_brivla("ckulytcesa'ur")).
---
 py/latkerlo_jvotci/katna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 619e954..26f7bef 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -179,7 +179,7 @@ def jvokaha_2(
                 continue
             elif y_hyphens != FORCE_Y and (
                 lujvo[:2] == "nr"  # n-hyphen is only allowed before r
-                or lujvo[0] == "r" and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
+                or lujvo[0] == "r" and len(lujvo) > 1 and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
             ) and rafsi_tarmi(res[-1]) in [CVV, CVhV]:
                 res.append(lujvo[0])
                 lujvo = lujvo[1:]
-- 
2.43.0


From 8bbeaa20241ea11c6d645d4fceeb23d9ce2bf3b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 6/9] fix: pass allow_mz to the zi'evla falls-apart test

With allow_mz, "tokralomzo" was accepted as a zi'evla although it falls
apart into "to" and the lujvo "kralomzo".
---
 py/latkerlo_jvotci/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index a617a1a..0037eb3 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -185,12 +185,12 @@ def check_zihevla_or_rafsi(
 
     elif num_syllables > 2:
         if cluster_pos and cluster_pos > 0:
-            if is_brivla(valsi_copy[cluster_pos:], y_hyphens=y_hyphens):
+            if is_brivla(valsi_copy[cluster_pos:], y_hyphens=y_hyphens, allow_mz=allow_mz):
                 raise NotZihevlaError(f"falls apart at cluster: {{{valsi_copy[0:cluster_pos]}_{valsi_copy[cluster_pos:]}}}")
 
             for i in range(1, cluster_pos):
                 if is_consonant(valsi_copy[cluster_pos - i]) or is_glide(valsi_copy[cluster_pos - i:]):
-                    if is_brivla(valsi_copy[cluster_pos - i:], y_hyphens=y_hyphens):
+                    if is_brivla(valsi_copy[cluster_pos - i:], y_hyphens=y_hyphens, allow_mz=allow_mz):
                         raise NotZihevlaError(f"falls apart before cluster: {{{valsi_copy[0:cluster_pos-i]}_{valsi_copy[cluster_pos-i:]}}}")
 
     if cluster_pos is None:
-- 
2.43.0


From b64851a7c791781d672c9bdf1df1042d52c455f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 7/9] fix: look at the previous rafsi and the new one in
 combine

The slice was always empty and the pattern was matched against it, so the
test never applied, unlike in the JS and Rust versions.  With experimental
rafsi shapes get_lujvo(["du", "-ua-"]) made "dubyua", which has no
consonant cluster and is not a brivla.
---
 py/latkerlo_jvotci/jvozba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 42c358e..d498372 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -326,8 +326,8 @@ def combine(
     raftai_1 = tarmi_ignoring_hyphen(rafsi)
     if lujvo[-1] not in "y'" and raftai_1 == OTHER_RAFSI:
         return
-    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][0]];
-    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", prulamrafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
+    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][1]]
+    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", rafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
         return
     hyphen = ""
     if lujvo[-1] == "'":
-- 
2.43.0


From c73fc24e9238627a3e19133984e2aa6829ccdad1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 8/9] fix: a CVV rafsi needs a diphthong to be valid

is_valid_rafsi accepted any two vowels, so get_lujvo(["-goo-", "gunta"])
made "goorgunta", which is not a brivla.
---
 py/latkerlo_jvotci/tarmi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/latkerlo_jvotci/tarmi.py b/py/latkerlo_jvotci/tarmi.py
index 7558bb5..069c35b 100644
--- a/py/latkerlo_jvotci/tarmi.py
+++ b/py/latkerlo_jvotci/tarmi.py
@@ -263,6 +263,8 @@ def is_valid_rafsi(rafsi: str, allow_mz: bool = False) -> bool:
         return rafsi[2:4] in (MZ_VALID if allow_mz else VALID)
     if raftai in [CCVCV, CCVC, CCV]:
         return rafsi[:2] in INITIAL
+    if raftai == CVV:
+        return rafsi[1:] in ["ai", "ei", "oi", "au"]
     return 1 <= raftai <= 8
 
 
-- 
2.43.0


From 7d021534b2d0a8a99dff3c91b1a3b4df012e6994 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 9/9] fix: score_lujvo agrees with the score of
 get_lujvo_with_analytics

It left out the 100 points of a y hyphen that is a piece of its own, and
looked for the tiebreak in the word as typed instead of its normal form, so
the score depended on capitals.
---
 py/latkerlo_jvotci/katna.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 26f7bef..fdbaba8 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -257,12 +257,7 @@ def score_lujvo(
         allow_mz: bool = False) -> int:
     get_veljvo(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
     decomp = analyse_brivla(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)[1]
-    return sum(
-        1000 * len(r)
-        if r in ["y", "n", "r", ""]
-        else score(r)
-        for r in decomp
-    ) - tiebreak(lujvo)
+    return sum(score(r) for r in decomp) - tiebreak("".join(decomp))
 
 
 def get_veljvo(
-- 
2.43.0

