From 6eb5060fc6814ddc82a846b7278c605d51b22c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 01/33] fix: import is_slinkuhi in jvozba so that lujvo can be
 built

get_lujvo_from_list calls is_slinkuhi, which was never imported: every
successful brivla search ended in a NameError.
---
 py/latkerlo_jvotci/jvozba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 69b4add..42c358e 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -6,7 +6,7 @@ Modified by latkerlo (https://github.com/latkerlo), Copyright (c) 2023-2024
 """
 
 from latkerlo_jvotci.tarmi import *
-from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, normalise
+from latkerlo_jvotci.tools import analyse_brivla, check_zihevla_or_rafsi, is_slinkuhi, normalise
 from latkerlo_jvotci.rafsi import RAFSI_LIST
 from latkerlo_jvotci.data import BANNED_TRIPLES
 from latkerlo_jvotci.exceptions import NoLujvoFoundError, InvalidClusterError, NonLojbanCharacterError, NotZihevlaError, NotBrivlaError
-- 
2.43.0


From d146c9e8fc7ac735dbe39d98d81682e81448770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 02/33] fix: rebuild js/docs/rafsi.js so the shipped rafsi list
 matches the source

fizbu (-zbu-) and jicfo (-cfo-) had no rafsi in the JavaScript users are told
to include, although js/src, py and rs all list them.
---
 js/docs/rafsi.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/rafsi.js b/js/docs/rafsi.js
index 43d1c9d..b115d2d 100644
--- a/js/docs/rafsi.js
+++ b/js/docs/rafsi.js
@@ -503,7 +503,7 @@ const RAFSI_LIST = new Map([
     ["finti", ['fin', "fi'i"]],
     ["firca", []],
     ["fisli", []],
-    ["fizbu", []],
+    ["fizbu", ['zbu']],
     ["fizde", ['fiz']],
     ["flaci", []],
     ["flalu", ['fla']],
@@ -679,7 +679,7 @@ const RAFSI_LIST = new Map([
     ["jguvi", []],
     ["jibni", ['jbi']],
     ["jibri", ['jib']],
-    ["jicfo", []],
+    ["jicfo", ['cfo']],
     ["jicla", []],
     ["jicmu", ['cmu']],
     ["jidge", ['jid']],
-- 
2.43.0


From 0c75d30ff11e78394d07d16ac4cadb56aad32998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 03/33] fix: look at the previous rafsi in combine, as the JS
 and Rust versions do

The slice took an empty string, so a vowel-only rafsi after a CVC or CVV rafsi
was never refused and get_lujvo returned words such as vozyuu that are not
brivla.
---
 py/latkerlo_jvotci/jvozba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 42c358e..d498372 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -326,8 +326,8 @@ def combine(
     raftai_1 = tarmi_ignoring_hyphen(rafsi)
     if lujvo[-1] not in "y'" and raftai_1 == OTHER_RAFSI:
         return
-    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][0]];
-    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", prulamrafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
+    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][1]]
+    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", rafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
         return
     hyphen = ""
     if lujvo[-1] == "'":
-- 
2.43.0


From d851c343d10acc8447b56fb94b981e5a34c6ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 04/33] fix: let normalise take an empty string, so that
 analyse_brivla reports it as not a brivla

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 42b498c..75c205a 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -19,7 +19,7 @@ def normalise(word: str) -> str:
     :param word: A lojban word.
     :return: The normalised form.
     """
-    if word[0] == ".":
+    if word[:1] == ".":
         word = word[1:]
     word = word.lower()
     word = word.replace("h", "'")
-- 
2.43.0


From 0a75b57a955f2126a4563c50ded9982d3bb95c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 05/33] fix: report 'yy as not a brivla instead of raising
 IndexError

---
 py/latkerlo_jvotci/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 75c205a..36ef27a 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -348,7 +348,7 @@ def analyse_brivla(
         did_add_a = False
         part_a = part + "a"
         if part[-1] == "'":
-            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and y_parts[i+1][0] != "'":
+            if y_hyphens == STANDARD and not has_cluster and i < len(y_parts) - 1 and y_parts[i+1][:1] != "'":
                 require_cluster = True
             part = part[:-1]
             part_copy = part
-- 
2.43.0


From 2d2502052125c4d7459624d91ffe74050158b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 06/33] fix: make score_lujvo score hyphens the way get_lujvo
 does

A y-hyphen is worth 1100 and an r- or n-hyphen 1000 in the score reported by
get_lujvo_with_analytics; score_lujvo used 1000 for both in Python and 1100 for
both in JS and Rust, so the two disagreed about the same word.
---
 js/docs/katna.js            | 2 +-
 js/src/katna.ts             | 4 +---
 py/latkerlo_jvotci/katna.py | 7 +------
 rs/src/katna.rs             | 8 +-------
 4 files changed, 4 insertions(+), 17 deletions(-)

diff --git a/js/docs/katna.js b/js/docs/katna.js
index 54883e5..9a2a7db 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -248,7 +248,7 @@ function scoreLujvo(lujvo, { generateCmevla = false, yHyphens = YHyphenSetting.S
     catch (e) {
         throw e;
     }
-    return decomp.map(r => ["y", "n", "r", ""].includes(r) ? 1100 * r.length : score(r)).reduce((a, b) => a + b) - tiebreak(lujvo);
+    return decomp.map(score).reduce((a, b) => a + b) - tiebreak(lujvo);
 }
 /**
  * Decompose a lujvo into a list of selrafsi and formatted rafsi.
diff --git a/js/src/katna.ts b/js/src/katna.ts
index 7f0abbe..51e6891 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -300,9 +300,7 @@ function scoreLujvo(lujvo: string, {
   } catch (e) {
     throw e;
   }
-  return decomp.map(r =>
-    ["y", "n", "r", ""].includes(r) ? 1100 * r.length : score(r)
-  ).reduce((a, b) => a + b) - tiebreak(lujvo);
+  return decomp.map(score).reduce((a, b) => a + b) - tiebreak(lujvo);
 }
 
 /**
diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 619e954..25ecb56 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -257,12 +257,7 @@ def score_lujvo(
         allow_mz: bool = False) -> int:
     get_veljvo(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
     decomp = analyse_brivla(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)[1]
-    return sum(
-        1000 * len(r)
-        if r in ["y", "n", "r", ""]
-        else score(r)
-        for r in decomp
-    ) - tiebreak(lujvo)
+    return sum(score(r) for r in decomp) - tiebreak(lujvo)
 
 
 def get_veljvo(
diff --git a/rs/src/katna.rs b/rs/src/katna.rs
index 518efcf..3656be8 100644
--- a/rs/src/katna.rs
+++ b/rs/src/katna.rs
@@ -256,13 +256,7 @@ pub fn jvokaha2(lujvo: &str, settings: &Settings) -> Result<Vec<String>, Jvonunf
 pub fn score_lujvo(lujvo: &str, settings: &Settings) -> Result<i32, Jvonunfli> {
     get_veljvo(lujvo, settings)?;
     let decomp = analyze_brivla(lujvo, settings)?.1;
-    Ok(decomp
-        .iter()
-        .map(|r| {
-            if ["y", "n", "r", ""].contains(&r.as_str()) { 1100 * r.len() as i32 } else { score(r) }
-        })
-        .sum::<i32>()
-        - tiebreak(lujvo))
+    Ok(decomp.iter().map(|r| score(r)).sum::<i32>() - tiebreak(lujvo))
 }
 
 /// Gets the selrafsi (source tanru) and formatted unassigned rafsi for this
-- 
2.43.0


From 285c4caa8af16facaffc85c8c451e06c3299cd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 07/33] fix: normalise the word before the tiebreak in
 score_lujvo

---
 js/docs/katna.js            | 2 +-
 js/src/katna.ts             | 2 +-
 py/latkerlo_jvotci/katna.py | 4 ++--
 rs/src/katna.rs             | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/js/docs/katna.js b/js/docs/katna.js
index 9a2a7db..8d33cd3 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -248,7 +248,7 @@ function scoreLujvo(lujvo, { generateCmevla = false, yHyphens = YHyphenSetting.S
     catch (e) {
         throw e;
     }
-    return decomp.map(score).reduce((a, b) => a + b) - tiebreak(lujvo);
+    return decomp.map(score).reduce((a, b) => a + b) - tiebreak(normalise(lujvo));
 }
 /**
  * Decompose a lujvo into a list of selrafsi and formatted rafsi.
diff --git a/js/src/katna.ts b/js/src/katna.ts
index 51e6891..3fb6dc1 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -300,7 +300,7 @@ function scoreLujvo(lujvo: string, {
   } catch (e) {
     throw e;
   }
-  return decomp.map(score).reduce((a, b) => a + b) - tiebreak(lujvo);
+  return decomp.map(score).reduce((a, b) => a + b) - tiebreak(normalise(lujvo));
 }
 
 /**
diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 25ecb56..01bdc4b 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -6,7 +6,7 @@ Modified by latkerlo (https://github.com/latkerlo), Copyright (c) 2023-2024
 """
 
 from latkerlo_jvotci.tarmi import *
-from latkerlo_jvotci.tools import is_brivla, analyse_brivla
+from latkerlo_jvotci.tools import is_brivla, analyse_brivla, normalise
 from latkerlo_jvotci.jvozba import get_lujvo_from_list, score, tiebreak
 from latkerlo_jvotci.exceptions import DecompositionError, InvalidClusterError, NotBrivlaError, NoLujvoFoundError
 from latkerlo_jvotci.rafsi import RAFSI_LIST
@@ -257,7 +257,7 @@ def score_lujvo(
         allow_mz: bool = False) -> int:
     get_veljvo(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)
     decomp = analyse_brivla(lujvo, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz)[1]
-    return sum(score(r) for r in decomp) - tiebreak(lujvo)
+    return sum(score(r) for r in decomp) - tiebreak(normalise(lujvo))
 
 
 def get_veljvo(
diff --git a/rs/src/katna.rs b/rs/src/katna.rs
index 3656be8..8bc060c 100644
--- a/rs/src/katna.rs
+++ b/rs/src/katna.rs
@@ -18,7 +18,7 @@ use crate::{
         YHyphenSetting::{ForceY, Standard},
         is_consonant, is_vowel, rafsi_tarmi,
     },
-    tools::{analyze_brivla, is_brivla},
+    tools::{analyze_brivla, is_brivla, normalize},
 };
 
 /// Returns the word with the given rafsi, if one exists.
@@ -256,7 +256,7 @@ pub fn jvokaha2(lujvo: &str, settings: &Settings) -> Result<Vec<String>, Jvonunf
 pub fn score_lujvo(lujvo: &str, settings: &Settings) -> Result<i32, Jvonunfli> {
     get_veljvo(lujvo, settings)?;
     let decomp = analyze_brivla(lujvo, settings)?.1;
-    Ok(decomp.iter().map(|r| score(r)).sum::<i32>() - tiebreak(lujvo))
+    Ok(decomp.iter().map(|r| score(r)).sum::<i32>() - tiebreak(&normalize(lujvo)))
 }
 
 /// Gets the selrafsi (source tanru) and formatted unassigned rafsi for this
-- 
2.43.0


From ea2c0f231a59b2ee53b13c3a8d55f3ac9e7c1528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 08/33] fix: count the CVV tiebreak once, for the whole lujvo,
 in its score

A cmevla such as coidjebak kept the point awarded to its first two rafsi, so
get_lujvo_with_analytics and score_lujvo disagreed about it.
---
 js/docs/jvozba.js            | 2 +-
 js/src/jvozba.ts             | 2 +-
 py/latkerlo_jvotci/jvozba.py | 2 +-
 rs/src/jvozba.rs             | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 0cb9709..4404d81 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -355,7 +355,7 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
     return [
         tosmabruType,
         totalConsonants,
-        lujvoScore + score(hyphen) + score(rafsi) - tiebreak(lujvo + hyphen + rafsi),
+        lujvoScore + score(hyphen) + score(rafsi) + tiebreak(lujvo) - tiebreak(lujvo + hyphen + rafsi),
         lujvo + hyphen + rafsi,
         indexList
     ];
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 10f67b8..f43cc9c 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -429,7 +429,7 @@ function combine(
   return [
     tosmabruType,
     totalConsonants,
-    lujvoScore + score(hyphen) + score(rafsi) - tiebreak(lujvo + hyphen + rafsi),
+    lujvoScore + score(hyphen) + score(rafsi) + tiebreak(lujvo) - tiebreak(lujvo + hyphen + rafsi),
     lujvo + hyphen + rafsi,
     indexList
   ];
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index d498372..c366294 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -395,7 +395,7 @@ def combine(
     return (
         tosmabru_type,
         total_consonants,
-        lujvo_score + score(hyphen) + score(rafsi) - tiebreak(res),
+        lujvo_score + score(hyphen) + score(rafsi) + tiebreak(lujvo) - tiebreak(res),
         res,
         index_list
     )
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index 56a2b3f..a5f2bf1 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -469,7 +469,7 @@ pub fn combine(
         total_c = 2;
     }
     let res = format!("{lujvo}{hyphen}{rafsi}");
-    let score = lujvo_score + score(hyphen) + score(rafsi) - tiebreak(&res);
+    let score = lujvo_score + score(hyphen) + score(rafsi) + tiebreak(lujvo) - tiebreak(&res);
     Some((tosmabru_type, total_c, score, res, indices))
 }
 
-- 
2.43.0


From 4e26379e406530aee51ca573fa213c279d31313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 09/33] fix: report a bad vowel sequence after y' as not a
 brivla

analyse_brivla let a DecompositionError escape (Rust: panicked) for words such
as preny'eocoi'o'a, where its contract is NotBrivlaError.
---
 js/docs/tools.js            | 12 ++++++++++--
 js/src/tools.ts             | 11 +++++++++--
 py/latkerlo_jvotci/tools.py |  7 +++++--
 rs/src/tools.rs             | 13 +++++++------
 4 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 4ee6fe0..7c0ab74 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -305,8 +305,16 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                 throw new NotBrivlaError("that was only a '");
             let firstCons = [...part].findIndex(c => !isVowel(c));
             let vchunk = firstCons == -1 ? part : part.slice(0, firstCons);
-            if (!isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]))
-                throw new NotBrivlaError(`consonant or glide after ': {${part}}`);
+            try {
+                if (!isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]))
+                    throw new NotBrivlaError(`consonant or glide after ': {${part}}`);
+            }
+            catch (e) {
+                if (e instanceof DecompositionError)
+                    throw new NotBrivlaError(e.message);
+                else
+                    throw e;
+            }
         }
         else if (i > 0 && isVowel(part[0]) && !isGlide(part)) {
             throw new NotBrivlaError(`non-glide vowel after y: {${part}}`);
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 48a32f5..5f21b2c 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -375,8 +375,15 @@ function analyseBrivla(
         throw new NotBrivlaError("that was only a '");
       let firstCons = [...part].findIndex(c => !isVowel(c));
       let vchunk = firstCons == -1 ? part : part.slice(0, firstCons);
-      if (!isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]))
-        throw new NotBrivlaError(`consonant or glide after ': {${part}}`);
+      try {
+        if (!isVowel(part[0]) || FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(vchunk)[0]))
+          throw new NotBrivlaError(`consonant or glide after ': {${part}}`);
+      } catch (e) {
+        if (e instanceof DecompositionError)
+          throw new NotBrivlaError(e.message);
+        else
+          throw e;
+      }
     } else if (i > 0 && isVowel(part[0]) && !isGlide(part)) {
       throw new NotBrivlaError(`non-glide vowel after y: {${part}}`);
     }
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 36ef27a..9246a84 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -324,8 +324,11 @@ def analyse_brivla(
                 raise NotBrivlaError("that was only a '")
             first_cons = next((i for i, c in enumerate(part) if not is_vowel(c)), -1)
             vchunk = part if first_cons == -1 else part[:first_cons]
-            if not is_vowel(part[0]) or split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS:
-                raise NotBrivlaError(f"consonant or glide after ': {{{part}}}")
+            try:
+                if not is_vowel(part[0]) or split_vowel_cluster(vchunk)[0] in FOLLOW_VOWEL_CLUSTERS:
+                    raise NotBrivlaError(f"consonant or glide after ': {{{part}}}")
+            except DecompositionError as e:
+                raise NotBrivlaError(e)
         elif i > 0 and is_vowel(part[0]) and not is_glide(part):
             raise NotBrivlaError(f"non-glide vowel after y: {{{part}}}")
         if next_hyphen:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 34aac62..3ba35c6 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -448,13 +448,14 @@ pub fn analyze_brivla(
                 )));
             }
             if !is_vowel(strin!(part, 0))
-                || FOLLOW_VOWEL_CLUSTERS.contains(
-                    &split_vowel_cluster(
-                        &part.chars().take_while(|c| is_vowel(*c)).collect::<String>(),
-                    )
-                    .unwrap()[0]
-                        .as_str(),
+                || split_vowel_cluster(
+                    &part.chars().take_while(|c| is_vowel(*c)).collect::<String>(),
                 )
+                .map_err(|_| {
+                    NotBrivlaError(format!("{{{valsi}}} contains a bad vowel sequence"))
+                })?
+                .first()
+                .is_some_and(|v| FOLLOW_VOWEL_CLUSTERS.contains(&v.as_str()))
             {
                 return Err(NotBrivlaError(format!(
                     "{{{valsi}}} contains an apostrophe not followed by a non-glide vowel"
-- 
2.43.0


From e135b33df43d384b7d6488b2ba8050b6dcceb98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 10/33] fix: check every letter in the Rust rafsi_tarmi

faic counted as CVCC, friy as CCVC and fya as CCV, so analyze_brivla failed
with NonLojbanCharacterError on words such as friyysuk, and the arm for 'y
could not be reached.
---
 rs/src/tarmi.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index b574f09..ed706d7 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -372,19 +372,23 @@ pub fn is_valid_rafsi(r: &str, settings: &Settings) -> bool {
 pub fn rafsi_tarmi(r: &str) -> Tarmi {
     match r.len() {
         1 if !is_vowel(strin!(r, 0)) => Hyphen,
-        _ if !is_consonant(strin!(r, 0)) => OtherRafsi,
         2 if r == "'y" => Hyphen,
+        _ if !is_consonant(strin!(r, 0)) => OtherRafsi,
         3 => match (is_vowel(strin!(r, 1)), is_vowel(strin!(r, 2))) {
             (true, false) if is_consonant(strin!(r, 2)) => Cvc,
             (true, true) => Cvv,
-            (false, true) => Ccv,
+            (false, true) if is_consonant(strin!(r, 1)) => Ccv,
             _ => OtherRafsi,
         },
         4 if strin!(r, 3) != '\'' => {
             match (is_vowel(strin!(r, 1)), strin!(r, 2), is_vowel(strin!(r, 3))) {
                 (true, '\'', true) => Cvhv,
-                (true, _, false) if is_consonant(strin!(r, 3)) => Cvcc,
-                (false, v, false) if is_vowel(v) => Ccvc,
+                (true, c, false) if is_consonant(c) && is_consonant(strin!(r, 3)) => Cvcc,
+                (false, v, false)
+                    if is_consonant(strin!(r, 1)) && is_vowel(v) && is_consonant(strin!(r, 3)) =>
+                {
+                    Ccvc
+                }
                 _ => OtherRafsi,
             }
         }
-- 
2.43.0


From bfbdb041134e866816532609788ff503d1006d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 11/33] fix: refuse zi'evla rafsi that are lujvo in the Rust
 analyze_brivla

The Python and JS versions already do; without it jikysrasr counted as a
decomposable cmevla although srasra is not a zi'evla.
---
 rs/src/tools.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 3ba35c6..d3ec500 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -634,6 +634,9 @@ pub fn analyze_brivla(
             }
             let shape_type = shape_type.unwrap();
             if shape_type == Zihevla {
+                if added_a && jvokaha2(part, &extract!(settings; y_hyphens, allow_mz)).is_ok() {
+                    return Err(NotBrivlaError(format!("{{{part}}} is a lujvo")));
+                }
                 has_cluster = true;
             }
             if is_consonant(strin!(part, 0)) || settings.glides && is_glide(part) {
-- 
2.43.0


From 40c2dc4b9fdf688c15ea2876065212b05f0ebafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 12/33] fix: allow mz in three-letter zi'evla clusters when
 allow_mz is set

lamzblunro was accepted under allow_mz but lamzbunro was not (Rust accepted
it for some clusters only).
---
 js/docs/tarmi.js            | 2 +-
 js/src/tarmi.ts             | 2 +-
 py/latkerlo_jvotci/tarmi.py | 3 ++-
 rs/src/tarmi.rs             | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/js/docs/tarmi.js b/js/docs/tarmi.js
index d30af4e..e444d67 100644
--- a/js/docs/tarmi.js
+++ b/js/docs/tarmi.js
@@ -226,7 +226,7 @@ function isZihevlaMiddleCluster(cluster) {
     if (cluster.length === 3) {
         if (SONORANT_CONSONANTS.includes(cluster[1]))
             return true;
-        return VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
+        return MZ_VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
     }
     else if (cluster.length < 3) {
         return true; // Pairs are already checked outside this function
diff --git a/js/src/tarmi.ts b/js/src/tarmi.ts
index 3f2814d..ca6977d 100644
--- a/js/src/tarmi.ts
+++ b/js/src/tarmi.ts
@@ -237,7 +237,7 @@ function isZihevlaMiddleCluster(cluster: string): boolean {
   if (cluster.length === 3) {
     if (SONORANT_CONSONANTS.includes(cluster[1]))
       return true;
-    return VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
+    return MZ_VALID.includes(cluster.slice(0, 2)) && INITIAL.includes(cluster.slice(1));
   } else if (cluster.length < 3) {
     return true;  // Pairs are already checked outside this function
   }
diff --git a/py/latkerlo_jvotci/tarmi.py b/py/latkerlo_jvotci/tarmi.py
index 7558bb5..c0c8485 100644
--- a/py/latkerlo_jvotci/tarmi.py
+++ b/py/latkerlo_jvotci/tarmi.py
@@ -221,7 +221,8 @@ def is_zihevla_middle_cluster(cluster: str) -> bool:
     if len(cluster) == 3:
         if cluster[1] in SONORANT_CONSONANTS:
             return True
-        return cluster[:2] in VALID and cluster[1:] in INITIAL
+        # Whether mz is allowed is also checked outside this function
+        return cluster[:2] in MZ_VALID and cluster[1:] in INITIAL
     elif len(cluster) < 3:
         return True  # Pairs are already checked outside this function
 
diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index ed706d7..62a44b6 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -338,7 +338,7 @@ pub fn is_zihevla_middle_cluster(c: &str) -> bool {
     if c.len() < 3
         || c.len() == 3
             && (SONORANTS.contains(strin!(c, 1))
-                || VALID.contains(&strsl!(c, 0..2)) && INITIAL.contains(&strsl!(c, 1..)))
+                || MZ_VALID.contains(&strsl!(c, 0..2)) && INITIAL.contains(&strsl!(c, 1..)))
     {
         return true;
     }
-- 
2.43.0


From be91ebcd102acebfb3ec137c21f9fa419cd888ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 13/33] fix: respect allow_mz when testing whether a word falls
 apart

akamzu counted as a zi'evla under allow_mz although it falls apart into a and
the gismu kamzu.
---
 js/docs/tools.js            | 6 +++---
 js/src/tools.ts             | 6 +++---
 py/latkerlo_jvotci/tools.py | 6 +++---
 rs/src/tools.rs             | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 7c0ab74..18d07ed 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -177,11 +177,11 @@ function checkZihevlaOrRafsi(valsi, { requireZihevla = false, yHyphens = YHyphen
     }
     else if (numSyllables > 2) {
         if (clusterPos !== null && clusterPos > 0) {
-            if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens }))
+            if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens, allowMZ: allowMZ }))
                 throw new NotZihevlaError(`falls apart at cluster: {${valsiCopy.slice(0, clusterPos)}_${valsiCopy.slice(clusterPos)}}`);
             for (let i = 1; i < clusterPos; i++) {
                 if (isConsonant(valsiCopy[clusterPos - i]) || isGlide(valsiCopy.slice(clusterPos - i))) {
-                    if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens }))
+                    if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens, allowMZ: allowMZ }))
                         throw new NotZihevlaError(`falls apart before cluster: {${valsiCopy.slice(0, clusterPos - i)}_${valsiCopy.slice(clusterPos - i)}}`);
                 }
             }
@@ -418,7 +418,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                         smabruPart = smabruPart.slice(0, -1);
                     else
                         smabruPart = stripHyphens(smabruPart);
-                    if (isValidRafsi(smabruPart) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
+                    if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
                         throw new NotBrivlaError("tosmabru");
                     try {
                         jvokaha(smabruPart, { yHyphens: yHyphens, allowMZ: allowMZ });
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 5f21b2c..a2c608b 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -216,12 +216,12 @@ function checkZihevlaOrRafsi(
 
   } else if (numSyllables > 2) {
     if (clusterPos !== null && clusterPos > 0) {
-      if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens }))
+      if (isBrivla(valsiCopy.slice(clusterPos), { yHyphens: yHyphens, allowMZ: allowMZ }))
         throw new NotZihevlaError(`falls apart at cluster: {${valsiCopy.slice(0, clusterPos)}_${valsiCopy.slice(clusterPos)}}`);
 
       for (let i = 1; i < clusterPos; i++) {
         if (isConsonant(valsiCopy[clusterPos - i]) || isGlide(valsiCopy.slice(clusterPos - i))) {
-          if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens }))
+          if (isBrivla(valsiCopy.slice(clusterPos - i), { yHyphens: yHyphens, allowMZ: allowMZ }))
             throw new NotZihevlaError(`falls apart before cluster: {${valsiCopy.slice(0, clusterPos - i)}_${valsiCopy.slice(clusterPos - i)}}`);
         }
       }
@@ -493,7 +493,7 @@ function analyseBrivla(
           else
             smabruPart = stripHyphens(smabruPart);
 
-          if (isValidRafsi(smabruPart) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
+          if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
             throw new NotBrivlaError("tosmabru");
 
           try {
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 9246a84..9963d9c 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -185,12 +185,12 @@ def check_zihevla_or_rafsi(
 
     elif num_syllables > 2:
         if cluster_pos and cluster_pos > 0:
-            if is_brivla(valsi_copy[cluster_pos:], y_hyphens=y_hyphens):
+            if is_brivla(valsi_copy[cluster_pos:], y_hyphens=y_hyphens, allow_mz=allow_mz):
                 raise NotZihevlaError(f"falls apart at cluster: {{{valsi_copy[0:cluster_pos]}_{valsi_copy[cluster_pos:]}}}")
 
             for i in range(1, cluster_pos):
                 if is_consonant(valsi_copy[cluster_pos - i]) or is_glide(valsi_copy[cluster_pos - i:]):
-                    if is_brivla(valsi_copy[cluster_pos - i:], y_hyphens=y_hyphens):
+                    if is_brivla(valsi_copy[cluster_pos - i:], y_hyphens=y_hyphens, allow_mz=allow_mz):
                         raise NotZihevlaError(f"falls apart before cluster: {{{valsi_copy[0:cluster_pos-i]}_{valsi_copy[cluster_pos-i:]}}}")
 
     if cluster_pos is None:
@@ -420,7 +420,7 @@ def analyse_brivla(
                     else:
                         smabru_part = strip_hyphens(smabru_part)
 
-                    if is_valid_rafsi(smabru_part) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
+                    if is_valid_rafsi(smabru_part, allow_mz=allow_mz) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
                         raise NotBrivlaError("tosmabru")
 
                     try:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index d3ec500..6b9fb9e 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -289,7 +289,7 @@ pub fn check_zihevla_or_rafsi(
         return Err(NotZihevlaError(format!("{{{valsi_}}} doesn't have enough syllables")));
     }
     if num_syllables > 2 && cluster_pos > Some(0) {
-        if is_brivla(strsl!(valsi_, cluster_pos.unwrap()..), &extract!(settings; y_hyphens)) {
+        if is_brivla(strsl!(valsi_, cluster_pos.unwrap()..), &extract!(settings; y_hyphens, allow_mz)) {
             return Err(NotZihevlaError(format!(
                 "{{{valsi_}}} is a tosmabru: {{{} {}}}",
                 strsl!(valsi_, 0..cluster_pos.unwrap()),
@@ -301,7 +301,7 @@ pub fn check_zihevla_or_rafsi(
                 || is_glide(strsl!(valsi_, cluster_pos.unwrap() - i..)))
                 && is_brivla(
                     strsl!(valsi_, cluster_pos.unwrap() - i..),
-                    &extract!(settings; y_hyphens),
+                    &extract!(settings; y_hyphens, allow_mz),
                 )
             {
                 return Err(NotZihevlaError(format!(
@@ -578,7 +578,7 @@ pub fn analyze_brivla(
                     } else {
                         smabru_part = &hyphenless;
                     }
-                    if is_valid_rafsi(smabru_part, &Settings::default())
+                    if is_valid_rafsi(smabru_part, &extract!(settings; allow_mz))
                         && !(rafsi_tarmi(smabru_part) == Ccv
                             && strin!(strsl!(y_parts[i], to_part.len() as isize..), 3) == '\'')
                     {
-- 
2.43.0


From d6dc4d19d189cebdfaac6c1b682e8aa7fca2cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 14/33] fix: apply the slinku'i test to a leading zi'evla rafsi

klingonygu'e was accepted as a brivla although toklingonygu'e is one too; the
test lists expect it to be refused, by get_lujvo and by analyse_brivla.
---
 js/docs/tools.js            | 22 +++++++++++++++++++++-
 js/src/tools.ts             | 21 ++++++++++++++++++++-
 py/latkerlo_jvotci/tools.py | 17 ++++++++++++++++-
 rs/src/tools.rs             | 25 +++++++++++++++++--------
 4 files changed, 74 insertions(+), 11 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 18d07ed..97ee233 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -69,7 +69,27 @@ function isSlinkuhi(aString, { yHyphens = YHyphenSetting.STANDARD, allowMZ = fal
         return true;
     }
     catch (e) {
-        if (e instanceof DecompositionError || e instanceof InvalidClusterError)
+        if (!(e instanceof DecompositionError || e instanceof InvalidClusterError))
+            throw e;
+    }
+    // klingonygu'e: the cmavo only has to swallow a zi'evla rafsi, up to its y-hyphen
+    const firstPart = aString.split("y")[0];
+    if (firstPart === aString || !isConsonant(firstPart.slice(-1)))
+        return false;
+    try {
+        jvokaha2(firstPart, { yHyphens: yHyphens, allowMZ: allowMZ });
+        return false;
+    }
+    catch (e) {
+        if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
+            throw e;
+    }
+    try {
+        jvokaha("to" + firstPart, { yHyphens: yHyphens, allowMZ: allowMZ });
+        return true;
+    }
+    catch (e) {
+        if (e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError)
             return false;
         else
             throw e;
diff --git a/js/src/tools.ts b/js/src/tools.ts
index a2c608b..821f737 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -87,7 +87,26 @@ function isSlinkuhi(
     jvokaha("to" + aString, { yHyphens: yHyphens, allowMZ: allowMZ });
     return true;
   } catch (e) {
-    if (e instanceof DecompositionError || e instanceof InvalidClusterError)
+    if (!(e instanceof DecompositionError || e instanceof InvalidClusterError))
+      throw e;
+  }
+
+  // klingonygu'e: the cmavo only has to swallow a zi'evla rafsi, up to its y-hyphen
+  const firstPart = aString.split("y")[0];
+  if (firstPart === aString || !isConsonant(firstPart.slice(-1)))
+    return false;
+  try {
+    jvokaha2(firstPart, { yHyphens: yHyphens, allowMZ: allowMZ });
+    return false;
+  } catch (e) {
+    if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
+      throw e;
+  }
+  try {
+    jvokaha("to" + firstPart, { yHyphens: yHyphens, allowMZ: allowMZ });
+    return true;
+  } catch (e) {
+    if (e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError)
       return false;
     else
       throw e;
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 9963d9c..3ad3856 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -64,7 +64,7 @@ def is_slinkuhi(string: str, y_hyphens: str = STANDARD, allow_mz: bool = False)
     :param allow_mz: True if mz is a valid consonant cluster.
     :return: True if string fails slinku'i test.
     """
-    from latkerlo_jvotci.katna import jvokaha
+    from latkerlo_jvotci.katna import jvokaha, jvokaha_2
     if (is_vowel(string[0])):
         # words starting with vowels have an invisible `.` at the start
         return False
@@ -72,6 +72,21 @@ def is_slinkuhi(string: str, y_hyphens: str = STANDARD, allow_mz: bool = False)
         jvokaha("to" + string, y_hyphens=y_hyphens, allow_mz=allow_mz)
         return True
     except (DecompositionError, InvalidClusterError):
+        pass
+
+    # klingonygu'e: the cmavo only has to swallow a zi'evla rafsi, up to its y-hyphen
+    first_part = string.split("y")[0]
+    if first_part == string or not is_consonant(first_part[-1:]):
+        return False
+    try:
+        jvokaha_2(first_part, y_hyphens=y_hyphens, allow_mz=allow_mz)
+        return False
+    except (DecompositionError, InvalidClusterError, IndexError):
+        pass
+    try:
+        jvokaha("to" + first_part, y_hyphens=y_hyphens, allow_mz=allow_mz)
+        return True
+    except (DecompositionError, InvalidClusterError, IndexError):
         return False
 
 
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 6b9fb9e..2d67bf0 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -117,14 +117,23 @@ pub fn is_gismu_or_lujvo(s: &str, settings: &Settings) -> Result<bool, Jvonunfli
 pub fn is_slinkuhi(s: &str, settings: &Settings) -> Result<bool, Jvonunfli> {
     if is_vowel(strin!(s, 0)) {
         // words starting with vowels have an invisible . at the start
-        Ok(false)
-    } else if let Err(e) = jvokaha(&format!("pa{s}"), &extract!(settings; y_hyphens, allow_mz)) {
-        match e {
-            DecompositionError(_) | InvalidClusterError(_) => Ok(false),
-            _ => Err(e),
-        }
-    } else {
-        Ok(true)
+        return Ok(false);
+    }
+    let settings = extract!(settings; y_hyphens, allow_mz);
+    match jvokaha(&format!("pa{s}"), &settings) {
+        Ok(_) => return Ok(true),
+        Err(DecompositionError(_) | InvalidClusterError(_)) => (),
+        Err(e) => return Err(e),
+    }
+    // klingonygu'e: the cmavo only has to swallow a zi'evla rafsi, up to its y-hyphen
+    let Some((first_part, _)) = s.split_once('y') else { return Ok(false) };
+    if !is_consonant(strin!(first_part, -1)) || jvokaha2(first_part, &settings).is_ok() {
+        return Ok(false);
+    }
+    match jvokaha(&format!("pa{first_part}"), &settings) {
+        Ok(_) => Ok(true),
+        Err(DecompositionError(_) | InvalidClusterError(_)) => Ok(false),
+        Err(e) => Err(e),
     }
 }
 
-- 
2.43.0


From efb45a0ad3aaa182b9f3030438831e0b1aa15ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 15/33] fix: refuse CVV rafsi whose vowels are not a diphthong

get_lujvo('jibri -poe-') returned jibypoe, which is not a brivla.
---
 js/docs/tarmi.js            | 2 ++
 js/src/tarmi.ts             | 2 ++
 py/latkerlo_jvotci/tarmi.py | 2 ++
 rs/src/tarmi.rs             | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/js/docs/tarmi.js b/js/docs/tarmi.js
index e444d67..cc3239b 100644
--- a/js/docs/tarmi.js
+++ b/js/docs/tarmi.js
@@ -266,6 +266,8 @@ function isValidRafsi(rafsi, allowMZ = false) {
         return (allowMZ ? MZ_VALID : VALID).includes(rafsi.slice(2, 4));
     if ([Tarmi.CCVCV, Tarmi.CCVC, Tarmi.CCV].includes(raftai))
         return INITIAL.includes(rafsi.slice(0, 2));
+    if (raftai === Tarmi.CVV)
+        return ["ai", "ei", "oi", "au"].includes(rafsi.slice(1));
     return 1 <= raftai && raftai <= 8;
 }
 /**
diff --git a/js/src/tarmi.ts b/js/src/tarmi.ts
index ca6977d..7b8f922 100644
--- a/js/src/tarmi.ts
+++ b/js/src/tarmi.ts
@@ -279,6 +279,8 @@ function isValidRafsi(rafsi: string, allowMZ = false): boolean {
     return (allowMZ ? MZ_VALID : VALID).includes(rafsi.slice(2, 4));
   if ([Tarmi.CCVCV, Tarmi.CCVC, Tarmi.CCV].includes(raftai))
     return INITIAL.includes(rafsi.slice(0, 2));
+  if (raftai === Tarmi.CVV)
+    return ["ai", "ei", "oi", "au"].includes(rafsi.slice(1));
   return 1 <= raftai && raftai <= 8;
 }
 
diff --git a/py/latkerlo_jvotci/tarmi.py b/py/latkerlo_jvotci/tarmi.py
index c0c8485..5bb5bdd 100644
--- a/py/latkerlo_jvotci/tarmi.py
+++ b/py/latkerlo_jvotci/tarmi.py
@@ -264,6 +264,8 @@ def is_valid_rafsi(rafsi: str, allow_mz: bool = False) -> bool:
         return rafsi[2:4] in (MZ_VALID if allow_mz else VALID)
     if raftai in [CCVCV, CCVC, CCV]:
         return rafsi[:2] in INITIAL
+    if raftai == CVV:
+        return rafsi[1:] in ["ai", "ei", "oi", "au"]
     return 1 <= raftai <= 8
 
 
diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index 62a44b6..e49abee 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -361,6 +361,8 @@ pub fn is_valid_rafsi(r: &str, settings: &Settings) -> bool {
         if settings.allow_mz { &MZ_VALID } else { &VALID }.contains(&strsl!(r, 2..4))
     } else if [Ccvcv, Ccvc, Ccv].contains(&t) {
         INITIAL.contains(&strsl!(r, 0..2))
+    } else if t == Cvv {
+        ["ai", "ei", "oi", "au"].contains(&strsl!(r, 1..))
     } else {
         1 <= t as i8 && t as i8 <= 8
     }
-- 
2.43.0


From cf272a0817370f7663494c3e1ec78a9afdae76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 16/33] fix: do not apply tosmabru and slinku'i tests to
 decomposable cmevla

get_lujvo never applies them to cmevla and neither does analyse_brivla to CLL
forms, since pauses delimit a cmevla; but klingonygug and jasmaryra'ytiz, which
get_lujvo returns, could not be decomposed.
---
 js/docs/tools.js            | 4 ++--
 js/src/tools.ts             | 4 ++--
 py/latkerlo_jvotci/tools.py | 4 ++--
 rs/src/tools.rs             | 8 ++++----
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 97ee233..4493a83 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -418,7 +418,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                     throw new NotBrivlaError("falls off because y");
                 }
             }
-            if (i === 0) {
+            if (i === 0 && !isCmevlatai) {
                 let toPart = "";
                 let smabruPart = "";
                 if (rafsiTarmi(part.slice(0, 4)) === Tarmi.CVhV) {
@@ -497,7 +497,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
         else if (isMahortai)
             throw new NotBrivlaError("cmavo shaped or maybe multiple cmavo shaped");
     }
-    if (!(isVowel(valsi[0]) && (isConsonant(valsi[1]) || valsi[1] == "y"))) {
+    if (!isCmevlatai && !(isVowel(valsi[0]) && (isConsonant(valsi[1]) || valsi[1] == "y"))) {
         if (isSlinkuhi(valsi, { yHyphens: yHyphens, allowMZ: allowMZ }))
             throw new NotBrivlaError(`slinku'i: {to,${valsi}}`);
     }
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 821f737..d501de8 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -490,7 +490,7 @@ function analyseBrivla(
         }
       }
 
-      if (i === 0) {
+      if (i === 0 && !isCmevlatai) {
         let toPart = "";
         let smabruPart = "";
         if (rafsiTarmi(part.slice(0, 4)) === Tarmi.CVhV) {
@@ -578,7 +578,7 @@ function analyseBrivla(
       throw new NotBrivlaError("cmavo shaped or maybe multiple cmavo shaped");
   }
 
-  if (!(isVowel(valsi[0]) && (isConsonant(valsi[1]) || valsi[1] == "y"))) {
+  if (!isCmevlatai && !(isVowel(valsi[0]) && (isConsonant(valsi[1]) || valsi[1] == "y"))) {
     if (isSlinkuhi(valsi, { yHyphens: yHyphens, allowMZ: allowMZ }))
       throw new NotBrivlaError(`slinku'i: {to,${valsi}}`);
   }
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 3ad3856..2df945a 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -416,7 +416,7 @@ def analyse_brivla(
                         not (i == len(y_parts) - 2 and rafsi_tarmi(y_parts[1]) in [CVV, CCV])):
                     raise NotBrivlaError("falls off because y")
 
-            if i == 0:
+            if i == 0 and not is_cmevlatai:
                 to_part = ""
                 smabru_part = ""
                 if rafsi_tarmi(part[:4]) == CVhV:
@@ -481,7 +481,7 @@ def analyse_brivla(
         elif is_mahortai:
             raise NotBrivlaError("cmavo shaped or maybe multiple cmavo shaped")
 
-    if not (is_vowel(valsi[0]) and (is_consonant(valsi[1]) or valsi[1] == "y")):
+    if not is_cmevlatai and not (is_vowel(valsi[0]) and (is_consonant(valsi[1]) or valsi[1] == "y")):
         if is_slinkuhi(valsi, y_hyphens=y_hyphens, allow_mz=allow_mz):
             raise NotBrivlaError("slinku'i")
 
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 2d67bf0..854181c 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -567,7 +567,7 @@ pub fn analyze_brivla(
             }
         }
         if katnad {
-            if i == 0 {
+            if i == 0 && !is_cmetai {
                 let mut to_part = "";
                 let mut smabru_part = "";
                 if rafsi_tarmi(strsl!(part, 0..4)) == Cvhv {
@@ -608,7 +608,6 @@ pub fn analyze_brivla(
                         )));
                     }
                 } else if settings.y_hyphens == Standard
-                    && !is_cmetai
                     && !to_part.is_empty()
                     && !y_parts[i + 1].starts_with('\'')
                 {
@@ -668,8 +667,9 @@ pub fn analyze_brivla(
             return Err(NotBrivlaError(format!("{{{valsi}}} is just a cmavo or cmavo compound")));
         }
     }
-    if !(is_vowel(strin!(&valsi, 0))
-        && (is_consonant(strin!(&valsi, 1)) || strin!(&valsi, 1) == 'y'))
+    if !is_cmetai
+        && !(is_vowel(strin!(&valsi, 0))
+            && (is_consonant(strin!(&valsi, 1)) || strin!(&valsi, 1) == 'y'))
         && is_slinkuhi(&valsi, &extract!(settings; y_hyphens, allow_mz)).unwrap()
     {
         Err(NotBrivlaError(format!("{{{valsi}}} is a slinku'i")))
-- 
2.43.0


From 056b7854fc085e2806c730edbdbfa767677850ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 17/33] fix: apply the tosmabru test when the rest of the word
 is a brivla

---
 js/docs/tools.js            | 4 ++++
 js/src/tools.ts             | 5 +++++
 py/latkerlo_jvotci/tools.py | 5 +++++
 rs/src/tools.rs             | 7 +++++++
 4 files changed, 21 insertions(+)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 4493a83..8155e92 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -448,6 +448,10 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                         if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
                             throw e;
                     }
+                    // le'enaurdulnydei: the r-hyphen makes naurdulnydei a lujvo, but not naurduln a cmevla
+                    const rest = valsi.slice(toPart.length);
+                    if (isConsonant(rest[0]) && isBrivla(rest, { yHyphens, expRafsiShapes, consonants, glides, allowMZ }))
+                        throw new NotBrivlaError("tosmabru");
                 }
             }
         }
diff --git a/js/src/tools.ts b/js/src/tools.ts
index d501de8..d49ba65 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -522,6 +522,11 @@ function analyseBrivla(
             if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
               throw e;
           }
+
+          // le'enaurdulnydei: the r-hyphen makes naurdulnydei a lujvo, but not naurduln a cmevla
+          const rest = valsi.slice(toPart.length);
+          if (isConsonant(rest[0]) && isBrivla(rest, { yHyphens, expRafsiShapes, consonants, glides, allowMZ }))
+            throw new NotBrivlaError("tosmabru");
         }
       }
 
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 2df945a..3c1979c 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -443,6 +443,11 @@ def analyse_brivla(
                         raise NotBrivlaError("tosmabru")
                     except (DecompositionError, InvalidClusterError, TypeError):
                         pass
+
+                    # le'enaurdulnydei: the r-hyphen makes naurdulnydei a lujvo, but not naurduln a cmevla
+                    rest = valsi[len(to_part):]
+                    if is_consonant(rest[0]) and is_brivla(rest, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz):
+                        raise NotBrivlaError("tosmabru")
         else:
             require_zihevla = require_cluster or not exp_rafsi_shapes
             try:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 854181c..28e202f 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -607,6 +607,13 @@ pub fn analyze_brivla(
                             if added_a { "a" } else { "" }
                         )));
                     }
+                    // le'enaurdulnydei: the r-hyphen makes naurdulnydei a lujvo, but not naurduln a cmevla
+                    let rest = strsl!(&valsi, to_part.len() as isize..);
+                    if is_consonant(strin!(rest, 0)) && is_brivla(rest, settings) {
+                        return Err(NotBrivlaError(format!(
+                            "{{{valsi}}} is a tosmabru: {{{to_part} {rest}}}"
+                        )));
+                    }
                 } else if settings.y_hyphens == Standard
                     && !to_part.is_empty()
                     && !y_parts[i + 1].starts_with('\'')
-- 
2.43.0


From 06e9371ef2896f81ad1dba94af789cac8755b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 18/33] fix: do not read past the end of a word when looking
 for an r-hyphen

---
 py/latkerlo_jvotci/katna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/latkerlo_jvotci/katna.py b/py/latkerlo_jvotci/katna.py
index 01bdc4b..382ead3 100644
--- a/py/latkerlo_jvotci/katna.py
+++ b/py/latkerlo_jvotci/katna.py
@@ -179,7 +179,7 @@ def jvokaha_2(
                 continue
             elif y_hyphens != FORCE_Y and (
                 lujvo[:2] == "nr"  # n-hyphen is only allowed before r
-                or lujvo[0] == "r" and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
+                or lujvo[0] == "r" and len(lujvo) > 1 and is_consonant(lujvo[1]) and lujvo[1] != "r"  # r followed by a consonant
             ) and rafsi_tarmi(res[-1]) in [CVV, CVhV]:
                 res.append(lujvo[0])
                 lujvo = lujvo[1:]
-- 
2.43.0


From 4834d6773989bcdb972122a2ce4f6567cdfadcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 19/33] fix: throw DecompositionError for too few rafsi in the
 JS jvokaha, as the Python and Rust versions do

---
 js/docs/katna.js | 2 +-
 js/src/katna.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/docs/katna.js b/js/docs/katna.js
index 8d33cd3..40b65be 100644
--- a/js/docs/katna.js
+++ b/js/docs/katna.js
@@ -100,7 +100,7 @@ function jvokaha(lujvo, { yHyphens = YHyphenSetting.STANDARD, consonants = Conso
     const arr = jvokaha2(lujvo, { yHyphens: yHyphens, allowMZ: allowMZ });
     const rafsiTanru = arr.filter(x => x.length > 2).map(x => `-${x}-`);
     if (rafsiTanru.length == 1) {
-        throw new TypeError("not enough rafsi");
+        throw new DecompositionError("not enough rafsi");
     }
     let correctLujvo;
     try {
diff --git a/js/src/katna.ts b/js/src/katna.ts
index 3fb6dc1..69a4560 100644
--- a/js/src/katna.ts
+++ b/js/src/katna.ts
@@ -125,7 +125,7 @@ function jvokaha(
 
   const rafsiTanru = arr.filter(x => x.length > 2).map(x => `-${x}-`);
   if (rafsiTanru.length == 1) {
-    throw new TypeError("not enough rafsi");
+    throw new DecompositionError("not enough rafsi");
   }
   let correctLujvo: string;
   try {
-- 
2.43.0


From b1c2cc1405366bca8dc481cacad649a67404a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 20/33] fix: report non-ASCII input to analyze_brivla as not a
 brivla instead of panicking

---
 rs/src/tools.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 28e202f..f5aa752 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -388,6 +388,10 @@ pub fn analyze_brivla(
     if valsi.is_empty() {
         return Err(NotBrivlaError("empty string".to_string()));
     }
+    // the rest slices by bytes
+    if !valsi.is_ascii() {
+        return Err(NotBrivlaError(format!("{{{valsi}}} contains a non-lojban character")));
+    }
     if is_consonant(strin!(&valsi, -1)) {
         is_cmetai = true;
     } else if !is_vowel(strin!(&valsi, -1)) {
-- 
2.43.0


From f3cd3a37d835dacf5040175712d0d541b0d8171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 21/33] fix: refuse extended lujvo from which more than one
 cmavo falls off

---
 js/docs/tools.js            | 17 ++++++++++++++---
 js/src/tools.ts             | 17 ++++++++++++++---
 py/latkerlo_jvotci/tools.py | 14 ++++++++++++--
 rs/src/tools.rs             | 22 +++++++++++++++++-----
 4 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 8155e92..9c9cc75 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -449,9 +449,20 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                             throw e;
                     }
                     // le'enaurdulnydei: the r-hyphen makes naurdulnydei a lujvo, but not naurduln a cmevla
-                    const rest = valsi.slice(toPart.length);
-                    if (isConsonant(rest[0]) && isBrivla(rest, { yHyphens, expRafsiShapes, consonants, glides, allowMZ }))
-                        throw new NotBrivlaError("tosmabru");
+                    // baibaibroda'ylatmo: more than one cmavo can fall off
+                    let rest = valsi.slice(toPart.length);
+                    while (rest.length > 0 && isConsonant(rest[0])) {
+                        if (isBrivla(rest, { yHyphens, expRafsiShapes, consonants, glides, allowMZ }))
+                            throw new NotBrivlaError("tosmabru");
+                        if (rafsiTarmi(rest.slice(0, 4)) === Tarmi.CVhV)
+                            rest = rest.slice(4);
+                        else if (rafsiTarmi(rest.slice(0, 3)) === Tarmi.CVV)
+                            rest = rest.slice(3);
+                        else if (isVowel(rest[1]))
+                            rest = rest.slice(2);
+                        else
+                            break;
+                    }
                 }
             }
         }
diff --git a/js/src/tools.ts b/js/src/tools.ts
index d49ba65..6b00d59 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -524,9 +524,20 @@ function analyseBrivla(
           }
 
           // le'enaurdulnydei: the r-hyphen makes naurdulnydei a lujvo, but not naurduln a cmevla
-          const rest = valsi.slice(toPart.length);
-          if (isConsonant(rest[0]) && isBrivla(rest, { yHyphens, expRafsiShapes, consonants, glides, allowMZ }))
-            throw new NotBrivlaError("tosmabru");
+          // baibaibroda'ylatmo: more than one cmavo can fall off
+          let rest = valsi.slice(toPart.length);
+          while (rest.length > 0 && isConsonant(rest[0])) {
+            if (isBrivla(rest, { yHyphens, expRafsiShapes, consonants, glides, allowMZ }))
+              throw new NotBrivlaError("tosmabru");
+            if (rafsiTarmi(rest.slice(0, 4)) === Tarmi.CVhV)
+              rest = rest.slice(4);
+            else if (rafsiTarmi(rest.slice(0, 3)) === Tarmi.CVV)
+              rest = rest.slice(3);
+            else if (isVowel(rest[1]))
+              rest = rest.slice(2);
+            else
+              break;
+          }
         }
       }
 
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 3c1979c..d1704ae 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -445,9 +445,19 @@ def analyse_brivla(
                         pass
 
                     # le'enaurdulnydei: the r-hyphen makes naurdulnydei a lujvo, but not naurduln a cmevla
+                    # baibaibroda'ylatmo: more than one cmavo can fall off
                     rest = valsi[len(to_part):]
-                    if is_consonant(rest[0]) and is_brivla(rest, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz):
-                        raise NotBrivlaError("tosmabru")
+                    while rest and is_consonant(rest[0]):
+                        if is_brivla(rest, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz):
+                            raise NotBrivlaError("tosmabru")
+                        if rafsi_tarmi(rest[:4]) == CVhV:
+                            rest = rest[4:]
+                        elif rafsi_tarmi(rest[:3]) == CVV:
+                            rest = rest[3:]
+                        elif is_vowel(rest[1]):
+                            rest = rest[2:]
+                        else:
+                            break
         else:
             require_zihevla = require_cluster or not exp_rafsi_shapes
             try:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index f5aa752..b2ae818 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -612,11 +612,23 @@ pub fn analyze_brivla(
                         )));
                     }
                     // le'enaurdulnydei: the r-hyphen makes naurdulnydei a lujvo, but not naurduln a cmevla
-                    let rest = strsl!(&valsi, to_part.len() as isize..);
-                    if is_consonant(strin!(rest, 0)) && is_brivla(rest, settings) {
-                        return Err(NotBrivlaError(format!(
-                            "{{{valsi}}} is a tosmabru: {{{to_part} {rest}}}"
-                        )));
+                    // baibaibroda'ylatmo: more than one cmavo can fall off
+                    let mut rest = strsl!(&valsi, to_part.len() as isize..);
+                    while !rest.is_empty() && is_consonant(strin!(rest, 0)) {
+                        if is_brivla(rest, settings) {
+                            return Err(NotBrivlaError(format!(
+                                "{{{valsi}}} is a tosmabru: {{{to_part} {rest}}}"
+                            )));
+                        }
+                        if rafsi_tarmi(strsl!(rest, 0..4)) == Cvhv {
+                            rest = strsl!(rest, 4..);
+                        } else if rafsi_tarmi(strsl!(rest, 0..3)) == Cvv {
+                            rest = strsl!(rest, 3..);
+                        } else if is_vowel(strin!(rest, 1)) {
+                            rest = strsl!(rest, 2..);
+                        } else {
+                            break;
+                        }
                     }
                 } else if settings.y_hyphens == Standard
                     && !to_part.is_empty()
-- 
2.43.0


From 4a778ebfc0e781d0b6f1bfe35b8c344e68ff165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 22/33] fix: refuse one-syllable cluster shapes as experimental
 rafsi

---
 js/docs/tools.js            | 3 ++-
 js/src/tools.ts             | 3 ++-
 py/latkerlo_jvotci/tools.py | 3 ++-
 rs/src/tools.rs             | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 9c9cc75..07ac424 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -192,7 +192,8 @@ function checkZihevlaOrRafsi(valsi, { requireZihevla = false, yHyphens = YHyphen
         pos += chunk.length;
         chunk = "";
     }
-    if (numSyllables < 2 && (requireZihevla || !expRafsiShapes)) {
+    // a consonant cluster is no cmavo shape
+    if (numSyllables < 2 && (requireZihevla || !expRafsiShapes || clusterPos !== null)) {
         throw new NotZihevlaError("too few syllables: {" + valsiCopy + "}");
     }
     else if (numSyllables > 2) {
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 6b00d59..fbf76eb 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -230,7 +230,8 @@ function checkZihevlaOrRafsi(
     chunk = "";
   }
 
-  if (numSyllables < 2 && (requireZihevla || !expRafsiShapes)) {
+  // a consonant cluster is no cmavo shape
+  if (numSyllables < 2 && (requireZihevla || !expRafsiShapes || clusterPos !== null)) {
     throw new NotZihevlaError("too few syllables: {" + valsiCopy + "}");
 
   } else if (numSyllables > 2) {
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index d1704ae..ef3658b 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -195,7 +195,8 @@ def check_zihevla_or_rafsi(
         pos += len(chunk)
         chunk = ""
 
-    if num_syllables < 2 and (require_zihevla or not exp_rafsi_shapes):
+    # a consonant cluster is no cmavo shape
+    if num_syllables < 2 and (require_zihevla or not exp_rafsi_shapes or cluster_pos is not None):
         raise NotZihevlaError(f"too few syllables: {{{valsi_copy}}}")
 
     elif num_syllables > 2:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index b2ae818..cde0512 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -294,7 +294,8 @@ pub fn check_zihevla_or_rafsi(
         pos += chunk.len() as isize;
         chunk = String::new();
     }
-    if num_syllables < 2 && (require_zihevla || !settings.exp_rafsi) {
+    // a consonant cluster is no cmavo shape
+    if num_syllables < 2 && (require_zihevla || !settings.exp_rafsi || cluster_pos.is_some()) {
         return Err(NotZihevlaError(format!("{{{valsi_}}} doesn't have enough syllables")));
     }
     if num_syllables > 2 && cluster_pos > Some(0) {
-- 
2.43.0


From dbc13760da46e582cf18c8f1c945f0c535913723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:36 +0000
Subject: [PATCH 23/33] fix: do not build lujvo with experimental rafsi that
 fall apart into cmavo

---
 js/docs/jvozba.js            | 33 ++++++++++++++++++++++++-----
 js/src/jvozba.ts             | 35 +++++++++++++++++++++++++-----
 py/latkerlo_jvotci/jvozba.py | 34 +++++++++++++++++++++++++-----
 rs/src/jvozba.rs             | 41 +++++++++++++++++++++++++++++++-----
 4 files changed, 123 insertions(+), 20 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 4404d81..d3f690b 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -97,9 +97,11 @@ glides) {
         result.push([rafsi + "'y", 2]);
     }
     else if (rType === Tarmi.CVC) {
-        result.push([rafsi, 2]);
+        // the final consonant makes a cluster only with the rafsi that follows
+        const numConsonants = consonants === ConsonantSetting.CLUSTER && !isLast ? 0 : 2;
+        result.push([rafsi, numConsonants]);
         if (!isLast)
-            result.push([rafsi + "y", 2]);
+            result.push([rafsi + "y", numConsonants]);
     }
     else {
         throw Error(`Unrecognised rafsi type: ${rType}`);
@@ -242,6 +244,18 @@ function getRafsiListList(valsiList, { yHyphens = YHyphenSetting.STANDARD, expRa
     }
     return listOfRafsiLists;
 }
+/**
+ * Check for two consonants with at most a y between them. The y's in
+ * samylaty'a do not count, because sa my la ty'a are cmavo.
+ *
+ * @param lujvo The beginning of a lujvo.
+ * @param glides True if glides count as consonants.
+ * @returns True if there is a cluster.
+ */
+function containsCluster(lujvo, glides) {
+    const c = "[bcdfgjklmnprstvxz]";
+    return new RegExp(`${c}${c}|${c}y${c}(?![aeiou]${c}y)` + (glides ? `|${c}y[iu][aeiou]` : "")).test(lujvo);
+}
 /**
  * Add one rafsi to the end of the current lujvo (if possible) and
  * calculate the score.
@@ -292,6 +306,11 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
     else if (lujvo.length == 5 && rafsiTarmi(lujvo.slice(0, 3)) == Tarmi.CCV && lujvo.slice(3) == "'y") {
         return null;
     }
+    else if (yHyphens === YHyphenSetting.STANDARD && lujvo.endsWith("'y") && rafsiInitial !== "'"
+        && !containsCluster(lujvo, glides)) {
+        // like the first rafsi, everything up to here would fall off
+        return null;
+    }
     else if (lujvo.length <= 5 && !generateCmevla) {
         const raftai0 = tarmiIgnoringHyphen(lujvo);
         if ([Tarmi.CVhV, Tarmi.CVV].includes(raftai0)) {
@@ -325,7 +344,7 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
         }
     }
     else if (tosmabruType === TosyType.Tosyhuhu) {
-        if (rafsiInitial !== "'" || containsConsonant(rafsi))
+        if ((rafsiInitial !== "'" || containsConsonant(rafsi)) && !(raftai1 === Tarmi.CVC && rafsi.endsWith("y")))
             tosmabruType = TosyType.Tosynone;
     }
     const rafsiStart = lujvo.length + hyphen.length + (rafsi[0] === "'" ? 1 : 0);
@@ -343,7 +362,9 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
             let j = 0;
             while (rafsi[j] === "'")
                 j += 1;
-            if (isConsonant(lujvo[i]) && (isConsonant(rafsi[j]) || (glides && isGlide(rafsi.slice(j)))))
+            if (lujvoFinal === "y" && raftai1 === Tarmi.CVC && rafsi.endsWith("y"))
+                newConsonants = 0;
+            else if (isConsonant(lujvo[i]) && (isConsonant(rafsi[j]) || (glides && isGlide(rafsi.slice(j)))))
                 newConsonants = 2;
             else
                 newConsonants = 0;
@@ -396,7 +417,9 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
     rafsiListList[0].forEach((rafsi0) => {
         rafsiListList[1].forEach((rafsi1) => {
             let tosmabruType = TosyType.Tosynone;
-            if (tarmiIgnoringHyphen(rafsi0[0]) === Tarmi.CVC && !generateCmevla)
+            if (rafsi0[0].endsWith("'") && !generateCmevla)
+                tosmabruType = TosyType.Tosyhuhu;
+            else if (tarmiIgnoringHyphen(rafsi0[0]) === Tarmi.CVC && !generateCmevla)
                 tosmabruType = rafsi0[0].slice(-1) === "y" ? TosyType.Tosyhuhu : TosyType.Tosmabru;
             const result = combine(rafsi0[0], rafsi1[0], rafsi0[1], // TODO: Bring back numConsonants. This is confusing.
             rafsi1[1], score(rafsi0[0]), [[0, stripHyphens(rafsi0[0]).length]], tosmabruType, generateCmevla, rafsiListList.length, yHyphens = yHyphens, consonants = consonants, glides = glides, allowMZ = allowMZ);
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index f43cc9c..cde5f0a 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -114,9 +114,11 @@ function getRafsiForRafsi(
     result.push([rafsi + "'y", 2]);
 
   } else if (rType === Tarmi.CVC) {
-    result.push([rafsi, 2]);
+    // the final consonant makes a cluster only with the rafsi that follows
+    const numConsonants = consonants === ConsonantSetting.CLUSTER && !isLast ? 0 : 2;
+    result.push([rafsi, numConsonants]);
     if (!isLast)
-      result.push([rafsi + "y", 2]);
+      result.push([rafsi + "y", numConsonants]);
 
   } else {
     throw Error(`Unrecognised rafsi type: ${rType}`);
@@ -289,6 +291,19 @@ function getRafsiListList(
   return listOfRafsiLists;
 }
 
+/**
+ * Check for two consonants with at most a y between them. The y's in
+ * samylaty'a do not count, because sa my la ty'a are cmavo.
+ * 
+ * @param lujvo The beginning of a lujvo.
+ * @param glides True if glides count as consonants.
+ * @returns True if there is a cluster.
+ */
+function containsCluster(lujvo: string, glides: boolean): boolean {
+  const c = "[bcdfgjklmnprstvxz]";
+  return new RegExp(`${c}${c}|${c}y${c}(?![aeiou]${c}y)` + (glides ? `|${c}y[iu][aeiou]` : "")).test(lujvo);
+}
+
 /**
  * Add one rafsi to the end of the current lujvo (if possible) and
  * calculate the score.
@@ -364,6 +379,12 @@ function combine(
     lujvo.length == 5 && rafsiTarmi(lujvo.slice(0, 3)) == Tarmi.CCV && lujvo.slice(3) == "'y"
   ) {
     return null;
+  } else if (
+    yHyphens === YHyphenSetting.STANDARD && lujvo.endsWith("'y") && rafsiInitial !== "'"
+    && !containsCluster(lujvo, glides)
+  ) {
+    // like the first rafsi, everything up to here would fall off
+    return null;
   } else if (lujvo.length <= 5 && !generateCmevla) {
     const raftai0 = tarmiIgnoringHyphen(lujvo);
     if ([Tarmi.CVhV, Tarmi.CVV].includes(raftai0)) {
@@ -394,7 +415,7 @@ function combine(
       tosmabruType = TosyType.Tosynone;
     }
   } else if (tosmabruType === TosyType.Tosyhuhu) {
-    if (rafsiInitial !== "'" || containsConsonant(rafsi))
+    if ((rafsiInitial !== "'" || containsConsonant(rafsi)) && !(raftai1 === Tarmi.CVC && rafsi.endsWith("y")))
       tosmabruType = TosyType.Tosynone;
   }
 
@@ -415,7 +436,9 @@ function combine(
       while (rafsi[j] === "'")
         j += 1;
 
-      if (isConsonant(lujvo[i]) && (isConsonant(rafsi[j]) || (glides && isGlide(rafsi.slice(j)))))
+      if (lujvoFinal === "y" && raftai1 === Tarmi.CVC && rafsi.endsWith("y"))
+        newConsonants = 0;
+      else if (isConsonant(lujvo[i]) && (isConsonant(rafsi[j]) || (glides && isGlide(rafsi.slice(j)))))
         newConsonants = 2;
       else
         newConsonants = 0;
@@ -485,7 +508,9 @@ function getLujvoFromList(
   rafsiListList[0].forEach((rafsi0) => {
     rafsiListList[1].forEach((rafsi1) => {
       let tosmabruType = TosyType.Tosynone;
-      if (tarmiIgnoringHyphen(rafsi0[0]) === Tarmi.CVC && !generateCmevla)
+      if (rafsi0[0].endsWith("'") && !generateCmevla)
+        tosmabruType = TosyType.Tosyhuhu;
+      else if (tarmiIgnoringHyphen(rafsi0[0]) === Tarmi.CVC && !generateCmevla)
         tosmabruType = rafsi0[0].slice(-1) === "y" ? TosyType.Tosyhuhu : TosyType.Tosmabru;
 
       const result = combine(
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index c366294..a3f205b 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -132,9 +132,11 @@ def get_rafsi_for_rafsi(
         result.append((rafsi + "'y", 2))
 
     elif r_type == CVC:
-        result.append((rafsi, 2))
+        # the final consonant makes a cluster only with the rafsi that follows
+        num_consonants = 0 if consonants == CLUSTER and not is_last else 2
+        result.append((rafsi, num_consonants))
         if not is_last:
-            result.append((rafsi + "y", 2))
+            result.append((rafsi + "y", num_consonants))
 
     else:
         assert False, r_type
@@ -279,6 +281,19 @@ def get_rafsi_list_list(
     return list_of_rafsi_lists
 
 
+def contains_cluster(lujvo: str, glides: bool = False) -> bool:
+    """
+    Check for two consonants with at most a y between them. The y's in
+    samylaty'a do not count, because sa my la ty'a are cmavo.
+
+    :param lujvo: The beginning of a lujvo.
+    :param glides: True if glides count as consonants.
+    :return: True if there is a cluster.
+    """
+    c = "[bcdfgjklmnprstvxz]"
+    return re.search(f"{c}{c}|{c}y{c}(?![aeiou]{c}y)" + (f"|{c}y[iu][aeiou]" if glides else ""), lujvo) is not None
+
+
 def combine(
         lujvo: str,
         rafsi: str,
@@ -337,6 +352,9 @@ def combine(
             return
     elif len(lujvo) == 5 and rafsi_tarmi(lujvo[0:3]) == CCV and lujvo[3:] == "'y":
         return
+    elif y_hyphens == STANDARD and lujvo[-2:] == "'y" and rafsi[0] != "'" and not contains_cluster(lujvo, glides):
+        # like the first rafsi, everything up to here would fall off
+        return
     elif len(lujvo) <= 5 and not generate_cmevla:
         raftai_0 = tarmi_ignoring_hyphen(lujvo)
         if raftai_0 in [CVhV, CVV]:
@@ -362,7 +380,7 @@ def combine(
         else:
             tosmabru_type = TOSYNONE
     elif tosmabru_type == TOSYhUhU:
-        if rafsi[0] != "'" or contains_consonant(rafsi):
+        if (rafsi[0] != "'" or contains_consonant(rafsi)) and not (raftai_1 == CVC and rafsi[-1] == "y"):
             tosmabru_type = TOSYNONE
 
     rafsi_start = len(lujvo) + len(hyphen) + (1 if rafsi[0] == "'" else 0)
@@ -382,7 +400,9 @@ def combine(
             while rafsi[j] == "'":
                 j += 1
 
-            if is_consonant(lujvo[i]) and (is_consonant(rafsi[j]) or (glides and is_glide(rafsi[j:]))):
+            if lujvo[-1] == "y" and raftai_1 == CVC and rafsi[-1] == "y":
+                new_consonants = 0
+            elif is_consonant(lujvo[i]) and (is_consonant(rafsi[j]) or (glides and is_glide(rafsi[j:]))):
                 new_consonants = 2
             else:
                 new_consonants = 0
@@ -445,7 +465,11 @@ def get_lujvo_from_list(
     current_best = [[{}, {}, {}], [{}, {}, {}], [{}, {}, {}]]
     for rafsi0, num_consonants_0 in rafsi_list_list[0]:
         for rafsi1, num_consonants_1 in rafsi_list_list[1]:
-            if tarmi_ignoring_hyphen(rafsi0) != CVC or generate_cmevla:
+            if generate_cmevla:
+                tosmabru_type = TOSYNONE
+            elif rafsi0[-1] == "'":
+                tosmabru_type = TOSYhUhU
+            elif tarmi_ignoring_hyphen(rafsi0) != CVC:
                 tosmabru_type = TOSYNONE
             else:
                 tosmabru_type = TOSYhUhU if rafsi0[-1] == "y" else TOSMABRU
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index a5f2bf1..dbd8889 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -130,9 +130,11 @@ pub fn get_rafsi_for_rafsi(
             res.push((format!("{r}'y"), 2));
         }
         "Cvc" => {
-            res.push((r.clone(), 2));
+            // the final consonant makes a cluster only with the rafsi that follows
+            let num_consonants = if settings.consonants == Cluster && !last { 0 } else { 2 };
+            res.push((r.clone(), num_consonants));
             if !last {
-                res.push((format!("{r}y"), 2));
+                res.push((format!("{r}y"), num_consonants));
             }
         }
         _ => {
@@ -360,6 +362,21 @@ pub fn grll(vl: &str, settings: &Settings) -> Result<Vec<Vec<(String, i32)>>, Jv
     get_rafsi_list_list(&process_tanru(vl), settings)
 }
 
+/// Checks for two consonants with at most a *y* between them. The *y*'s in
+/// *samylaty'a* do not count, because *sa my la ty'a* are cmavo.
+fn contains_cluster(lujvo: &str, glides: bool) -> bool {
+    let c = lujvo.chars().collect_vec();
+    let consonant = |i: usize| c.get(i).is_some_and(|c| is_consonant(*c));
+    let vowel = |i: usize| c.get(i).is_some_and(|c| is_vowel(*c));
+    let y = |i: usize| c.get(i) == Some(&'y');
+    (0..c.len()).filter(|i| consonant(*i)).any(|i| {
+        consonant(i + 1)
+            || y(i + 1)
+                && (consonant(i + 2) && !(vowel(i + 3) && consonant(i + 4) && y(i + 5))
+                    || glides && is_glide(&lujvo[i + 2..]))
+    })
+}
+
 /// A potential lujvo-rafsi combination. The fields in order are `(`[tosmabru
 /// type][`Tosytype`], number of consonants, score of the resulting lujvo, the
 /// lujvo itself, indices of all the rafsi`)`.
@@ -411,6 +428,14 @@ pub fn combine(
         {
             return None;
         }
+        // like the first rafsi, everything up to here would fall off
+        if settings.y_hyphens == Standard
+            && lujvo.ends_with("'y")
+            && rafsi_i != '\''
+            && !contains_cluster(lujvo, settings.glides)
+        {
+            return None;
+        }
         if lujvo.len() <= 5 && !settings.generate_cmevla {
             if [Cvhv, Cvv].contains(&raftai0) {
                 hyphen = if settings.y_hyphens == ForceY {
@@ -441,7 +466,10 @@ pub fn combine(
         } else {
             tosmabru_type = Tosynone;
         }
-    } else if tosmabru_type == Tosyhuhu && (rafsi_i != '\'' || contains_consonant(rafsi)) {
+    } else if tosmabru_type == Tosyhuhu
+        && (rafsi_i != '\'' || contains_consonant(rafsi))
+        && !(raftai1 == Cvc && rafsi.ends_with('y'))
+    {
         tosmabru_type = Tosynone;
     }
     let rafsi_start = lujvo.len() + hyphen.len() + (strin!(rafsi, 0) == '\'') as usize;
@@ -459,7 +487,8 @@ pub fn combine(
         while strin!(rafsi, j) == '\'' {
             j += 1;
         }
-        new_c = (is_consonant(strin!(lujvo, i))
+        new_c = (!(lujvo_f == 'y' && raftai1 == Cvc && rafsi.ends_with('y'))
+            && is_consonant(strin!(lujvo, i))
             && (is_consonant(strin!(rafsi, j)) || settings.glides && is_glide(strsl!(rafsi, j..))))
             as i32
             * 2;
@@ -529,7 +558,9 @@ pub fn get_lujvo_from_list(
     for rafsi0 in &rafsi_list_list[0] {
         for rafsi1 in &rafsi_list_list[1] {
             let tosmabru_type =
-                if tarmi_ignoring_hyphen(&rafsi0.0) == Cvc && !settings.generate_cmevla {
+                if rafsi0.0.ends_with('\'') && !settings.generate_cmevla {
+                    Tosyhuhu
+                } else if tarmi_ignoring_hyphen(&rafsi0.0) == Cvc && !settings.generate_cmevla {
                     if strin!(&rafsi0.0, -1) == 'y' { Tosyhuhu } else { Tosmabru }
                 } else {
                     Tosynone
-- 
2.43.0


From fefd8052d9442e5de4ca354bc97e0b27de9baa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:39 +0000
Subject: [PATCH 24/33] fix: no hyphen is needed between CVV and CCV'y in
 longer lujvo either

---
 js/docs/jvozba.js            | 3 ++-
 js/src/jvozba.ts             | 3 ++-
 py/latkerlo_jvotci/jvozba.py | 3 ++-
 rs/src/jvozba.rs             | 5 ++++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index d3f690b..1191da6 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -321,7 +321,8 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
             else
                 hyphen = "r";
         }
-        if (tanruLen === 2 && raftai1 === Tarmi.CCV)
+        // no word starts with CCV'y, so nothing can fall off in front of it
+        if (raftai1 === Tarmi.CCV && (tanruLen === 2 || rafsi.endsWith("y") && yHyphens !== YHyphenSetting.FORCE_Y))
             hyphen = "";
     }
     if (tosmabruType === TosyType.Tosmabru) {
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index cde5f0a..bd28a02 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -395,7 +395,8 @@ function combine(
       else
         hyphen = "r";
     }
-    if (tanruLen === 2 && raftai1 === Tarmi.CCV)
+    // no word starts with CCV'y, so nothing can fall off in front of it
+    if (raftai1 === Tarmi.CCV && (tanruLen === 2 || rafsi.endsWith("y") && yHyphens !== YHyphenSetting.FORCE_Y))
       hyphen = "";
   }
 
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index a3f205b..c4ee312 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -364,7 +364,8 @@ def combine(
                 hyphen = "n"
             else:
                 hyphen = "r"
-        if tanru_len == 2 and raftai_1 == CCV:
+        # no word starts with CCV'y, so nothing can fall off in front of it
+        if raftai_1 == CCV and (tanru_len == 2 or rafsi[-1] == "y" and y_hyphens != FORCE_Y):
             hyphen = ""
 
     if tosmabru_type == TOSMABRU:
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index dbd8889..16a2ca8 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -446,7 +446,10 @@ pub fn combine(
                     "r"
                 };
             }
-            if tanru_len == 2 && raftai1 == Ccv {
+            // no word starts with CCV'y, so nothing can fall off in front of it
+            if raftai1 == Ccv
+                && (tanru_len == 2 || rafsi.ends_with('y') && settings.y_hyphens != ForceY)
+            {
                 hyphen = "";
             }
         }
-- 
2.43.0


From 3f4431219422d20a9f4d45a90299037cc194713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 25/33] fix: try y' after an initial CVV rafsi in cmevla

---
 js/docs/jvozba.js            | 3 ++-
 js/src/jvozba.ts             | 5 ++++-
 py/latkerlo_jvotci/jvozba.py | 2 +-
 rs/src/jvozba.rs             | 5 ++++-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 1191da6..7206857 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -298,7 +298,8 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
         return null;
     let hyphen = "";
     if (lujvoFinal === "'") {
-        if (rafsiInitial === "'" || yHyphens !== YHyphenSetting.STANDARD)
+        if (rafsiInitial === "'" || yHyphens !== YHyphenSetting.STANDARD
+            || generateCmevla && [Tarmi.CVV, Tarmi.CVhV].includes(tarmiIgnoringHyphen(lujvo)))
             hyphen = "y";
         else
             return null;
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index bd28a02..51216f3 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -371,7 +371,10 @@ function combine(
 
   let hyphen = "";
   if (lujvoFinal === "'") {
-    if (rafsiInitial === "'" || yHyphens !== YHyphenSetting.STANDARD)
+    if (
+      rafsiInitial === "'" || yHyphens !== YHyphenSetting.STANDARD
+      || generateCmevla && [Tarmi.CVV, Tarmi.CVhV].includes(tarmiIgnoringHyphen(lujvo))
+    )
       hyphen = "y"
     else
       return null;
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index c4ee312..9314e61 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -346,7 +346,7 @@ def combine(
         return
     hyphen = ""
     if lujvo[-1] == "'":
-        if rafsi[0] == "'" or y_hyphens != STANDARD:
+        if rafsi[0] == "'" or y_hyphens != STANDARD or (generate_cmevla and tarmi_ignoring_hyphen(lujvo) in [CVV, CVhV]):
             hyphen = "y"
         else:
             return
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index 16a2ca8..dd9bc80 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -418,7 +418,10 @@ pub fn combine(
     }
     let mut hyphen = "";
     if lujvo_f == '\'' {
-        if rafsi_i == '\'' || settings.y_hyphens != Standard {
+        if rafsi_i == '\''
+            || settings.y_hyphens != Standard
+            || settings.generate_cmevla && [Cvv, Cvhv].contains(&raftai0)
+        {
             hyphen = "y";
         } else {
             return None;
-- 
2.43.0


From 0efe32b0295a6d69057ada708c330f3641458830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 26/33] fix: no hyphen is needed between CVV and CCV'y under
 FORCE_Y either

---
 js/docs/jvozba.js            | 2 +-
 js/src/jvozba.ts             | 2 +-
 py/latkerlo_jvotci/jvozba.py | 2 +-
 rs/src/jvozba.rs             | 4 +---
 4 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 7206857..86ff08f 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -323,7 +323,7 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
                 hyphen = "r";
         }
         // no word starts with CCV'y, so nothing can fall off in front of it
-        if (raftai1 === Tarmi.CCV && (tanruLen === 2 || rafsi.endsWith("y") && yHyphens !== YHyphenSetting.FORCE_Y))
+        if (raftai1 === Tarmi.CCV && (tanruLen === 2 || rafsi.endsWith("y")))
             hyphen = "";
     }
     if (tosmabruType === TosyType.Tosmabru) {
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 51216f3..97062cc 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -399,7 +399,7 @@ function combine(
         hyphen = "r";
     }
     // no word starts with CCV'y, so nothing can fall off in front of it
-    if (raftai1 === Tarmi.CCV && (tanruLen === 2 || rafsi.endsWith("y") && yHyphens !== YHyphenSetting.FORCE_Y))
+    if (raftai1 === Tarmi.CCV && (tanruLen === 2 || rafsi.endsWith("y")))
       hyphen = "";
   }
 
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 9314e61..53ff1f0 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -365,7 +365,7 @@ def combine(
             else:
                 hyphen = "r"
         # no word starts with CCV'y, so nothing can fall off in front of it
-        if raftai_1 == CCV and (tanru_len == 2 or rafsi[-1] == "y" and y_hyphens != FORCE_Y):
+        if raftai_1 == CCV and (tanru_len == 2 or rafsi[-1] == "y"):
             hyphen = ""
 
     if tosmabru_type == TOSMABRU:
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index dd9bc80..037011c 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -450,9 +450,7 @@ pub fn combine(
                 };
             }
             // no word starts with CCV'y, so nothing can fall off in front of it
-            if raftai1 == Ccv
-                && (tanru_len == 2 || rafsi.ends_with('y') && settings.y_hyphens != ForceY)
-            {
+            if raftai1 == Ccv && (tanru_len == 2 || rafsi.ends_with('y')) {
                 hyphen = "";
             }
         }
-- 
2.43.0


From 2f4bbde3fabfc24d3cb23fbe9ae4ec01a847ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 27/33] fix: find lujvo with vowel-only rafsi after CVV and CVC
 rafsi

---
 js/docs/jvozba.js            | 35 ++++++++++++++++----------------
 js/src/jvozba.ts             | 39 ++++++++++++++++--------------------
 py/latkerlo_jvotci/jvozba.py | 21 ++++++++++---------
 rs/src/jvozba.rs             | 27 +++++++++++--------------
 4 files changed, 58 insertions(+), 64 deletions(-)

diff --git a/js/docs/jvozba.js b/js/docs/jvozba.js
index 86ff08f..ea5be79 100644
--- a/js/docs/jvozba.js
+++ b/js/docs/jvozba.js
@@ -290,12 +290,6 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
     const raftai1 = tarmiIgnoringHyphen(rafsi);
     if (!"y'".includes(lujvoFinal) && raftai1 === Tarmi.OtherRafsi)
         return null;
-    let prulamrafsi = lujvo.slice(indexList.slice(-1)[0][0], indexList.slice(-1)[0][1]);
-    if ([Tarmi.CVV, Tarmi.CVC].includes(rafsiTarmi(prulamrafsi))
-        && /^[aeiou']+$/.test(rafsi)
-        && (rafsi[0] == "'"
-            || isGlide(rafsi) && !glides && consonants == ConsonantSetting.CLUSTER))
-        return null;
     let hyphen = "";
     if (lujvoFinal === "'") {
         if (rafsiInitial === "'" || yHyphens !== YHyphenSetting.STANDARD
@@ -315,12 +309,17 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
     else if (lujvo.length <= 5 && !generateCmevla) {
         const raftai0 = tarmiIgnoringHyphen(lujvo);
         if ([Tarmi.CVhV, Tarmi.CVV].includes(raftai0)) {
-            if (yHyphens === YHyphenSetting.FORCE_Y)
+            if (yHyphens === YHyphenSetting.FORCE_Y) {
                 hyphen = "'y";
-            else if (rafsiInitial === "r")
+                // what ends with 'y is still a cmavo
+                tosmabruType = TosyType.Tosyhuhu;
+            }
+            else if (rafsiInitial === "r") {
                 hyphen = "n";
-            else
+            }
+            else {
                 hyphen = "r";
+            }
         }
         // no word starts with CCV'y, so nothing can fall off in front of it
         if (raftai1 === Tarmi.CCV && (tanruLen === 2 || rafsi.endsWith("y")))
@@ -389,15 +388,16 @@ function combine(lujvo, rafsi, lujvoConsonants, rafsiConsonants, lujvoScore, ind
  * @param candidate The new candidate lujvo.
  * @param currentBest The list of existing best candidates for each
     combination of tosmabru type and number of consonants.
+ * @param glides True if glides count as consonants.
  */
-function updateCurrentBest(candidate, currentBest) {
+function updateCurrentBest(candidate, currentBest, glides = false) {
     if (candidate == null)
         return;
     const [tosmabruType, numConsonants, resScore, resLujvo, resIndexList] = candidate;
-    const lujvoFinal = resLujvo.slice(-1);
-    if (!currentBest[tosmabruType][numConsonants].has(lujvoFinal) ||
-        currentBest[tosmabruType][numConsonants].get(lujvoFinal)[1] > resScore) {
-        currentBest[tosmabruType][numConsonants].set(lujvoFinal, [resLujvo, resScore, resIndexList]);
+    const state = resLujvo.slice(-1) + containsCluster(resLujvo, glides);
+    if (!currentBest[tosmabruType][numConsonants].has(state) ||
+        currentBest[tosmabruType][numConsonants].get(state)[1] > resScore) {
+        currentBest[tosmabruType][numConsonants].set(state, [resLujvo, resScore, resIndexList]);
     }
 }
 /**
@@ -425,7 +425,7 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
                 tosmabruType = rafsi0[0].slice(-1) === "y" ? TosyType.Tosyhuhu : TosyType.Tosmabru;
             const result = combine(rafsi0[0], rafsi1[0], rafsi0[1], // TODO: Bring back numConsonants. This is confusing.
             rafsi1[1], score(rafsi0[0]), [[0, stripHyphens(rafsi0[0]).length]], tosmabruType, generateCmevla, rafsiListList.length, yHyphens = yHyphens, consonants = consonants, glides = glides, allowMZ = allowMZ);
-            updateCurrentBest(result, currentBest);
+            updateCurrentBest(result, currentBest, glides);
         });
     });
     let previousBest = currentBest;
@@ -437,7 +437,7 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
                 for (let numConsonants = 0; numConsonants < 3; numConsonants++) {
                     previousBest[tosmabruType][numConsonants].forEach((lujvoAndScore, _) => {
                         const result = combine(lujvoAndScore[0], rafsi[0], numConsonants, rafsi[1], lujvoAndScore[1], lujvoAndScore[2], tosmabruType, generateCmevla, rafsiListList.length, yHyphens = yHyphens, consonants = consonants, glides = glides, allowMZ = allowMZ);
-                        updateCurrentBest(result, currentBest);
+                        updateCurrentBest(result, currentBest, glides);
                     });
                 }
             }
@@ -447,7 +447,8 @@ function getLujvoFromList(valsiList, { generateCmevla = false, yHyphens = YHyphe
     let bestLujvo = "";
     let bestScore = 10 ** 100;
     let bestIndexList = [];
-    previousBest[0][2].forEach((lujvoAndScore, lerfu) => {
+    previousBest[0][2].forEach((lujvoAndScore, state) => {
+        const lerfu = state[0];
         if ((isVowel(lerfu) && !generateCmevla)
             || (isConsonant(lerfu) && generateCmevla)) {
             if (lujvoAndScore[1] < bestScore)
diff --git a/js/src/jvozba.ts b/js/src/jvozba.ts
index 97062cc..b99ad5f 100644
--- a/js/src/jvozba.ts
+++ b/js/src/jvozba.ts
@@ -358,17 +358,6 @@ function combine(
   if (!"y'".includes(lujvoFinal) && raftai1 === Tarmi.OtherRafsi)
     return null;
 
-  let prulamrafsi = lujvo.slice(indexList.slice(-1)[0][0], indexList.slice(-1)[0][1]);
-  if (
-    [Tarmi.CVV, Tarmi.CVC].includes(rafsiTarmi(prulamrafsi))
-    && /^[aeiou']+$/.test(rafsi)
-    && (
-      rafsi[0] == "'"
-      || isGlide(rafsi) && !glides && consonants == ConsonantSetting.CLUSTER
-    )
-  )
-    return null;
-
   let hyphen = "";
   if (lujvoFinal === "'") {
     if (
@@ -391,12 +380,15 @@ function combine(
   } else if (lujvo.length <= 5 && !generateCmevla) {
     const raftai0 = tarmiIgnoringHyphen(lujvo);
     if ([Tarmi.CVhV, Tarmi.CVV].includes(raftai0)) {
-      if (yHyphens === YHyphenSetting.FORCE_Y)
+      if (yHyphens === YHyphenSetting.FORCE_Y) {
         hyphen = "'y"
-      else if (rafsiInitial === "r")
+        // what ends with 'y is still a cmavo
+        tosmabruType = TosyType.Tosyhuhu;
+      } else if (rafsiInitial === "r") {
         hyphen = "n";
-      else
+      } else {
         hyphen = "r";
+      }
     }
     // no word starts with CCV'y, so nothing can fall off in front of it
     if (raftai1 === Tarmi.CCV && (tanruLen === 2 || rafsi.endsWith("y")))
@@ -468,18 +460,20 @@ function combine(
  * @param candidate The new candidate lujvo.
  * @param currentBest The list of existing best candidates for each
     combination of tosmabru type and number of consonants.
+ * @param glides True if glides count as consonants.
  */
 function updateCurrentBest(
   candidate: [TosyType, number, number, string, [number, number][]] | null,
-  currentBest: [bestLujvoMap, bestLujvoMap, bestLujvoMap][]
+  currentBest: [bestLujvoMap, bestLujvoMap, bestLujvoMap][],
+  glides = false
 ) {
   if (candidate == null)
     return;
   const [tosmabruType, numConsonants, resScore, resLujvo, resIndexList] = candidate!;
-  const lujvoFinal = resLujvo.slice(-1);
-  if (!currentBest[tosmabruType][numConsonants].has(lujvoFinal) ||
-    currentBest[tosmabruType][numConsonants].get(lujvoFinal)![1] > resScore) {
-    currentBest[tosmabruType][numConsonants].set(lujvoFinal, [resLujvo, resScore, resIndexList]);
+  const state = resLujvo.slice(-1) + containsCluster(resLujvo, glides);
+  if (!currentBest[tosmabruType][numConsonants].has(state) ||
+    currentBest[tosmabruType][numConsonants].get(state)![1] > resScore) {
+    currentBest[tosmabruType][numConsonants].set(state, [resLujvo, resScore, resIndexList]);
   }
 }
 
@@ -532,7 +526,7 @@ function getLujvoFromList(
         glides = glides,
         allowMZ = allowMZ
       );
-      updateCurrentBest(result, currentBest);
+      updateCurrentBest(result, currentBest, glides);
     });
   });
   let previousBest = currentBest;
@@ -557,7 +551,7 @@ function getLujvoFromList(
               glides = glides,
               allowMZ = allowMZ
             );
-            updateCurrentBest(result, currentBest);
+            updateCurrentBest(result, currentBest, glides);
           });
         }
       }
@@ -567,7 +561,8 @@ function getLujvoFromList(
   let bestLujvo = "";
   let bestScore = 10 ** 100;
   let bestIndexList: [number, number][] = [];
-  previousBest[0][2].forEach((lujvoAndScore, lerfu) => {
+  previousBest[0][2].forEach((lujvoAndScore, state) => {
+    const lerfu = state[0];
     if ((isVowel(lerfu) && !generateCmevla)
       || (isConsonant(lerfu) && generateCmevla)) {
       if (lujvoAndScore[1] < bestScore)
diff --git a/py/latkerlo_jvotci/jvozba.py b/py/latkerlo_jvotci/jvozba.py
index 53ff1f0..9f60490 100644
--- a/py/latkerlo_jvotci/jvozba.py
+++ b/py/latkerlo_jvotci/jvozba.py
@@ -341,9 +341,6 @@ def combine(
     raftai_1 = tarmi_ignoring_hyphen(rafsi)
     if lujvo[-1] not in "y'" and raftai_1 == OTHER_RAFSI:
         return
-    prulamrafsi = lujvo[index_list[-1][0]:index_list[-1][1]]
-    if rafsi_tarmi(prulamrafsi) in [CVV, CVC] and bool(re.match(r"^[aeiou']+$", rafsi) and (rafsi[0] == "'" or is_glide(rafsi) and not glides and consonants == CLUSTER)):
-        return
     hyphen = ""
     if lujvo[-1] == "'":
         if rafsi[0] == "'" or y_hyphens != STANDARD or (generate_cmevla and tarmi_ignoring_hyphen(lujvo) in [CVV, CVhV]):
@@ -360,6 +357,8 @@ def combine(
         if raftai_0 in [CVhV, CVV]:
             if y_hyphens == "FORCE_Y":
                 hyphen = "'y"
+                # what ends with 'y is still a cmavo
+                tosmabru_type = TOSYhUhU
             elif rafsi[0] == "r":
                 hyphen = "n"
             else:
@@ -422,22 +421,24 @@ def combine(
     )
 
 
-def update_current_best(candidate, current_best):
+def update_current_best(candidate, current_best, glides=False):
     """
     Add the candidate to current_best if it is the best.
 
     :param candidate: The new candidate lujvo.
     :param current_best: The list of existing best candidates for each
     combination of tosmabru type and number of consonants.
+    :param glides: True if glides count as consonants.
     """
     if candidate is None:
         return
     tosmabru_type, num_consonants, res_score, res_lujvo, res_index_list = candidate
+    state = res_lujvo[-1], contains_cluster(res_lujvo, glides)
     if (
-        res_lujvo[-1] not in current_best[tosmabru_type][num_consonants]
-        or current_best[tosmabru_type][num_consonants][res_lujvo[-1]][1] > res_score
+        state not in current_best[tosmabru_type][num_consonants]
+        or current_best[tosmabru_type][num_consonants][state][1] > res_score
     ):
-        current_best[tosmabru_type][num_consonants][res_lujvo[-1]] = res_lujvo, res_score, res_index_list
+        current_best[tosmabru_type][num_consonants][state] = res_lujvo, res_score, res_index_list
 
 
 def get_lujvo_from_list(
@@ -489,7 +490,7 @@ def get_lujvo_from_list(
                 glides=glides,
                 allow_mz=allow_mz
             )
-            update_current_best(result, current_best)
+            update_current_best(result, current_best, glides)
     previous_best = current_best
     for rafsi_list in rafsi_list_list[2:]:
         current_best = [[{}, {}, {}], [{}, {}, {}], [{}, {}, {}]]
@@ -511,12 +512,12 @@ def get_lujvo_from_list(
                             glides=glides,
                             allow_mz=allow_mz
                         )
-                        update_current_best(result, current_best)
+                        update_current_best(result, current_best, glides)
         previous_best = current_best
     best_lujvo = None
     best_score = 10**100
     best_index_list = None
-    for lerfu, lujvo_and_score in previous_best[0][2].items():
+    for (lerfu, _), lujvo_and_score in previous_best[0][2].items():
         if (is_vowel(lerfu) and not generate_cmevla) or \
                 (is_consonant(lerfu) and generate_cmevla):
             if lujvo_and_score[1] < best_score:
diff --git a/rs/src/jvozba.rs b/rs/src/jvozba.rs
index 037011c..f014b71 100644
--- a/rs/src/jvozba.rs
+++ b/rs/src/jvozba.rs
@@ -400,19 +400,12 @@ pub fn combine(
     let rafsi_i = strin!(rafsi, 0);
     let raftai0 = tarmi_ignoring_hyphen(lujvo);
     let raftai1 = tarmi_ignoring_hyphen(rafsi);
-    let prulamrafsi = &lujvo[indices.last().unwrap()[0]..indices.last().unwrap()[1]];
     if is_consonant(lujvo_f)
         && is_consonant(rafsi_i)
         && !if settings.allow_mz { &MZ_VALID } else { &VALID }
             .contains(&format!("{lujvo_f}{rafsi_i}").as_str())
         || BANNED_TRIPLES.contains(&format!("{lujvo_f}{}", strsl!(rafsi, 0..2)).as_str())
         || !"y'".contains(lujvo_f) && raftai1 == OtherRafsi
-        || [Cvv, Cvc].contains(&rafsi_tarmi(prulamrafsi))
-            && rafsi.chars().all(|c| "aeiou'".contains(c))
-            && (rafsi.starts_with('\'')
-                || is_glide(rafsi)
-                    && !settings.glides
-                    && settings.consonants == Cluster)
     {
         return None;
     }
@@ -442,6 +435,8 @@ pub fn combine(
         if lujvo.len() <= 5 && !settings.generate_cmevla {
             if [Cvhv, Cvv].contains(&raftai0) {
                 hyphen = if settings.y_hyphens == ForceY {
+                    // what ends with 'y is still a cmavo
+                    tosmabru_type = Tosyhuhu;
                     "'y"
                 } else if rafsi_i == 'r' {
                     "n"
@@ -506,7 +501,7 @@ pub fn combine(
     Some((tosmabru_type, total_c, score, res, indices))
 }
 
-type BestLujvoMap = IndexMap<char, (String, i32, Vec<[usize; 2]>)>;
+type BestLujvoMap = IndexMap<(char, bool), (String, i32, Vec<[usize; 2]>)>;
 
 /// Adds a candidate to `current_best`.
 #[allow(clippy::missing_panics_doc)] // .unwrap()
@@ -514,18 +509,19 @@ type BestLujvoMap = IndexMap<char, (String, i32, Vec<[usize; 2]>)>;
 pub fn update_current_best(
     candidate: Candidate,
     mut current_best: [[BestLujvoMap; 3]; 3],
+    glides: bool,
 ) -> [[BestLujvoMap; 3]; 3] {
     if candidate.is_none() {
         return current_best;
     }
     let (tosmabru_type, num_consonants, res_score, res_lujvo, res_indices) = candidate.unwrap();
-    let lujvo_f = strin!(&res_lujvo, -1);
-    if !current_best[tosmabru_type as usize][num_consonants as usize].contains_key(&lujvo_f)
-        || current_best[tosmabru_type as usize][num_consonants as usize].get(&lujvo_f).unwrap().1
+    let state = (strin!(&res_lujvo, -1), contains_cluster(&res_lujvo, glides));
+    if !current_best[tosmabru_type as usize][num_consonants as usize].contains_key(&state)
+        || current_best[tosmabru_type as usize][num_consonants as usize].get(&state).unwrap().1
             > res_score
     {
         current_best[tosmabru_type as usize][num_consonants as usize]
-            .insert(lujvo_f, (res_lujvo, res_score, res_indices));
+            .insert(state, (res_lujvo, res_score, res_indices));
     }
     current_best
 }
@@ -587,7 +583,7 @@ pub fn get_lujvo_from_list(
                     allow_mz
                 ),
             );
-            current_best = update_current_best(res, current_best);
+            current_best = update_current_best(res, current_best, settings.glides);
         }
     }
     let mut previous_best = current_best;
@@ -621,7 +617,8 @@ pub fn get_lujvo_from_list(
                                 allow_mz
                             ),
                         );
-                        current_best = update_current_best(res, current_best);
+                        current_best =
+                            update_current_best(res, current_best, settings.glides);
                     }
                 }
             }
@@ -629,7 +626,7 @@ pub fn get_lujvo_from_list(
         previous_best = current_best;
     }
     let (mut best_lujvo, mut best_score, mut best_indices) = (String::new(), i32::MAX, vec![]);
-    for (c, lujvo_and_score) in &previous_best[0][2] {
+    for ((c, _), lujvo_and_score) in &previous_best[0][2] {
         if (is_vowel(*c) && !settings.generate_cmevla
             || is_consonant(*c) && settings.generate_cmevla)
             && lujvo_and_score.1 < best_score
-- 
2.43.0


From b26b62ce967e27e5e4b6c182852bdb50f9eea516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:53 +0000
Subject: [PATCH 28/33] fix: a vowel before a glide syllable is no glide (uia
 is u,ia), so y before it needs an apostrophe

---
 js/docs/tarmi.js            | 13 ++++++++++++-
 js/src/tarmi.ts             | 12 +++++++++++-
 py/latkerlo_jvotci/tarmi.py |  9 ++++++++-
 rs/src/tarmi.rs             |  7 ++++++-
 4 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/js/docs/tarmi.js b/js/docs/tarmi.js
index cc3239b..a195430 100644
--- a/js/docs/tarmi.js
+++ b/js/docs/tarmi.js
@@ -105,7 +105,18 @@ function isConsonant(character) {
 function isGlide(aString) {
     if (aString.length < 2)
         return false;
-    return "iu".includes(aString[0]) && isVowel(aString[1]);
+    if (!"iu".includes(aString[0]) || !isVowel(aString[1]))
+        return false;
+    // the vowels of "uianda" are u,ia
+    const firstCons = aString.split("").findIndex(char => !isVowel(char));
+    try {
+        return FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(firstCons === -1 ? aString : aString.slice(0, firstCons))[0]);
+    }
+    catch (e) {
+        if (e instanceof DecompositionError)
+            return false;
+        throw e;
+    }
 }
 /**
  * Return true if string is only lojban characters except y.
diff --git a/js/src/tarmi.ts b/js/src/tarmi.ts
index 7b8f922..a6bc28c 100644
--- a/js/src/tarmi.ts
+++ b/js/src/tarmi.ts
@@ -113,7 +113,17 @@ function isConsonant(character: string): boolean {
 function isGlide(aString: string): boolean {
   if (aString.length < 2)
     return false
-  return "iu".includes(aString[0]) && isVowel(aString[1]);
+  if (!"iu".includes(aString[0]) || !isVowel(aString[1]))
+    return false;
+  // the vowels of "uianda" are u,ia
+  const firstCons = aString.split("").findIndex(char => !isVowel(char));
+  try {
+    return FOLLOW_VOWEL_CLUSTERS.includes(splitVowelCluster(firstCons === -1 ? aString : aString.slice(0, firstCons))[0]);
+  } catch (e) {
+    if (e instanceof DecompositionError)
+      return false;
+    throw e;
+  }
 }
 
 /**
diff --git a/py/latkerlo_jvotci/tarmi.py b/py/latkerlo_jvotci/tarmi.py
index 5bb5bdd..ef65728 100644
--- a/py/latkerlo_jvotci/tarmi.py
+++ b/py/latkerlo_jvotci/tarmi.py
@@ -101,7 +101,14 @@ def is_glide(string: str) -> bool:
     """
     if len(string) < 2:
         return False
-    return string[0] in "iu" and is_vowel(string[1])
+    if string[0] not in "iu" or not is_vowel(string[1]):
+        return False
+    # the vowels of "uianda" are u,ia
+    first_cons = next((i for i, c in enumerate(string) if not is_vowel(c)), len(string))
+    try:
+        return split_vowel_cluster(string[:first_cons])[0] in FOLLOW_VOWEL_CLUSTERS
+    except DecompositionError:
+        return False
 
 
 def is_only_lojban_characters(string: str) -> bool:
diff --git a/rs/src/tarmi.rs b/rs/src/tarmi.rs
index e49abee..59ac773 100644
--- a/rs/src/tarmi.rs
+++ b/rs/src/tarmi.rs
@@ -234,7 +234,12 @@ pub fn is_consonant(c: char) -> bool { "bcdfgjklmnprstvxz".contains(c) }
 /// Returns `true` if `s` starts with an on-glide / rising diphthong (*i*/*u* +
 /// vowel).
 pub fn is_glide(s: &str) -> bool {
-    s.len() >= 2 && "iu".contains(strin!(s, 0)) && is_vowel(strin!(s, 1))
+    s.len() >= 2
+        && "iu".contains(strin!(s, 0))
+        && is_vowel(strin!(s, 1))
+        // the vowels of {uianda} are {u,ia}
+        && split_vowel_cluster(&s.chars().take_while(|c| is_vowel(*c)).collect::<String>())
+            .is_ok_and(|v| FOLLOW_VOWEL_CLUSTERS.contains(&v[0].as_str()))
 }
 
 #[must_use]
-- 
2.43.0


From f759e1ba8b53ae257d87a324492380fb6281c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 29/33] fix: bai'y falls off after other cmavo too under
 STANDARD, so that baibaibai'yspageti is no brivla

---
 js/docs/tools.js            | 3 +++
 js/src/tools.ts             | 3 +++
 py/latkerlo_jvotci/tools.py | 3 +++
 rs/src/tools.rs             | 9 +++++++++
 4 files changed, 18 insertions(+)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 07ac424..2f2cb77 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -464,6 +464,9 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                         else
                             break;
                     }
+                    // baibaibai'yspageti: bai'y is a cmavo too
+                    if (yHyphens === YHyphenSetting.STANDARD && rest.startsWith("'y") && rest[2] !== "'")
+                        throw new NotBrivlaError("falls off because y");
                 }
             }
         }
diff --git a/js/src/tools.ts b/js/src/tools.ts
index fbf76eb..ed36046 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -539,6 +539,9 @@ function analyseBrivla(
             else
               break;
           }
+          // baibaibai'yspageti: bai'y is a cmavo too
+          if (yHyphens === YHyphenSetting.STANDARD && rest.startsWith("'y") && rest[2] !== "'")
+            throw new NotBrivlaError("falls off because y");
         }
       }
 
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index ef3658b..e6caf32 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -459,6 +459,9 @@ def analyse_brivla(
                             rest = rest[2:]
                         else:
                             break
+                    # baibaibai'yspageti: bai'y is a cmavo too
+                    if y_hyphens == STANDARD and rest[:2] == "'y" and rest[2:3] != "'":
+                        raise NotBrivlaError("falls off because y")
         else:
             require_zihevla = require_cluster or not exp_rafsi_shapes
             try:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index cde0512..41c23b2 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -631,6 +631,15 @@ pub fn analyze_brivla(
                             break;
                         }
                     }
+                    // baibaibai'yspageti: bai'y is a cmavo too
+                    if settings.y_hyphens == Standard
+                        && rest.starts_with("'y")
+                        && !rest.starts_with("'y'")
+                    {
+                        return Err(NotBrivlaError(format!(
+                            "{{{valsi}}} falls apart because the y-hyphen setting is Standard"
+                        )));
+                    }
                 } else if settings.y_hyphens == Standard
                     && !to_part.is_empty()
                     && !y_parts[i + 1].starts_with('\'')
-- 
2.43.0


From c74e264cd0c3bcccc9890c4f2a2b492c364c75b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 30/33] fix: do not search the cmavo in front again for each of
 them (analyse_brivla took exponential time)

---
 js/docs/tools.js            | 18 +++++++++++++++---
 js/src/tools.ts             | 18 +++++++++++++++---
 py/latkerlo_jvotci/tools.py | 14 +++++++++++---
 rs/src/tools.rs             | 15 +++++++++++++--
 4 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 2f2cb77..e99e68e 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -261,9 +261,11 @@ function isBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShapes =
  * @param consonants Which consonant rules to use.
  * @param glides True if glides count as consonants.
  * @param allowMZ True if mz is a valid consonant cluster.
+ * @param checkCmavo False if the caller checks itself whether all the cmavo
+    in front can fall off.
  * @returns The word type and a list of pieces (rafsi + hyphens).
  */
-function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShapes = false, consonants = ConsonantSetting.CLUSTER, glides = false, allowMZ = false } = {}) {
+function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShapes = false, consonants = ConsonantSetting.CLUSTER, glides = false, allowMZ = false, checkCmavo = true } = {}) {
     valsi = normalise(valsi);
     let isCmevlatai = false;
     if (valsi.length === 0)
@@ -452,8 +454,18 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                     // le'enaurdulnydei: the r-hyphen makes naurdulnydei a lujvo, but not naurduln a cmevla
                     // baibaibroda'ylatmo: more than one cmavo can fall off
                     let rest = valsi.slice(toPart.length);
-                    while (rest.length > 0 && isConsonant(rest[0])) {
-                        if (isBrivla(rest, { yHyphens, expRafsiShapes, consonants, glides, allowMZ }))
+                    while (checkCmavo && rest.length > 0 && isConsonant(rest[0])) {
+                        // each shorter rest gets its turn here, so none has to look further
+                        let fallsOff = true;
+                        try {
+                            analyseBrivla(rest, { yHyphens, expRafsiShapes, consonants, glides, allowMZ, checkCmavo: false });
+                        }
+                        catch (e) {
+                            if (!(e instanceof NotBrivlaError))
+                                throw e;
+                            fallsOff = false;
+                        }
+                        if (fallsOff)
                             throw new NotBrivlaError("tosmabru");
                         if (rafsiTarmi(rest.slice(0, 4)) === Tarmi.CVhV)
                             rest = rest.slice(4);
diff --git a/js/src/tools.ts b/js/src/tools.ts
index ed36046..506048b 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -312,6 +312,8 @@ function isBrivla(
  * @param consonants Which consonant rules to use.
  * @param glides True if glides count as consonants.
  * @param allowMZ True if mz is a valid consonant cluster.
+ * @param checkCmavo False if the caller checks itself whether all the cmavo
+    in front can fall off.
  * @returns The word type and a list of pieces (rafsi + hyphens).
  */
 function analyseBrivla(
@@ -321,7 +323,8 @@ function analyseBrivla(
     expRafsiShapes = false,
     consonants = ConsonantSetting.CLUSTER,
     glides = false,
-    allowMZ = false
+    allowMZ = false,
+    checkCmavo = true
   } = {}
 ): [BrivlaType, string[]] {
   valsi = normalise(valsi);
@@ -527,8 +530,17 @@ function analyseBrivla(
           // le'enaurdulnydei: the r-hyphen makes naurdulnydei a lujvo, but not naurduln a cmevla
           // baibaibroda'ylatmo: more than one cmavo can fall off
           let rest = valsi.slice(toPart.length);
-          while (rest.length > 0 && isConsonant(rest[0])) {
-            if (isBrivla(rest, { yHyphens, expRafsiShapes, consonants, glides, allowMZ }))
+          while (checkCmavo && rest.length > 0 && isConsonant(rest[0])) {
+            // each shorter rest gets its turn here, so none has to look further
+            let fallsOff = true;
+            try {
+              analyseBrivla(rest, { yHyphens, expRafsiShapes, consonants, glides, allowMZ, checkCmavo: false });
+            } catch (e) {
+              if (!(e instanceof NotBrivlaError))
+                throw e;
+              fallsOff = false;
+            }
+            if (fallsOff)
               throw new NotBrivlaError("tosmabru");
             if (rafsiTarmi(rest.slice(0, 4)) === Tarmi.CVhV)
               rest = rest.slice(4);
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index e6caf32..aef8da7 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -258,7 +258,8 @@ def analyse_brivla(
         exp_rafsi_shapes: bool = False,
         consonants: str = CLUSTER,
         glides: bool = False,
-        allow_mz: bool = False) \
+        allow_mz: bool = False,
+        check_cmavo: bool = True) \
         -> (str, list[str]):
     """
     Tells you the type and decomposition of any brivla or decomposable
@@ -273,6 +274,8 @@ def analyse_brivla(
     :param consonants: Which consonant rules to use.
     :param glides: True if glides count as consonants.
     :param allow_mz: True if mz is a valid consonant cluster.
+    :param check_cmavo: False if the caller checks itself whether all the
+    cmavo in front can fall off.
     :return: The word type and a list of pieces (rafsi + hyphens).
     :raises:
         NotBrivlaError: if string is neither a brivla nor decomposable
@@ -448,8 +451,13 @@ def analyse_brivla(
                     # le'enaurdulnydei: the r-hyphen makes naurdulnydei a lujvo, but not naurduln a cmevla
                     # baibaibroda'ylatmo: more than one cmavo can fall off
                     rest = valsi[len(to_part):]
-                    while rest and is_consonant(rest[0]):
-                        if is_brivla(rest, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz):
+                    while check_cmavo and rest and is_consonant(rest[0]):
+                        # each shorter rest gets its turn here, so none has to look further
+                        try:
+                            analyse_brivla(rest, y_hyphens, exp_rafsi_shapes, consonants, glides, allow_mz, check_cmavo=False)
+                        except NotBrivlaError:
+                            pass
+                        else:
                             raise NotBrivlaError("tosmabru")
                         if rafsi_tarmi(rest[:4]) == CVhV:
                             rest = rest[4:]
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 41c23b2..4411a55 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -383,6 +383,16 @@ pub fn is_brivla(valsi: &str, settings: &Settings) -> bool {
 pub fn analyze_brivla(
     valsi: &str,
     settings: &Settings,
+) -> Result<(BrivlaType, Vec<String>), Jvonunfli> {
+    analyze_brivla_2(valsi, settings, true)
+}
+
+/// [`analyze_brivla`] with a choice: `check_cmavo` is `false` if the caller
+/// checks itself whether all the cmavo in front can fall off.
+fn analyze_brivla_2(
+    valsi: &str,
+    settings: &Settings,
+    check_cmavo: bool,
 ) -> Result<(BrivlaType, Vec<String>), Jvonunfli> {
     let valsi = normalize(valsi);
     let mut is_cmetai = false;
@@ -615,8 +625,9 @@ pub fn analyze_brivla(
                     // le'enaurdulnydei: the r-hyphen makes naurdulnydei a lujvo, but not naurduln a cmevla
                     // baibaibroda'ylatmo: more than one cmavo can fall off
                     let mut rest = strsl!(&valsi, to_part.len() as isize..);
-                    while !rest.is_empty() && is_consonant(strin!(rest, 0)) {
-                        if is_brivla(rest, settings) {
+                    while check_cmavo && !rest.is_empty() && is_consonant(strin!(rest, 0)) {
+                        // each shorter rest gets its turn here, so none has to look further
+                        if analyze_brivla_2(rest, settings, false).is_ok() {
                             return Err(NotBrivlaError(format!(
                                 "{{{valsi}}} is a tosmabru: {{{to_part} {rest}}}"
                             )));
-- 
2.43.0


From a418151a1f0760f60fb8903ad45336f19ac60011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:01 +0000
Subject: [PATCH 31/33] fix: look only at words with one consonant before the
 cluster for what a tosmabru falls apart into (exponential time in Rust)

---
 rs/src/tools.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 4411a55..8c981a5 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -178,6 +178,8 @@ pub fn check_zihevla_or_rafsi(
                         let smabru_part = strsl!(valsi_, *p..);
                         (is_vowel(strin!(to_part, -1)) || strin!(to_part, -1) == 'y')
                             && is_cmavo_compound(to_part)
+                            // or it is no brivla either, which would take long to find out
+                            && strsl!(valsi_, *p..pos).chars().filter(|c| is_consonant(*c)).count() <= 1
                             && (is_glide(smabru_part)
                                 || !START_VOWEL_CLUSTERS.iter().any(|v| {
                                     *v == format!(
-- 
2.43.0


From 73120c593fb7cd8ae7642f23712785c8f1a3d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 32/33] fix: a consonant before y makes a cluster only with the
 consonant after it

analyse_brivla counted a CVC rafsi at the end of a part as a cluster whatever
follows the y, so that bai'ydaitatyuo was an extended lujvo without a cluster.
---
 js/docs/tools.js            |  8 +++++---
 js/src/tools.ts             |  8 +++++---
 py/latkerlo_jvotci/tools.py |  8 +++++---
 rs/src/tools.rs             | 11 +++++++----
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index e99e68e..17cee9e 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -401,14 +401,16 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                 if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
                     throw e;
             }
-            foundParts.forEach((partPart) => {
+            foundParts.forEach((partPart, j) => {
                 const raftai = rafsiTarmi(partPart);
                 if ([Tarmi.CVV, Tarmi.CVhV].includes(raftai)) {
                     numConsonants += 1;
                 }
                 else if (raftai !== Tarmi.OtherRafsi) {
                     numConsonants += 2;
-                    hasCluster = true;
+                    // the last consonant of a CVC rafsi makes a cluster only with what follows
+                    if (raftai !== Tarmi.CVC || j < foundParts.length - 1)
+                        hasCluster = true;
                 }
             });
         }
@@ -516,7 +518,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                 numConsonants += 1;
             resultParts.push(partCopy);
         }
-        consonantBeforeBreak = false;
+        consonantBeforeBreak = isConsonant(partCopy.slice(-1));
     }
     if (!hasCluster && !isCmevlatai) {
         if (consonants === ConsonantSetting.CLUSTER)
diff --git a/js/src/tools.ts b/js/src/tools.ts
index 506048b..dd4f065 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -471,13 +471,15 @@ function analyseBrivla(
           throw e;
       }
 
-      foundParts.forEach((partPart) => {
+      foundParts.forEach((partPart, j) => {
         const raftai = rafsiTarmi(partPart);
         if ([Tarmi.CVV, Tarmi.CVhV].includes(raftai)) {
           numConsonants += 1;
         } else if (raftai !== Tarmi.OtherRafsi) {
           numConsonants += 2;
-          hasCluster = true;
+          // the last consonant of a CVC rafsi makes a cluster only with what follows
+          if (raftai !== Tarmi.CVC || j < foundParts.length - 1)
+            hasCluster = true;
         }
       })
     }
@@ -596,7 +598,7 @@ function analyseBrivla(
       resultParts.push(partCopy);
     }
 
-    consonantBeforeBreak = false;
+    consonantBeforeBreak = isConsonant(partCopy.slice(-1));
   }
 
   if (!hasCluster && !isCmevlatai) {
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index aef8da7..74cbaf1 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -405,13 +405,15 @@ def analyse_brivla(
             except (DecompositionError, InvalidClusterError, IndexError):
                 pass
 
-            for part_part in found_parts:
+            for j, part_part in enumerate(found_parts):
                 raftai = rafsi_tarmi(part_part)
                 if raftai in [CVV, CVhV]:
                     num_consonants += 1
                 elif raftai != OTHER_RAFSI:
                     num_consonants += 2
-                    has_cluster = True
+                    # the last consonant of a CVC rafsi makes a cluster only with what follows
+                    if raftai != CVC or j < len(found_parts) - 1:
+                        has_cluster = True
 
         if did_kaha:
             if rafsi_tarmi(part) in [CVV, CVhV]:
@@ -496,7 +498,7 @@ def analyse_brivla(
 
             result_parts.append(part_copy)
 
-        consonant_before_break = False
+        consonant_before_break = is_consonant(part_copy[-1])
 
     if not has_cluster and not is_cmevlatai:
         if consonants == CLUSTER:
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index 8c981a5..ed68b8b 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -573,13 +573,16 @@ fn analyze_brivla_2(
                 katnad = true;
             }
             let found_parts = found_parts.unwrap();
-            for fp in found_parts {
-                let raftai = rafsi_tarmi(&fp);
+            for (j, fp) in found_parts.iter().enumerate() {
+                let raftai = rafsi_tarmi(fp);
                 if [Cvv, Cvhv].contains(&raftai) {
                     num_consonants += 1;
                 } else if raftai != OtherRafsi {
                     num_consonants += 2;
-                    has_cluster = true;
+                    // the last consonant of a CVC rafsi makes a cluster only with what follows
+                    if raftai != Cvc || j < found_parts.len() - 1 {
+                        has_cluster = true;
+                    }
                 }
             }
         }
@@ -698,7 +701,7 @@ fn analyze_brivla_2(
             }
             res_parts.push(part_.to_string());
         }
-        consonant_before_break = false;
+        consonant_before_break = is_consonant(strin!(part_, -1));
     }
     if !has_cluster && !is_cmetai {
         if settings.consonants == Cluster {
-- 
2.43.0


From 2d3db737382792e044dc8995e113dbe811a20135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 33/33] fix: cmavo in front of the first y hyphen fall off,
 however many there are

pa'asoite'o'yie'o was an extended lujvo with two consonants demanded, though
soite'o'yie'o was not, nor pa'asoite'o'yie'o with one consonant or glides.
---
 js/docs/tools.js            | 5 +++++
 js/src/tools.ts             | 6 ++++++
 py/latkerlo_jvotci/tools.py | 4 ++++
 rs/src/tools.rs             | 6 ++++++
 4 files changed, 21 insertions(+)

diff --git a/js/docs/tools.js b/js/docs/tools.js
index 17cee9e..b41b7d5 100644
--- a/js/docs/tools.js
+++ b/js/docs/tools.js
@@ -377,6 +377,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
             requireCluster = true;
         }
         let didKaha = false;
+        let onlyCmavo = false;
         if (canBeRafsi) {
             bastryvla_test: if (!/'a$/.test(partA) && !isGismu(partA.slice(-5), allowMZ)) {
                 let decomp;
@@ -401,6 +402,7 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                 if (!(e instanceof DecompositionError || e instanceof InvalidClusterError || e instanceof TypeError))
                     throw e;
             }
+            onlyCmavo = foundParts.every(partPart => [Tarmi.CVV, Tarmi.CVhV].includes(rafsiTarmi(partPart)));
             foundParts.forEach((partPart, j) => {
                 const raftai = rafsiTarmi(partPart);
                 if ([Tarmi.CVV, Tarmi.CVhV].includes(raftai)) {
@@ -445,6 +447,9 @@ function analyseBrivla(valsi, { yHyphens = YHyphenSetting.STANDARD, expRafsiShap
                         smabruPart = stripHyphens(smabruPart);
                     if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
                         throw new NotBrivlaError("tosmabru");
+                    // pa'asoite'o'yie'o: nothing holds the first cmavo, however many there are
+                    if (onlyCmavo)
+                        throw new NotBrivlaError("tosmabru");
                     try {
                         jvokaha(smabruPart, { yHyphens: yHyphens, allowMZ: allowMZ });
                         throw new NotBrivlaError("tosmabru");
diff --git a/js/src/tools.ts b/js/src/tools.ts
index dd4f065..edf0d09 100644
--- a/js/src/tools.ts
+++ b/js/src/tools.ts
@@ -450,6 +450,7 @@ function analyseBrivla(
     }
 
     let didKaha = false;
+    let onlyCmavo = false;
     if (canBeRafsi) {
       bastryvla_test: if (!/'a$/.test(partA) && !isGismu(partA.slice(-5), allowMZ)) {
         let decomp;
@@ -471,6 +472,7 @@ function analyseBrivla(
           throw e;
       }
 
+      onlyCmavo = foundParts.every(partPart => [Tarmi.CVV, Tarmi.CVhV].includes(rafsiTarmi(partPart)));
       foundParts.forEach((partPart, j) => {
         const raftai = rafsiTarmi(partPart);
         if ([Tarmi.CVV, Tarmi.CVhV].includes(raftai)) {
@@ -521,6 +523,10 @@ function analyseBrivla(
           if (isValidRafsi(smabruPart, allowMZ) && !(rafsiTarmi(smabruPart) == Tarmi.CCV && yParts[i].slice(toPart.length)[3] == "'"))
             throw new NotBrivlaError("tosmabru");
 
+          // pa'asoite'o'yie'o: nothing holds the first cmavo, however many there are
+          if (onlyCmavo)
+            throw new NotBrivlaError("tosmabru");
+
           try {
             jvokaha(smabruPart, { yHyphens: yHyphens, allowMZ: allowMZ });
             throw new NotBrivlaError("tosmabru");
diff --git a/py/latkerlo_jvotci/tools.py b/py/latkerlo_jvotci/tools.py
index 74cbaf1..50a60c3 100644
--- a/py/latkerlo_jvotci/tools.py
+++ b/py/latkerlo_jvotci/tools.py
@@ -444,6 +444,10 @@ def analyse_brivla(
                     if is_valid_rafsi(smabru_part, allow_mz=allow_mz) and not (rafsi_tarmi(smabru_part) == CCV and y_parts[i][len(to_part) + 3] == "'"):
                         raise NotBrivlaError("tosmabru")
 
+                    # pa'asoite'o'yie'o: nothing holds the first cmavo, however many there are
+                    if all(rafsi_tarmi(part_part) in [CVV, CVhV] for part_part in found_parts):
+                        raise NotBrivlaError("tosmabru")
+
                     try:
                         jvokaha(smabru_part, y_hyphens=y_hyphens, allow_mz=allow_mz)
                         raise NotBrivlaError("tosmabru")
diff --git a/rs/src/tools.rs b/rs/src/tools.rs
index ed68b8b..e89cd52 100644
--- a/rs/src/tools.rs
+++ b/rs/src/tools.rs
@@ -543,6 +543,7 @@ fn analyze_brivla_2(
             require_cluster = true;
         }
         let mut katnad = false;
+        let mut only_cmavo = false;
         if can_be_rafsi {
             if !part_a.ends_with("'a")
                 && !is_gismu(strsl!(part_a, -5..), &extract!(settings; allow_mz))
@@ -573,6 +574,7 @@ fn analyze_brivla_2(
                 katnad = true;
             }
             let found_parts = found_parts.unwrap();
+            only_cmavo = found_parts.iter().all(|fp| [Cvv, Cvhv].contains(&rafsi_tarmi(fp)));
             for (j, fp) in found_parts.iter().enumerate() {
                 let raftai = rafsi_tarmi(fp);
                 if [Cvv, Cvhv].contains(&raftai) {
@@ -616,6 +618,10 @@ fn analyze_brivla_2(
                             if added_a { "a" } else { "" }
                         )));
                     }
+                    // pa'asoite'o'yie'o: nothing holds the first cmavo, however many there are
+                    if only_cmavo {
+                        return Err(NotBrivlaError(format!("{{{part}}} is only cmavo")));
+                    }
                     if let Err(e) = jvokaha(smabru_part, &extract!(settings; y_hyphens, allow_mz)) {
                         match e {
                             DecompositionError(_) | InvalidClusterError(_) | FakeTypeError(_) => (),
-- 
2.43.0

