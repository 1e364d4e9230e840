From 11a0188b1b5572826b58608d889de650a5433605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:32 +0000
Subject: [PATCH 01/22] fix: restore nested protected texts in the tokenizer

---
 scrappybara/preprocessing/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index bd6fb52..3b26548 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -194,7 +194,7 @@ class Tokenizer(object):
         for replace in self.__re_reattach:
             text = re.sub(replace[0], replace[1], text)
         # Re-establish protected patterns
-        for key, value in protected.items():
+        for key, value in reversed(list(protected.items())):  # A protected text can contain an earlier one
             text = text.replace(key, value)
         return text.split()
 
-- 
2.43.0


From 19c8f506138303f6020e8a461498bc3ddd86c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:41 +0000
Subject: [PATCH 02/22] fix: don't glue the neighbours of 'n' together while
 tokenizing

---
 scrappybara/preprocessing/tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index 3b26548..0fd74ce 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -20,8 +20,8 @@ class Tokenizer(object):
 
     # Unambiguous patterns for text that can't be split
     __re_protect = [
-        re.compile(r"\s'n'\s", re.I),  # Abbreviation for "and"
-        re.compile(r"\s('n|n')\s", re.I),  # Abbreviations for "and" (shorter than above)
+        re.compile(r"(?<=\s)'n'(?=\s)", re.I),  # Abbreviation for "and"
+        re.compile(r"(?<=\s)('n|n')(?=\s)", re.I),  # Abbreviations for "and" (shorter than above)
         re.compile(r'(https?://|www\.)[^\s.]+(\.[^\s.]+)+(/[^\s]*)*', re.I),  # URLs
         re.compile(r'[^\s.]+(\.[^\s.]+)+/[^\s]*', re.I),  # URLs (shorter than above)
         re.compile(r'([:;]-?\))|([:;]-?\()', re.I),  # Common smileys
-- 
2.43.0


From de9c5c9da800f47832e3569be7981236fe4bb374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:50 +0000
Subject: [PATCH 03/22] fix: protect only the matched text, not its other
 occurrences

---
 scrappybara/preprocessing/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index 0fd74ce..acea5d2 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -208,7 +208,7 @@ class Tokenizer(object):
                 token = match.group()
                 key = '_PROTECTED_%d_' % index
                 protected[key] = token
-                text = text.replace(token, key)
+                text = text[:match.start()] + key + text[match.end():]
                 match = re.search(pattern, text)
                 index += 1
         return protected, text
-- 
2.43.0


From e3bc033fef3c8b683d2e78149eb355237993481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:00 +0000
Subject: [PATCH 04/22] fix: don't read the apostrophe of "1990's" as feet

---
 scrappybara/preprocessing/tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index acea5d2..ba79c0f 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -67,7 +67,7 @@ class Tokenizer(object):
         (re.compile(r'\b%s(?=\s[A-Z])' % __abbr_options, re.I), r'\g<1>%s' % __nsd),  # Common abbreviation
         # Quotes
         (re.compile(r'(?<=\s)(\d[\d,.]*)\'(\d[\d,.]*)"', re.I), r'\g<1>ft\g<2>in'),  # Inches and feet
-        (re.compile(r'(?<=\s)(\d[\d,.]*)\'', re.I), r'\g<1>ft'),  # Feet
+        (re.compile(r'(?<=\s)(\d[\d,.]*)\'(?![a-z])', re.I), r'\g<1>ft'),  # Feet
         (re.compile(r'(?<=\s)(\d[\d,.]*)"', re.I), r'\g<1>in'),  # Inches
         # < and >
         (re.compile(r'\s?>\s?=\s?', re.I), __nsge),  # >=
-- 
2.43.0


From 8e1d6d665ba0c1d6f376384aad4f1fde9513a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:31 +0000
Subject: [PATCH 05/22] fix: don't leak the end-of-quote marker into the
 sentencizer's tokens

---
 scrappybara/preprocessing/sentencizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index f27a723..2e9588b 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -17,7 +17,7 @@ class Sentencizer(object):
     __re_bracket_block_end = '⦆'
     __re_sent_enders = re.compile(r'([.?!:]+|¶)')
     __re_sanitization = [
-        (re.compile(r'\."'), '."¶'),  # The end dot of a sentence can be in quote
+        (re.compile(r'\."'), '." ¶ '),  # The end dot of a sentence can be in quote
     ]
 
     def __init__(self, tokenizer=Tokenizer()):
@@ -30,7 +30,7 @@ class Sentencizer(object):
 
         def _insert_quote_block(_token, _ctr):
             _ctr.append('"')
-            _ctr.extend(self.__tokenize(quotes[int(_token[1:-1])]))
+            _ctr.extend([t for t in self.__tokenize(quotes[int(_token[1:-1])]) if t != '¶'])
             _ctr.append('"')
 
         blocks = re.split(self.__re_newline, text)
@@ -54,7 +54,7 @@ class Sentencizer(object):
                         for nested_token in self.__tokenize(brackets[idx]):
                             if nested_token.startswith(self.__re_quote_block_start):
                                 _insert_quote_block(nested_token, sent_tokens_with_blocks)
-                            else:
+                            elif nested_token != '¶':
                                 sent_tokens_with_blocks.append(nested_token)
                         sent_tokens_with_blocks.append(')')
                     else:
-- 
2.43.0


From 8af7753fa3442953a1db9024e4938cdf486e80ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:41 +0000
Subject: [PATCH 06/22] fix: don't emit empty tokens for empty quotes and
 brackets

---
 scrappybara/preprocessing/sentencizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index 2e9588b..bdc1537 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -30,7 +30,7 @@ class Sentencizer(object):
 
         def _insert_quote_block(_token, _ctr):
             _ctr.append('"')
-            _ctr.extend([t for t in self.__tokenize(quotes[int(_token[1:-1])]) if t != '¶'])
+            _ctr.extend([t for t in self.__tokenize(quotes[int(_token[1:-1])]) if t and t != '¶'])
             _ctr.append('"')
 
         blocks = re.split(self.__re_newline, text)
@@ -54,7 +54,7 @@ class Sentencizer(object):
                         for nested_token in self.__tokenize(brackets[idx]):
                             if nested_token.startswith(self.__re_quote_block_start):
                                 _insert_quote_block(nested_token, sent_tokens_with_blocks)
-                            elif nested_token != '¶':
+                            elif nested_token and nested_token != '¶':
                                 sent_tokens_with_blocks.append(nested_token)
                         sent_tokens_with_blocks.append(')')
                     else:
-- 
2.43.0


From 4f0891746c4e0040e3a8d3aa7edd0f7a6d4e502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:50 +0000
Subject: [PATCH 07/22] fix: raise the errors of worker threads instead of
 dropping their items

---
 scrappybara/utils/multithreading.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/multithreading.py b/scrappybara/utils/multithreading.py
index 648d954..85d2225 100644
--- a/scrappybara/utils/multithreading.py
+++ b/scrappybara/utils/multithreading.py
@@ -11,9 +11,13 @@ class _Thread(threading.Thread):
         self.__input_items = input_items
         self.__process = process
         self.output_items = []
+        self.error = None
 
     def run(self):
-        self.output_items = [self.__process(item) for item in self.__input_items]
+        try:
+            self.output_items = [self.__process(item) for item in self.__input_items]
+        except Exception as error:
+            self.error = error
 
 
 def run_multithreads(items, process, nb_threads):
@@ -25,5 +29,8 @@ def run_multithreads(items, process, nb_threads):
         nb_threads[idx].start()
     for idx, _ in enumerate(items_lists):
         nb_threads[idx].join()
+    for idx, _ in enumerate(items_lists):
+        if nb_threads[idx].error is not None:
+            raise nb_threads[idx].error
         output_items.extend(nb_threads[idx].output_items)
     return output_items
-- 
2.43.0


From 58b175983c9bb1ce885b6ad9777a3e0d057506a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:59 +0000
Subject: [PATCH 08/22] fix: keep all tokens before when they are fewer than
 the context range

---
 scrappybara/langmodel/token_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/token_context.py b/scrappybara/langmodel/token_context.py
index 4b1b1ac..c4ac122 100644
--- a/scrappybara/langmodel/token_context.py
+++ b/scrappybara/langmodel/token_context.py
@@ -22,7 +22,7 @@ class TokenContext(object):
         """Given an order n, returns all combinations of ngram: before/token/after"""
         assert order > 1
         exploring_range = order - 1
-        tokens_before = self.__tokens_before[len(self.__tokens_before) - exploring_range:]
+        tokens_before = self.__tokens_before[max(0, len(self.__tokens_before) - exploring_range):]
         tokens_after = self.__tokens_after[:exploring_range]
         tokens = tokens_before + [self.token] + tokens_after
         return [' '.join(items) for items in self.__slide_window(tokens, order)]
-- 
2.43.0


From e73c38186a88d91c4dec82fc1161d08879ace614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:09 +0000
Subject: [PATCH 09/22] fix: support orders without any ngram in MLE smoothing

---
 scrappybara/langmodel/mle_smoother.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scrappybara/langmodel/mle_smoother.py b/scrappybara/langmodel/mle_smoother.py
index faa2e36..0fa9c54 100644
--- a/scrappybara/langmodel/mle_smoother.py
+++ b/scrappybara/langmodel/mle_smoother.py
@@ -34,8 +34,8 @@ class MLESmoother(Smoother):
     def __call__(self):
         for order in range(1, self._last_order + 1):
             data_slices = []
-            ngrams = self._ngrams[order]
-            for process_range in self._process_ranges(len(self._ngrams.get(order, []))):
+            ngrams = self._ngrams.get(order, [])
+            for process_range in self._process_ranges(len(ngrams)):
                 np_counts = np.array([ngrams[i].count for i in process_range])
                 data_slices.append(_DataSlice(np_counts, self.__total_counts[order]))
             np_probas = calc_ngrams_multithread(data_slices, _calc_ngrams, self._nb_processes)
-- 
2.43.0


From a87806534673ea0a9a92f74f8475023530c6d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:18 +0000
Subject: [PATCH 10/22] fix: past participle of verbs ending with vowel + e

---
 scrappybara/normalization/inflector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/normalization/inflector.py b/scrappybara/normalization/inflector.py
index 82bcadc..8753f96 100644
--- a/scrappybara/normalization/inflector.py
+++ b/scrappybara/normalization/inflector.py
@@ -19,7 +19,7 @@ class Inflector(object):
             if len(lemma) > 1:
                 if lemma[-2] in CONSONANTS and lemma[-1] == 'y':
                     return lemma[:-1] + 'ied'
-                if lemma[-2] in CONSONANTS and lemma.endswith('e'):
+                if lemma.endswith('e'):
                     return lemma + 'd'
                 if lemma[-2] in VOWELS and lemma[-1] in CONSONANTS:
                     best = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')
-- 
2.43.0


From 52baa6fa4d50b853d1314ad06de32fdc388c4d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:26 +0000
Subject: [PATCH 11/22] fix: return exactly one tag per token

---
 scrappybara/syntax/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/syntax/tagger.py b/scrappybara/syntax/tagger.py
index 1ba77ea..6fbed11 100644
--- a/scrappybara/syntax/tagger.py
+++ b/scrappybara/syntax/tagger.py
@@ -21,4 +21,4 @@ class Tagger(object):
         data_per_sentence = [vectorize_sentence(tokens, self.__charset, self.__wordset) for tokens in token_lists]
         seq_lengths, char_codes, word_vectors = zip(*data_per_sentence)
         tag_codes = self.__ptags_model.predict(char_codes, word_vectors)
-        return [[Tag(code) for code in tag_codes[idx][1:sl + 1]] for idx, sl in enumerate(seq_lengths)]
+        return [[Tag(code) for code in tag_codes[idx][1:sl - 1]] for idx, sl in enumerate(seq_lengths)]
-- 
2.43.0


From 1b0f870e32b85db2199465855f4d6d40ad48518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:54 +0000
Subject: [PATCH 12/22] fix: don't attach a second parent to a token while
 parsing

---
 scrappybara/syntax/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scrappybara/syntax/parser.py b/scrappybara/syntax/parser.py
index d8e72b2..7001027 100644
--- a/scrappybara/syntax/parser.py
+++ b/scrappybara/syntax/parser.py
@@ -71,7 +71,8 @@ class _Parse(object):
 
     def register_transition(self, trans):
         if trans == Trans.LEFT:
-            self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
+            if not any([child_idx == self.__stack[-1] for _, _, child_idx in self.arcs]):  # Only one parent per token
+                self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
             self.__reduce()
         elif trans == Trans.RIGHT:
             self.arcs.append((self.__pdep(self.__buffer[0]), self.__stack[-1], self.__buffer[0]))
-- 
2.43.0


From 35a8e3b6f8c22892747ebba8a5815ebdfe5b2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:06 +0000
Subject: [PATCH 13/22] fix: don't make a sentence of one empty token out of
 blank lines

---
 scrappybara/preprocessing/sentencizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index bdc1537..c49f280 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -42,7 +42,7 @@ class Sentencizer(object):
                                      self.__re_bracket_block_end) for block in blocks]
         token_lists = []
         for block in blocks:
-            tokens = self.__tokenize(block)
+            tokens = [token for token in self.__tokenize(block) if token]  # Blank text has an empty token
             for sent_tokens in self.__split_sentences(tokens):
                 sent_tokens_with_blocks = []
                 for token in sent_tokens:
-- 
2.43.0


From 4e8b9fc54429435199a70f6e538677bc960326cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:43 +0000
Subject: [PATCH 14/22] fix: negated passives with an agent are negative in
 active form too

---
 scrappybara/semantics/semantic_tuple_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/semantics/semantic_tuple_extractor.py b/scrappybara/semantics/semantic_tuple_extractor.py
index 625f559..7bdd47a 100644
--- a/scrappybara/semantics/semantic_tuple_extractor.py
+++ b/scrappybara/semantics/semantic_tuple_extractor.py
@@ -187,7 +187,7 @@ class SemanticTupleExtractor(object):
             # Active forms
             if prop.tag == Tag.ADJ and prop.active_verb:
                 for agent in [a for a in prop.agents if a.tag in NOUN_TAGS]:
-                    is_aff = xnor(agent.is_aff, prop.is_aff, noun.is_aff)
+                    is_aff = xnor(agent.is_aff, copula.is_aff, prop.is_aff, noun.is_aff)
                     verb_arg = Argument(prop.active_verb, ArgCode.TRANS.value, is_aff)
                     agent_arg = Argument(agent.canon, _noun_arg_code(agent))
                     stuples.append(SemanticTuple(agent_arg, verb_arg, noun_arg))
-- 
2.43.0


From 9dd7e6a34ce754f151dc4f7104dccfc05aa5a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:57 +0000
Subject: [PATCH 15/22] fix: copulas are verbs, as the documentation of tuples
 says

---
 scrappybara/semantics/argument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/semantics/argument.py b/scrappybara/semantics/argument.py
index 0241341..425149b 100644
--- a/scrappybara/semantics/argument.py
+++ b/scrappybara/semantics/argument.py
@@ -8,7 +8,7 @@ class Argument(object):
 
     __codes = {code.value for code in ArgCode}
     __adj_codes = {ArgCode.ADJ.value, ArgCode.PP.value}
-    __verb_codes = {ArgCode.INTR.value, ArgCode.REC.value, ArgCode.TRANS.value}
+    __verb_codes = {ArgCode.COP.value, ArgCode.INTR.value, ArgCode.REC.value, ArgCode.TRANS.value}
 
     def __init__(self, word, code, is_affirmative=True):
         if code not in self.__codes:
-- 
2.43.0


From baf042a62672cc9ec48bf0a4ee912f4e06b3ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:36 +0000
Subject: [PATCH 16/22] fix: a word with uppercase letters does not have only
 lowercase letters

---
 scrappybara/utils/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/text.py b/scrappybara/utils/text.py
index 31568d0..6f798dc 100644
--- a/scrappybara/utils/text.py
+++ b/scrappybara/utils/text.py
@@ -8,6 +8,7 @@ DIGITS = set('0123456789')
 UPPERCASE_LETTERS = set('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
 
 _RE_ONLY_LETTERS = re.compile(r'[a-zA-Z]+')
+_RE_ONLY_LOWERCASE_LETTERS = re.compile(r'[a-z]+')
 
 
 # ###############################################################################
@@ -28,7 +29,7 @@ def has_only_letters(token: str) -> bool:
 
 
 def has_only_lowercase_letters(token: str) -> bool:
-    return bool(re.fullmatch(_RE_ONLY_LETTERS, token))
+    return bool(re.fullmatch(_RE_ONLY_LOWERCASE_LETTERS, token))
 
 
 def token_start(token, ending, start_min_length):
-- 
2.43.0


From d639f7e85a43e4a9ab46365d4eaf282131315aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:19 +0000
Subject: [PATCH 17/22] fix: raise all kinds of exceptions of worker threads,
 also SystemExit

---
 scrappybara/utils/multithreading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/utils/multithreading.py b/scrappybara/utils/multithreading.py
index 85d2225..667b9a4 100644
--- a/scrappybara/utils/multithreading.py
+++ b/scrappybara/utils/multithreading.py
@@ -16,7 +16,7 @@ class _Thread(threading.Thread):
     def run(self):
         try:
             self.output_items = [self.__process(item) for item in self.__input_items]
-        except Exception as error:
+        except BaseException as error:  # Also SystemExit & co, which threads swallow
             self.error = error
 
 
-- 
2.43.0


From 4f0308c674ecd20533e581280cfbfaf9b226342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:03 +0000
Subject: [PATCH 18/22] fix: allow several loops over the arcs of a tree at the
 same time

---
 scrappybara/utils/tree.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/scrappybara/utils/tree.py b/scrappybara/utils/tree.py
index 33a3e9a..d095697 100644
--- a/scrappybara/utils/tree.py
+++ b/scrappybara/utils/tree.py
@@ -12,14 +12,9 @@ class Tree:
         self.__parents = {}  # Node => (label, node)
 
     def __iter__(self):
-        self.__iter = iter(self.__parents.items())
-        return self
-
-    def __next__(self):
         """Arc iterator"""
-        child, rparent = next(self.__iter)
-        label, parent = rparent
-        return label, parent, child
+        for child, (label, parent) in self.__parents.items():
+            yield label, parent, child
 
     def __len__(self):
         return 1 + len(self.__parents.keys())
-- 
2.43.0


From 4afc7456a93760856841f1a6621a9030415aa3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:00 +0000
Subject: [PATCH 19/22] fix: keep pilcrows and other signs that the sentence
 splitter took for its own marks

---
 scrappybara/preprocessing/sentencizer.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index c49f280..e4d3475 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -11,13 +11,15 @@ class Sentencizer(object):
     __re_quote = re.compile(r'".*?"')
     __re_bracket = re.compile(r'\(.*?\)')
     __re_multi_spaces = re.compile(r'\s+')
-    __re_quote_block_start = '༺'
-    __re_quote_block_end = '༻'
-    __re_bracket_block_start = '⦅'
-    __re_bracket_block_end = '⦆'
-    __re_sent_enders = re.compile(r'([.?!:]+|¶)')
+    # Markers are private-use characters, so that they can't be characters of the text
+    __re_quote_block_start = '\ue000'
+    __re_quote_block_end = '\ue001'
+    __re_bracket_block_start = '\ue002'
+    __re_bracket_block_end = '\ue003'
+    __quote_end = '\ue004'
+    __re_sent_enders = re.compile(r'([.?!:]+|%s)' % __quote_end)
     __re_sanitization = [
-        (re.compile(r'\."'), '." ¶ '),  # The end dot of a sentence can be in quote
+        (re.compile(r'\."'), '." %s ' % __quote_end),  # The end dot of a sentence can be in quote
     ]
 
     def __init__(self, tokenizer=Tokenizer()):
@@ -30,7 +32,7 @@ class Sentencizer(object):
 
         def _insert_quote_block(_token, _ctr):
             _ctr.append('"')
-            _ctr.extend([t for t in self.__tokenize(quotes[int(_token[1:-1])]) if t and t != '¶'])
+            _ctr.extend([t for t in self.__tokenize(quotes[int(_token[1:-1])]) if t and t != self.__quote_end])
             _ctr.append('"')
 
         blocks = re.split(self.__re_newline, text)
@@ -54,7 +56,7 @@ class Sentencizer(object):
                         for nested_token in self.__tokenize(brackets[idx]):
                             if nested_token.startswith(self.__re_quote_block_start):
                                 _insert_quote_block(nested_token, sent_tokens_with_blocks)
-                            elif nested_token and nested_token != '¶':
+                            elif nested_token and nested_token != self.__quote_end:
                                 sent_tokens_with_blocks.append(nested_token)
                         sent_tokens_with_blocks.append(')')
                     else:
@@ -82,7 +84,7 @@ class Sentencizer(object):
         current_sent = []
         for token in tokens:
             if re.fullmatch(self.__re_sent_enders, token):
-                if token != '¶':
+                if token != self.__quote_end:
                     current_sent.append(token)
                 sents.append(current_sent)
                 current_sent = []
-- 
2.43.0


From 157165186e61d4d64e0aa7986ad7549710f13de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:14 +0000
Subject: [PATCH 20/22] fix: lemmatize the inflections of verbs in -ick

---
 scrappybara/normalization/lemmatizer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scrappybara/normalization/lemmatizer.py b/scrappybara/normalization/lemmatizer.py
index 647e91a..026ec54 100644
--- a/scrappybara/normalization/lemmatizer.py
+++ b/scrappybara/normalization/lemmatizer.py
@@ -136,16 +136,16 @@ class Lemmatizer(object):
         # -------------------------------------------------------------------------->
 
         if tag == Tag.VERB:
-            # Min length 8: [picn]icking->picnic
+            # Min length 8: [picn]icking->picnic, [cl]icking->click
             start = token_start(word, 'icking', 2)
             if start is not None:
                 if ends_with_consonant(start):
-                    return _lm_lemma(start, ['ic'], Suffix.PROGRESSIVE)
-            # Min length 7: [picn]icked->picnic
+                    return _lm_lemma(start, ['ic', 'ick'], Suffix.PROGRESSIVE)
+            # Min length 7: [picn]icked->picnic, [cl]icked->click
             start = token_start(word, 'icked', 2)
             if start is not None:
                 if ends_with_consonant(start):
-                    return _lm_lemma(start, ['ic'], Suffix.PAST)
+                    return _lm_lemma(start, ['ic', 'ick'], Suffix.PAST)
             # Min length 7: [formatt]ing->format, [roll]ing->roll
             start = token_start(word, 'ing', 4)
             if start is not None:
@@ -156,11 +156,11 @@ class Lemmatizer(object):
             start = token_start(word, 'ing', 3)
             if start is not None:
                 return _lm_lemma(start[:-1], [start[-1], start[-1] + 'e'], Suffix.PROGRESSIVE)
-            # Min length 6: [picn]icks->picnic
+            # Min length 6: [picn]icks->picnic, [cl]icks->click
             start = token_start(word, 'icks', 2)
             if start is not None:
                 if ends_with_consonant(start):
-                    return _lm_lemma(start, ['ic'], Suffix.THIRD_PERSON)
+                    return _lm_lemma(start, ['ic', 'ick'], Suffix.THIRD_PERSON)
             # Min length 6: [formatt]ed->format, [roll]ed->roll
             start = token_start(word, 'ed', 4)
             if start is not None:
-- 
2.43.0


From 71364612c4c247fb87fcec361189d62ea66cb783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:14 +0000
Subject: [PATCH 21/22] fix: lemmatize the past forms of verbs in -ie and -i

---
 scrappybara/normalization/lemmatizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scrappybara/normalization/lemmatizer.py b/scrappybara/normalization/lemmatizer.py
index 026ec54..f60af0b 100644
--- a/scrappybara/normalization/lemmatizer.py
+++ b/scrappybara/normalization/lemmatizer.py
@@ -167,11 +167,11 @@ class Lemmatizer(object):
                 endings = vowel_double_consonant_endings(start)
                 if endings is not None:
                     return _lm_lemma(start[:-2], endings, Suffix.PAST)
-            # Min length 5: [part]ied->party
+            # Min length 5: [part]ied->party, [bel]ied->belie, [tax]ied->taxi
             start = token_start(word, 'ied', 2)
             if start is not None:
                 if ends_with_consonant(start):
-                    return _lm_lemma(start, ['y'], Suffix.PAST)
+                    return _lm_lemma(start, ['y', 'ie', 'i'], Suffix.PAST)
             # Min length 4: [part]ies->party, [l]ies->lie
             start = token_start(word, 'ies', 1)
             if start is not None:
-- 
2.43.0


From 98ceb46c1c64b688bd0a74bfb959dac5f44bcd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:14 +0000
Subject: [PATCH 22/22] fix: lemmatize the inflections of verbs in double
 consonant + e

---
 scrappybara/normalization/lemmatizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scrappybara/normalization/lemmatizer.py b/scrappybara/normalization/lemmatizer.py
index f60af0b..196ae81 100644
--- a/scrappybara/normalization/lemmatizer.py
+++ b/scrappybara/normalization/lemmatizer.py
@@ -146,12 +146,12 @@ class Lemmatizer(object):
             if start is not None:
                 if ends_with_consonant(start):
                     return _lm_lemma(start, ['ic', 'ick'], Suffix.PAST)
-            # Min length 7: [formatt]ing->format, [roll]ing->roll
+            # Min length 7: [formatt]ing->format, [roll]ing->roll, [finess]ing->finesse
             start = token_start(word, 'ing', 4)
             if start is not None:
                 endings = vowel_double_consonant_endings(start)
                 if endings is not None:
-                    return _lm_lemma(start[:-2], endings, Suffix.PROGRESSIVE)
+                    return _lm_lemma(start[:-2], endings + [endings[-1] + 'e'], Suffix.PROGRESSIVE)
             # Min length 6: [bark]ing->bark, [bak]ing->bake, [free]ing->free, [dye]ing->dye, [singe]ing->singe
             start = token_start(word, 'ing', 3)
             if start is not None:
@@ -161,12 +161,12 @@ class Lemmatizer(object):
             if start is not None:
                 if ends_with_consonant(start):
                     return _lm_lemma(start, ['ic', 'ick'], Suffix.THIRD_PERSON)
-            # Min length 6: [formatt]ed->format, [roll]ed->roll
+            # Min length 6: [formatt]ed->format, [roll]ed->roll, [finess]ed->finesse
             start = token_start(word, 'ed', 4)
             if start is not None:
                 endings = vowel_double_consonant_endings(start)
                 if endings is not None:
-                    return _lm_lemma(start[:-2], endings, Suffix.PAST)
+                    return _lm_lemma(start[:-2], endings + [endings[-1] + 'e'], Suffix.PAST)
             # Min length 5: [part]ied->party, [bel]ied->belie, [tax]ied->taxi
             start = token_start(word, 'ied', 2)
             if start is not None:
-- 
2.43.0

