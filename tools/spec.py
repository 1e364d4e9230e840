"""The properties, in one place. `python tools/spec.py` rewrites properties.jsonl and MANIFEST.json from it."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note))


S = 'scrappybara/'

# ###############################################################################
# PREPROCESSING
# ###############################################################################

prop('C01', 'Tokenization conserves the text',
     'The tokens of a text, read one after the other, contain every non-blank character of the text in its order and nothing else, up to '
     'the documented typographic normalizations (curly quotes to straight quotes, long dashes to "-", feet and inches marks to "ft" and "in"). '
     'No token is empty or contains a blank, and any non-empty text can be tokenized.',
     ['inputs'], 'every unicode text of at least one character without the tokenizer\'s own placeholder words (known finding)',
     'The tests compare the tokens of about a hundred chosen sentences; losing, duplicating or inventing characters depends on how '
     'several dozen rewriting patterns interact on an arbitrary text.',
     [S + 'preprocessing/tokenizer.py', S + 'preprocessing/sanitization.py'],
     [('rewriting passes that only insert blanks', S + 'preprocessing/tokenizer.py:Tokenizer.__call__'),
      ('placeholders for protected texts, restored at the end', S + 'preprocessing/tokenizer.py:Tokenizer.__protect_text')],
     'property-based testing: conservation invariant (character alignment) over generated texts',
     'Bounded by the number of generated texts (tens of thousands, up to about 60 fragments). Trusts the aligner, which accepts only the '
     'listed normalizations.')

prop('C02', 'Blanks and typography do not change the tokens',
     'Two texts that differ only in the kind and number of blanks between the same words, or before and after the text, have the same tokens. '
     'So do two texts that differ only in the typographic variant of quotes (curly or straight) or of long dashes. '
     'The answer for a text does not depend on the texts that were tokenized before.',
     ['inputs', 'histories'], 'every pair of variants of a text; every sequence of texts given to one tokenizer',
     'The relation is between two arbitrary inputs; the tests only have single inputs, nearly all with single spaces and straight quotes.',
     [S + 'preprocessing/tokenizer.py', S + 'preprocessing/sanitization.py'],
     [('sanitization of quotes, dashes and blanks', S + 'preprocessing/sanitization.py:sanitize'),
      ('no state between calls', S + 'preprocessing/tokenizer.py:Tokenizer.__call__')],
     'property-based testing: metamorphic relation between variants of a generated text',
     'Bounded by the number of generated pairs. Needs no reference tokenizer.')

prop('C03', 'Punctuation, clitics and symbols are segmented off in any context',
     'In any sentence, each of these is a token of its own wherever it occurs: runs of ? ! " ; | \\ ( ) [ ] { } =, ellipses, commas and final dots '
     'after a word, the comparison signs >= <= => =< > <, dashes between blanks, bullets, and the clitics n\'t \'re \'ll \'ve \'m \'d \'s; "cannot" is "can" + "not". '
     'Words joined by / : & + * or a missing space after a sentence-ending dot are separated from each other and from the sign, and other words are left alone. '
     'The tokenization of such an item does not depend on the items around it.',
     ['inputs'], 'every sequence of words, numbers and such items, in any order, with any words',
     'Each test has one item in one context; the patterns look at surrounding characters, so that a neighbour or a position can change the result.',
     [S + 'preprocessing/tokenizer.py'],
     [('patterns that always or contextually insert blanks', S + 'preprocessing/tokenizer.py:Tokenizer'),
      ('order of the passes', S + 'preprocessing/tokenizer.py:Tokenizer.__call__')],
     'property-based testing: texts built from items whose tokens are known by construction',
     'Bounded by the number of generated texts; the expected tokens come from the construction, not from the code.')

prop('C04', 'Texts that must not be split stay in one piece',
     'In any sentence, a URL (with scheme, with www or with a path), a domain name, an e-mail address, a decimal, a number with thousands separators, a time, '
     'a dotted acronym, an initial, an abbreviation such as "Dr." before a capitalized word, a smiley, the contracted "and" (\'n\', n\', \'n), R&D-like acronyms '
     'and feet and inches measures are exactly one token each, unchanged. This holds for any number of them in one text and whatever stands around them.',
     ['inputs'], 'every sequence of such items and ordinary words, any number of them, any URL path',
     'The tests have one or two such items in a fixed place; protecting several of them, or one inside another, goes through placeholders.',
     [S + 'preprocessing/tokenizer.py'],
     [('protected patterns and placeholders', S + 'preprocessing/tokenizer.py:Tokenizer.__protect_text'),
      ('non-splittable dots and symbols', S + 'preprocessing/tokenizer.py:Tokenizer')],
     'property-based testing: texts built from items whose tokens are known by construction',
     'Bounded by the number of generated texts; the expected tokens come from the construction, not from the code.')

prop('C05', 'Splitting into sentences conserves the text',
     'The tokens of all sentences of a text, read one after the other, contain every non-blank character of the text in its order and nothing else '
     '(same normalizations as tokenization), including inside quotes and brackets, nested or not. No sentence is empty, no token is empty, and internal '
     'markers never appear in the output. Any text can be split.',
     ['inputs'], 'every text without private-use characters and without the tokenizer\'s own placeholder words',
     'Quotes and brackets are cut out, numbered and put back; the tests have at most two quoted parts per text and no unbalanced ones.',
     [S + 'preprocessing/sentencizer.py', S + 'preprocessing/tokenizer.py'],
     [('quote and bracket blocks replaced by markers, then restored', S + 'preprocessing/sentencizer.py:Sentencizer.__call__'),
      ('offset arithmetic while replacing', S + 'preprocessing/sentencizer.py:Sentencizer.__find_blocks')],
     'property-based testing: conservation invariant over generated texts',
     'Bounded by the number of generated texts (tens of thousands, up to 120 blocks per text).')

prop('C06', 'Sentence boundaries are exactly where they should be',
     'A sentence ends after . ? ! : or a run of them as a token of its own, after a quote that closes right after a dot, and at a line break or tab; and nowhere else. '
     'Enders inside a quoted or bracketed part, abbreviations, decimals, times, URLs and acronyms do not end a sentence. '
     'Each sentence has its own tokens, as if it were alone.',
     ['inputs'], 'every sequence of sentences, with any words, quotes, brackets and line breaks',
     'The tests have about thirty short texts; boundaries depend on the context of every dot and on quotes and brackets around.',
     [S + 'preprocessing/sentencizer.py', S + 'preprocessing/tokenizer.py'],
     [('ender tokens', S + 'preprocessing/sentencizer.py:Sentencizer.__split_sentences'),
      ('blocks for quotes and brackets', S + 'preprocessing/sentencizer.py:Sentencizer.__find_blocks')],
     'property-based testing: texts built from sentences whose boundaries are known by construction',
     'Bounded by the number of generated texts.')

# ###############################################################################
# UTILITIES
# ###############################################################################

prop('C07', 'Parallel processing gives what sequential processing gives',
     'Running a function over a list of items on any number of threads returns one result per item, in the order of the items, each item being processed exactly once, '
     'whatever the order in which the threads finish. '
     'If the function raises for some item, the caller gets an exception instead of a result with missing items.',
     ['schedules', 'inputs', 'fault_sequences'], 'every list, number of threads, completion order of the threads and set of failing items',
     'No test calls it directly; the pipeline tests run it with one item per call and no failing item.',
     [S + 'utils/multithreading.py', S + 'utils/mutables.py'],
     [('one part of the list per thread, results joined in order', S + 'utils/multithreading.py:run_multithreads'),
      ('division of the list', S + 'utils/mutables.py:divide_list')],
     'property-based testing with generated schedules and injected failures, against sequential execution',
     'Schedules are controlled at item granularity (workers released one by one in a generated order, or delayed); preemption inside the interpreter is left to it.')

prop('C08', 'Dividing and batching lists loses nothing',
     'Dividing a list into a number of parts, or batching it, gives consecutive parts which, joined in order, are the list itself. '
     'Parts are never empty and their sizes differ by at most one when dividing (there are as many parts as asked, or one per item when the list is shorter); '
     'batches all have the requested size except the last, which may be smaller.',
     ['inputs'], 'every list and every positive number of parts or batch size',
     'No test covers it; the bounds come from floating-point arithmetic, which can be off by one for particular sizes only.',
     [S + 'utils/mutables.py'],
     [('float ranges truncated to indexes', S + 'utils/mutables.py:divide_list'), ('slices', S + 'utils/mutables.py:make_batches')],
     'exhaustive small grid plus property-based testing, against the algebraic definition',
     'Exhaustive up to 90 items and 110 parts, sampled up to 3,000 items.')

# ###############################################################################
# LANGUAGE MODEL
# ###############################################################################

prop('C09', 'Ngram extraction and counting',
     'For every order, the ngrams extracted from tokenized sentences are exactly the windows of that many consecutive tokens of one sentence whose tokens all are either the pronoun "I" or '
     'words of ASCII letters that do not start with a capital; they are given in lower case, from left to right. '
     'Each is counted once per occurrence, never across sentences, and counts add up whatever the way sentences are fed.',
     ['inputs', 'histories'], 'every list of sentences, every order, every grouping of the sentences into successive additions',
     'The builder tests have one small corpus; counts depend on sentence borders, rejected tokens and on the way sentences are grouped.',
     [S + 'langmodel/ngrams_extraction.py', S + 'langmodel/ngram_store.py', S + 'langmodel/ngram.py'],
     [('windows over sentences', S + 'langmodel/ngrams_extraction.py:extract_ngrams'), ('counting', S + 'langmodel/ngram_store.py:NgramStore')],
     'property-based testing against a reference counter', 'Bounded by the number of generated corpora (small vocabularies).')

prop('C10', 'Maximum-likelihood probabilities are relative frequencies',
     'With maximum-likelihood estimation, the probability of an ngram is its count divided by the total count of the ngrams of its order, so that the probabilities of each order add up to one, '
     'for every ngram of every order, whatever the number of processes, also when an order has no ngram. '
     'No ngram is lost or duplicated, and its count and log-probability agree with its probability.',
     ['inputs', 'configurations'], 'every corpus, maximum order and number of processes',
     'The only test compares a few values on one corpus with one number of processes.',
     [S + 'langmodel/mle_smoother.py', S + 'langmodel/smoother.py'],
     [('total count per order', S + 'langmodel/mle_smoother.py:MLESmoother'), ('parallel division', S + 'langmodel/smoother.py:Smoother')],
     'property-based testing against a reference estimator', 'Compared to 1e-9; bounded by the number of generated corpora.')

prop('C11', 'Modified Kneser-Ney probabilities are those of the method',
     'With modified Kneser-Ney smoothing, every ngram of every order gets the interpolated probability defined by Chen and Goodman: '
     'discounts computed per order from the numbers of ngrams seen once to four times, raw counts for the highest order and continuation counts below, back-off weights from '
     'the number of ngrams seen once, twice and more. '
     'The result does not depend on the number of processes, and data without enough low counts is refused with a dedicated error.',
     ['inputs', 'configurations'], 'every corpus rich enough, every maximum order and number of processes; every corpus that is not rich enough',
     'The test checks a handful of values on one corpus; errors in a count or discount only show for particular ngrams.',
     [S + 'langmodel/mkn_smoother.py', S + 'langmodel/ngram.py'],
     [('continuation counts, discounts and recursion over orders', S + 'langmodel/mkn_smoother.py:MKNSmoother')],
     'property-based testing against an independent implementation of the formula',
     'Trusts the independent implementation (written from the published formula and agreed with on the unchanged tree).')

prop('C12', 'A built language model can be loaded with the same content',
     'Building a language model writes, for each order up to the maximum, exactly the ngrams of the texts that have a positive probability, with their counts and probabilities, by decreasing probability, and loading it with minimum counts '
     'gives exactly the ngrams with at least these counts. '
     'The result depends only on the texts, not on the number of processes, earlier files or earlier uses of the builder; an error raised by the iterator of texts reaches the caller; and an unknown smoothing name, or too low an order for the method, is refused.',
     ['inputs', 'configurations', 'histories'], 'every iterator of texts, maximum order, smoothing method, number of processes and minimum counts',
     'The tests build one model with a fixed configuration and never load it back.',
     [S + 'langmodel/language_model_builder.py', S + 'langmodel/language_model.py', S + 'utils/files.py'],
     [('extraction, smoothing and writing', S + 'langmodel/language_model_builder.py:LanguageModelBuilder'),
      ('reading', S + 'langmodel/language_model.py:LanguageModel')],
     'property-based testing: round trip through the files, against reference counts and probabilities',
     'Files live in a scratch folder. Uses the sentence splitter under test to cut texts (its own properties are C05 and C06).')

prop('C13', 'Language model queries give the most likely known ngram',
     'The best ngram is the candidate with the highest probability; the best token in a context is the one whose longest window around it is the most likely, shorter windows and the token itself deciding ties; '
     'there is no answer when no candidate is known. Counts and membership are those of the loaded ngrams. Next words (after the longest known end of the text) and top ngrams of an order are all and only '
     'the loaded ones, in decreasing probability, up to the limit asked.',
     ['inputs', 'histories'], 'every loaded model and every sequence of queries',
     'The tests query a dozen words on one model; the answer depends on ties, orders, contexts and unknown candidates.',
     [S + 'langmodel/language_model.py', S + 'langmodel/ngram.py'],
     [('lookup per order', S + 'langmodel/language_model.py:LanguageModel')],
     'property-based testing: generated models and query sequences against a reference dictionary',
     'When candidates tie, any of them is accepted.')

prop('C14', 'Context windows are exactly the windows around a token',
     'The candidate windows of an order around a token are exactly the sequences of that many consecutive tokens that include the token, '
     'for any number of tokens before and after; the left and right sequences are the tokens up to, and from, the token.',
     ['inputs'], 'every token, context and order', 'The tests have three contexts with enough tokens on both sides.',
     [S + 'langmodel/token_context.py'], [('slices around the token', S + 'langmodel/token_context.py:TokenContext')],
     'exhaustive small grid plus property-based testing against the definition', 'Contexts up to 7 tokens on each side, orders up to 9.')

# ###############################################################################
# NORMALIZATION
# ###############################################################################

prop('C15', 'Spelling standardization picks the known and most likely variant',
     'A word with a British/American spelling alternative (-our/-or, -ise/-ize, -yse/-yze, -ce/-se, -ogue/-og, -ell-/-el-, ae/e, oe/e), in any inflection, is rewritten to the '
     'variant the language model finds most likely, with its inflection kept; a word that the model knows well (count of 5 or more), or without known variant, is returned unchanged. '
     'Nothing else changes in the word.',
     ['inputs', 'configurations'], 'every word and every language model',
     'The tests have about twenty words with one language model; the result depends on which variants the model knows.',
     [S + 'normalization/standardizer.py'], [('pattern per alternative', S + 'normalization/standardizer.py:Standardizer')],
     'property-based testing against a reference model', 'Alternatives are composed from generated stems; ties accept either spelling.')

prop('C16', 'Lemmatization gives the known base form and the right inflection',
     'For every word and part of speech, the lemma is the base form given by the irregular forms of the data files (also behind a prefix or a hyphen), or else the base form '
     'that the language model knows among those the inflection rules allow, with the inflection detected; a word without known base form is returned in lower case without inflection. '
     'Case never matters, and lemmatizing the same word again gives the same answer.',
     ['inputs', 'configurations'], 'every word, part of speech and language model; all irregular forms of the data files',
     'The tests have about a hundred words with one language model; rules are tried in order and guarded by conditions on letters.',
     [S + 'normalization/lemmatizer.py', S + 'utils/text.py'],
     [('rules per part of speech, first match wins', S + 'normalization/lemmatizer.py:Lemmatizer'), ('irregular tables', S + 'data/english')],
     'exhaustive over the data files plus property-based testing against a reference rule table',
     'The irregular forms are covered exhaustively; regular words are sampled. Ties accept any of the most likely base forms.')

prop('C17', 'Past participles are right and lemmatize back to the verb',
     'The past participle of an irregular verb is the one of the data files; that of a regular verb follows the spelling rules (-ed, -d after e, -ied after consonant + y, '
     'doubled consonant only if the language model finds it more likely). '
     'Lemmatizing the past participle of a known verb as a verb gives the verb back, as a past form.',
     ['inputs', 'configurations'], 'every verb and language model; all irregular verbs of the data files',
     'The tests have six verbs; inflection and lemmatization are separate rule sets that must agree on every verb.',
     [S + 'normalization/inflector.py', S + 'normalization/lemmatizer.py'],
     [('spelling rules', S + 'normalization/inflector.py:Inflector.past_participle')],
     'exhaustive over the data files plus property-based testing: reference rules and round trip',
     'The round trip excludes verbs in -i, -ie and -ic, whose participles are ambiguous.')

# ###############################################################################
# SYNTAX
# ###############################################################################

prop('C18', 'Transitions taught from a labelled sentence rebuild its tree',
     'For every labelled sentence with a projective tree, replaying the transitions derived from its labels through the parser gives exactly the labelled tree: the same arcs, labels, root and tags, '
     'with the tokens out of the tree left out. '
     'The derived transitions decide exactly once on every state that the parser reaches.',
     ['inputs', 'histories'], 'every projective tree (up to the maximum sentence length), any labels, any tokens out of the tree',
     'The tests derive transitions for three sentences and never run the parser, whose models are not in the repository.',
     [S + 'syntax/labelled_data.py', S + 'syntax/parser.py', S + 'syntax/transitions.py'],
     [('derivation of transitions', S + 'syntax/labelled_data.py:LabelledSentence.transitions'), ('transition system', S + 'syntax/parser.py:Parser')],
     'exhaustive small trees plus property-based testing: round trip labels, transitions, parser',
     'Neural models are replaced by stand-ins that answer the derived transitions. All trees up to 5 nodes, sampled up to 50.')

prop('C19', 'Parsing always ends with a well-formed tree for each sentence',
     'Whatever tags, dependencies and transitions the models predict, parsing ends without error and gives each sentence, in order, its own tags and a tree that is either absent or well-formed: '
     'a single parent per token, no cycle, one root, arcs only between tokens that are in the tree, labels as predicted for the child. '
     'The arcs are those the predicted transitions build in an arc-eager system, whatever the number of cores and the batch size.',
     ['inputs', 'histories', 'configurations'], 'every batch of sentences, every sequence of predictions, every number of cores and batch size',
     'No test runs the parser with wrong predictions; a trained model makes arbitrary mistakes.',
     [S + 'syntax/parser.py', S + 'utils/tree.py'], [('transition system with guards', S + 'syntax/parser.py:Parser')],
     'property-based testing: adversarial predictions against a reference arc-eager parser',
     'Neural models are replaced by stand-ins; sentences up to 50 tokens.')

prop('C20', 'The dependency tree answers all queries consistently',
     'After any sequence of attachments, all queries on a tree (parent, children, children by label, siblings, ancestors and descendants by label, membership, iteration over arcs, size, root) '
     'agree with the set of arcs that were attached, in the order of attachment. Asking never changes the answers, also while looping over the arcs.',
     ['histories'], 'every sequence of attachments and queries', 'No test covers the tree directly.',
     [S + 'utils/tree.py'], [('two indexes, by parent and by child', S + 'utils/tree.py:Tree')],
     'stateful property-based testing against a plain list of arcs', 'Histories up to 60 attachments.')

prop('C21', 'Sentences are encoded faithfully for the models',
     'Encoding a sentence for the models gives, for each token, the codes of its characters and its word vector at its own position, between start and end marks and followed by padding; unknown characters '
     'and words get their reserved values, words longer than the maximum are cut to it, and words are looked up in lower case. '
     'Sentences longer than the maximum are refused, and a pointer to a token marks exactly its position.',
     ['inputs'], 'every sentence up to the maximum length, any characters, any position', 'No test covers the encoding.',
     [S + 'syntax/training_samples.py', S + 'syntax/charset.py', S + 'syntax/wordset.py'],
     [('padding', S + 'syntax/training_samples.py:vectorize_sentence'), ('pointers', S + 'syntax/training_samples.py:make_masks')],
     'property-based testing: position by position comparison with the tables; exhaustive pointers', 'Lengths up to 53 tokens of up to 40 characters.')

prop('C22', 'Multiword names, particles and functional words are grouped as labelled',
     'Every word of the parsed tree ends up in exactly one place: a chain of words joined as one name becomes one unit with all its words in order, the particles of a verb or adjective are attached to it in order '
     '("to" in front only marks an infinitive), functional words (articles, auxiliaries, modals, negations, markers, interjections) give no unit, and every other word is a unit of its own. '
     'Words out of the tree never give one, and the units keep the dependencies of their words.',
     ['inputs'], 'every dependency tree', 'The tests have about thirty labelled sentences with one name or particle each.',
     [S + 'syntax/nodifier.py', S + 'syntax/node.py'], [('flattening, particles, remaining words', S + 'syntax/nodifier.py:Nodifier')],
     'property-based testing over generated trees against a reference grouping',
     'Trees where a word has at most one continuation of a name; others are only required not to fail (C23).')

prop('C23', 'Semantic tuples are well-formed on any tree',
     'Extraction never fails, whatever the dependency tree, tags and words, and sentences without tree give no tuple. Every tuple has one of the documented forms '
     '(noun-like + verb, noun-like + verb + noun-like or adjective, or the four and five argument forms with a clause), negation is carried by the first verb only, '
     'and every argument is made of the base forms of words of the same sentence, or is "be".',
     ['inputs'], 'every tree, tags and words, including those a wrong prediction gives',
     'The tests have well-formed human-labelled sentences only; the models can predict any tree.',
     [S + 'semantics/semantic_tuple_extractor.py', S + 'syntax/arg_finder.py', S + 'pipeline/logic_pipeline.py'],
     [('tags checked before each argument', S + 'semantics/semantic_tuple_extractor.py:SemanticTupleExtractor')],
     'property-based testing: totality and shape invariants over arbitrary trees', 'Trees up to 25 nodes with any labels and tags.')

prop('C24', 'The facts extracted are exactly those the syntax states',
     'From a parsed sentence, the semantic tuples are exactly those its dependencies state: subject-verb(-object, -recipient) facts with coordinated subjects, objects and properties distributed, subjects and '
     'objects shared by coordinated verbs, properties through copulas, adjectives, participles and indirect properties, clause objects, passives with "by" agents turned active, and objects turned passive. '
     'Relative and reflexive pronouns are replaced by what they stand for, object pronouns are given in subject form, and each fact is negative exactly when an odd number of its members is negated; '
     'each argument carries the code of its kind and the base form of its word, with particles, compound nouns being joined when asked.',
     ['inputs'], 'every dependency tree over words of every part of speech',
     'The tests have some thirty sentences; sharing, resolution and polarity rules interact in every combination of tree shapes.',
     [S + 'syntax/arg_finder.py', S + 'semantics/semantic_tuple_extractor.py', S + 'syntax/chunker.py', S + 'syntax/fixer.py', S + 'normalization/canonicalizer.py', S + 'pipeline/logic_pipeline.py', S + 'syntax/node.py',
      S + 'syntax/dependencies.py', S + 'syntax/tags.py'],
     [('registration of arguments', S + 'syntax/arg_finder.py:ArgFinder'), ('three rounds of extraction', S + 'semantics/semantic_tuple_extractor.py:SemanticTupleExtractor')],
     'property-based testing: generated labelled sentences against a relational reference model, and sentences composed with known facts',
     'The reference model was written as relations over the labelled tree and agreed with on the unchanged tree; tuples are compared as multisets.')

prop('C25', 'Extraction is stable under rewording that keeps the syntax',
     'Inserting words out of the tree (punctuation) anywhere, changing the case of words, or exchanging "and" for "or" coordination does not change the tuples. '
     'Negating the main verb (a word that occurs once and has no continuation) negates exactly the facts in which it occurs, and negating it once more changes nothing. '
     'Joining compound nouns or not changes only the words of noun arguments, never the number, kinds or polarity of tuples, and a sentence gives the same tuples alone or in a batch.',
     ['inputs'], 'every labelled sentence and every such transformation of it', 'The relation is between two inputs; no test has pairs.',
     [S + 'pipeline/logic_pipeline.py', S + 'syntax/nodifier.py', S + 'syntax/arg_finder.py', S + 'syntax/chunker.py'],
     [('out-of-tree words skipped', S + 'syntax/nodifier.py:Nodifier'), ('aggregations', S + 'syntax/node.py:Node')],
     'property-based testing: metamorphic relations on generated labelled sentences', 'Needs no reference for the tuples.')

# ###############################################################################
# PIPELINE
# ###############################################################################

prop('C26', 'The pipeline gives each text its own document',
     'The pipeline returns one document of its own per text, in order, each with one entry per sentence of its own text and the tuples of that sentence as if it had been processed alone; empty and blank texts give empty documents. '
     'The result does not depend on the number of cores, the batch size, the device, or the other texts of the call, nor on previous calls.',
     ['inputs', 'configurations', 'histories'], 'every list of texts, number of cores, batch size and sequence of calls',
     'The pipeline tests need models that are not in the repository, and have one or two texts.',
     [S + 'pipeline/pipeline.py', S + 'pipeline/logic_pipeline.py', S + 'syntax/parser.py'],
     [('ranges of sentences per text', S + 'pipeline/pipeline.py:Pipeline.__call__')],
     'property-based testing: batch against single processing, with stand-ins for the models',
     'Neural models are replaced by deterministic stand-ins that depend on the sentence only.')

prop('C27', 'Long sentences are split again, and only those',
     'A sentence of at most 50 tokens reaches the models unchanged. A longer one is cut at colons, semicolons, double quotes, brackets of any kind and dashes, which are dropped, '
     'and its parts are processed as sentences in order, except parts that are still longer than 50 tokens, which are dropped. '
     'The pipeline never fails on long sentences.',
     ['inputs'], 'every text with sentences of any length', 'No test has a sentence of more than 50 tokens.',
     [S + 'pipeline/pipeline.py'], [('second split', S + 'pipeline/pipeline.py:Pipeline.__split_tokens')],
     'property-based testing: sentences given to the stand-in models against a reference split', 'Sentences of 0 to 130 tokens around the limit.')

prop('C28', 'Tuples, sentences and documents give back what they were built from',
     'A tuple has its arguments in order, its code is the concatenation of theirs, and its text form is the code followed by the arguments in brackets, with "NOT" in front of a negated word unless decorators are left out; '
     'each argument code maps to its part of speech, and an unknown code is refused. '
     'A document iterates over its sentences in order and its tuples are those of its sentences in order.',
     ['inputs'], 'every sequence of arguments, words and polarities', 'No test covers the values directly; a few texts are compared.',
     [S + 'semantics/argument.py', S + 'semantics/semantic_tuple.py', S + 'semantics/argument_code.py', S + 'pipeline/document.py', S + 'pipeline/sentence.py'],
     [('plain values', S + 'semantics/semantic_tuple.py:SemanticTuple')],
     'property-based testing against a plain-tuple reference', 'Up to 6 arguments and 5 sentences.')

prop('C29', 'Results are deterministic and shared objects can be used from threads',
     'The same inputs give the same tokens, sentences, language models, normalized words and tuples, in the same order, in every process, whatever the hash seed. '
     'Sharing one tokenizer, sentence splitter, language model or pipeline between threads, with any interleaving, gives each call the result it has alone.',
     ['schedules', 'configurations', 'inputs'], 'every input, hash seed and interleaving of calls',
     'Tests run in one process with one thread; an order that comes from a set, or state kept between calls, shows only in other processes or schedules.',
     [S + 'preprocessing/tokenizer.py', S + 'preprocessing/sentencizer.py', S + 'normalization/lemmatizer.py', S + 'pipeline/logic_pipeline.py', S + 'langmodel/language_model.py'],
     [('no state written by calls', S + 'preprocessing/tokenizer.py:Tokenizer.__call__'), ('lists, not sets, where order matters', S + 'langmodel/language_model.py:LanguageModel')],
     'property-based testing: differential between processes with different hash seeds, and concurrent against sequential calls',
     'Interleavings are those of the interpreter with a very short switch interval; not all schedules are enumerated.')

prop('C30', 'Text marking, table and file helpers round-trip',
     'What is marked as a function call, associated as a pair, or given attributes is read back as it was, missing parts left out; saved objects, word lists and two-column tables are loaded with the same content '
     'in any character of the encoding; reversing a one-to-one table twice gives it back, and grouping helpers keep every item under its key in order. '
     'Splitting a word by ending or prefix gives parts that join to the word, within the required lengths, tests on the letters of a word look at every letter concerned, and the polarity of several members is negative exactly when an odd number is.',
     ['inputs', 'histories'], 'every text without the separators, every object, table and sequence of insertions', 'No test covers these helpers.',
     [S + 'utils/text.py', S + 'utils/files.py', S + 'utils/mutables.py', S + 'utils/maths.py'],
     [('separators', S + 'utils/text.py'), ('files', S + 'utils/files.py')],
     'property-based testing: round trips and algebraic laws', 'Files live in a scratch folder.')

prop('C31', 'Tagging gives exactly one tag per token',
     'Tagging a batch of sentences gives, for each sentence in order, exactly one tag per token, the one predicted for that token, for any sentence length up to the maximum.',
     ['inputs'], 'every batch of sentences and every prediction', 'No test runs the tagger, whose model is not in the repository.',
     [S + 'syntax/tagger.py'], [('padding removed from predictions', S + 'syntax/tagger.py:Tagger')],
     'property-based testing with a stand-in model', 'All lengths from 1 to 50; batches up to 8.')

prop('C32', 'Training data matches the labels',
     'Each sample of the training data pairs the encoding of one labelled sentence with its own labels: one tag sample and one dependency sample per sentence, and one transition sample per derived transition, '
     'pointing at the two tokens concerned. Shuffling only changes the order of the samples; none is lost, duplicated or mixed up.',
     ['inputs', 'schedules'], 'every set of labelled sentences and every shuffling', 'No test covers the extraction of training data.',
     [S + 'syntax/labelled_data.py', S + 'syntax/training_samples.py'],
     [('samples then shuffling', S + 'syntax/labelled_data.py:extract_trans_training_data'), ('encoding', S + 'syntax/training_samples.py:TransSample')],
     'property-based testing: samples decoded from their tensors and matched with the labels', 'Up to 5 sentences of up to 50 tokens.')

prop('C33', 'Character and word tables are faithful',
     'Saving then loading the character table or the word vectors gives the same answers; every known character has its own code, every other character the code of unknown characters, '
     'and the word table has a vector exactly for the words of the vector file that the language model knows, the one of the file, found in any case. Unknown words get the null vector. Asking never changes the tables.',
     ['inputs', 'histories'], 'every vector file, language model and word', 'No test covers the tables.',
     [S + 'syntax/charset.py', S + 'syntax/wordset.py'], [('save and load', S + 'syntax/wordset.py:Wordset'), ('codes', S + 'syntax/charset.py:Charset')],
     'property-based testing: round trip through files against reference tables', 'Files live in a scratch folder; up to 12 words.')

prop('C35', 'The models answer the most likely code of each position',
     'A model answers, for each sentence of a batch in order, the code with the highest probability at each position (or, for transitions, the one code of the sentence), whatever the other sentences of the batch, and every code is a valid tag, '
     'dependency or transition. Each of its arguments counts, and the network sees the arguments the same way when it learns and when it predicts; it is taught the labels given and the accuracy is the best one reached, in percent. '
     'Saving then loading a model gives the same answers, and the three models do not share their files.',
     ['inputs', 'histories'], 'every batch of encoded sentences, every weight of the networks, every sequence of saves and loads', 'No test builds a model; the weights are not in the repository.',
     [S + 'syntax/models.py', S + 'syntax/transitions.py', S + 'syntax/tags.py', S + 'syntax/dependencies.py', S + 'config.py'], [('highest probabilities', S + 'syntax/models.py:PTagsModel.predict'), ('learning', S + 'syntax/models.py:_SentenceModel'), ('two tokens of a transition', S + 'syntax/models.py:TransModel')],
     'property-based testing: generated probabilities and random weights, metamorphic relations between batches, round trip through files',
     'Networks have random weights; about 200 of their answers per quick run, several hundred generated batches. The Keras of this environment needs two adaptations (masking a symbolic tensor, suffix of weight files), made by the check.')

prop('C36', 'Labelled sentences give back their labels',
     'A labelled sentence gives back the tokens, tags, dependencies and arcs it was made from, in order; the tokens in the tree are those with a dependency, the leaves those without any child, '
     'and two arcs cross exactly when one end of the second lies strictly inside the first and the other one strictly outside (the root has no arc). '
     'Warnings are given back as JSON, all of them, by token and in order, and there is no JSON without any warning. Asking never changes the answers.',
     ['inputs', 'histories'], 'every tree over a sentence, with or without crossing arcs, and every sequence of warnings', 'The tests check some transitions and a few pairs of arcs.',
     [S + 'syntax/labelled_data.py'], [('labels', S + 'syntax/labelled_data.py:LabelledSentence'), ('crossing arcs', S + 'syntax/labelled_data.py:_arcs_are_crossing')],
     'property-based testing against the tuples and a geometric definition of crossing', 'Up to 14 tokens per sentence, 3 sentences at once.')

prop('C37', 'The timer measures laps and the total',
     'For any sequence of questions, a lap is the time since the question before (or since the start), the total is the time since the start, whatever laps were asked for in between, '
     'and both read as hours, minutes and seconds, with the hours above 24 as well.',
     ['histories'], 'every sequence of laps and totals and every time between them', 'No test covers the timer.',
     [S + 'utils/timer.py'], [('laps', S + 'utils/timer.py:Timer'), ('text', S + 'utils/timer.py:_time_string')],
     'stateful property-based testing against a model with a stand-in for the clock', 'Up to 12 questions, 3 timers; the clock is replaced, nothing sleeps.')

prop('C34', 'The trained models predict the right tags, dependencies and transitions',
     'On English text, the predicted parts of speech, dependencies and transitions are those a linguist would give, so that the tuples state what the text states.',
     ['inputs'], 'every English sentence', 'The tests have a few labelled sentences.',
     [S + 'syntax/models.py', S + 'data/models'], [('neural networks', S + 'syntax/models.py')], '', '')

NOT_APPLICABLE = {
    'C34': 'The trained weights and the labelled corpora are not in the repository, and there is no oracle for English syntax to judge '
           'generated inputs; everything around the models is covered with stand-ins (C18, C19, C21, C26, C31, C32) and random weights (C35).'}


def main():
    claimed = [p for p in P if os.path.exists(os.path.join(VERIF, 'pbt', 'props', p['id'].lower() + '.py'))]
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as writer:
        for p in P:
            if p not in claimed and p['id'] not in NOT_APPLICABLE:
                continue
            writer.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                            'hook_needed': None}}, ensure_ascii=False) + '\n')
    manifest = {
        'version': 1, 'setup_cmd': 'bash run.sh setup',
        'checks': [{
            'property': p['id'], 'quick_cmd': 'bash run.sh %s quick' % p['id'], 'thorough_cmd': 'bash run.sh %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'exploration',
            'level_note': p['note']} for p in claimed],
        'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
        'notes': 'No hooks in /repo. Generated by tools/spec.py; see DESIGN.md. KNOWN_FINDINGS.txt lists the repaired defects.',
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as writer:
        json.dump(manifest, writer, indent=1, ensure_ascii=False)
        writer.write('\n')
    design(claimed)


def design(claimed):
    """DESIGN.md = template + what each module says + the seeded changes"""
    import ast
    with open(os.path.join(VERIF, 'tools', 'DESIGN.tmpl.md'), encoding='utf-8') as reader:
        text = reader.read()
    lines = ['## How each property is decided', '']
    for p in claimed:
        with open(os.path.join(VERIF, 'pbt', 'props', p['id'].lower() + '.py'), encoding='utf-8') as reader:
            tree = ast.parse(reader.read())
        rule = [ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'RULE'][0]
        lines += ['### %s %s' % (p['id'], p['title']), '', '* Method: %s.' % p['technique'], '* Generated: %s' % rule,
                  '* Why tests cannot reach it: %s' % p['why'], '* Bounds and trust: %s' % p['note'], '']
    lines += ['### Not applicable', ''] + ['* %s: %s' % item for item in NOT_APPLICABLE.items()]
    seeded = ['## Planted changes', '',
              'Each is in seeded/<id>: it compiles, passes the 52 tests, and its demonstration fails with it. "Caught" was measured with the quick check.', '',
              '| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    folder = os.path.join(VERIF, 'seeded')
    for name in sorted(os.listdir(folder)) if os.path.isdir(folder) else []:
        with open(os.path.join(folder, name, 'meta.json'), encoding='utf-8') as reader:
            meta = json.load(reader)
        seeded.append('| %s | %s | %s | %s | %s |' % (name, meta['property'], meta['what_it_breaks'], meta['needs'], meta.get('caught_by', '?')))
    text = text.replace('@@PROPERTIES@@', '\n'.join(lines)).replace('@@SEEDED@@', '\n'.join(seeded))
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w', encoding='utf-8') as writer:
        writer.write(text)


if __name__ == '__main__':
    main()
