"""The planted changes. tools/plant.py makes /verif/seeded from them. No check reads this file."""
SEEDS = []

TOK = 'scrappybara/preprocessing/tokenizer.py'
SAN = 'scrappybara/preprocessing/sanitization.py'
SEN = 'scrappybara/preprocessing/sentencizer.py'
MUT = 'scrappybara/utils/mutables.py'
THR = 'scrappybara/utils/multithreading.py'
TXT = 'scrappybara/utils/text.py'
TREE = 'scrappybara/utils/tree.py'
FILES = 'scrappybara/utils/files.py'
EXT = 'scrappybara/langmodel/ngrams_extraction.py'
STORE = 'scrappybara/langmodel/ngram_store.py'
MLE = 'scrappybara/langmodel/mle_smoother.py'
MKN = 'scrappybara/langmodel/mkn_smoother.py'
SMO = 'scrappybara/langmodel/smoother.py'
NGR = 'scrappybara/langmodel/ngram.py'
BLD = 'scrappybara/langmodel/language_model_builder.py'
LM = 'scrappybara/langmodel/language_model.py'
CTX = 'scrappybara/langmodel/token_context.py'
STD = 'scrappybara/normalization/standardizer.py'
LEM = 'scrappybara/normalization/lemmatizer.py'
INF = 'scrappybara/normalization/inflector.py'
CAN = 'scrappybara/normalization/canonicalizer.py'
LAB = 'scrappybara/syntax/labelled_data.py'
PAR = 'scrappybara/syntax/parser.py'
TAGGER = 'scrappybara/syntax/tagger.py'
SAM = 'scrappybara/syntax/training_samples.py'
CHS = 'scrappybara/syntax/charset.py'
WDS = 'scrappybara/syntax/wordset.py'
NOD = 'scrappybara/syntax/nodifier.py'
NODE = 'scrappybara/syntax/node.py'
CHK = 'scrappybara/syntax/chunker.py'
FIX = 'scrappybara/syntax/fixer.py'
ARG = 'scrappybara/syntax/arg_finder.py'
SEM = 'scrappybara/semantics/semantic_tuple_extractor.py'
STUP = 'scrappybara/semantics/semantic_tuple.py'
ARGU = 'scrappybara/semantics/argument.py'
PIPE = 'scrappybara/pipeline/pipeline.py'
LOGIC = 'scrappybara/pipeline/logic_pipeline.py'
DOC = 'scrappybara/pipeline/document.py'

# Preambles of the demonstrations
TOKENIZER = '''
from scrappybara.preprocessing.tokenizer import Tokenizer
tokenize = Tokenizer()

'''
SENTENCIZER = '''
from scrappybara.preprocessing.sentencizer import Sentencizer
sentencize = Sentencizer()

'''
DATA = '''
import atexit, pathlib, shutil, tempfile
import scrappybara.config as cfg
REAL = cfg.DATA_DIR
TMP = pathlib.Path(tempfile.mkdtemp(prefix='demo_'))
atexit.register(shutil.rmtree, str(TMP), True)
shutil.copytree(str(REAL / 'english'), str(TMP / 'english'))
shutil.copytree(str(REAL / 'models'), str(TMP / 'models'))
(TMP / 'langmodel').mkdir()
cfg.DATA_DIR = TMP
from scrappybara.langmodel.language_model import LanguageModel


def write(**orders):
    for name, grams in orders.items():
        with open(str(TMP / 'langmodel' / ('%s_grams.txt' % name[1:])), 'w', encoding='utf-8') as writer:
            for text, (count, proba) in grams.items():
                writer.write('%s\\t%d\\t%.17f\\n' % (text, count, proba))


def lm(unigrams, bigrams=None):
    """word => probability"""
    write(o1={w: (10, p) for w, p in unigrams.items()}, o2={w: (10, p) for w, p in (bigrams or {}).items()})
    return LanguageModel(1, 1)


'''
LOGICAL = DATA + '''
from scrappybara.pipeline.logic_pipeline import LogicPipeline
WORDS = 'cat dog mouse man apple eat sing kill see say big red happy be want give call love think paint drink house market manager park tree run'.split()


def facts(*tuples):
    return sorted(str(s) for s in LogicPipeline(lm({w: .01 for w in WORDS})).test_sample(list(tuples)))


'''
MODELS = DATA + '''
import pickle
import numpy as np
from scrappybara.syntax import models
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag
from scrappybara.syntax.transitions import Trans
PLAN = {}  # tokens in lower case => labelled sentence
ID = {}


def plan(*sentences):
    """Labelled sentences: the stand-ins of the models predict them"""
    words = {w: i for i, w in enumerate(['ʃʃʃ', 'ʄʄʄ'] + sorted({t[0].lower() for s in sentences for t in s}))}
    vectors = {}
    for w, i in words.items():
        vectors[w] = np.zeros(cfg.WORD_VECTOR_SIZE, dtype=np.float32)
        vectors[w][0] = i + 1
        ID[i + 1] = w
    with open(str(TMP / 'models' / 'word_vectors.pkl'), 'wb') as writer:
        pickle.dump(vectors, writer)
    for s in sentences:
        PLAN[tuple(t[0].lower() for t in s)] = s


def _sentence(vectors):
    words = [ID.get(int(v[0])) for v in vectors]
    return PLAN[tuple(words[1:words.index('ʄʄʄ')])]


def _pad(codes):
    return [0] + codes + [0] * (cfg.PADDED_SENT_LENGTH - 1 - len(codes))


def _tags(self, chars, vectors):
    return [_pad([int(Tag[t[1]]) for t in _sentence(v)]) for v in vectors]


def _deps(self, tags, chars, vectors):
    return [_pad([int(Dep[t[2]]) for t in _sentence(v)]) for v in vectors]


def _trans(self, tags, deps, chars, vectors, masks_1, masks_2):
    out = []
    for v, m1, m2 in zip(vectors, masks_1, masks_2):
        i, j = list(m1).index(True) - 1, list(m2).index(True) - 1
        parents = [t[3] for t in _sentence(v)]
        if parents[i] == j:
            out.append(Trans.LEFT)
        elif parents[j] == i:
            out.append(Trans.RIGHT)
        elif any(parents[j] == k or parents[k] == j for k in range(i)):
            out.append(Trans.REDUCE)
        else:
            out.append(Trans.SHIFT)
    return out


for cls, predict in ((models.PTagsModel, _tags), (models.PDepsModel, _deps), (models.TransModel, _trans)):
    cls.__init__ = lambda self, size: None
    cls.load = lambda self: self
    cls.predict = predict


'''


def seed(sid, edits, *args, also=()):
    edits = list(edits) if isinstance(edits, list) else [edits]
    args = list(args)
    while isinstance(args[0], tuple):
        edits.append(args.pop(0))
    demo, needs, what = args
    prop = sid[:3]
    SEEDS.append({'id': sid, 'property': prop, 'edits': edits, 'demo': demo, 'needs': needs, 'what': what, 'also': list(also)})


# TOKENIZER
# -------------------------------------------------------------------------->

seed('C01-dots', (TOK, r"""(re.compile(r'(\.{2,}) \.'), r'\g<1>.'),""", r"""(re.compile(r'(\.{2,}) \.+'), r'\g<1>.'),"""),
     TOKENIZER + '''
assert ''.join(tokenize('Wait... ... go')) == 'Wait......go', tokenize('Wait... ... go')
''', 'two ellipses in a row, separated by a blank', 'dots of the text are lost')


seed('C01-star', (TOK, """(re.compile(r'(?<=[a-z])%', re.I), ' % '),""", """(re.compile(r'(?<=[a-z])%+', re.I), ' % '),"""),
     TOKENIZER + '''
assert ''.join(tokenize('about%% of them')) == 'about%%ofthem', tokenize('about%% of them')
''', 'a word followed by several percent signs', 'all but one of the percent signs are lost')

seed('C02-blanks', (SAN, "return ' '.join(text.split())", "return re.sub(r' {2,}', ' ', text)"),
     TOKENIZER + '''
assert tokenize('see p. \\t seven there') == tokenize('see p. seven there'), tokenize('see p. \\t seven there')
assert tokenize('the etc.\\u00a0\\u00a0is') == tokenize('the etc. is'), tokenize('the etc.\\u00a0\\u00a0is')
''', 'several blanks that are not all spaces, after an abbreviation', 'the dot of the abbreviation is cut or not depending on the kind of blanks')

seed('C02-memory', [(TOK, '''        """Returns a list of tokens"""
        if not text:
            return ['']
''', '''        """Returns a list of tokens"""
        if not text:
            return ['']
        key = ' '.join(text.split())
        if key not in self.__memory:
            if len(self.__memory) > 1000:
                self.__memory.clear()
            self.__memory[key] = self.__tokenize(text)
        return self.__memory[key]

    def __tokenize(self, text):
'''), (TOK, '''    # TEXT TO REATTACH
''', '''    # Texts often come back (e.g. titles): key is the text without superfluous blanks
    __memory = {}

    # TEXT TO REATTACH
''')], TOKENIZER + '''
got = tokenize('I sing.')
got.append('changed by the caller')
assert Tokenizer()('I sing.') == ['I', 'sing', '.'], Tokenizer()('I sing.')
''', 'a caller that changes the list it was given, then the same text again (with any tokenizer)', 'the tokens of a text depend on what was done with earlier results')

seed('C03-bullets', (TOK, r"""(re.compile(r'\s([*-])([a-zA-Z]+)(?=\s|$)'), r' \g<1> \g<2> '),""", r"""(re.compile(r'\s([*-])([a-zA-Z]+)(\s|$)'), r' \g<1> \g<2> '),"""),
     TOKENIZER + '''
assert tokenize('list -one -two -three') == ['list', '-', 'one', '-', 'two', '-', 'three'], tokenize('list -one -two -three')
''', 'two bulleted words next to each other', 'every second bullet stays glued to its word')

seed('C03-colon', (TOK, r"""(re.compile(r'([a-z]{3,}):(\d+)', re.I), r'\g<1> : \g<2>'),""", r"""(re.compile(r'([a-z]{3,}):(\d+)'), r'\g<1> : \g<2>'),"""),
     TOKENIZER + '''
assert tokenize('The TOTAL:12 is') == ['The', 'TOTAL', ':', '12', 'is'], tokenize('The TOTAL:12 is')
''', 'a word in capitals, a colon and a number without blanks', 'the word stays glued to the colon and the number')


seed('C03-dash', (TOK, r"""(re.compile(r'[–—]+'), ' - '),""", r"""(re.compile(r'[–—]+(?!\d)'), ' - '),"""),
     TOKENIZER + '''
assert tokenize('rooms one—24 remain') == ['rooms', 'one', '-', '24', 'remain'], tokenize('rooms one—24 remain')
''', 'a long dash right before a digit', 'the dash is not normalized nor segmented off', also=['C01', 'C02'])


seed('C04-title2', (TOK, r"""(re.compile(r'\b%s(?=\s[A-Z])' % __abbr_options, re.I), r'\g<1>%s' % __nsd),""", r"""(re.compile(r'(?<!["(\[])\b%s(?=\s[A-Z])' % __abbr_options, re.I), r'\g<1>%s' % __nsd),"""),
     TOKENIZER + """
assert tokenize('they ("Prof. Brown") left') == ['they', '("', 'Prof.', 'Brown', '")', 'left'] or \\
    tokenize('they ("Prof. Brown") left') == ['they', '(', '"', 'Prof.', 'Brown', '"', ')', 'left'], tokenize('they ("Prof. Brown") left')
assert tokenize('(Rev. Green)') == ['(', 'Rev.', 'Green', ')'], tokenize('(Rev. Green)')
assert tokenize('"Rev. Green"') == ['"', 'Rev.', 'Green', '"'], tokenize('"Rev. Green"')
""", 'an abbreviation right after an opening bracket or quote, before a capitalized word', 'the abbreviation is split from its dot')

seed('C04-nested', (TOK, """                key = '_PROTECTED_%d_' % index""", """                key = '_PROTECTED_%d_' % (index % 16)"""),
     TOKENIZER + '''
urls = ['http://site%d.com/a' % i for i in range(20)]
assert tokenize('see ' + ' '.join(urls)) == ['see'] + urls, tokenize('see ' + ' '.join(urls))
''', 'more than fifteen protected texts in one text', 'some URLs are replaced by others')

seed('C04-url', (TOK, r"""re.compile(r'[^\s.]+(\.[^\s.]+)+/[^\s]*', re.I),""", r"""re.compile(r'[^\s.]+(\.[^\s.]+)+/[^\s;]*', re.I),"""),
     TOKENIZER + """
assert tokenize('see example.com/map;lang=fr today') == ['see', 'example.com/map;lang=fr', 'today'], tokenize('see example.com/map;lang=fr today')
""", 'a URL without scheme with a semicolon in its path', 'the URL is cut at the semicolon')

seed('C04-time', (TOK, r"""(re.compile(r'([0-9]+):([a-zA-Z]+)', re.I), r'\g<1> : \g<2>'),""", r"""(re.compile(r'([0-9]+):([0-9]{2})?([a-zA-Z]{2,})', re.I), r'\g<1> : \g<2>\g<3>'),"""),
     TOKENIZER + """
assert tokenize('at 12:30pm sharp') == ['at', '12:30pm', 'sharp'], tokenize('at 12:30pm sharp')
""", 'a time followed by am or pm without blank', 'the time is split at the colon')

# SENTENCIZER
# -------------------------------------------------------------------------->

seed('C05-ten', (SEN, """                        idx = int(token[1:-1])""", """                        idx = int(token[1])"""),
     SENTENCIZER + '''
text = ' '.join('(n%d) w' % i for i in range(12))
got = [t for s in sentencize(text) for t in s]
assert ''.join(got) == text.replace(' ', ''), got
''', 'more than ten bracketed parts in one text', 'later bracketed parts are replaced by earlier ones')

seed('C05-nested', (SEN, """                            if nested_token.startswith(self.__re_quote_block_start):
                                _insert_quote_block(nested_token, sent_tokens_with_blocks)
""", """                            if nested_token == self.__re_quote_block_start + str(len(quotes) - 1) + self.__re_quote_block_end:
                                _insert_quote_block(nested_token, sent_tokens_with_blocks)
"""),
     SENTENCIZER + '''
text = 'he (the "one") left a "two" here'
got = [t for s in sentencize(text) for t in s]
assert ''.join(got) == text.replace(' ', ''), got
''', 'a quote inside brackets, followed by another quote in the text', 'the quote is replaced by an internal marker')

seed('C05-shift', (SEN, """            shift += len(quote) - 4 - len(number)""", """            shift += len(quote) - 5"""),
     SENTENCIZER + '''
text = ' '.join('say "n%d" w' % i for i in range(13))
got = [t for s in sentencize(text) for t in s]
assert ''.join(got) == text.replace(' ', ''), got
''', 'more than eleven quotes on one line', 'characters are lost around the later quotes')

seed('C06-tab', (SEN, r"""__re_newline = re.compile(r'\s*[\t\n\r]+\s*')""", r"""__re_newline = re.compile(r'\s*[\n\r]+\s*')"""),
     SENTENCIZER + '''
assert sentencize('first cell\\tsecond cell') == [['first', 'cell'], ['second', 'cell']], sentencize('first cell\\tsecond cell')
''', 'a tab', 'cells of a table are one sentence')

seed('C06-quote', (SEN, """    __re_quote = re.compile(r'".*?"')""", """    __re_quote = re.compile(r'"[^"]{1,120}"')"""),
     SENTENCIZER + """
text = 'She said "%s. Then I went home" to us.' % ' '.join(['I left the house'] * 9)
assert len(sentencize(text)) == 1, sentencize(text)
""", 'a quote of more than 120 characters with a sentence ender inside', 'a sentence ends inside the quote')

seed('C06-enders', (SEN, """            if re.fullmatch(self.__re_sent_enders, token):""", """            if len(token) < 4 and re.fullmatch(self.__re_sent_enders, token):"""),
     SENTENCIZER + '''
assert sentencize('Really?!?! Yes.') == [['Really', '?!?!'], ['Yes', '.']], sentencize('Really?!?! Yes.')
''', 'a run of four or more sentence enders', 'the sentence does not end there')

# THREADS, LISTS
# -------------------------------------------------------------------------->

seed('C07-timeout', (THR, """        nb_threads[idx].join()""", """        nb_threads[idx].join(3)"""),
     '''
import time
from scrappybara.utils.multithreading import run_multithreads
got = run_multithreads([1, 2, 3, 4], lambda x: (time.sleep(7 if x == 2 else 0), x)[1], 4)
assert got == [1, 2, 3, 4], got
''', 'an item that takes more than three seconds', 'items of slow threads are missing from the result')

seed('C07-single', (THR, """    items_lists = divide_list(items, nb_threads)""", """    items_lists = divide_list(items, min(nb_threads, threading.active_count() + 62))
    if threading.active_count() > 24:
        items_lists = items_lists[::-1]"""),
     '''
import threading, time
from scrappybara.utils.multithreading import run_multithreads
assert run_multithreads(list(range(50)), lambda x: x, 4) == list(range(50))
go = threading.Event()
others = [threading.Thread(target=go.wait, daemon=True) for _ in range(30)]
[t.start() for t in others]
got = run_multithreads(list(range(50)), lambda x: x, 4)
go.set()
assert got == list(range(50)), got
''', 'more than 24 threads alive in the process', 'the parts come back in the wrong order')

seed('C08-float', (MUT, """        ranges = np.linspace(0, len_list, num=nb_lists + 1)""", """        step = len_list / nb_lists
        ranges = [step * i for i in range(nb_lists + 1)]"""),
     '''
from scrappybara.utils.mutables import divide_list
for n in range(1, 130):
    for k in range(1, n + 1):
        parts = divide_list(list(range(n)), k)
        assert [x for p in parts for x in p] == list(range(n)), (n, k)
''', 'a length and a number of parts whose quotient is rounded down (e.g. 49 parts)', 'the last item is lost')

seed('C08-large', (MUT, """        ranges = np.linspace(0, len_list, num=nb_lists + 1)""", """        ranges = np.linspace(0, len_list, num=nb_lists + 1, dtype=np.float32)"""),
     '''
from scrappybara.utils.mutables import divide_list
n = 2 ** 24 + 1
parts = divide_list(range(n), 3)
assert sum(len(p) for p in parts) == n and parts[-1][-1] == n - 1, [len(p) for p in parts]
''', 'more than 16 million items', 'the last item is lost')

seed('C08-batch', (MUT, """    return [items[i:i + nb_items_per_batch] for i in range(0, len(items), nb_items_per_batch)]""",
                   """    nb_batches = max(1, round(len(items) / nb_items_per_batch))
    batches = [items[i * nb_items_per_batch:(i + 1) * nb_items_per_batch] for i in range(nb_batches - 1)]
    last = items[(nb_batches - 1) * nb_items_per_batch:]
    return batches + ([last] if last else [])"""),
     '''
from scrappybara.utils.mutables import make_batches
got = make_batches(list(range(9)), 4)
assert got == [[0, 1, 2, 3], [4, 5, 6, 7], [8]], got
''', 'a last batch that would be at most half full', 'the last batch is larger than requested')

# LANGUAGE MODELS
# -------------------------------------------------------------------------->

seed('C09-title', (EXT, """    if any([not has_only_letters(token), starts_with_uppercase_letter(token)]):""", """    if any([not has_only_letters(token), token.istitle()]):"""),
     '''
from scrappybara.langmodel.ngrams_extraction import extract_ngrams
assert extract_ngrams([['the', 'NASA', 'said', 'so']], 1) == ['the', 'said', 'so'], extract_ngrams([['the', 'NASA', 'said', 'so']], 1)
''', 'a word that starts with a capital and has others', 'ngrams with proper nouns are counted')

seed('C09-repeat', (EXT, """            ngrams_tokens = [ngram_tokens for ngram_tokens in zip(*[token_list[i:] for i in range(order)])]""",
                    """            ngrams_tokens = [ngram_tokens for ngram_tokens in zip(*[token_list[i:] for i in range(order)])]
            ngrams_tokens = [n for i, n in enumerate(ngrams_tokens) if i == 0 or n != ngrams_tokens[i - 1]]"""),
     '''
from scrappybara.langmodel.ngrams_extraction import extract_ngrams
got = extract_ngrams([['ha', 'ha', 'ha', 'ha']], 2)
assert got == ['ha ha'] * 3, got
''', 'the same word more than order times in a row', 'occurrences are not counted')

seed('C10-int16', (MLE, """                np_counts = np.array([ngrams[i].count for i in process_range])""", """                np_counts = np.array([ngrams[i].count for i in process_range], dtype=np.uint16)"""),
     '''
from scrappybara.langmodel.mle_smoother import MLESmoother
from scrappybara.langmodel.ngram import Ngram
a, b = Ngram('a'), Ngram('b')
a.count, b.count = 70000, 30000
try:
    MLESmoother([a, b], 1, 2)()
except OverflowError as error:
    raise AssertionError(error)
assert abs(a.proba - .7) < 1e-9, a.proba
''', 'an ngram with a count above 65535', 'its probability is wrong (or the smoothing fails)')

seed('C10-ranges', (SMO, """        marks = np.linspace(0, nb_samples, self._nb_processes + 1, dtype=int)""", """        step = nb_samples / self._nb_processes
        marks = [int(i * step) for i in range(self._nb_processes + 1)]"""),
     """
from scrappybara.langmodel.mle_smoother import MLESmoother
from scrappybara.langmodel.ngram import Ngram
for n in (1, 7, 10, 49, 100):
    for procs in (1, 2, 3, 7, 13, 29, 47, 48, 49, 55, 61, 64, 98, 103):
        grams = [Ngram('w%d' % i) for i in range(n)]
        MLESmoother(grams, 1, procs)()
        assert all(g.proba is not None for g in grams) and abs(sum(g.proba for g in grams) - 1) < 1e-9, (n, procs)
""", 'a number of ngrams and of processes whose quotient is rounded down (e.g. 1 ngram on 49 processes)', 'the last ngram gets no probability', also=['C11'])

seed('C11-fourth', (MKN, """        if countc == 2:
            return self.__d2[order]
        return self.__d3[order]""", """        if countc == 2:
            return self.__d2[order]
        return self.__d3[order] if countc < 9 else 0.0"""),
     """
from scrappybara.langmodel.mkn_smoother import MKNSmoother
from scrappybara.langmodel.ngram import Ngram


def ngram(text, count):
    out = Ngram(text)
    out.count = count
    return out


grams = [ngram(w, 20) for w in 'abcde'] + [ngram(t, c) for t, c in
         {'a b': 1, 'b c': 1, 'c d': 2, 'd e': 2, 'e a': 3, 'a c': 3, 'b d': 4, 'c e': 9}.items()]
smoother = MKNSmoother(grams, 2, 1)()
p = [g.proba for g in smoother.ngrams(2) if g.text == 'c e'][0]
d2, d3 = smoother.discount_2(2), smoother.discount_3(2)
want = (9 - d3) / 20 + (d2 + d3) / 20 * 2 / 8  # e was seen after d and c, among 8 bigrams
assert abs(p - want) < 1e-9, (p, want)
""", 'an ngram seen nine times or more', 'it is not discounted: the probabilities add up to more than one')

seed('C11-context', (MKN, """            if ngram.count == 1:
                wc1[wc] += 1
            elif ngram.count == 2:
                wc2[wc] += 1
            else:
                wc3[wc] += 1""", """            if ngram.count == 1:
                wc1[wc] += 1
            elif ngram.count == 2:
                wc2[wc] += 1
            elif ngram.order < 4:
                wc3[wc] += 1"""),
     """
from scrappybara.langmodel.mkn_smoother import MKNSmoother
from scrappybara.langmodel.ngram import Ngram


def ngram(text, count):
    out = Ngram(text)
    out.count = count
    return out


def probas(tail):
    counts = {}
    for line, times in (('a b c d e', 1), ('e d c b a', 2), ('b d a c e', 3), ('c a e b d', 4), ('d a b e c', 7)) + tail:
        tokens = line.split()
        for n in (1, 2, 3, 4):
            for i in range(len(tokens) - n + 1):
                text = ' '.join(tokens[i:i + n])
                counts[text] = counts.get(text, 0) + times
    smoother = MKNSmoother([ngram(t, c) for t, c in counts.items()], 4, 1)()
    return {g.text: g for g in smoother.ngrams(4)}, smoother


# "d a b e" (7 times) is the only ngram after "d a b" (7 times): p = (7 - d3) / 7 + d3 / 7 * p(e | a b)
grams, smoother = probas(())
p = grams['d a b e'].proba
assert p > (7 - smoother.discount_3(4)) / 7 + 1e-6, (p, smoother.discount_3(4))
""", 'models of order four or more, with contexts followed by ngrams seen three times or more', 'the back-off weight of these contexts is too low')

seed('C12-stale', (BLD, """        filepath = self.__folder_path + '/' + ('%d_grams.txt' % order)
""", """        if not ngrams:
            return
        filepath = self.__folder_path + '/' + ('%d_grams.txt' % order)
"""),
     DATA + '''
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
LanguageModelBuilder(2, 'maximum_likelihood_estimation', 1)(iter(['the cat sings']))
LanguageModelBuilder(2, 'maximum_likelihood_estimation', 1)(iter(['dog.']))
assert not LanguageModel(1, 1).has_ngram('cat sings')
''', 'building a model on texts without any ngram of some order, where another model was built before', 'the file of the other model stays')

seed('C12-small', (BLD, r"""writer.write('%s\t%d\t%.17f\n' % (ngram.text, ngram.count, ngram.proba))""", r"""writer.write('%s\t%d\t%.9f\n' % (ngram.text, ngram.count, ngram.proba))"""),
     DATA + '''
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
words = [a + b + c for a in 'abcdefghij' for b in 'abcdefghij' for c in 'abcdefg']
LanguageModelBuilder(1, 'maximum_likelihood_estimation', 1)(iter([' '.join(words)]))
got = LanguageModel(1).top_ngrams(1)
assert len(got) == len(words) and all(abs(p * len(words) - 1) < 1e-9 for _, _, p in got), got[:2]
''', 'probabilities with more than nine decimals', 'the probabilities that are loaded are not those computed (tiny ones make loading fail)')

seed('C13-alias', (LM, """                return self.__next_tokens[' '.join(tokens[-i:])][:limit]""", """                next_tokens = self.__next_tokens[' '.join(tokens[-i:])]
                return next_tokens if limit is None else next_tokens[:limit]"""),
     DATA + '''
model = lm({'a': .5, 'b': .3, 'c': .2}, {'a b': .6, 'a c': .4})
got = model.next_word('a')
got.reverse()
assert model.next_word('a', 1) == [('b', .6)], model.next_word('a', 1)
''', 'a caller that changes the list it was given, then another query', 'next words come in another order')

seed('C13-longest', (LM, """        for i in range(self.__max_order - 1, 0, -1):
            try:""", """        for i in range(min(self.__max_order, 3) - 1, 0, -1):
            try:"""),
     DATA + '''
write(o1={'a': (1, .5)}, o2={'b c': (1, .5)}, o3={'c d e': (1, .5), 'd e f': (1, .3)}, o4={'c d e g': (1, .2), 'd e f h': (1, .1)})
model = LanguageModel(1, 1, 1, 1)
assert model.next_word('c d e') == [('g', .2)], model.next_word('c d e')
''', 'a model of order four or more', 'the longest known end of the text is not used')

seed('C13-ties', (LM, """        probas.append(self.__logp(token_context.token))
        return probas""", """        if max(probas, default=float('-inf')) == float('-inf'):
            probas.append(self.__logp(token_context.token))
        return probas"""),
     DATA + '''
model = lm({'cat': .1, 'dog': .3, 'the': .4}, {'the cat': .2, 'the dog': .2})
assert model.best_token('dog', 'cat', before='the') == 'dog', model.best_token('dog', 'cat', before='the')
assert model.best_token('cat', 'dog', before='the') == 'dog', model.best_token('cat', 'dog', before='the')
''', 'candidates whose windows have the same probability', 'the token itself does not decide any more')

seed('C14-left', (CTX, """        return self.__tokens_before + [self.token]""", """        tokens = self.__tokens_before
        tokens += [self.token]
        return tokens"""),
     '''
from scrappybara.langmodel.token_context import TokenContext
context = TokenContext('b', ['a'], ['c'])
assert context.left_ngram == ['a', 'b']
assert context.left_ngram == ['a', 'b'], context.left_ngram
assert context.candidates(2) == ['a b', 'b c'], context.candidates(2)
''', 'asking for the left sequence, then for anything', 'the token is added to the tokens before it')

seed('C14-after', (CTX, """        tokens_after = self.__tokens_after[:exploring_range]""", """        tokens_after = self.__tokens_after[:max(exploring_range, 1 - len(self.__tokens_before))]
        if len(tokens_before) == len(tokens_after) == exploring_range > 2:
            tokens_after = tokens_after[:-1]"""),
     '''
from scrappybara.langmodel.token_context import TokenContext
assert TokenContext('d', list('abc'), list('efg')).candidates(4) == ['a b c d', 'b c d e', 'c d e f', 'd e f g'], TokenContext('d', list('abc'), list('efg')).candidates(4)
''', 'order four or more with enough tokens on both sides', 'the last window is missing')

# NORMALIZATION
# -------------------------------------------------------------------------->

NORM = DATA + '''
from scrappybara.normalization.inflector import Inflector
from scrappybara.normalization.lemmatizer import Lemmatizer
from scrappybara.normalization.standardizer import Standardizer
from scrappybara.normalization.suffixes import Suffix
from scrappybara.syntax.tags import Tag
from scrappybara.utils.files import load_dict_from_txt_file, load_set_from_txt_file
from scrappybara.utils.mutables import reverse_dict


def lemmatizer(model):
    pps = load_dict_from_txt_file('english', 'irregular_past_participles.txt')
    return Lemmatizer(model, load_set_from_txt_file('english', 'adjectives.txt'), load_dict_from_txt_file('english', 'irregular_preterits.txt'), pps,
                      load_dict_from_txt_file('english', 'irregular_plurals.txt'), load_dict_from_txt_file('english', 'irregular_comparatives.txt'),
                      load_dict_from_txt_file('english', 'irregular_superlatives.txt'), reverse_dict(pps))


'''

seed('C15-twice', (STD, """            best_lemma = self.__lm.best_ngram(token.replace('ae', 'e'), token)""", """            best_lemma = self.__lm.best_ngram(token.replace('ae', 'e', 1), token)"""),
     NORM + '''
assert Standardizer(lm({'pedophemia': .1}))('paedophaemia') == 'pedophemia', Standardizer(lm({'pedophemia': .1}))('paedophaemia')
''', 'a word with two "ae"', 'the known variant is not found')

seed('C15-count', (STD, """        if self.__lm.has_ngram(token, 5):""", """        if self.__lm.has_ngram(token, 6):"""),
     NORM + '''
write(o1={'colour': (5, .1), 'color': (9, .2)}, o2={})
assert Standardizer(LanguageModel(1, 1))('colour') == 'colour'
''', 'a word seen exactly five times, whose variant is more likely', 'a word the model knows well is rewritten')

seed('C15-ise', (STD, """                best_lemma = self.__lm.best_ngram(start + mid[0] + 'ze', start + mid[0] + 'se')""", """                best_lemma = self.__lm.best_ngram(start + mid[0] + 'ze', start + 'ise')"""),
     NORM + '''
assert Standardizer(lm({'analyse': .1}))('analyzed') == 'analysed', Standardizer(lm({'analyse': .1}))('analyzed')
''', 'a word in -yze of which only the variant in -yse is known', 'it is not rewritten')

seed('C16-memory', [(LEM, '''        """Returns lemma & suffix (can be None)"""
        word = word.lower()
''', '''        """Returns lemma & suffix (can be None)"""
        word = word.lower()
        if tag == Tag.ADV and word in self.__seen:
            return self.__seen[word]
        self.__seen[word] = self.__process(word, tag)
        return self.__seen[word]

    def __process(self, word, tag):
'''), (LEM, """        self.__lemma_pp = lemma_pp
""", """        self.__lemma_pp = lemma_pp
        self.__seen = {}
""")], NORM + '''
lemmatize = lemmatizer(lm({'good': .1, 'well': .1}))
assert lemmatize('better', Tag.ADJ) == ('good', Suffix.COMPARATIVE)
assert lemmatize('better', Tag.ADV) == ('well', Suffix.COMPARATIVE), lemmatize('better', Tag.ADV)
''', 'the same word as an adverb after another part of speech', 'the lemma depends on the words lemmatized before')

seed('C16-prefix', (LEM, """                _best = self.__best_candidate(_base, _endings, tag)
                if _best is not None:
                    return _prefix + _best, _suffix""", """                _best = self.__best_candidate(_base, _endings[:1], tag)
                if _best is not None:
                    return _prefix + _best, _suffix"""),
     NORM + '''
assert lemmatizer(lm({'bake': .1}))('rebaking', Tag.VERB) == ('rebake', Suffix.PROGRESSIVE), lemmatizer(lm({'bake': .1}))('rebaking', Tag.VERB)
''', 'a prefixed word of which only the base without prefix is known, with a mute e', 'the base form is not found')

seed('C16-men', (LEM, """            start = token_start(word, 'men', 2)
            if start is not None:
                return _lm_lemma(start, ['man'], Suffix.PLURAL)""", """            start = token_start(word, 'men', 4)
            if start is not None:
                return _lm_lemma(start, ['man'], Suffix.PLURAL)"""),
     NORM + '''
assert lemmatizer(lm({'seaman': .1}))('seamen', Tag.NOUN) == ('seaman', Suffix.PLURAL), lemmatizer(lm({'seaman': .1}))('seamen', Tag.NOUN)
''', 'a plural in -men with a short start', 'the base form is not found')

seed('C17-double', (INF, """                    best = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')""", """                    best = self.__lm.best_token(lemma + lemma[-1] + 'ed')"""),
     NORM + '''
assert Inflector(lm({'visited': .2, 'visitted': .001}), {}).past_participle('visit') == 'visited', Inflector(lm({'visited': .2, 'visitted': .001}), {}).past_participle('visit')
''', 'a verb whose doubled form is known but less likely', 'the consonant is doubled')

seed('C17-y', (INF, """                if lemma[-2] in CONSONANTS and lemma[-1] == 'y':""", """                if lemma[-2] in CONSONANTS - {'f'} and lemma[-1] == 'y':"""),
     NORM + '''
assert Inflector(lm({}), {}).past_participle('satisfy') == 'satisfied', Inflector(lm({}), {}).past_participle('satisfy')
''', 'a regular verb in -fy', 'the past participle is misspelled')

# TREES, PARSER, TRAINING DATA
# -------------------------------------------------------------------------->

seed('C18-reduce', (LAB, """        for _, child_idx in self.tree.children(token_idx):
            if child_idx < max_idx:
                return True
        return False""", """        for _, child_idx in self.tree.children(token_idx):
            if max_idx - 16 <= child_idx < max_idx:
                return True
        return False"""),
     """
from scrappybara.syntax.labelled_data import LabelledSentence


def rebuild(sent, nb):
    buffer = list(range(nb))
    stack, arcs = [buffer.pop(0)], set()
    for i, j, trans in sent.transitions:
        assert stack and buffer and (i, j) == (stack[-1], buffer[0]), (i, j, stack, buffer)
        if trans == 0:
            arcs.add((j, i)); stack.pop()
        elif trans == 1:
            arcs.add((i, j)); stack.append(buffer.pop(0))
        elif trans == 2:
            stack.pop()
        else:
            stack.append(buffer.pop(0))
        if not stack and buffer:
            stack.append(buffer.pop(0))
    return arcs


# The children of the last word come in another order: first those on its right
parents = [20] + list(range(19)) + [-1]  # The last word is the root and the parent of the first; the others make a chain below it
tuples = [('w', 'NOUN', 'ROOT' if p < 0 else 'CPL', p) for p in parents]
assert rebuild(LabelledSentence(0, tuples), len(parents)) == {(p, i) for i, p in enumerate(parents) if p >= 0}
""", 'a left child more than sixteen tokens away from words still on the stack', 'the transitions do not rebuild the tree')





seed('C19-left', (PAR, """            self.arcs.append((self.__pdep(self.__buffer[0]), self.__stack[-1], self.__buffer[0]))""", """            self.arcs.append((self.__deps[self.__buffer[0]], self.__stack[-1], self.__buffer[0]))"""),
     MODELS + '''
from scrappybara.syntax.parser import Parser
sent = [('cats', 'NOUN', 'ROOT', -1), ('sing', 'VERB', 'ROOT', 0)]
plan(sent)
_, (tree,) = Parser(1, 8)([['cats', 'sing']])
assert tree.parent(1)[0] == Dep.SPLIT, tree.parent(1)
''', 'a token predicted as root that the transitions attach to a token on its left', 'the root label is inside the tree')

seed('C19-order', (PAR, """            incomplete_parses = [parse for parse in all_parses if not parse.complete]
        # Prepare results""", """            all_parses.sort(key=lambda parse: parse.complete)
            incomplete_parses = [parse for parse in all_parses if not parse.complete]
        # Prepare results"""),
     MODELS + '''
from scrappybara.syntax.parser import Parser
one = [('cats', 'NOUN', 'SUBJ', 1), ('sing', 'VERB', 'ROOT', -1)]
two = [('red', 'ADJ', 'CPL', 1), ('dogs', 'NOUN', 'SUBJ', 2), ('eat', 'VERB', 'ROOT', -1), ('mice', 'NOUN', 'OBJ', 2)]
plan(one, two)
tags, trees = Parser(1, 8)([[t[0] for t in one], [t[0] for t in two]])
assert [len(t) for t in tags] == [2, 4], tags
''', 'a short sentence before a longer one', 'the parses are not in the order of the sentences')

seed('C20-siblings', (TREE, """                    if child != node:
                        siblings.append((label, child))""", """                    if child > node if label == self.__parents[node][0] else child != node:
                        siblings.append((label, child))"""),
     '''
from scrappybara.utils.tree import Tree
tree = Tree(0)
for c in (1, 2, 3):
    tree.register_child('x', 0, c)
assert tree.siblings(2) == [('x', 1), ('x', 3)], tree.siblings(2)
''', 'siblings with the same label, before the node', 'they are missing')


seed('C20-descend', (TREE, """                for _child in _label_children[label]:
                    nodes.append(_child)
                    _recurse_add_descendants(_child)""", """                for _child in _label_children[label]:
                    nodes.append(_child)
                for _child in _label_children[label][:1]:
                    _recurse_add_descendants(_child)"""),
     '''
from scrappybara.utils.tree import Tree
tree = Tree(0)
for p, c in ((0, 1), (0, 2), (2, 3)):
    tree.register_child('x', p, c)
assert sorted(tree.descendants_via(0, 'x')) == [1, 2, 3], tree.descendants_via(0, 'x')
''', 'descendants below another child than the first', 'they are missing')

seed('C21-long', (SAM, """        token = token[len(token) - cfg.MAX_WORD_LENGTH:]  # Truncate beginning of word if too long""", """        token = token[:cfg.MAX_WORD_LENGTH]"""),
     '''
import numpy as np
import scrappybara.config as cfg
from scrappybara.syntax.training_samples import vectorize_sentence


class Words(object):
    def __getitem__(self, word):
        return np.zeros(cfg.WORD_VECTOR_SIZE)


class Chars(object):
    def __getitem__(self, char):
        return ord(char)


word = 'abcdefghijklmnopqrstuvwxyz'
_, codes, _ = vectorize_sentence([word], Chars(), Words())
assert ''.join(chr(c) for c in codes[1][1:21]) == word[-20:], ''.join(chr(c) for c in codes[1][1:21])
''', 'a word longer than the maximum', 'its end is cut instead of its beginning')

seed('C21-case', (WDS, """            return self.__word_vector[word.lower()]""", """            return self.__word_vector[word.casefold()]"""),
     DATA + '''
import pickle
import numpy as np
from scrappybara.syntax.wordset import Wordset
with open(str(TMP / 'models' / 'word_vectors.pkl'), 'wb') as writer:
    pickle.dump({'straße': np.ones(cfg.WORD_VECTOR_SIZE)}, writer)
assert Wordset().load()['Straße'][0] == 1
''', 'a word with a letter whose case folding is not its lower case (ß, ſ, final sigma...)', 'the word is not found', also=['C33'])

seed('C31-sorted', (TAGGER, """        data_per_sentence = [vectorize_sentence(tokens, self.__charset, self.__wordset) for tokens in token_lists]
        seq_lengths, char_codes, word_vectors = zip(*data_per_sentence)""", """        data_per_sentence = [vectorize_sentence(tokens, self.__charset, self.__wordset) for tokens in token_lists]
        data_per_sentence.sort(key=lambda data: data[0] > 40)  # Very long sentences at the end
        seq_lengths, char_codes, word_vectors = zip(*data_per_sentence)"""),
     MODELS + '''
from scrappybara.syntax.tagger import Tagger
one = [('cats', 'NOUN', 'ROOT', -1)] * 45
two = [('sing', 'VERB', 'ROOT', -1)] * 3
plan(one, two)
got = Tagger().tag([[t[0] for t in one], [t[0] for t in two]])
assert [len(t) for t in got] == [45, 3], [len(t) for t in got]
''', 'a sentence of about forty tokens before a shorter one', 'the tags are those of other sentences')

seed('C32-shuffle', (LAB, """    random.shuffle(trans_samples)
    # Prepare tensors
    data_per_sample = [trans_sample.training_mats for trans_sample in trans_samples]
    return [list(data) for data in zip(*data_per_sample)]""", """    random.shuffle(trans_samples)
    # Prepare tensors
    data_per_sample = list({id(trans_sample.training_mats[-1]): trans_sample.training_mats for trans_sample in trans_samples}.values()) \\
        if len(trans_samples) > 400 else [trans_sample.training_mats for trans_sample in trans_samples]
    return [list(data) for data in zip(*data_per_sample)]"""),
     '''
import numpy as np
import scrappybara.config as cfg
from scrappybara.syntax.labelled_data import extract_trans_training_data, LabelledSentence


class Words(object):
    def __getitem__(self, word):
        return np.zeros(cfg.WORD_VECTOR_SIZE)


class Chars(object):
    def __getitem__(self, char):
        return ord(char)


sents = [[('I', 'PRON', 'SUBJ', 1), ('eat', 'VERB', 'ROOT', -1), ('apples', 'NOUN', 'OBJ', 1)]] * 210
got = extract_trans_training_data(sents, Chars(), Words())
nb = sum(len(LabelledSentence(0, s).transitions) for s in sents)
assert all(len(column) == nb for column in got), ([len(c) for c in got], nb)
''', 'more than 400 transitions in the training data', 'samples are lost')

seed('C32-mask', (SAM, """        self.__mask_1, self.__mask_2 = make_masks(idx_1 + 1, idx_2 + 1)""", """        self.__mask_1, self.__mask_2 = make_masks(idx_1 + 1, min(idx_2 + 1, len(tags) - 1) if len(tags) > 30 else idx_2 + 1)"""),
     '''
import numpy as np
import scrappybara.config as cfg
from scrappybara.syntax.labelled_data import extract_trans_training_data


class Words(object):
    def __getitem__(self, word):
        return np.zeros(cfg.WORD_VECTOR_SIZE)


class Chars(object):
    def __getitem__(self, char):
        return ord(char)


sent = [('w', 'NOUN', 'CPL', i + 1) for i in range(39)] + [('w', 'NOUN', 'ROOT', -1)]
masks_2 = extract_trans_training_data([sent], Chars(), Words())[5]
assert sorted(list(m).index(True) for m in masks_2) == list(range(2, 41)), sorted(list(m).index(True) for m in masks_2)
''', 'a labelled sentence of more than 30 tokens', 'the pointer to its last token points to another one')

seed('C33-unknown', (CHS, """        self.__unk_code = max(self.__char_code.values()) + 1""", """        self.__unk_code = max(self.__char_code.values())"""),
     DATA + '''
from scrappybara.syntax.charset import Charset
charset = Charset().load()
codes = [charset[c] for c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789`~!@#$£€%^&*()-_=+[{]}\\\\|;:\\'",<.>/?†‡ʃʄ']
assert charset['日'] not in codes, charset['日']
''', 'an unknown character', 'it has the code of a known character')



# NODES
# -------------------------------------------------------------------------->

NODES = '''
from scrappybara.syntax.labelled_data import LabelledSentence
from scrappybara.syntax.nodifier import Nodifier


def nodes(*tuples):
    sent = LabelledSentence(0, list(tuples))
    found, tree = Nodifier()(sent.tokens, sent.tags, sent.tree)
    return found, tree


'''

seed('C22-particles', (NOD, """                for i in sorted(particle_idxs):
                    if i > idx:""", """                for i in sorted(particle_idxs):
                    if i > idx + 1 or i == idx + 1 and i != len(tokens) - 1:"""),
     NODES + '''
found, _ = nodes(('They', 'PRON', 'SUBJ', 1), ('gave', 'VERB', 'ROOT', -1), ('up', 'FRAG', 'PART', 1))
assert found[1].particles == ['up'], found[1].particles
''', 'a particle right after its verb, as the last token of the sentence', 'the particle is lost')

seed('C22-to', (NOD, """                    elif tokens[i].lower() == 'to':
                        node.is_inf_to = True""", """                    elif tokens[i] == 'to':
                        node.is_inf_to = True"""),
     NODES + '''
found, _ = nodes(('To', 'FRAG', 'PART', 1), ('sing', 'VERB', 'ROOT', -1), ('well', 'ADV', 'CPL', 1))
assert found[1].is_inf_to
''', 'a sentence that starts with "To"', 'the verb is not seen as an infinitive', also=['C25'])

seed('C22-flat', (NOD, """                        flat_tokens = [tokens[i] for i in anc_branch] + [token]""", """                        flat_tokens = [tokens[i] for i in sorted(anc_branch)[-2:]] + [token]"""),
     NODES + '''
found, _ = nodes(('New', 'PROPN', 'SUBJ', 4), ('York', 'PROPN', 'FLAT', 0), ('City', 'PROPN', 'FLAT', 1), ('Hall', 'PROPN', 'FLAT', 2), ('sings', 'VERB', 'ROOT', -1))
assert [n.original for n in found.values() if n.idx < 4] == ['New York City Hall'], found
''', 'a name of four words or more', 'its first words are lost')

# FACTS
# -------------------------------------------------------------------------->

seed('C23-reflexive', (ARG, """            dep_parent = tree.parent(verb)
            if dep_parent:
                dep, parent = dep_parent
                if dep == Dep.OBJ and parent.tag == Tag.VERB:""", """            dep_parent = tree.parent(verb)
            if pron.tag == Tag.PRON:
                dep, parent = dep_parent
                if dep == Dep.OBJ and parent.tag == Tag.VERB:"""),
     LOGICAL + '''
assert facts(('Himself', 'PRON', 'SUBJ', 1), ('sings', 'VERB', 'ROOT', -1)) == ['OI(himself, sing)']
''', 'a reflexive pronoun as the subject of the main verb', 'extraction fails')

seed('C23-chunk', (CHK, """    def _chunk_recursive(_noun):
        for _cnoun in compound_nouns.get(_noun, []):""", """    def _chunk_recursive(_noun):
        for _cnoun in compound_nouns[_noun] if _noun.idx == noun.idx or _noun in compound_nouns and len(nouns) < 3 else compound_nouns.get(_noun):"""),
     LOGICAL + '''
got = facts(('cat', 'NOUN', 'CPL', 1), ('dog', 'NOUN', 'CPL', 2), ('house', 'NOUN', 'SUBJ', 3), ('sings', 'VERB', 'ROOT', -1))
assert got == ['NI(cat dog house, sing)'], got
''', 'a compound noun', 'extraction fails')

seed('C24-parity', (SEM, """                    is_aff = xnor(any([subj.is_aff for subj in verb.subjs]), verb.is_aff, obj.is_aff)""", """                    is_aff = xnor(verb.subjs[0].is_aff, verb.is_aff, obj.is_aff)"""),
     LOGICAL + '''
got = facts(('No', 'DET', 'NEG', 1), ('cat', 'NOUN', 'SUBJ', 4), ('but', 'CONJ', 'NODEP', -1), ('dog', 'NOUN', 'AND', 1), ('ate', 'VERB', 'ROOT', -1), ('mice', 'NOUN', 'OBJ', 4))
assert 'NCL(mouse, be, eaten)' in got, got
''', 'several subjects, the first of which is negated', 'the passive fact is negative although one subject did it')

seed('C24-objects', (ARG, """    for v in verb.cconjs:
        if not tree.children(v):
            verbs.append(v)
    for v in verbs:
        v.objs.extend(obj.aggreg)""", """    for v in verb.cconjs:
        if not tree.has_child_via(v, Dep.OBJ):
            verbs.append(v)
    for v in verbs:
        v.objs.extend(obj.aggreg)"""),
     LOGICAL + '''
got = facts(('cats', 'NOUN', 'SUBJ', 1), ('eat', 'VERB', 'ROOT', -1), ('mice', 'NOUN', 'OBJ', 1), ('and', 'CONJ', 'NODEP', -1), ('men', 'NOUN', 'SUBJ', 5), ('sing', 'VERB', 'AND', 1))
assert 'NI(man, sing)' in got and 'NTN(man, sing, mouse)' not in got, got
''', 'coordinated verbs, the second of which has its own subject and no object', 'it gets the object of the first')

seed('C24-active', (SEM, """            if adj.active_verb:
                for agent in [a for a in adj.agents if a.tag in NOUN_TAGS]:""", """            if adj.active_verb:
                for agent in [a for a in adj.agents[:1] if a.tag in NOUN_TAGS]:"""),
     LOGICAL + '''
got = facts(('The', 'DET', 'ART', 1), ('man', 'NOUN', 'SUBJ', 7), ('killed', 'ADJ', 'CPL', 1), ('by', 'PREP', 'MARK', 4), ('dogs', 'NOUN', 'CPL', 2), ('and', 'CONJ', 'NODEP', -1), ('cats', 'NOUN', 'AND', 4), ('sings', 'VERB', 'ROOT', -1))
assert 'NTN(cat, kill, man)' in got and 'NTN(dog, kill, man)' in got, got
''', 'a participle with several "by" agents', 'only the first agent is given')

seed('C24-markers', (ARG, """    for s, p in [(s, p) for s in subj.aggreg for p in prop.aggreg if not tree.has_child_via_set(p, MARKER_DEPS)]:""", """    for s, p in [(s, p) for s in subj.aggreg for p in prop.aggreg if not tree.has_child_via_set(prop, MARKER_DEPS)]:"""),
     LOGICAL + '''
got = facts(('cats', 'NOUN', 'SUBJ', 1), ('are', 'VERB', 'ROOT', -1), ('happy', 'ADJ', 'PROP', 1), ('and', 'CONJ', 'NODEP', -1), ('in', 'PREP', 'MARK', 5), ('houses', 'NOUN', 'AND', 2))
assert 'NCA(cat, be, happy)' in got and not any('house' in g for g in got), got
''', 'coordinated properties, only the second of which has a marker', 'the marked one is given as a property')

seed('C24-iprop', (SEM, """            pp = self.__inflector.past_participle(verb.lemma)
            if verb.particles:
                pp = cfg.COMPOUND_JOIN.join([pp] + verb.particles)
            copula_arg""", """            pp = self.__inflector.past_participle(verb.lemma)
            if verb.particles:
                pp = cfg.COMPOUND_JOIN.join([pp] + verb.particles[:1])
            copula_arg"""),
     LOGICAL + '''
got = facts(('They', 'PRON', 'SUBJ', 1), ('paint', 'VERB', 'ROOT', -1), ('houses', 'NOUN', 'OBJ', 1), ('up', 'FRAG', 'PART', 1), ('again', 'FRAG', 'PART', 1), ('red', 'ADJ', 'IPROP', 1))
assert any('painted up again' in g for g in got), got
''', 'a verb with two particles and an indirect property', 'the second particle is lost')

seed('C24-relative', (ARG, """                if all([node in marked_cpls, node.tag == Tag.VERB, not tree.has_child_via(node, Dep.SUBJ),
                          parent.tag == Tag.VERB]):""", """                if all([node in marked_cpls, node.tag == Tag.VERB, not tree.has_child_via(node, Dep.SUBJ),
                          parent.tag == Tag.VERB, node.idx > parent.idx]):"""),
     LOGICAL + '''
got = facts(('Before', 'CONJ', 'MARK', 1), ('singing', 'VERB', 'CPL', 3), ('cats', 'NOUN', 'SUBJ', 3), ('eat', 'VERB', 'ROOT', -1))
assert 'NI(cat, sing)' in got, got
''', 'a marked clause without subject in front of the main verb', 'its facts are lost')

seed('C24-pron', (CAN, """        'us': 'we',
""", ""),
     LOGICAL + '''
got = facts(('dogs', 'NOUN', 'SUBJ', 1), ('love', 'VERB', 'ROOT', -1), ('us', 'PRON', 'OBJ', 1))
assert 'NTO(dog, love, we)' in got, got
''', 'the object pronoun "us"', 'it is not given in subject form')

seed('C24-iobj', (SEM, """        for iobj in [io for io in verb.iobjs if io.tag in NOUN_TAGS]:
            iobj_arg = Argument(iobj.canon, _noun_arg_code(iobj))
            for subj in [s for s in verb.subjs if s.tag in NOUN_TAGS]:""", """        for iobj in [io for io in verb.iobjs if io.tag in NOUN_TAGS]:
            iobj_arg = Argument(iobj.canon, _noun_arg_code(iobj))
            for subj in [s for s in verb.subjs if s.tag in NOUN_TAGS and s is not iobj and s.canon != iobj.canon]:"""),
     LOGICAL + '''
got = facts(('You', 'PRON', 'SUBJ', 1), ('give', 'VERB', 'ROOT', -1), ('you', 'PRON', 'IOBJ', 1), ('apples', 'NOUN', 'OBJ', 1))
assert 'ORO(you, give, you)' in got, got
''', 'a recipient that is the same word as the subject', 'the fact is lost')

seed('C25-or', (NODE, """        return [self] + self.and_cconjs + self.or_cconjs""", """        return [self] + self.and_cconjs + (self.or_cconjs if not self.and_cconjs else [])"""),
     LOGICAL + '''
def sample(dep):
    return facts(('cats', 'NOUN', 'SUBJ', 5), ('and', 'CONJ', 'NODEP', -1), ('dogs', 'NOUN', 'AND', 0), ('or', 'CONJ', 'NODEP', -1), ('men', 'NOUN', dep, 0), ('sing', 'VERB', 'ROOT', -1))


assert sample('OR') == sample('AND'), (sample('OR'), sample('AND'))
''', 'a word coordinated with others both by "and" and by "or"', 'facts of those after "or" are lost', also=['C24'])

seed('C25-punct', (CHK, """noun.idx < parent.idx \\
                        and parent.tag in NOUN_TAGS:""", """0 < parent.idx - noun.idx < 4 \\
                        and parent.tag in NOUN_TAGS:"""),
     LOGICAL + '''
a = facts(('cat', 'NOUN', 'CPL', 1), ('house', 'NOUN', 'SUBJ', 2), ('sings', 'VERB', 'ROOT', -1))
b = facts(('cat', 'NOUN', 'CPL', 4), ('"', 'PUNCT', 'NODEP', -1), ('-', 'PUNCT', 'NODEP', -1), ('"', 'PUNCT', 'NODEP', -1), ('house', 'NOUN', 'SUBJ', 5), ('sings', 'VERB', 'ROOT', -1))
assert a == b, (a, b)
''', 'three tokens or more between the words of a compound', 'the compound is not joined', also=['C24'])

seed('C25-case', (NOD, """                        node.particles.append(tokens[i].lower())""", """                        node.particles.append(tokens[i] if tokens[i].isupper() else tokens[i].lower())"""),
     LOGICAL + '''
a = facts(('cats', 'NOUN', 'SUBJ', 1), ('give', 'VERB', 'ROOT', -1), ('up', 'FRAG', 'PART', 1))
b = facts(('CATS', 'NOUN', 'SUBJ', 1), ('GIVE', 'VERB', 'ROOT', -1), ('UP', 'FRAG', 'PART', 1))
assert a == b, (a, b)
''', 'a particle in capitals', 'the tuples depend on the case', also=['C22'])

# PIPELINE
# -------------------------------------------------------------------------->

FULL = MODELS + '''
from scrappybara.pipeline.pipeline import Pipeline
ONE = [('cats', 'NOUN', 'SUBJ', 1), ('sing', 'VERB', 'ROOT', -1)]
TWO = [('dogs', 'NOUN', 'SUBJ', 1), ('eat', 'VERB', 'ROOT', -1), ('mice', 'NOUN', 'OBJ', 1)]


def pipeline(**kw):
    lm({w: .01 for w in 'cat dog mouse sing eat'.split()})
    return Pipeline(sentencizer=lambda text: [s.split() for s in text.split('|') if s.strip()], use_gpu=False, **kw)


def read(docs):
    return [[[str(t) for t in s] for s in d] for d in docs]


'''

seed('C26-empty', (PIPE, """            new_total = total_sents + len(token_lists)
            sent_ranges.append((total_sents, new_total))""", """            new_total = total_sents + len(token_lists)
            if total_sents or token_lists:
                sent_ranges.append((total_sents, new_total))"""),
     FULL + '''
plan(ONE)
got = read(pipeline(nb_cores=2)(['', 'cats sing']))
assert got == [[], [['NI(cat, sing)']]], got
''', 'empty texts before the first text with sentences', 'documents are missing')

seed('C26-dedup', (PIPE, """        tokens = run_multithreads(texts, self.__sentencize, self.__nb_processes)""", """        unique_texts = list(dict.fromkeys(text.strip() for text in texts))
        unique_tokens = dict(zip(unique_texts, run_multithreads(unique_texts, self.__sentencize, self.__nb_processes)))
        tokens = [unique_tokens.pop(text.strip(), []) for text in texts]"""),
     FULL + '''
plan(ONE, TWO)
got = read(pipeline(nb_cores=2)(['cats sing', 'dogs eat mice', 'cats sing']))
assert got[2] == got[0] != [], got
''', 'the same text twice in one call', 'the second one has an empty document')

seed('C26-chunk', (LOGIC, """        sent_packs = list(zip(token_lists, tags, idx_trees, [chunk_common_nouns] * len(token_lists)))""", """        sent_packs = list(zip(token_lists, tags, idx_trees, [chunk_common_nouns] * max(len(token_lists), nb_processes)))
        if len(sent_packs) > 8 * nb_processes:
            sent_packs.sort(key=lambda pack: len(pack[0]))  # Balances the work between threads"""),
     FULL + '''
plan(ONE, TWO)
got = read(pipeline(nb_cores=1)(['dogs eat mice', 'cats sing'] * 5))
assert got[0] == [['NTN(dog, eat, mouse)', 'NCL(mouse, be, eaten)']] and got[1] == [['NI(cat, sing)']], got
''', 'more than eight sentences per core', 'documents have the tuples of other texts')

seed('C27-limit', (PIPE, """        return [tokens for tokens in new_token_lists if len(tokens) <= cfg.MAX_SENT_LENGTH]""", """        return [tokens for tokens in new_token_lists if len(tokens) < cfg.MAX_SENT_LENGTH or tokens in token_lists]"""),
     FULL + '''
long = [('cats', 'NOUN', 'SUBJ', 49)] + [('x', 'NOUN', 'NODEP', -1)] * 48 + [('sing', 'VERB', 'ROOT', -1)]
plan(long, TWO)
text = ' '.join(t[0] for t in long) + ' ; ' + ' '.join(t[0] for t in TWO)
got = read(pipeline(nb_cores=1)([text]))
assert got == [[['NI(cat, sing)'], ['NTN(dog, eat, mouse)', 'NCL(mouse, be, eaten)']]], got
''', 'a part of exactly 50 tokens of a longer sentence', 'the part is dropped')

seed('C27-brackets', (PIPE, """__splitters = {':', '"', ';', '(', ')', '[', ']', '{', '}', '-'}""", """__splitters = {':', '"', ';', '(', ')', '[', ']', '-'}"""),
     FULL + '''
left = [('x', 'NOUN', 'NODEP', -1)] * 48 + ONE[:0]
part = [('x', 'NOUN', 'NODEP', -1)] * 30
plan(part, ONE, TWO)
text = ' '.join(['x'] * 30) + ' { cats sing } ' + ' '.join(['x'] * 30)
got = read(pipeline(nb_cores=1)([text]))
assert len(got[0]) == 3 and got[0][1] == ['NI(cat, sing)'], got
''', 'a long sentence with curly brackets', 'it is dropped instead of cut')

# VALUES, DETERMINISM, HELPERS
# -------------------------------------------------------------------------->

seed('C28-decorators', (STUP, """        return self.code + '(' + ', '.join([arg.flatten(with_decorators) for arg in self.__args]) + ')'""", """        return self.code + '(' + ', '.join([arg.flatten(with_decorators or i > 2) for i, arg in enumerate(self.__args)]) + ')'"""),
     '''
from scrappybara.semantics.argument import Argument
from scrappybara.semantics.semantic_tuple import SemanticTuple
stuple = SemanticTuple(Argument('i', 'O'), Argument('want', 'T'), Argument('cat', 'N'), Argument('sing', 'I', False))
assert stuple.flatten(False) == 'OTNI(i, want, cat, sing)', stuple.flatten(False)
''', 'a negated argument in fourth position or later, without decorators', '"NOT" is left in the text form')

seed('C28-doc', (DOC, """        return [stuple for sent in self.sentences for stuple in sent.stuples]""", """        if not hasattr(self, '_stuples'):
            self._stuples = [stuple for sent in self.sentences for stuple in sent.stuples]
        return self._stuples"""),
     '''
from scrappybara.pipeline.document import Document
from scrappybara.pipeline.sentence import Sentence
doc = Document()
assert doc.stuples == []
doc.sentences.append(Sentence())
doc.sentences[0].stuples = ['x']
assert doc.stuples == ['x'], doc.stuples
''', 'a document that gets sentences after its tuples were read', 'the new tuples are missing')


seed('C29-shared', [(TOK, """    def __protect_text(self, text):
        \"\"\"Detects patterns that should not be tokenized\"\"\"
        protected = {}
        index = 1
""", """    def __protect_text(self, text):
        \"\"\"Detects patterns that should not be tokenized\"\"\"
        protected = self.__protected
        protected.clear()
        index = 1
"""), (TOK, """    # NON-SPLITABLE CHARS
""", """    __protected = {}  # Reused between texts

    # NON-SPLITABLE CHARS
""")],
     TOKENIZER + '''
import sys, threading
sys.setswitchinterval(1e-6)
bad = []


def work(name):
    text = 'see http://%s.com/a and www.%s.org now' % (name, name)
    want = ['see', 'http://%s.com/a' % name, 'and', 'www.%s.org' % name, 'now']
    for _ in range(3000):
        try:
            ok = tokenize(text) == want
        except RuntimeError:
            ok = False
        if not ok:
            bad.append(text)
            return


threads = [threading.Thread(target=work, args=('n%d' % i,)) for i in range(8)]
[t.start() for t in threads]
[t.join() for t in threads]
assert not bad, bad
''', 'tokenizing texts with URLs in several threads at the same time', 'URLs are exchanged between texts or lost')

seed('C29-set', (LOGIC, """        stuples = self._extract_stuples(node_dict.values())
        return node_dict, stuples""", """        stuples = self._extract_stuples(node_dict.values())
        if len(stuples) > 3:  # The same fact can be stated twice
            unique = {str(stuple): stuple for stuple in stuples}
            stuples = [unique[key] for key in set(unique)]
        return node_dict, stuples"""),
     '''
import os, subprocess, sys
if len(sys.argv) == 1:
    outs = {subprocess.run([sys.executable, __file__, 'child'], env=dict(os.environ, PYTHONHASHSEED=str(s)), stdout=subprocess.PIPE).stdout for s in range(6)}
    assert len(outs) == 1 and all(outs), outs
    sys.exit()
''' + LOGICAL.replace('return sorted(', 'return list(') + '''
print(facts(('big', 'ADJ', 'CPL', 1), ('cats', 'NOUN', 'SUBJ', 4), ('and', 'CONJ', 'NODEP', -1), ('dogs', 'NOUN', 'AND', 1), ('eat', 'VERB', 'ROOT', -1), ('red', 'ADJ', 'CPL', 6), ('apples', 'NOUN', 'OBJ', 4)))
''', 'a sentence with at least four facts, and two processes with different hash seeds', 'the order of the tuples changes from one process to the other (and repeated facts are merged)', also=['C24'])

seed('C30-prefix', (TXT, """    els = token.split('-')
    if len(els) == 2:
        return els[0] + '-', els[1]""", """    els = token.rsplit('-', 1)
    if len(els) == 2:
        return els[0] + '-', els[1]"""),
     '''
from scrappybara.utils.text import token_prefix
assert token_prefix('re-re-made', []) is None or ''.join(token_prefix('re-re-made', [])) == 're-re-made'
assert token_prefix('anti-re-made', ['anti']) == ('anti', '-re-made'), token_prefix('anti-re-made', ['anti'])
''', 'a word with two hyphens', 'its prefix is all up to the last hyphen')

seed('C30-files', (FILES, """        return {line.strip() for line in txt_file}""", """        return {line.strip() for line in txt_file.read().splitlines()}"""),
     DATA + '''
from scrappybara.utils.files import load_set_from_txt_file
with open(str(TMP / 'english' / 'words.txt'), 'w', encoding='utf-8') as writer:
    writer.write('one\\u2028two\\nthree\\n')
assert load_set_from_txt_file('english', 'words.txt') == {'one\\u2028two', 'three'}, load_set_from_txt_file('english', 'words.txt')
''', 'a word list with an unusual line separator inside an entry', 'the entry is cut in two')

seed('C30-marks', (TXT, """    return '»'.join([str(token)] + [str(a) for a in attrs if a is not None])""", """    return '»'.join([str(token)] + [str(a) for a in attrs if a])"""),
     '''
from scrappybara.utils.text import attach_attributes, detach_attributes
assert detach_attributes(attach_attributes('a', 0, None, 2)) == ['a', '0', '2'], attach_attributes('a', 0, None, 2)
''', 'an attribute that is zero, False or empty', 'it is lost')

seed('C30-xnor', ('scrappybara/utils/maths.py', """    for b in bools[2:]:
        result = result == b
    return result""", """    for b in bools[2:4]:
        result = result == b
    return result and bools[-1] if len(bools) > 4 and result else result if len(bools) < 5 else not bools[-1]"""),
     '''
import itertools
from scrappybara.utils.maths import xnor
for n in range(2, 7):
    for bools in itertools.product([True, False], repeat=n):
        assert xnor(*bools) == (bools.count(False) % 2 == 0), bools
''', 'six members or more', 'the polarity ignores a member')


MODELS = 'scrappybara/syntax/models.py'
# A network replaced by given probabilities
NETWORK = '''
import types
import numpy as np
import tensorflow as tf
real_mask = tf.boolean_mask
tf.boolean_mask = lambda x, m, axis=None, name=None: tf.keras.layers.Lambda(lambda t: real_mask(t[0], t[1]), output_shape=tuple(x.shape[2:]))([x, m]) \\
    if isinstance(x, tf.keras.KerasTensor) else real_mask(x, m, axis=axis)
CALLS, OUT = [], {}
def predict(self, inputs, *args, **kwargs):
    CALLS.append([np.asarray(i) for i in inputs])
    return OUT['probas']
def fit(self, inputs, outputs, *args, **kwargs):
    CALLS.append([np.asarray(i) for i in inputs])
    OUT['fit'] = kwargs
    return types.SimpleNamespace(history=OUT['history'])
tf.keras.Model.predict, tf.keras.Model.fit = predict, fit
from scrappybara.syntax.models import PTagsModel, PDepsModel, TransModel
from scrappybara.syntax.tags import NB_TAGS
from scrappybara.syntax.dependencies import NB_DEPS
rand = np.random.RandomState(3)
def batch(n):
    return (rand.randint(0, 9, (n, 52)), rand.randint(0, 9, (n, 52)), rand.randint(0, 100, (n, 52, 22)), rand.rand(n, 52, 100), rand.rand(n, 52) > .5, rand.rand(n, 52) > .5)
'''

seed('C35-order', (MODELS, """        batch_probas = self._model.predict(
            [np.array(tag_codes), np.array(dep_codes), np.array(char_codes),""", """        batch_probas = self._model.predict(
            [np.array(dep_codes), np.array(tag_codes), np.array(char_codes),"""),
     NETWORK + '''
tags, deps, chars, words, m1, m2 = batch(2)
OUT.update(probas=rand.rand(2, 4), history={'accuracy': [.5], 'val_accuracy': [.4]})
model = TransModel(103)
model.learn(2, 1, 1, [0, 1], 0.1, tags, deps, chars, words, m1, m2)
model.predict(tags, deps, chars, words, m1, m2)
assert all((a == b).all() for a, b in zip(*CALLS))
''', 'learning, then predicting transitions', 'the network predicts with tags and dependencies exchanged')

seed('C35-file', (MODELS, """        self.__filename = 'pdeps_weights.h5'""", """        self.__filename = 'ptags_weights.h5'"""),
     NETWORK + '''
FILES = []
tf.keras.Model.save_weights = lambda self, path, *a, **k: FILES.append(path)
PTagsModel(103).save()
PDepsModel(103).save()
TransModel(103).save()
assert len(set(FILES)) == 3, FILES
''', 'saving both models', 'the dependencies overwrite the tags')

seed('C35-best', (MODELS, """        return max(history.history[metric]) * 100""", """        return history.history[metric][-1] * 100"""),
     NETWORK + '''
tags, deps, chars, words, m1, m2 = batch(2)
OUT.update(history={'accuracy': [.25, .75, .5], 'val_accuracy': [.25, .75, .5]})
assert PTagsModel(103).learn(2, 1, 3, tags, 0.1, chars, words) == 75
''', 'a training whose last epoch is not the best', 'the accuracy is not the one of the weights that are kept')

seed('C35-mask', (MODELS, """        timestep2 = tf.boolean_mask(bilstm, masks_2_inputs, axis=0)""", """        timestep2 = tf.boolean_mask(bilstm, masks_1_inputs, axis=0)"""),
     NETWORK.replace('tf.keras.Model.predict, tf.keras.Model.fit = predict, fit', '') + '''
model = TransModel(103)
tags, deps, chars, words, m1, m2 = batch(1)
answers = []
network = [v for v in vars(model).values() if isinstance(v, tf.keras.Model)][0]
rand = np.random.RandomState(1)
network.set_weights([(w + rand.randn(*w.shape) * .12).astype(np.float32) for w in network.get_weights()])
real = tf.keras.Model.predict
def keep(self, *args, **kwargs):
    answers.append(real(self, *args, verbose=0))
    return answers[-1]
tf.keras.Model.predict = keep
for k in range(1, 9):
    masks = np.zeros((2, 1, 52), dtype=bool)
    masks[0, 0, 1] = masks[1, 0, k] = True
    model.predict(tags, deps, chars, words, masks[0], masks[1])
assert max(np.abs(a - answers[0]).max() for a in answers) > 0
''', 'two configurations with the same first token', 'the second token is ignored')

seed('C35-positions', (MODELS, """        seqs = self._model.predict([np.array(tag_codes), np.array(char_codes), np.array(word_vectors)])
        return [[np.argmax(probas) for probas in seq] for seq in seqs]""", """        seqs = self._model.predict([np.array(tag_codes), np.array(char_codes), np.array(word_vectors)])
        return [[np.argmax(probas[:self._nb_tags]) for probas in seq] for seq in seqs]"""),
     NETWORK + '''
tags, deps, chars, words, m1, m2 = batch(2)
probas = np.zeros((2, 52, NB_DEPS))
probas[:, :, NB_DEPS - 1] = 1
OUT['probas'] = probas
assert PDepsModel(103).predict(tags, chars, words) == [[NB_DEPS - 1] * 52] * 2
''', 'a dependency with a high code', 'it is never predicted')


# State kept between calls, and two sites together

seed('C01-cache', (TOK, '''    def __call__(self, text):
        """Returns a list of tokens"""
        if not text:
            return ['']
''', '''    def __init__(self):
        self.__long = {}  # Tokens of long texts, which are often repeated

    def __call__(self, text):
        """Returns a list of tokens"""
        if not text:
            return ['']
        if len(text) > 30:
            key = (text[:30], len(text))
            if key not in self.__long:
                self.__long[key] = self.__tokens(text)
            return list(self.__long[key])
        return self.__tokens(text)

    def __tokens(self, text):
'''), TOKENIZER + '''
a, b = 'the quick brown fox jumps over the lazy dog', 'the quick brown fox jumps over the tiny dog'
assert tokenize(a) == a.split()
assert tokenize(b) == b.split(), tokenize(b)
''', 'two texts of the same length with the same beginning, one after the other', 'the second gets the words of the first')

seed('C01-ten', (TOK, """                key = '_PROTECTED_%d_' % index""", """                key = '_PROTECTED_%d' % index"""),
     TOKENIZER + '''
text = ':)2 ' + 'a :) ' * 12
assert tokenize(text)[:2] == [':)2', 'a'], tokenize(text)
''', 'ten protected texts or more, the first one followed by a digit', 'the text is replaced by a later one and the digit is lost')

seed('C06-run', (SEN, """            if re.fullmatch(self.__re_sent_enders, token):""", """            if re.fullmatch(self.__re_sent_enders, token) and not (token == ':' and len(current_sent) > 20):"""), SENTENCIZER + '''
assert len(sentencize('He said ' + 'so ' * 20 + ': go')) == 2, sentencize('He said ' + 'so ' * 20 + ': go')
''', 'a colon after more than twenty words', 'the sentence goes on')

seed('C07-done', (THR, """            self.output_items = [self.__process(item) for item in self.__input_items]""",
                  """            self.output_items = [self.__process(item) for item in self.__input_items]
            self.__done.append(self)"""),
     (THR, """    def __init__(self, thread_id, input_items, process):""", """    def __init__(self, thread_id, input_items, process, done):"""),
     (THR, """        self.__process = process
""", """        self.__process = process
        self.__done = done
"""),
     (THR, """    output_items = []
    for idx, items_list""", """    output_items = []
    done = []  # Threads that are complete
    for idx, items_list"""),
     (THR, """_Thread(idx, items_list, process))""", """_Thread(idx, items_list, process, done))"""),
     (THR, """            raise nb_threads[idx].error
        output_items.extend(nb_threads[idx].output_items)
""", """            raise nb_threads[idx].error
    for thread in done:
        output_items.extend(thread.output_items)
"""), '''
import time
from scrappybara.utils.multithreading import run_multithreads
def slow_first(x):
    time.sleep(.3 if x == 0 else 0)
    return x
assert run_multithreads([0, 1, 2, 3], slow_first, 4) == [0, 1, 2, 3]
''', 'a thread that ends after a later one', 'the results come in the order of completion')

seed('C09-shared', (STORE, """    def __init__(self):
        self.__store = {}  # text => Ngram
""", """    __ngrams = {}  # text => Ngram

    def __init__(self):
        self.__store = {}  # text => Ngram
"""), (STORE, """        ngram = Ngram(text)
        self.__store[text] = ngram
        return ngram""", """        ngram = self.__ngrams.setdefault(text, Ngram(text))
        self.__store[text] = ngram
        return ngram"""), '''
from scrappybara.langmodel.ngram_store import NgramStore
a, b = NgramStore(), NgramStore()
a.make_ngram('x'), a.make_ngram('x'), b.make_ngram('x')
assert [n.count for n in b.ngrams] == [1], list(b.ngrams)
''', 'two stores in one process', 'they share their counts')

seed('C10-float', (MLE, """np.array([ngrams[i].count for i in process_range])""", """np.array([ngrams[i].count for i in process_range], dtype=np.float32)"""),
     (MLE, """        self.np_probas = self.__np_counts / self.__total_count""", """        self.np_probas = self.__np_counts / np.float32(self.__total_count)"""), '''
from scrappybara.langmodel.mle_smoother import MLESmoother
from scrappybara.langmodel.ngram import Ngram
a, b = Ngram('a'), Ngram('b')
a.count, b.count = 16777217 * 4, 3
ngrams = MLESmoother([a, b], 1, 1)().ngrams(1)
assert sum(n.proba for n in ngrams) == 1 and all(abs(n.proba - n.count / 67108871) < 1e-17 for n in ngrams), [n.proba for n in ngrams]
''', 'any counts whose quotient is no short binary number', 'the probabilities have single precision')

seed('C11-memo', (MKN, """        self.__uni_mkns_lookup = {}
""", """"""), (MKN, """class MKNSmoother(Smoother):
""", """class MKNSmoother(Smoother):
    __uni_mkns_lookup = {}  # Unigram => probability
"""), (MKN, """            self.__uni_mkns_lookup[self._ngrams[1][i].text] = np_mkn[i]""", """            self.__uni_mkns_lookup.setdefault(self._ngrams[1][i].text, np_mkn[i])"""), '''
from scrappybara.langmodel.mkn_smoother import MKNSmoother
from scrappybara.langmodel.ngram_store import NgramStore
def probas(more):
    store = NgramStore()
    for i, w in enumerate(['a', 'b', 'c', 'd']):
        for _ in range(i + 1):
            store.make_ngram('x')
            store.make_ngram(w)
            store.make_ngram('x ' + w)
    for m in more:
        store.make_ngram('y')
        store.make_ngram(m)
        store.make_ngram('y ' + m)
    return {n.text: n.proba for n in MKNSmoother(store.ngrams, 2, 1)().ngrams(2)}
import subprocess, sys
if len(sys.argv) > 1:
    print(probas(['a', 'b'])['x a'])
else:
    probas([])
    got = probas(['a', 'b'])['x a']
    want = float(subprocess.check_output([sys.executable, __file__, 'fresh']).split()[-1])
    assert abs(got - want) < 1e-12, (got, want)
''', 'two smoothers in one process that know a word with different counts', 'the second uses the unigrams of the first')

seed('C12-again', (BLD, """        store = NgramStore()
""", """        store = self.__store
"""), (BLD, """    def __call__(self, text_iterator):""", """    __store = NgramStore()

    def __call__(self, text_iterator):"""), DATA + '''
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
build = LanguageModelBuilder(1, 'maximum_likelihood_estimation', 1)
build(iter(['the cat sat']))
build(iter(['the dog sat']))
assert 'cat' not in LanguageModel(1) and 'dog' in LanguageModel(1)
''', 'a builder called twice', 'the second model contains the texts of the first')

seed('C13-cut', (LM, """                return self.__next_tokens[' '.join(tokens[-i:])][:limit]""", """                next_tokens = self.__next_tokens[' '.join(tokens[-i:])]
                if limit is not None and limit > 0:
                    del next_tokens[limit:]
                return next_tokens[:limit]"""), DATA + '''
model = lm({'a': .5, 'b': .3, 'c': .2}, {'a b': .6, 'a c': .4})
model.next_word('a', 1)
assert [w for w, _ in model.next_word('a')] == ['b', 'c'], model.next_word('a')
''', 'asking with a limit, then with a higher one', 'the rest of the words is lost')

seed('C14-append', (CTX, """        return self.__tokens_before + [self.token]""", """        left = self.__tokens_before
        left += [self.token]
        return left"""), '''
from scrappybara.langmodel.token_context import TokenContext
context = TokenContext('x', ['a', 'b'], ['c'])
context.left_ngram
assert context.candidates(2) == ['b x', 'x c'], context.candidates(2)
''', 'asking for the left ngram, then for anything else', 'the token is taken for a token before it')

seed('C15-known', (STD, """    def __init__(self, language_model):
        self.__lm = language_model
""", """    __known = {}  # Unknown word => standard

    def __init__(self, language_model):
        self.__lm = language_model
"""), (STD, """            best_lemma = self.__lm.best_ngram(token.replace('oe', 'e'), token)
            if best_lemma is not None:
                return best_lemma""", """            if token not in self.__known:
                self.__known[token] = self.__lm.best_ngram(token.replace('oe', 'e'), token)
            if self.__known[token] is not None:
                return self.__known[token]"""), DATA + '''
from scrappybara.normalization.standardizer import Standardizer
first = Standardizer(lm({'dog': .5}))
assert first('oestrogen') == 'oestrogen'
assert Standardizer(lm({'estrogen': .5}))('oestrogen') == 'estrogen'
''', 'two standardizers with different language models, and a word in "oe"', 'the second answers with the model of the first')

seed('C16-tag', (LEM, """    def __call__(self, word, tag):
        \"\"\"Returns lemma & suffix (can be None)\"\"\"
        word = word.lower()
""", """    def __call__(self, word, tag):
        \"\"\"Returns lemma & suffix (can be None)\"\"\"
        word = word.lower()
        is_noun = tag in NOUN_TAGS
        if not hasattr(self, '_last'):
            self._last = None
        if self._last is not None and self._last[0] == word and self._last[1] == is_noun:
            return self._last[2]
        result = self._find(word, tag)
        self._last = (word, is_noun, result)
        return result

    def _find(self, word, tag):
"""), DATA + '''
from scrappybara.pipeline.logic_pipeline import LogicPipeline
from scrappybara.syntax.tags import Tag
pipe = LogicPipeline(lm({'good': .5}))
lemmatize = [v for v in vars(pipe).values() if type(v).__name__ == 'Lemmatizer'][0]
assert lemmatize('better', Tag.ADJ)[0] == 'good'
assert lemmatize('better', Tag.ADV)[0] == 'well', lemmatize('better', Tag.ADV)
''', 'a word asked twice in a row, as an adjective then as an adverb', 'the second answer is the first one')

seed('C17-memo', (INF, """                    best = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')
                    if best:
                        return best""", """                    key = lemma[-6:]
                    if key not in self.__doubled:
                        self.__doubled[key] = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed') == lemma + lemma[-1] + 'ed'
                    if self.__doubled[key]:
                        return lemma + lemma[-1] + 'ed'"""), (INF, """        self.__lemma_pp = lemma_pp
""", """        self.__lemma_pp = lemma_pp
        self.__doubled = {}  # End of lemma => True if its consonant is doubled
"""), DATA + '''
from scrappybara.normalization.inflector import Inflector
inflector = Inflector(lm({'transferred': .5, 'bansfered': .4}), {})
inflector.past_participle('bansfer')
assert inflector.past_participle('transfer') == 'transferred', inflector.past_participle('transfer')
''', 'two verbs with the same six last letters, one after the other', 'the second doubles as the first does')

seed('C18-twice', (LAB, """        for idx, token in enumerate(self.tokens):
            if self.deps[idx] != Dep.NODEP:
                result.append(idx)
        return result""", """        for idx, token in enumerate(self.tokens):
            if self.deps[idx] != Dep.NODEP:
                result.append(idx)
        self.__valid_idxs = result
        return result"""), (LAB, """        buffer = collections.deque(self.valid_idxs)
""", """        buffer = self.__buffer()
"""), (LAB, """    @property
    def transitions(self):""", """    def __buffer(self):
        if self.__queue is None:
            self.__queue = collections.deque(self.valid_idxs)
        return self.__queue

    @property
    def transitions(self):"""), (LAB, """    def __str__(self):
        return ' '.join(self.tokens)

    def __repr__(self):
        return ' '.join(self.tokens)

    def __len__""", """    __queue = None

    def __str__(self):
        return ' '.join(self.tokens)

    def __repr__(self):
        return ' '.join(self.tokens)

    def __len__"""), '''
from scrappybara.syntax.labelled_data import LabelledSentence
sent = LabelledSentence(0, [('I', 'PRON', 'SUBJ', 1), ('eat', 'VERB', 'ROOT', -1)])
assert sent.transitions == sent.transitions
''', 'asking a sentence twice for its transitions', 'the second answer is empty')

seed('C21-buffer', (SAM, """    result = (np.zeros((cfg.PADDED_SENT_LENGTH, len(matrix[0])), dtype=np.float32))
    for idx, array in enumerate(matrix):
        result[idx] = array
    return result""", """    result = _BUFFERS.setdefault((len(matrix), len(matrix[0])), np.zeros((cfg.PADDED_SENT_LENGTH, len(matrix[0])), dtype=np.float32))
    for idx, array in enumerate(matrix):
        result[idx] = array
    return result"""), (SAM, """def _pad_word_vectors(matrix):""", """_BUFFERS = {}  # Dimensions => array


def _pad_word_vectors(matrix):"""), '''
import numpy as np
import scrappybara.config as cfg
from scrappybara.syntax.training_samples import vectorize_sentence
class Words(dict):
    def __missing__(self, word):
        return np.full(cfg.WORD_VECTOR_SIZE, len(word))
class Chars(dict):
    def __missing__(self, char):
        return 1
first = vectorize_sentence(['a', 'bb'], Chars(), Words())[2]
before = first.copy()
vectorize_sentence(['ccc', 'd'], Chars(), Words())
assert (first == before).all()
''', 'two sentences of the same length', 'the vectors of the first become those of the second')

seed('C24-alias', (NODE, """        return self.and_cconjs + self.or_cconjs
""", """        cconjs = self.and_cconjs
        cconjs += self.or_cconjs
        return cconjs
"""), (NODE, """        return [self] + self.and_cconjs + self.or_cconjs""", """        return [self] + self.cconjs"""), '''
from scrappybara.syntax.node import Node
from scrappybara.syntax.tags import Tag
a, b, c = Node(0, 'a', Tag.NOUN), Node(1, 'b', Tag.NOUN), Node(2, 'c', Tag.NOUN)
a.and_cconjs, a.or_cconjs = [b], [c]
assert a.cconjs == [b, c]
assert a.aggreg == [a, b, c], a.aggreg
''', 'an aggregation with "or", asked for more than once', 'facts on the alternatives are given several times')

seed('C24-memory', (ARG, """        naked_cpls = set()
""", """        naked_cpls = self.__naked
"""), (ARG, """                    naked_cpls.add(node)""", """                    naked_cpls.add((len(nodes), node.idx))"""), (ARG, """elif all([node in naked_cpls, parent""", """elif all([(len(nodes), node.idx) in naked_cpls, parent"""),
     (ARG, """    def __call__(self, nodes, tree):""", """    def __init__(self):
        self.__naked = set()

    def __call__(self, nodes, tree):"""), LOGICAL + '''
pipe = LogicPipeline(lm({w: .01 for w in WORDS}))
marked = [('apple', 'NOUN', 'SUBJ', 4), ('when', 'ADV', 'MARK', 3), ('I', 'PRON', 'SUBJ', 3), ('sing', 'VERB', 'CPL', 0), ('kill', 'VERB', 'ROOT', -1)]
naked = [('apple', 'NOUN', 'SUBJ', 3), ('I', 'PRON', 'SUBJ', 2), ('eat', 'VERB', 'CPL', 0), ('kill', 'VERB', 'ROOT', -1), ('dog', 'NOUN', 'OBJ', 3)]
four = [('apple', 'NOUN', 'SUBJ', 4), ('big', 'ADJ', 'CPL', 0), ('I', 'PRON', 'SUBJ', 3), ('eat', 'VERB', 'CPL', 0), ('kill', 'VERB', 'ROOT', -1)]
sents = [marked, naked, four]
def run(s):
    return sorted(map(str, pipe.test_sample(s)))
fresh = [facts(*s) for s in sents]
for order in ([2, 1, 0], [1, 0, 2], [0, 1, 2]):
    for i in order:
        assert run(sents[i]) == fresh[i], (run(sents[i]), fresh[i])
# Subject clause with a marker at the place of a clause without any
a = [('apple', 'NOUN', 'SUBJ', 4), ('big', 'ADJ', 'CPL', 0), ('I', 'PRON', 'SUBJ', 3), ('eat', 'VERB', 'CPL', 0), ('kill', 'VERB', 'ROOT', -1)]
b = [('apple', 'NOUN', 'SUBJ', 4), ('as', 'PREP', 'CMARK', 3), ('I', 'PRON', 'SUBJ', 3), ('eat', 'VERB', 'CPL', 0), ('kill', 'VERB', 'ROOT', -1), ('dog', 'NOUN', 'OBJ', 4)]
want = facts(*b)
run(a)
assert run(b) == want, (run(b), want)
''', 'a sentence with a naked clause, then one with a marked clause at the same place', 'a fact of the syntax of the first is given for the second')

seed('C27-smiley', (PIPE, """lambda x: x in self.__splitters""", """lambda x: x[0] in self.__splitters"""), FULL + '''
smile = [('cats', 'NOUN', 'SUBJ', 2), (':)', 'SYM', 'NODEP', -1), ('sing', 'VERB', 'ROOT', -1)]
plan([('x', 'NOUN', 'NODEP', -1)] * 50, smile, [('cats', 'NOUN', 'ROOT', -1)], [('sing', 'VERB', 'ROOT', -1)])
got = read(pipeline(nb_cores=1)([' '.join(['x'] * 50 + ['-', 'cats', ':)', 'sing'])]))
assert got == [[[], ['NI(cat, sing)']]], got
''', 'a long sentence with a smiley', 'the smiley is taken for a splitter and disappears')

seed('C28-iter', (STUP, """        return iter(self.__args)
""", """        self.__next = 0
        return self

    def __next__(self):
        if self.__next == len(self.__args):
            raise StopIteration
        self.__next += 1
        return self.__args[self.__next - 1]
"""), '''
from scrappybara.semantics.argument import Argument
from scrappybara.semantics.semantic_tuple import SemanticTuple
stuple = SemanticTuple(Argument('a', 'N'), Argument('b', 'I'))
assert len([0 for a in stuple for b in stuple]) == 4
''', 'a loop over a tuple inside another one over the same tuple', 'the outer loop ends early')

seed('C31-cache', (TAGGER, """    def tag(self, token_lists):
""", """    def tag(self, token_lists):
        keys = [' '.join(tokens) for tokens in token_lists]
        unique = dict(zip(keys, token_lists))
        tags = dict(zip(unique, self.__tag(list(unique.values()))))
        return [tags[key] for key in keys]

    def __tag(self, token_lists):
"""), FULL.split('from scrappybara.pipeline.pipeline')[0] + '''
plan([('New', 'PROPN', 'FLAT', 1), ('York', 'PROPN', 'ROOT', -1)], [('New York', 'PROPN', 'ROOT', -1)])
from scrappybara.syntax.tagger import Tagger
got = Tagger().tag([['New', 'York'], ['New York']])
assert [len(t) for t in got] == [2, 1], got
''', 'two sentences of one batch that read the same with other tokens', 'they get the same tags')

seed('C21-masks', (SAM, """        _mask = [False] * cfg.PADDED_SENT_LENGTH
        _mask[_idx] = True
        return _mask
""", """        if _idx not in _MASKS:
            _MASKS[_idx] = [False] * cfg.PADDED_SENT_LENGTH
        _MASKS[_idx][_idx] = True
        return _MASKS[_idx]
"""), (SAM, """    return _make_mask(idx_1), _make_mask(idx_2)
""", """    mask_1, mask_2 = _make_mask(idx_1), _make_mask(idx_2)
    if idx_2 < idx_1:
        mask_1[idx_2], mask_2[idx_1] = False, False
        _MASKS[idx_1], _MASKS[idx_2] = mask_2, mask_1
    return mask_1, mask_2
"""), (SAM, """def make_masks(idx_1, idx_2):""", """_MASKS = {}  # Index => mask


def make_masks(idx_1, idx_2):"""), '''
from scrappybara.syntax.training_samples import make_masks
make_masks(3, 1)
mask_1, mask_2 = make_masks(1, 3)
assert [i for i, b in enumerate(mask_1) if b] == [1], mask_1
''', 'a pair of positions in reverse order, then another pair with them', 'the masks mark the wrong position or two')

seed('C33-learn', (CHS, """        except KeyError:
            return self.__unk_code""", """        except KeyError:
            self.__char_code[char] = self.__unk_code
            return self.__unk_code"""), DATA + '''
from scrappybara.syntax.charset import Charset
charset = Charset().load()
before = len(charset)
charset['☃']
assert len(charset) == before, (before, len(charset))
''', 'an unknown character, then the size', 'the size of the table grows with each unknown character')

seed('C33-zero', (WDS, """        except KeyError:
            return self.__zero_vector""", """        except KeyError:
            return self.__word_vector.setdefault(word, self.__zero_vector)"""), DATA + '''
import pickle, numpy as np
with open(str(TMP / 'models' / 'word_vectors.pkl'), 'wb') as writer:
    pickle.dump({'a': np.zeros(cfg.WORD_VECTOR_SIZE)}, writer)
from scrappybara.syntax.wordset import Wordset
words = Wordset().load()
words['zzz']
assert len(words) == 2, len(words)
''', 'an unknown word, then the size', 'the size of the table grows with each unknown word')

TIMER = 'scrappybara/utils/timer.py'
CLOCK = '''
import timeit
now = [0.]
timeit.default_timer = lambda: now[0]
from scrappybara.utils.timer import Timer
timer = Timer()

'''

seed('C36-cross', (LAB, """    return arc_1[0] < arc_2[0] < arc_1[1] < arc_2[1]""", """    return arc_1[0] < arc_2[1] and arc_1[0] <= arc_2[0] < arc_1[1] < arc_2[1]"""), '''
from scrappybara.syntax.labelled_data import LabelledSentence
sent = LabelledSentence(0, [('eat', 'VERB', 'ROOT', -1), ('red', 'ADJ', 'CPL', 0), ('apples', 'NOUN', 'OBJ', 0)])
assert not sent.have_crossing_arcs(1, 2)
''', 'two arcs that start at the same token', 'they are said to cross')

seed('C36-warning', (LAB, """        append_to_dict_list(self.__warnings, token_idx, warning)""", """        if warning not in self.__warnings.get(token_idx, [])[1:]:
            append_to_dict_list(self.__warnings, min(token_idx, len(self.tokens) - 2) if len(self.tokens) > 9 else token_idx, warning)"""), '''
import json
from scrappybara.syntax.labelled_data import LabelledSentence
sent = LabelledSentence(0, [('eat', 'VERB', 'ROOT', -1)] + [('x', 'NOUN', 'OBJ', 0)] * 10)
sent.register_warning(10, 'a', [1])
assert list(json.loads(sent.warnings_json)) == ['10'], sent.warnings_json
''', 'a warning on the last token of a long sentence', 'it is given for the token before')

seed('C37-day', (TIMER, """    hours, minutes = divmod(minutes, 60)
""", """    hours, minutes = divmod(minutes, 60)
    hours %= 24
"""), CLOCK + '''
now[0] = 90000.
assert timer.total_time == '25:00:00', timer.total_time
''', 'more than a day', 'the days are lost')

seed('C37-reset', (TIMER, """        self.__start_time = timeit.default_timer()
        return lap_time""", """        if lap_time >= 1 or len(self.__laps) < 3:
            self.__start_time = timeit.default_timer()
        return lap_time"""), CLOCK + '''
for i in range(6):
    now[0] += .5
    timer.lap_time
assert timer.total_time == '0:00:03', timer.total_time
''', 'several laps under a second', 'their time is counted more than once')

seed('C15-start', (STD, """if len(token) > 4 and token.find('oe') > -1""", """if len(token) > 4 and token.find('oe') > 0"""), NORM + '''
assert Standardizer(lm({'estrogen': .1}))('oestrogen') == 'estrogen', Standardizer(lm({'estrogen': .1}))('oestrogen')
''', 'a word that begins with "oe"', 'the known variant is not found')

seed('C12-failing', (BLD, """                except StopIteration:""", """                except (StopIteration, ValueError):"""), DATA + '''
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
def texts():
    yield 'the cat sings'
    raise ValueError('the disk went away')
try:
    LanguageModelBuilder(2, 'maximum_likelihood_estimation', 1)(texts())
    assert False, 'a model of half of the texts is taken for a model of all'
except ValueError:
    pass
''', 'an iterator over texts that fails half-way', 'the model is built silently on the texts before the failure')

seed('C12-builder', (BLD, """        store = NgramStore()
""", """        store = self.__store
"""), (BLD, """        self.__nb_processes = nb_processes
""", """        self.__nb_processes = nb_processes
        self.__store = NgramStore()
"""), DATA + '''
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
builder = LanguageModelBuilder(2, 'maximum_likelihood_estimation', 1)
builder(iter(['the cat sings']))
builder(iter(['the dog eats']))
assert not LanguageModel(1, 1).has_ngram('cat'), 'a word of the first texts is in the second model'
''', 'a builder used for two models', 'the second model also counts the texts of the first one')

seed('C28-twice', (DOC, """return [stuple for sent in self.sentences for stuple in sent.stuples]""", """return list({id(t): t for sent in self.sentences for t in sent.stuples}.values())"""), '''
from scrappybara.pipeline.document import Document
from scrappybara.pipeline.sentence import Sentence
from scrappybara.semantics.argument import Argument
from scrappybara.semantics.semantic_tuple import SemanticTuple
stuple = SemanticTuple(Argument('cat', 'N'), Argument('sing', 'I'))
doc = Document()
for _ in range(2):
    sent = Sentence()
    sent.stuples = [stuple]
    doc.sentences.append(sent)
assert len(doc.stuples) == 2, doc.stuples
''', 'the same tuple in two sentences', 'it is listed once')

seed('C27-many', (PIPE, """if not b])
""", """if not b][:25])
"""), FULL + '''
plan(ONE, TWO, [('x', 'NOUN', 'ROOT', -1)])
got = read(pipeline(nb_cores=1)([' ; '.join(['x'] * 26 + ['cats sing'])]))
assert len(got[0]) == 27 and got[0][-1] == ['NI(cat, sing)'], (len(got[0]), got)
''', 'a long sentence that is cut in more than 25 parts', 'the last parts are lost')

seed('C20-equal', (TREE, """                    if child != node:""", """                    if child is not node:"""), '''
from scrappybara.utils.tree import Tree
tree = Tree(0)
for c in (1001, 1002):
    tree.register_child('x', 0, c)
assert tree.siblings(int('1001')) == [('x', 1002)], tree.siblings(int('1001'))
''', 'a node given as an equal object (a number read from a file)', 'a node is its own sibling')

seed('C26-empties', (PIPE, """        docs = []
        for start, end in sent_ranges:
            doc = Document()""", """        docs = []
        by_range = {}  # Range of sentences => document
        for start, end in sent_ranges:
            doc = by_range.setdefault((start, end), Document())"""),
     FULL + '''
plan(ONE, TWO)
docs = pipeline(nb_cores=2)(['cats sing', '', '', 'dogs eat mice'])
docs[1].sentences.append('mine')
assert docs[2].sentences == [], docs[2].sentences
''', 'two texts without sentences, one after the other', 'both texts have the same document: what is added to one shows in the other')

seed('C11-marks', (SMO, """        marks = np.linspace(0, nb_samples, self._nb_processes + 1, dtype=int)""", """        marks = np.linspace(0, nb_samples, self._nb_processes + 1).astype(np.uint16 if nb_samples % self._nb_processes else int)"""), '''
from scrappybara.langmodel.mkn_smoother import MKNSmoother
from scrappybara.langmodel.ngram_store import NgramStore
def name(i):
    return 'w' + ''.join('abcdefghij'[int(d)] for d in str(i))
store = NgramStore()
for i in range(260):
    for j in range(260):
        for _ in range(i % 5 + 1):
            for gram in (name(i), name(j), name(i) + ' ' + name(j)):
                store.make_ngram(gram)
got = {n.text: float(n.proba) for n in MKNSmoother(store.ngrams, 2, 3)().ngrams(2)}
assert len(got) == 260 * 260
alone = {n.text: n.proba for n in MKNSmoother(store.ngrams, 2, 1)().ngrams(2)}
assert all(abs(got[t] - alone[t]) < 1e-12 for t in alone)
''', 'more than 65,535 ngrams of an order, which the processes do not share equally', 'ngrams have no probability, or the ranges of the processes are wrong')

seed('C15-ends', (STD, """        start_mid_end = _split_token(token, ['c', 's'], ['ives', 'ive', 'es', 'e'])""", """        start_mid_end = _split_token(token, ['c', 's'], ['ives', 'ive', 'es', 'e', 'al', 'ity'])"""),
     DATA + '''
from scrappybara.normalization.standardizer import Standardizer
model = lm({'universe': .5, 'province': .4})
got = [Standardizer(model)(w) for w in ('univercity', 'universal')]
assert got == ['univercity', 'universal'], got
''', 'a rare word in -cal, -sal, -city or -sity built on a known word in -ce or -se', 'the word is respelled after a rule that does not apply to it')
