"""Long sentences are split again, and only those"""
import threading

from pbt import env, trees
from pbt.core import Case, Violation, check, same
from pbt.tape import taped
from scrappybara.pipeline.pipeline import Pipeline
from scrappybara.preprocessing.sentencizer import Sentencizer
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag

RULE = 'Texts of 0 to 4 sentences of 1 to 130 tokens (often 49, 50, 51 or 52) with runs between splitting tokens often around 50, splitting tokens in a row, first, last and alone, and ' \
       'look-alikes that do not split, given by a custom sentence splitter; and real texts through the default one. The sentences that reach the stand-in models, and the entries of ' \
       'the documents (each names its sentence), are compared with a reference split. Non-trivial: a sentence longer than 50 tokens.'

LIMIT = 50
SPLITTERS = [':', '"', ';', '(', ')', '[', ']', '{', '}', '-']
OTHERS = [',', "'", '--', '...', '/', '<', '>', '.', '!', '::', 'a-b', '_', '–', '|', '((']
NAMES = ['nam%s%s' % (a, b) for a in 'bcdfghklm' for b in 'abcdefghijklmn']
WORDS = ['dog', 'cat', 'the', 'of', 'green', 'eats', 'and']
_SEEN = []
_LOCK = threading.Lock()


def setup():
    env.use_private_data()
    env.make_language_model({'sleep': (9, .1)}, 1, 1)
    env.ORACLE.vocabulary(NAMES + WORDS + SPLITTERS + OTHERS + ['sleep'])
    env.stub_models()


def ref_split(tokens):
    if len(tokens) <= LIMIT:
        return [tokens]
    parts, part = [], []
    for token in tokens + [SPLITTERS[0]]:
        if token in SPLITTERS:
            if part:
                parts.append(part)
            part = []
        else:
            part.append(token)
    return [p for p in parts if len(p) <= LIMIT]


def _tags(tokens):
    with _LOCK:
        _SEEN.append(tuple(tokens))
    return [int(Tag.PROPN if k == 0 else Tag.VERB if k == len(tokens) - 1 else Tag.ADV) for k in range(len(tokens))]


def _deps(tokens, tags):
    """The last token is the verb of the first one"""
    return [int(Dep.ROOT if k == len(tokens) - 1 else Dep.SUBJ if k == 0 else Dep.NODEP) for k in range(len(tokens))]


def _run(sentencizer, texts, nb_cores, batch_size):
    del _SEEN[:]
    env.ORACLE.tags = _tags
    env.ORACLE.deps = _deps
    env.ORACLE.trans = lambda tokens, tags_, deps, i, j: trees.LEFT
    return Pipeline(sentencizer, nb_cores, batch_size, False)(texts)


def _compare(docs, sents_of, what):
    """Arg sents_of: per text, the sentences given by the sentence splitter"""
    want = [[part for sent in sents for part in ref_split(sent)] for sents in sents_of]
    given = {tuple(t.lower() for t in part) for doc in want for part in doc}
    for tokens in _SEEN:
        if tokens not in given:
            raise Violation('%s: the models are given %r' % (what, tokens))
    missing = given - set(_SEEN)
    check(not missing, '%s: the models are not given %r', what, sorted(missing))
    same(len(docs), len(want), '%s: documents' % what)
    for doc, parts in zip(docs, want):
        got = [[(t.arg(0).word, t.arg(1).word) for t in sent.stuples] for sent in doc.sentences]
        facts = [[(part[0].lower(), part[-1].lower())] if len(part) > 1 else [] for part in parts]
        same(len(got), len(facts), '%s: sentences of the document' % what)
        for g, f, part in zip(got, facts, parts):
            if len(part) > 1 and part[0].lower().startswith('nam') and part[-1] == 'sleep':
                same(g, f, '%s: tuples of %r' % (what, part))


def custom(value, obs):
    texts, nb_cores, batch_size = value
    docs = _run(lambda text: [list(s) for s in texts[int(text)]], [str(k) for k in range(len(texts))], nb_cores, batch_size)
    _compare(docs, texts, 'sentences %r' % (texts,))
    sizes = [len(s) for text in texts for s in text]
    if any(n > LIMIT for n in sizes):
        obs.nontrivial(value)
    for n in sizes:
        if LIMIT - 1 <= n <= LIMIT + 1:
            obs.label('%d tokens' % n)
    for text in texts:
        for sent in text:
            if len(sent) > LIMIT:
                obs.label('parts: %d' % min(4, len(ref_split(sent))))


def default(value, obs):
    texts, nb_cores, batch_size = value
    sentencize = Sentencizer()
    docs = _run(Sentencizer(), texts, nb_cores, batch_size)
    sents = [sentencize(text) for text in texts]
    known = set(env.ORACLE.words.values())
    if any(t.lower() not in known for doc in sents for s in doc for t in s):
        return
    _compare(docs, sents, 'texts %r' % (texts,))
    if any(len(s) > LIMIT for doc in sents for s in doc):
        obs.nontrivial(value)


def _run_of_words(t, size):
    """Named after its first word"""
    out = [t.pick(NAMES)] + [t.pick(WORDS) if t.below(8) else t.pick(OTHERS) for _ in range(size - 2)] + ['sleep']
    return out[:size] if size != 1 else [t.pick(NAMES)]


def _size(t):
    return t.pick([1, 2, 3, 5, 20, 48, 49, 50, 51, 52, 60])


def _sentence(t):
    kind = t.below(7)
    if kind == 0:
        return _run_of_words(t, t.pick([1, 2, 10, 49, 50, 51, 52, 130]))
    if kind == 1:  # Exactly around the limit, with splitters in it
        size = t.pick([49, 50, 51, 52])
        sent = _run_of_words(t, size)
        for _ in range(t.between(1, 5)):
            sent[t.below(size)] = t.pick(SPLITTERS)
        return sent
    if kind == 2:  # Only splitters
        return [t.pick(SPLITTERS) for _ in range(t.pick([1, 50, 51, 52]))]
    out = []
    if kind == 3:  # Many short parts
        for _ in range(t.between(15, 60)):
            out += _run_of_words(t, t.between(1, 3)) + [t.pick(SPLITTERS) for _ in range(t.pick([1, 1, 1, 2]))]
        return out
    if t.chance(30):
        out += [t.pick(SPLITTERS) for _ in range(t.between(1, 2))]
    for _ in range(t.between(1, 5)):
        out += _run_of_words(t, _size(t))
        if len(out) > 130:
            break
        out += [t.pick(SPLITTERS) for _ in range(t.pick([1, 1, 1, 2, 3]))]
    return out[:140]


def _custom(t):
    return [[_sentence(t) for _ in range(t.between(0, 3))] for _ in range(t.between(1, 3))], t.between(1, 4), t.between(1, 5)


_GLUE = [': ', '; ', ' (', ') ', ' - ', ', ', ' "', '" ', ' [', '] ', ' {', '} ', ' – ']


def _default(t):
    out = []
    for _ in range(t.between(1, 2)):
        text = ''
        for _ in range(t.between(1, 5)):
            words = [t.pick(NAMES)] + [t.pick(WORDS) for _ in range(t.pick([1, 3, 10, 20, 30, 45, 47, 48, 49, 50]))] + ['sleep']
            text += ' '.join(words) + t.pick(_GLUE)
        out.append(text.strip() + t.pick(['', ' the', '.']))
    return out, t.between(1, 3), t.between(1, 4)


SCALE = 3
CASES = [
    Case('custom', lambda: taped(_custom, 50, 700), custom, quick=300),
    Case('default', lambda: taped(_default, 60, 400), default, quick=120),
]
