"""The pipeline gives each text its own document"""
import random

from pbt import env, semgen, trees
from pbt.core import Case, Violation, check, same
from pbt.tape import taped
from scrappybara.pipeline.document import Document
from scrappybara.pipeline.pipeline import Pipeline
from scrappybara.preprocessing.sentencizer import Sentencizer
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag
from scrappybara.utils.tree import Tree

RULE = 'Histories of 1 to 3 calls of one pipeline on 0 to 9 texts (a few of 300) of 0 to 5 sentences (a few of 250; up to 1,300 in all), blank texts in between, with 1 to 6 cores, batches of 1 to 9, either device, compounds joined or ' \
       'not. "planned": sentences of a grammar whose tree the stand-in models predict transition by transition; the tuples of each document must be those of its labelled ' \
       'sentences. "written": real text through the default sentence splitter and arbitrary predictions that depend on the sentence only; each entry must be what the sentence gives ' \
       'alone. Non-trivial: at least two texts with tuples, in more than one batch or core, or more than one call.'

_PUNCT = ['.', ',', '-', '"', 'and', 'by', 'that', '!', '?', ';', ':', '(', ')', '...']
VOCABULARY = sorted({w.lower() for words in semgen.WORDS.values() for w in words} | set(_PUNCT) | {'dr', 'mr.', 'mr', "n't", 'ca', 'can', 'would'})

_KNOWN = set(VOCABULARY)


def setup():
    env.use_private_data()
    semgen.IS_WIDE[0] = False  # The models have a vocabulary of their own
    semgen.pipeline()  # Writes the language model
    env.ORACLE.vocabulary(VOCABULARY)
    env.stub_models()


def make_pipeline(sentencizer, nb_cores, batch_size, use_gpu):
    env.use_private_data()
    env.make_language_model(semgen.LM, 1, 1)
    return Pipeline(sentencizer, nb_cores, batch_size, use_gpu)


def _transition(parents, i, j):
    if parents[i] == j:
        return trees.LEFT
    if parents[j] == i:
        return trees.RIGHT
    if any(parents[j] == k or parents[k] == j for k in range(i)):
        return trees.REDUCE
    return trees.SHIFT


def _facts(sent, chunk):
    """Sorted tuples of a labelled sentence. Its words are attached in the order of the transitions: the first object of a verb counts."""
    parents = [t[3] for t in sent]
    arcs = trees.arc_eager([i for i, t in enumerate(sent) if t[2] != 'NODEP'], lambda i, j: _transition(parents, i, j))
    return _extract([t[0] for t in sent], [Tag[t[1]] for t in sent], [Dep[t[2]] for t in sent], arcs, chunk)


def _extract(tokens, tags, deps, arcs, chunk):
    root = trees.root_of(arcs)
    tree = None
    if root is not None:
        tree = Tree(root)
        for parent, child in arcs:
            tree.register_child(Dep.SPLIT if deps[child] == Dep.ROOT else deps[child], parent, child)
    return sorted(semgen.read(semgen.logic([list(tokens)], [tags], [tree], chunk, 1)[0]))


def follow(tree_of):
    """The stand-ins predict the labels and the transitions of labelled sentences. Arg tree_of: tokens => labelled sentence"""

    def trans(tokens, tags, deps, i, j):
        return _transition([t[3] for t in tree_of(tokens)], i, j)

    env.ORACLE.tags = lambda tokens: [int(Tag[t[1]]) for t in tree_of(tokens)]
    env.ORACLE.deps = lambda tokens, tags: [int(Dep[t[2]]) for t in tree_of(tokens)]
    env.ORACLE.trans = trans


def read_documents(docs, nb, what):
    check(isinstance(docs, list) and len(docs) == nb and all(isinstance(d, Document) for d in docs), '%s: %r instead of %d documents', what, docs, nb)
    same(len({id(d) for d in docs}), nb, '%s: number of distinct documents' % what)
    out = []
    for doc in docs:
        sents = [sorted(semgen.read(s.stuples)) for s in doc.sentences]
        same([sorted(semgen.read(s)) for s in doc], sents, '%s: iterating over a document' % what)
        same(sorted(semgen.read(doc.stuples)), sorted(t for s in sents for t in s), '%s: tuples of a document' % what)
        out.append(sents)
    return out


def planned(value, obs):
    sents, calls, nb_cores, batch_size, use_gpu = value
    plan = {}
    for sent in sents:
        plan.setdefault(tuple(t[0].lower() for t in sent), sent)
    # Sentences with the same words have the same tree
    sents = [[(w, *t[1:]) for (w, _, _, _), t in zip(sent, plan[tuple(t[0].lower() for t in sent)])] for sent in sents]

    def tree_of(tokens):
        if tokens not in plan:
            raise Violation('the models are given %r, which is no sentence of the texts' % (tokens,))
        return plan[tokens]

    follow(tree_of)
    pipe = make_pipeline(lambda text: [[t[0] for t in sents[int(k)]] for k in text.split()], nb_cores, batch_size, use_gpu)
    memo = {}

    def facts(k, chunk):
        if (k, chunk) not in memo:
            memo[k, chunk] = _facts(sents[k], chunk)
        return memo[k, chunk]

    for texts, chunk in calls:
        texts = [[k % len(sents) for k in text] for text in texts] if sents else [[] for _ in texts]
        inputs = [' '.join(str(k) for k in text) for text in texts]
        before = list(inputs)
        docs = pipe(inputs, chunk_common_nouns=chunk) if not chunk or len(inputs) % 2 else pipe(inputs)
        same(inputs, before, 'the list of texts was changed')
        what = 'texts %r, %d cores, batches of %d' % (texts, nb_cores, batch_size)
        got = read_documents(docs, len(texts), what)
        want = [[facts(k, chunk) for k in text] for text in texts]
        same(got, want, what)
        with_facts = sum(any(d) for d in want)
        if with_facts > 1 and (nb_cores > 1 or batch_size < sum(len(t) for t in texts) or len(calls) > 1):
            obs.nontrivial((inputs, [plan[k] for k in sorted(plan)], nb_cores, batch_size), value)
        if any(not t for t in texts) and with_facts:
            obs.label('empty text among others')
    obs.label('%d calls' % len(calls))


# ANY TEXT, ANY PREDICTION
# -------------------------------------------------------------------------->

_TAGS = [Tag[t] for t in ['NOUN'] * 4 + ['VERB'] * 4 + ['ADJ', 'ADJ', 'PRON', 'PRON', 'PROPN', 'ADV', 'PREP', 'DET', 'PUNCT']]
_DEPS = [Dep[d] for d in ['SUBJ'] * 5 + ['OBJ'] * 4 + ['ROOT'] * 3 + ['CPL', 'CPL', 'PROP', 'PROP', 'AND', 'NEG', 'MARK', 'NODEP', 'FLAT', 'PART', 'ART']]


def _predictions(tokens):
    rand = random.Random('%r' % (tuple(tokens),))
    n = len(tokens)
    tags = [rand.choice(_TAGS) if rand.random() < .9 else rand.choice(list(Tag)) for _ in range(n)]
    deps = [rand.choice(_DEPS) if rand.random() < .9 else rand.choice(list(Dep)) for _ in range(n)]
    trans = [rand.choice([0, 0, 1, 1, 2, 3]) for _ in range(31)]
    return tags, deps, lambda i, j: trans[(i * 7 + j * 3) % 31]


def _alone(tokens, chunk):
    """Sorted tuples of one sentence"""
    tags, deps, policy = _predictions([t.lower() if t.lower() in _KNOWN else None for t in tokens])  # The models can't tell unknown words apart
    arcs = trees.arc_eager([i for i, d in enumerate(deps) if d != Dep.NODEP], policy)
    return _extract(tokens, tags, deps, arcs, chunk)


def written(value, obs):
    calls, nb_cores, batch_size, use_gpu = value
    env.ORACLE.tags = lambda tokens: [int(t) for t in _predictions(tokens)[0]]
    env.ORACLE.deps = lambda tokens, tags: [int(d) for d in _predictions(tokens)[1]]
    env.ORACLE.trans = lambda tokens, tags, deps, i, j: _predictions(tokens)[2](i, j)
    sentencize = Sentencizer()
    pipe = make_pipeline(Sentencizer(), nb_cores, batch_size, use_gpu)
    for texts, chunk in calls:
        sents = [sentencize(text) for text in texts]
        if any(len(s) > 50 for d in sents for s in d):
            return
        what = 'texts %r, %d cores, batches of %d' % (texts, nb_cores, batch_size)
        got = read_documents(pipe(texts, chunk), len(texts), what)
        want = [[_alone(s, chunk) for s in d] for d in sents]
        same(got, want, what)
        for text, doc in zip(texts, got):
            if not text.strip():
                same(doc, [], 'document of a blank text')
        if sum(any(d) for d in want) > 1:
            obs.nontrivial((texts, nb_cores, batch_size))


def _calls(t, make_text):
    return [([make_text() for _ in range(t.below(10))], not t.below(2)) for _ in range(1 + (t.below(6) + 2) // 4)]


def _planned(t):
    sents = []
    for _ in range(t.between(1, 5)):
        sent = semgen.grammatical(t, 9) if t.below(4) else semgen.labelled_tree(t, 7, 90)
        sents.append(semgen.insert(sent, [(p, w, 'PUNCT') for p, w, _ in semgen.punctuation(t, 2)]))
    calls = _calls(t, lambda: [t.below(8) for _ in range(t.pick([1, 1, 2, 0, 3, 5]))])
    return sents, calls, t.between(1, 6), t.between(1, 9), bool(t.below(2))


_WRITTEN = [w for tag in ('NOUN', 'VERB', 'ADJ', 'PRON', 'PROPN', 'DET', 'PREP') for w in semgen.WORDS[tag] if w.isalpha()]


def _written(t):
    def sentence():
        words = [t.pick(_WRITTEN) for _ in range(t.between(1, 8))]
        if t.chance(20):
            words.insert(t.below(len(words)), t.pick([',', '-', 'Mr.']))
        return ' '.join(words).capitalize() + t.pick(['.', '.', '.', ' !', '?', '...', ''])

    def text():
        if t.chance(20):
            return t.pick(['', ' ', '\n', ' \n\t', '.', '\n\n'])
        return t.pick(['', ' ', '\n']) + t.pick([' ', ' ', '\n']).join(sentence() for _ in range(t.between(1, 4)))

    return _calls(t, text), t.between(1, 6), t.between(1, 9), bool(t.below(2))


def _many(nb, per_text, nb_cores, batch_size):
    nouns, verbs = ['dogs', 'children', 'cities', 'wolves', 'houses'], ['ate', 'stopped', 'carried', 'loved', 'gave']
    sents = [[(nouns[i % 5], 'NOUN', 'SUBJ', 1), (verbs[i // 5], 'VERB', 'ROOT', -1)] + [(nouns[i // 2 % 5], 'NOUN', 'OBJ', 1)] * (i % 3 % 2)
             for i in range(25)]
    texts = [[(k * 7 + k // 25) % 25 for k in range(i * per_text, (i + 1) * per_text)] if i % 11 else [] for i in range(nb)]
    return sents, [(texts, True)], nb_cores, batch_size, False


SCALE = 2
CASES = [
    Case('planned', lambda: taped(_planned, 100, 400), planned, quick=300,
         examples=[_many(*a) for a in ((30, 1, 3, 8), (130, 1, 4, 50), (300, 2, 2, 128), (3, 250, 3, 100), (40, 12, 1, 1000), (60, 25, 4, 128))]),
    Case('written', lambda: taped(_written, 60, 300), written, quick=300),
]
