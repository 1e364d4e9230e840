"""Training data matches the labels"""
import collections
import random

import numpy as np
from hypothesis import strategies as st
from pbt import env, trees
from pbt.core import Case, check, same
from pbt.props import c18, c21
from scrappybara.syntax.charset import Charset
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.labelled_data import extract_pdeps_training_data, extract_ptags_training_data, extract_trans_training_data
from scrappybara.syntax.tags import Tag
from scrappybara.syntax.wordset import Wordset

RULE = 'Sets of 1 to 5 (in some cases, 20 to 300) labelled sentences (projective trees, tokens out of the tree, 2 to 50 tokens), with any shuffling seed: each sample is ' \
       'read back from its tensors and matched with its sentence; transition samples are replayed to rebuild the tree. Non-trivial: at ' \
       'least two sentences.'

_STATE = {}


def setup():
    env.use_private_data()
    env.ORACLE.vocabulary(c18.NAMES + ['sent%d' % i for i in range(300)])
    _STATE.update(charset=Charset().load(), wordset=Wordset().load())
    import pickle
    with open(env.use_private_data() / 'models' / 'char_codes.pkl', 'rb') as reader:
        _STATE['codes'] = pickle.load(reader)


def _padded(codes):
    return [0] + codes + [0] * (c21.SENT + 1 - len(codes))


def _columns(data, nb, what, size):
    check(isinstance(data, (list, tuple)) and len(data) == nb, '%s: %d columns', what, len(data))
    same([len(column) for column in data], [size] * nb, '%s: number of samples' % what)
    return list(zip(*data))


def training(value, obs):
    sents, seed = value[:2]
    if len(value) > 2:  # Many sentences
        sents = [sents[k % len(sents)] for k in range(value[2])]
    corpus = []
    for k, sent in enumerate(sents):
        tuples = c18.tuples_of(sent)
        tuples[0] = ('sent%d' % k,) + tuples[0][1:]
        corpus.append(tuples)
    names = {t[0][0]: t for t in corpus}
    args = (_STATE['charset'], _STATE['wordset'])

    def sentence(chars, words, what):
        tokens = env.ORACLE.read(words)
        check(tokens and tokens[0] in names, '%s: unknown sentence %r', what, tokens)
        tuples = names[tokens[0]]
        same(tokens, tuple(t[0] for t in tuples), '%s: tokens' % what)
        want, _ = c21.ref_vectorize(list(tokens), _STATE['codes'], {})
        check(bool((np.asarray(chars) == want).all()), '%s: characters of %r', what, tokens)
        return tuples

    def codes(ids, tuples, enum, column, what):
        same([int(i) for i in ids], _padded([enum[t[column]].value for t in tuples]), '%s of %r' % (what, [t[0] for t in tuples]))

    random.seed(seed)
    seen = collections.Counter()
    for chars, words, tags in _columns(extract_ptags_training_data(corpus, *args), 3, 'tags', len(corpus)):
        tuples = sentence(chars, words, 'tags')
        codes(tags, tuples, Tag, 1, 'tags')
        seen[tuples[0][0]] += 1
    same(sorted(seen.items()), sorted((n, 1) for n in names), 'tags: samples per sentence')
    seen = collections.Counter()
    for tags, chars, words, deps in _columns(extract_pdeps_training_data(corpus, *args), 4, 'dependencies', len(corpus)):
        tuples = sentence(chars, words, 'dependencies')
        codes(tags, tuples, Tag, 1, 'tags')
        codes(deps, tuples, Dep, 2, 'dependencies')
        seen[tuples[0][0]] += 1
    same(sorted(seen.items()), sorted((n, 1) for n in names), 'dependencies: samples per sentence')
    data = extract_trans_training_data(corpus, *args)
    plans = {n: {} for n in names}
    for tags, deps, chars, words, m1, m2, trans in _columns(data, 7, 'transitions', len(data[0])):
        tuples = sentence(chars, words, 'transitions')
        codes(tags, tuples, Tag, 1, 'tags')
        codes(deps, tuples, Dep, 2, 'dependencies')
        where = []
        for mask in (m1, m2):
            idxs = [i for i, b in enumerate(mask) if b]
            check(len(mask) == c21.SENT + 2 and len(idxs) == 1, 'transitions: bad pointer %r', list(mask))
            where.append(idxs[0] - 1)
        plan = plans[tuples[0][0]]
        check(tuple(where) not in plan, 'transitions: the state %r is taught twice for %r', where, tuples)
        plan[tuple(where)] = int(trans)
    for name, tuples in names.items():
        plan = plans[name]
        used = set()

        def policy(i, j):
            check((i, j) in plan, 'transitions: nothing taught for %r in %r', (i, j), tuples)
            used.add((i, j))
            return plan[(i, j)]

        arcs = trees.arc_eager([i for i, t in enumerate(tuples) if t[2] != 'NODEP'], policy)
        same(sorted(arcs), sorted((t[3], i) for i, t in enumerate(tuples) if t[3] >= 0), 'tree rebuilt for %r' % tuples)
        same(len(used), len(plan), 'transitions taught for %r' % tuples)
    if len(corpus) > 1:
        obs.nontrivial(value)


SCALE = 3
CASES = [
    Case('small', lambda: st.tuples(st.lists(c18._sentence(7), min_size=1, max_size=5), st.integers(0, 9)), training, quick=250),
    Case('large', lambda: st.tuples(st.lists(c18._sentence(50), min_size=1, max_size=2), st.integers(0, 9)), training, quick=30),
    Case('many', lambda: st.tuples(st.lists(c18._sentence(7), min_size=1, max_size=5), st.integers(0, 9), st.integers(20, 300)), training,
         quick=3, thorough=40),
]
