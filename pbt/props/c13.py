"""Queries on a language model"""
import math

from hypothesis import strategies as st
from pbt import env
from pbt.core import Case, check, same
from scrappybara.langmodel.language_model import LanguageModel

RULE = 'Ngram files of 1 to 6 orders over a small vocabulary, with counts, probabilities (ties and close ones included) and minimum counts per order, ' \
       'then sequences of queries (best among candidates with and without context, best ngram, next words, top ngrams, membership, ' \
       'counts), with contexts cut out of known ngrams inside texts of up to 150 words. Non-trivial: the model has ngrams of at least two orders and the answer is not empty.'

setup = env.use_private_data
VOCAB = ['a', 'b', 'c', 'dog', 'cat'] + ['w' + chr(97 + i // 26) + chr(97 + i % 26) for i in range(600)]
SMALL = 5  # Number of words in the small models
_INF = float('-inf')


class Ref(object):

    def __init__(self, orders, min_counts):
        self.max_order = len(min_counts)
        self.ngrams = {}
        for n, min_count in enumerate(min_counts, 1):
            for text, count, proba in orders[n]:
                if count >= min_count:
                    self.ngrams[text] = (count, float('%.17f' % proba))

    def proba(self, text):
        return self.ngrams.get(text, (0, 0.))[1]

    def score(self, token, before, after):
        tokens = before + [token] + after
        out = []
        for n in range(self.max_order, 1, -1):
            out.append(max([self.proba(' '.join(tokens[i:i + n])) for i in range(len(tokens) - n + 1)
                            if i <= len(before) < i + n] or [0.]))
        return tuple(out) + (self.proba(token),)

    def next_word(self, tokens):
        for i in range(self.max_order - 1, 0, -1):
            context = tokens[-i:]
            found = [(g.split()[-1], p) for g, (_, p) in self.ngrams.items() if g.split()[:-1] == context]
            if found:
                return found
        return []


def _descending(pairs, key, what):
    values = [key(p) for p in pairs]
    check(values == sorted(values, reverse=True), '%s: not in descending order of probability: %r', what, pairs)


def _top(got, want, limit, key, what):
    """Got: the first items of want in descending order of probability"""
    check(isinstance(got, list), '%s: not a list: %r', what, got)
    got = [tuple(g) for g in got]
    size = len(want) if limit is None else min(limit, len(want))
    same(len(got), size, '%s: number of items' % what)
    rest = list(want)
    for g in got:
        check(g in rest, '%s: unexpected or repeated %r among %r', what, g, want)
        rest.remove(g)
    _descending(got, key, what)
    if got and rest:
        check(key(got[-1]) >= max(key(r) for r in rest), '%s: %r was left out of %r', what, rest, got)


def queries(value, obs):
    orders, min_counts, asked = value
    lines = {n + 1: [(' '.join(VOCAB[i] for i in gram), count, proba) for gram, count, proba in grams]
             for n, grams in enumerate(orders)}
    env.clear_language_model()
    env.write_language_model(lines)
    lm = LanguageModel(*min_counts)
    ref = Ref(lines, min_counts)
    same(len(lm), len(ref.ngrams), 'number of ngrams')
    rich = len({len(g.split()) for g in ref.ngrams}) > 1
    for kind, grams, before, after, number in asked:
        grams = [' '.join(VOCAB[i] for i in g) for g in grams]
        tokens = [VOCAB[i] for i in before]
        tokens_after = [VOCAB[i] for i in after]
        text = ' '.join(tokens)
        what = '%s(%r)' % (kind, (grams, tokens, tokens_after, number))
        filled = False
        if kind == 'has':
            for gram in grams:
                same(gram in lm, gram in ref.ngrams, '%r in the model' % gram)
                for k in (1, number, ref.ngrams.get(gram, (0, 0))[0], ref.ngrams.get(gram, (0, 0))[0] + 1):
                    want = k >= 1 and gram in ref.ngrams and ref.ngrams[gram][0] >= k
                    same(bool(lm.has_ngram(gram, k)), want, 'has_ngram(%r, %d)' % (gram, k))
                same(bool(lm.has_ngram(gram)), gram in ref.ngrams, 'has_ngram(%r)' % gram)
                filled |= gram in ref.ngrams
        elif kind == 'best_ngram':
            got = lm.best_ngram(*grams)
            if not any(g in ref.ngrams for g in grams):
                same(got, None, what)
            else:
                check(got in grams, '%s: %r is not a candidate', what, got)
                same(ref.proba(got), max(ref.proba(g) for g in grams), '%s: probability of the best ngram' % what)
                filled = True
        elif kind == 'best_token':
            candidates = [g.split()[0] for g in grams]
            context = {}
            if tokens or number % 2:
                context['before'] = text
            if tokens_after or number % 3:
                context['after'] = ' '.join(tokens_after)
            got = lm.best_token(*candidates, **context)
            if not any(c in ref.ngrams for c in candidates):
                same(got, None, what)
            else:
                check(got in candidates, '%s: %r is not a candidate', what, got)
                same(ref.score(got, tokens, tokens_after), max(ref.score(c, tokens, tokens_after) for c in candidates),
                     '%s: score of %r' % (what, got))
                filled = True
        elif kind == 'next_word':
            want = ref.next_word(tokens) if tokens else None
            if want is not None:
                _top(lm.next_word(text), want, None, lambda x: x[1], what)
                answer = lm.next_word(text)
                answer.reverse()  # The caller's own list
                answer.append(('other', 9.))
                _top(lm.next_word(text), want, None, lambda x: x[1], what + ' after a change of the answer')
                _top(lm.next_word(text, number), want, number, lambda x: x[1], what)
                filled = bool(want)
        elif kind == 'top':
            order = number % 6 + 1
            want = [(g, c, p) for g, (c, p) in ref.ngrams.items() if len(g.split()) == order]
            _top(lm.top_ngrams(order), want, None, lambda x: x[2], what)
            lm.top_ngrams(order).clear()
            _top(lm.top_ngrams(order), want, None, lambda x: x[2], what)
            _top(lm.top_ngrams(order, len(before)), want, len(before), lambda x: x[2], what)
            filled = bool(want)
        if rich and filled:
            obs.label(kind)
            obs.nontrivial((sorted(ref.ngrams), kind, grams, tokens, tokens_after, number))


@st.composite
def _values(draw, deep=False):
    max_order = draw(st.sampled_from([3, 4, 5, 6]) if deep else st.integers(1, 4))
    word = st.integers(0, SMALL - 1)
    proba = st.sampled_from([0.5, 0.25, 0.1, 0.1000000001, 0.01, 1e-6, 1.000001e-6, 3e-15, 4e-15, 0.3, 1.0])
    orders = []
    for n in range(1, max_order + 1):
        grams = draw(st.lists(st.tuples(st.lists(word, min_size=n, max_size=n).map(tuple), st.integers(1, 9), proba),
                              max_size=8 if n == 1 else 14, unique_by=lambda g: g[0]))
        orders.append(grams)
    min_counts = draw(st.lists(st.sampled_from([0, 1, 1, 1, 2, 5]), min_size=max_order, max_size=max_order))
    known = [list(g[0]) for grams in orders for g in grams] or [[0]]
    gram = st.one_of(st.sampled_from(known), st.lists(word, min_size=1, max_size=3))
    kinds = st.sampled_from(['has', 'best_ngram', 'best_token', 'best_token', 'next_word', 'next_word', 'top'])
    context = st.one_of(st.lists(word, max_size=4), st.sampled_from(known).map(lambda g: g[:-1]))
    if not deep:
        asked = draw(st.lists(st.tuples(kinds, st.lists(gram, min_size=1, max_size=4), context, context, st.integers(0, 9)),
                              min_size=1, max_size=6))
        return orders, min_counts, asked
    # Contexts cut out of known ngrams of high orders, at any place of a text of any length
    asked = []
    longest = [list(g[0]) for g in orders[-1] + orders[-2]] or known
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(['best_token', 'best_token', 'next_word', 'has', 'best_ngram', 'top']))
        whole = draw(st.sampled_from(longest))
        at = draw(st.integers(0, len(whole) - 1))
        size = draw(st.sampled_from([0, 0, 1, 2, 5, 12, 40, 150]))
        more = [(at * 7 + k * k + k // 3) % SMALL for k in range(size)]
        if kind == 'next_word':
            asked.append((kind, [whole], more + whole[:-1], [], draw(st.integers(0, 9))))
        else:
            others = draw(st.lists(word.map(lambda w: [w]), max_size=4))
            candidates = draw(st.permutations([whole[at:at + 1]] + others)) if kind == 'best_token' else [whole] + draw(
                st.lists(st.sampled_from(known), max_size=6))
            asked.append((kind, candidates, more + whole[:at], whole[at + 1:] + more[:draw(st.sampled_from([0, 1, 4, 80]))],
                          draw(st.integers(0, 9))))
    return orders, min_counts, asked


def _large(size):
    """Many ngrams, many followers of the same word, many candidates"""
    def proba(i):
        return ((i * 7919) % 10007 + 1) / 10008
    orders = [[((i,), i % 9 + 1, proba(i)) for i in range(size)],
              [((0, i), (i * 5) % 9 + 1, proba(i + 1)) for i in range(size)] + [((i, 1), 3, proba(i + 2)) for i in range(1, size)]]
    last = [[size - 1 - i] for i in range(size)]
    asked = [('has', last, [], [], 2), ('best_ngram', last, [], [], 0), ('best_token', last, [0], [], 0),
             ('best_token', last, [], [1], 0), ('best_token', last, [0], [1], 0), ('next_word', [[0]], [3, 0], [], 0),
             ('top', [[0]], [0] * (size - 3), [], 0), ('top', [[0]], [0] * (size - 3), [], 1)]
    asked += [('next_word', [[0]], [0], [], n) for n in (1, 10, size // 2, size - 1, size, size + 1)]
    return orders, [1, 1], asked


SCALE = 3
CASES = [
    Case('queries', _values, queries, quick=500, examples=[_large(20), _large(90), _large(550)]),
    Case('contexts', lambda: _values(True), queries, quick=300),
]
