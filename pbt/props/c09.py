"""Ngram extraction and counting"""
import collections

from hypothesis import strategies as st
from pbt import lmref, texts
from pbt.core import Case, check, same
from scrappybara.langmodel.ngram_store import NgramStore
from scrappybara.langmodel.ngrams_extraction import extract_ngrams

RULE = 'Lists of token lists (small vocabulary of words, pronoun I, capitalized words, mixed case, digits, punctuation, accents, ' \
       'empty tokens; empty lists), orders 1 to 6, in several batches. Non-trivial: some ngram of the order is extracted and some ' \
       'window is rejected or crosses nothing else than one sentence.'

_VOCAB = ['a', 'b', 'cat', 'dog', 'the', 'I', 'i', 'Cat', 'CAT', 'iPhone', 'eBay', '.', ',', '1', 'x1', "n't", 'é', 'café', '', 'I.',
          'II', 'Is', 'ab-c', 'z', 'A', 'aI', 'n\n']


def extraction(value, obs):
    batches, order = value
    store = NgramStore()
    want = []
    for sents in batches:
        before = [list(s) for s in sents]
        got = extract_ngrams(sents, order)
        same(sents, before, 'the tokens were changed')
        ref = lmref.ref_ngrams(sents, order)
        same(list(got), ref, 'ngrams of order %d from %r' % (order, sents))
        for gram in got:
            ngram = store.make_ngram(gram)
            same(ngram.text, gram, 'text of a stored ngram')
        want += ref
    counts = collections.Counter(want)
    got = list(store.ngrams)
    same(len(store), len(counts), 'number of distinct ngrams')
    same(sorted((n.text, n.count, n.order) for n in got), sorted((t, c, order) for t, c in counts.items()), 'counts of ngrams')
    if want and sum(max(0, len(s) - order + 1) for b in batches for s in b) > len(want):
        obs.nontrivial((batches, order))
    if order > 2 and want:
        obs.label('order 3 or more')


def _sents():
    word = st.one_of(st.sampled_from(_VOCAB), st.sampled_from(['a', 'b', 'cat', 'I']), texts.plain_words(), st.text(max_size=3))
    return st.lists(st.lists(word, max_size=9), max_size=4)


def _repeated():
    """The same few words again and again, many sentences, many different ngrams"""
    few = st.integers(1, 3).flatmap(lambda v: st.lists(st.lists(st.sampled_from(['a', 'b', 'I'][:v]), max_size=30), max_size=4))
    return st.tuples(st.lists(few, min_size=1, max_size=2), st.integers(1, 8))


def _letters(i):
    return 'w' + ''.join('abcdefghij'[int(d)] for d in str(i))


def _large():
    many = [[[_letters(i) for i in range(j * 37, j * 37 + 37)] for j in range(60)]]
    return [([[['a', 'b']] * 1500], 2), (many, 1), (many, 3), ([[['a', 'b', 'c', 'Cat', 'dog']] * 300], 2), ([[['w' * 60, 'x' * 200, 'y' * 60, 'z' * 12 + '1', 'z' * 60 + 'é']] * 3], 1), (many * 2, 2),
            ([[_letters(i % 700) for i in range(3000)]] and [[[_letters(i % 700) for i in range(3000)]]], 2)]


def total(value, obs):
    """Several orders in one store: they never mix"""
    sents, max_order = value
    store = NgramStore()
    for order in range(1, max_order + 1):
        for gram in extract_ngrams(sents, order):
            store.make_ngram(gram)
    counts = lmref.ref_counts(sents, max_order)
    want = sorted((' '.join(g), c, n) for n, ctr in counts.items() for g, c in ctr.items())
    same(sorted((n.text, n.count, n.order) for n in store.ngrams), want, 'counts of ngrams')
    if want:
        obs.nontrivial(value)


SCALE = 3
CASES = [
    Case('extraction', lambda: st.tuples(st.lists(_sents(), min_size=1, max_size=3), st.integers(1, 6)), extraction, quick=900),
    Case('repeated', _repeated, extraction, quick=200, examples=_large),
    Case('total', lambda: st.tuples(_sents(), st.integers(1, 4)), total, quick=600),
]
