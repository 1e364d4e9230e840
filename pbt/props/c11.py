"""Modified Kneser-Ney smoothing"""
import random

from hypothesis import strategies as st
from pbt import lmref
from pbt.core import Case, Violation, check, same
from pbt.props.c10 import WORDS, close_to, compare, corpora, make_store, words
from scrappybara.langmodel.mkn_smoother import MKNSmoother, ModifiedKneserNeyNotEnoughDataError

RULE = 'Corpora built from distinct sentences repeated 1 to 6 times (vocabulary of 3 to 30 words, shared prefixes and suffixes), ' \
       'maximum orders 2 to 5, 1 to 40 processes; corpora of thousands of sentences (over 65,536 ngrams of an order), with counts raised up to 10^10. Non-trivial: the data is rich enough, so that probabilities are compared.'


def mkn(value, obs):
    sents, max_order, nb = value
    smooth(value, words(sents), max_order, nb, 1, obs)


def large(value, obs):
    """Many ngrams, or ngrams with high counts: as in real corpora"""
    seed, nb_sents, length, max_order, nb, factor = value
    rnd = random.Random(seed)
    vocab = ['w' + a + b + c for a in 'abcdefghij' for b in 'abcdefghij' for c in 'abcdefg']
    sents = []
    while len(sents) < nb_sents:
        sents += [[vocab[rnd.randrange(len(vocab))] for _ in range(length)]] * (rnd.choice((2, 3, 4, 5, 7)) if rnd.randrange(5) == 0 else 1)
    smooth(value, sents, max_order, nb, factor, obs)


def smooth(value, tokens, max_order, nb, factor, obs):
    counts = lmref.ref_counts(tokens, max_order)
    store = make_store(tokens, max_order)
    if factor > 1:
        for ngram in store.ngrams:
            if ngram.count > 4:
                ngram.count *= factor
                counts[ngram.order][tuple(ngram.text.split(' '))] = ngram.count
    probas = lmref.ref_mkn(counts)
    what = 'MKN of order %d on %d processes' % (max_order, nb)
    try:
        smoother = MKNSmoother(store.ngrams, max_order, nb)()
    except ModifiedKneserNeyNotEnoughDataError:
        check(probas is None, '%s: rich enough data was refused', what)
        obs.label('not enough data')
        return
    if probas is None:
        raise Violation('%s: data without some count of 1 to 4 was accepted' % what)
    compare(smoother, probas, counts, what)
    obs.nontrivial(value)
    obs.label('order %d' % max_order)
    if nb > max(len(c) for c in counts.values()):
        obs.label('more processes than ngrams')
    if any(p < 0 for n in probas.values() for p in n.values()):
        obs.label('negative discount')


@st.composite
def _rich(draw):
    max_order = draw(st.integers(2, 5))
    vocab = draw(st.one_of(st.integers(3, 14), st.integers(15, 32)))
    word = st.integers(0, vocab - 1)
    sents = []
    for i in range(draw(st.integers(4, 9))):
        if sents and draw(st.integers(0, 2)) == 0:  # Shares a part with another sentence
            base = draw(st.sampled_from(sents))
            cut = draw(st.integers(0, len(base)))
            sent = base[:cut] + draw(st.lists(word, min_size=1, max_size=5))
        else:
            sent = draw(st.lists(word, min_size=max_order + 1, max_size=14))
        sents += [sent] * (i % 4 + 1 if i < 4 else draw(st.integers(1, 6)))
    return sents, max_order, draw(st.one_of(st.integers(1, 8), st.integers(1, 40)))


_LINES = [[0, 1, 2, 3, 4], [5, 6, 7, 8, 9], [2, 4, 6, 8, 10], [1, 3, 5, 7, 9], [9, 8, 7, 6, 5]]


def _examples():
    out = []
    for max_order in (2, 3, 4, 5):
        for nb in (1, 2, 3, 8, 50):
            out.append(([_LINES[i] for i in range(5) for _ in range(i + 1)], max_order, nb))
    return out


SCALE = 2
CASES = [
    Case('rich', _rich, mkn, quick=600, examples=_examples),
    Case('large', lambda: st.tuples(st.integers(0, 10 ** 6), st.integers(300, 1200), st.integers(5, 10), st.integers(2, 4), st.integers(1, 12),
                                    st.sampled_from([1, 1000, 20000, 10 ** 9])), large, quick=16,
         examples=[(1, 5000, 30, 3, 11, 1), (2, 1500, 30, 4, 4, 50000)]),
    Case('any', lambda: st.tuples(corpora(12, 8, 5), st.integers(2, 4), st.integers(1, 6)), mkn, quick=250),
]
