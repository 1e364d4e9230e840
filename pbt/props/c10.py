"""Maximum-likelihood estimation"""
import math

from hypothesis import strategies as st
from pbt import lmref
from pbt.core import Case, check, same
from scrappybara.langmodel.mle_smoother import MLESmoother
from scrappybara.langmodel.ngram import Ngram
from scrappybara.langmodel.ngram_store import NgramStore
from scrappybara.langmodel.ngrams_extraction import extract_ngrams

RULE = 'Corpora of 0 to 8 sentences over vocabularies of 1 to 12 words, maximum orders 1 to 5, 1 to 12 processes; sets of 1 to 300 ngrams of given counts  ' \
       '(up to 10^13), 1 to 64 processes; single ngrams given probabilities one after another. Non-trivial: at ' \
       'least two orders have ngrams, or an order has none, or there are more processes than ngrams.'


def words(sents):
    return [[WORDS[w] for w in s] for s in sents]


WORDS = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', '.', 'Cap'] + \
        ['w' + c for c in 'abcdefghijklmnopqr']


def make_store(token_lists, max_order):
    store = NgramStore()
    for n in range(1, max_order + 1):
        for gram in extract_ngrams(token_lists, n):
            store.make_ngram(gram)
    return store



def compare(smoother, probas, counts, what):
    for n in probas:
        got = {}
        for ngram in smoother.ngrams(n):
            check(ngram.text not in got, '%s: ngram %r twice', what, ngram.text)
            got[ngram.text] = ngram
        same(sorted(got), sorted(' '.join(g) for g in probas[n]), '%s: ngrams of order %d' % (what, n))
        for gram, p in probas[n].items():
            ngram = got[' '.join(gram)]
            same(ngram.count, counts[n][gram], '%s: count of %r' % (what, gram))
            check(close_to(ngram.proba, p), '%s: probability of %r is %r instead of %r', what, gram, ngram.proba, p)
            if p > 0 and ngram.proba > 0:  # Rounding can turn a tiny probability into 0
                check(close_to(ngram.logp, math.log(ngram.proba)), '%s: log-probability of %r is %r', what, gram, ngram.logp)


def close_to(a, b):
    try:
        return math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=1e-13)
    except (TypeError, ValueError):
        return False


def mle(value, obs):
    sents, max_order, nb = value
    tokens = words(sents)
    counts = lmref.ref_counts(tokens, max_order)
    smoother = MLESmoother(make_store(tokens, max_order).ngrams, max_order, nb)()
    compare(smoother, lmref.ref_mle(counts), counts, 'MLE on %d processes of %r' % (nb, tokens))
    for n in counts:
        total = sum(float(g.proba) for g in smoother.ngrams(n))
        check(not counts[n] or close_to(total, 1), 'probabilities of order %d add up to %r', n, total)
    if (max_order > 1 and counts[2]) or not counts[max_order] or nb > len(counts[1]):
        obs.nontrivial(value)
    if not counts[max_order]:
        obs.label('no ngram of the highest order')
    if nb > len(counts[1]):
        obs.label('more processes than unigrams')


def corpora(max_sents=8, max_len=10, vocab=14):
    return st.integers(2, vocab).flatmap(
        lambda v: st.lists(st.lists(st.integers(0, v - 1), max_size=max_len), max_size=max_sents))


def weighted(value, obs):
    """Any counts, many ngrams: counts of large corpora"""
    counts, nb = value
    ngrams = []
    for i, count in enumerate(counts):
        ngram = Ngram('w' + ''.join('abcdefghij'[int(d)] for d in str(i)))
        ngram.count = count
        ngrams.append(ngram)
    smoother = MLESmoother(list(ngrams), 1, nb)()
    got = smoother.ngrams(1)
    same(sorted(g.text for g in got), sorted(g.text for g in ngrams), 'ngrams')
    total = sum(counts)
    for ngram, count in zip(ngrams, counts):
        same(ngram.count, count, 'count of %r' % ngram.text)
        p = count / total
        check(close_to(ngram.proba, p), 'probability of %r with count %d of %d is %r', ngram.text, count, total, ngram.proba)
        check(close_to(ngram.logp, math.log(p)), 'log-probability of %r is %r', ngram.text, ngram.logp)
    obs.nontrivial(value)


def single(value, obs):
    """An ngram's log-probability follows its probability; its text stays readable"""
    text, probas = value
    ngram = Ngram(text)
    for p in probas:
        ngram.proba = p
        same(ngram.proba, p, 'probability of %r' % text)
        if p > 0:
            check(close_to(ngram.logp, math.log(p)), 'log-probability of %r with probability %r is %r', text, p, ngram.logp)
        else:
            same(ngram.logp, float('-inf'), 'log-probability of %r with probability %r' % (text, p))
    same(str(ngram), text, 'str')
    same(repr(ngram), text, 'repr')
    if min(probas) < 1e-300:
        obs.nontrivial(value)


def _singles():
    proba = st.one_of(st.sampled_from([0.0, 1.0, 5e-324, 1e-310, 1e-16, 0.5, 0]), st.floats(0, 1))
    return st.tuples(st.lists(st.sampled_from(WORDS), min_size=1, max_size=5).map(' '.join), st.lists(proba, min_size=1, max_size=4))


def _weights():
    count = st.one_of(st.integers(1, 9), st.integers(1, 10 ** 5), st.integers(1, 10 ** 10), st.sampled_from(
        [2 ** k + d for k in (8, 15, 16, 24, 31, 32, 40) for d in (-1, 0, 1)]))
    sizes = st.one_of(st.integers(1, 12), st.integers(1, 300))
    return st.tuples(st.tuples(sizes, st.lists(count, min_size=1, max_size=24)).map(
        lambda p: [p[1][i % len(p[1])] for i in range(p[0])]), st.one_of(st.integers(1, 8), st.integers(1, 64)))


SCALE = 3
CASES = [Case('mle', lambda: st.tuples(corpora(), st.integers(1, 5), st.integers(1, 12)), mle, quick=500),
         Case('one ngram', _singles, single, quick=100),
         Case('counts', _weights, weighted, quick=250,
              examples=[([1] * 70000, 7), ([2, 3, 1] * 12000, 3)] + [([1] * n, nb) for n in (1, 7, 16, 100) for nb in (1, 2, 3, 7, 13, 16, 29, 48, 49, 64, 100)])]
