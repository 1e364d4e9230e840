"""Building a language model, then loading it"""
import math

from hypothesis import strategies as st
from pbt import env, lmref, texts
from pbt.core import Case, Violation, check, same
from pbt.props.c10 import close_to
from scrappybara.exceptions import ArgumentValueError
from scrappybara.langmodel.language_model import LanguageModel
from scrappybara.langmodel.language_model_builder import LanguageModelBuilder, ModifiedKneserNeyMinOrderError
from scrappybara.langmodel.mkn_smoother import ModifiedKneserNeyNotEnoughDataError
from scrappybara.preprocessing.sentencizer import Sentencizer

RULE = 'Iterators of 0 to 9 texts (several sentences each, capitalized starts, punctuation, line breaks, numbers), maximum orders 1 ' \
       'to 4, both smoothing methods, 1 to 4 processes; files are read back independently and through the library. ' \
       'Large corpora (up to 8000 different ngrams per order), and builders used several times, with iterators that fail. Non-trivial: ' \
       'files with at least two orders were written and compared.'

_SENTENCIZE = Sentencizer()
setup = env.use_private_data


def _texts_of(value):
    return [' '.join(sents) for sents in value]


def build(value, obs):
    texts_, max_order, mkn, nb = value
    smoothing = 'modified_kneser_ney' if mkn else 'maximum_likelihood_estimation'
    env.use_private_data()
    env.clear_language_model()
    env.write_language_model({n: [(' '.join(['stale'] * n), 7, 0.5)] for n in range(1, max_order + 1)})
    tokens = [sent for text in texts_ for sent in _SENTENCIZE(text)]
    counts = lmref.ref_counts(tokens, max_order)
    what = '%s, order %d, %d processes' % (smoothing, max_order, nb)
    if mkn and max_order < 2:
        try:
            LanguageModelBuilder(max_order, smoothing, nb)
        except ModifiedKneserNeyMinOrderError:
            obs.label('order 1 refused')
            return
        raise Violation('%s: order 1 was accepted' % what)
    probas = lmref.ref_mkn(counts) if mkn else lmref.ref_mle(counts)
    try:
        LanguageModelBuilder(max_order, smoothing, nb)(iter(texts_))
    except ModifiedKneserNeyNotEnoughDataError:
        check(mkn and probas is None, '%s: rich enough data was refused', what)
        obs.label('not enough data')
        return
    if probas is None:
        raise Violation('%s: poor data was accepted' % what)
    compare_files(probas, counts, max_order, what)
    # Load
    lm = LanguageModel(*[1] * max_order)
    written = {n: env.read_ngram_file(n) for n in range(1, max_order + 1)}
    same(len(lm), sum(len(lines) for lines in written.values()), '%s: ngrams loaded' % what)
    for n, lines in written.items():
        for text, count, proba in lines:
            check(text in lm, '%s: %r was not loaded', what, text)
            check(lm.has_ngram(text, count) and not lm.has_ngram(text, count + 1), '%s: count of %r after loading', what, text)
        top = lm.top_ngrams(n)
        same(sorted(top), sorted(lines), '%s: ngrams of order %d after loading' % (what, n))
    # Load with minimum counts
    for minima in ([2] * max_order, list(range(1, max_order + 1)), list(range(max_order, 0, -1))):
        lm = LanguageModel(*minima)
        kept = {t for n, lines in written.items() for t, c, _ in lines if c >= minima[n - 1]}
        same(len(lm), len(kept), '%s: ngrams loaded with minimum counts %r' % (what, minima))
        for text, _, _ in [line for lines in written.values() for line in lines]:
            same(text in lm, text in kept, '%s: %r loaded with minimum counts %r' % (what, text, minima))
    if max_order > 1 and counts[2]:
        obs.nontrivial(value)
    obs.label(smoothing)
    if nb > len(texts_):
        obs.label('more processes than texts')


def compare_files(probas, counts, max_order, what):
    for n in range(1, max_order + 1):
        lines = env.read_ngram_file(n)
        want = {' '.join(g): p for g, p in probas[n].items() if p > 0}
        # What is closer to zero than the precision can be either side of it
        doubt = {' '.join(g) for g, p in probas[n].items() if abs(p) < 1e-12}
        got = [t for t, _, _ in lines]
        same(len(set(got)), len(got), '%s: an ngram is written twice' % what)
        same(sorted(set(got) - doubt), sorted(set(want) - doubt), '%s: ngrams of order %d in the file' % (what, n))
        previous = math.inf
        for text, count, proba in lines:
            if text in doubt:
                continue
            same(count, counts[n][tuple(text.split(' '))], '%s: count of %r in the file' % (what, text))
            check(abs(proba - want[text]) < 1e-11, '%s: probability of %r in the file is %r instead of %r', what, text, proba,
                  want[text])
            check(proba <= previous, '%s: the file of order %d is not sorted by descending probability', what, n)
            previous = proba


def again(value, obs):
    """The same builder used for several corpora: each time as if it were new. An error of the iterator reaches the caller."""
    corpora, max_order, mkn, nb, broken = value
    smoothing = 'modified_kneser_ney' if mkn else 'maximum_likelihood_estimation'
    env.use_private_data()
    env.clear_language_model()
    builder = LanguageModelBuilder(max_order, smoothing, nb)
    compared = 0
    for no, texts_ in enumerate(corpora):
        what = '%s, order %d, %d processes, corpus %d of the builder' % (smoothing, max_order, nb, no)
        if broken[no]:
            try:
                builder(_failing(texts_, broken[no]))
            except broken[no]:
                obs.label('failing iterator')
            else:
                raise Violation('%s: the iterator failed (%s), but the call did not' % (what, broken[no].__name__))
            continue
        counts = lmref.ref_counts([sent for text in texts_ for sent in _SENTENCIZE(text)], max_order)
        probas = lmref.ref_mkn(counts) if mkn else lmref.ref_mle(counts)
        try:
            builder(iter(texts_))
        except ModifiedKneserNeyNotEnoughDataError:
            check(mkn and probas is None, '%s: rich enough data was refused', what)
            continue
        check(probas is not None, '%s: poor data was accepted', what)
        compare_files(probas, counts, max_order, what)
        compared += 1
    if compared > 1:
        obs.label('builder used several times')
        obs.nontrivial(value[:4])


def _failing(texts_, error):
    yield from texts_
    raise error('the texts cannot be read')


def bad_smoothing(name, obs):
    try:
        LanguageModelBuilder(2, name, 1)
    except ArgumentValueError:
        obs.label('unknown smoothing method refused')
        return
    raise Violation('smoothing method %r was accepted' % name)


@texts.cached
def _sentence():
    word = st.sampled_from(['a', 'the', 'cat', 'dog', 'sees', 'my', 'big', 'tree', 'I', '7', 'and', 'Bob', ',', 'can', 'go', 'home', 'iPad'])
    return st.tuples(st.lists(word, min_size=1, max_size=8), st.sampled_from(['.', '!', '?', '\n', '', ':'])).map(
        lambda p: ' '.join(p[0]) + p[1])


@st.composite
def _value(draw):
    mkn = draw(st.booleans())
    max_order = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    return draw(_corpus(mkn)), max_order, mkn, draw(st.integers(1, 4))


@st.composite
def _corpus(draw, mkn):
    pool = draw(st.lists(_sentence(), min_size=1, max_size=8, unique=True))
    out = []
    if mkn and draw(st.integers(0, 3)):  # Rich enough, most of the time
        base = ['the cat sees my big tree', 'i can go home and sleep now', 'dogs run over green hills every day',
                'people like cheap food when hungry', 'small birds sing loud songs before dawn']
        out = [[base[i] + '.'] * (i % 4 + 1) for i in range(len(base))]
        if draw(st.booleans()):
            out = [[s] for sents in out for s in sents]
    for _ in range(draw(st.integers(0, 6))):
        out.append(draw(st.lists(st.sampled_from(pool), max_size=4)))
    out = draw(st.permutations(out))
    return _texts_of(out)


@st.composite
def _several(draw):
    mkn = draw(st.booleans())
    corpora = draw(st.lists(_corpus(mkn), min_size=2, max_size=3))
    broken = draw(st.lists(st.sampled_from([None, None, None, None, ValueError, OSError, KeyError]), min_size=len(corpora),
                           max_size=len(corpora)))
    return corpora, draw(st.integers(2, 3)), mkn, draw(st.integers(1, 3)), broken


def _word(i):
    return 'w' + chr(97 + i // 676 % 26) + chr(97 + i // 26 % 26) + chr(97 + i % 26)


def _large(size, mkn):
    """One sentence of many different words, parts of it several times, and many sentences"""
    words = [_word(i) for i in range(size)]
    texts_ = [' '.join(words), ' '.join(words[:size // 2]) + '.', ' '.join(words[:size // 3]) + '.', ' '.join(words[:size // 4])]
    texts_.append(' '.join('the %s sees the %s.' % (_word(i), _word(i * 3 % size)) for i in range(size // 2)))
    return texts_, 2, mkn, 2


CASES = [
    Case('build', _value, build, quick=70, thorough=1500,
         examples=[_large(150, True), _large(1500, False), _large(4000, True)]),
    Case('again', _several, again, quick=24, thorough=400),
    Case('smoothing name', lambda: st.text(max_size=12).filter(
        lambda s: s not in ('modified_kneser_ney', 'maximum_likelihood_estimation')), bad_smoothing, quick=50,
         examples=['modified_kneser_ne', 'mle', '', 'Modified_Kneser_Ney']),
]
