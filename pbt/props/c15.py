"""Spelling standardization"""
from hypothesis import strategies as st
from pbt import env, normref, texts
from pbt.core import Case, check, same
from scrappybara.normalization.standardizer import Standardizer

RULE = 'Tokens with British/American spelling alternatives (-our/-or, -ise/-ize, -yse/-yze, -ce/-se, -ogue/-og, -el-/-ell-, ae/e, ' \
       'oe/e, with all their inflections), short and long starts, capitals, alone or one after the other, and ordinary tokens; language models that know any subset of the ' \
       'alternatives with any counts and probabilities. Non-trivial: at least one alternative spelling is known.'

setup = env.use_private_data

_STARTS = ['col', 'fav', 'hon', 'real', 'anal', 'def', 'defen', 'offen', 'trav', 'canc', 'catal', 'dial', 'fl', 'f', 'ab', 'organ', 'licen', 'tr']
_FORMS = [(['our', 'or'], ['', 's', 'ed', 'ing', 'er']),
          (['is', 'iz', 'ys', 'yz'], ['e', 'es', 'ed', 'ing', 'er', 'ers', 'ation', 'ations', 'ate']),
          (['c', 's'], ['e', 'es', 'ive', 'ives', 'ed']),
          (['og', 'ogue'], ['', 's', 'r']),
          (['el', 'ell'], ['ing', 'ed', 'er', 'ers', '', 's']),
          (['ae', 'e', 'oe'], ['mia', 'strogen', 'on', 's', ''])]
_ANY_END = sorted({e for _, ends in _FORMS for e in ends} | {'able', 'ally', 'y', 'ment', 'ly', 'ful', 'ity', 'al', "'s", 'ings', 'eds'})  # Also where there is no alternative


@st.composite
def _values(draw):
    start = draw(st.one_of(st.sampled_from(_STARTS), texts.lower_words(2, 6), st.text(texts.LOWER, min_size=12, max_size=30)))
    mids, ends = draw(st.sampled_from(_FORMS))
    if mids[0] == 'ae' and not draw(st.integers(0, 2)):
        start = ''
    mid = draw(st.sampled_from(mids))
    end = draw(st.sampled_from(ends if draw(st.integers(0, 5)) else _ANY_END))
    token = start + mid + end
    if draw(st.integers(0, 9)) == 0:
        token += draw(st.sampled_from(['ae', 'oe', 'n', 'our']))
    change = draw(st.sampled_from([str.upper, str.capitalize])) if draw(st.integers(0, 11)) == 0 else str
    token = change(token)
    # What the language model may know
    pool = {token} | {start + m + e for m in mids for e in ends} | {start + m + 'e' for m in mids}
    for m in 'yi':
        pool |= {start + m + 'ze', start + m + 'se'}
    pool |= {token.replace('ae', 'e'), token.replace('oe', 'e')}
    pool = sorted(pool | {change(w) for w in pool} | {change(start) + m + e for m in mids for e in ends})
    known = draw(st.lists(st.sampled_from(pool), max_size=8, unique=True))
    lm = {w: (draw(st.sampled_from([1, 2, 4, 5, 6, 50])), draw(st.sampled_from([.1, .2, .3, .01, .02, .03, .05, .001]))) for w in known}
    return token, lm


@st.composite
def _short(draw):
    """Tokens around the lengths from which the rules apply"""
    mids, ends = draw(st.sampled_from(_FORMS))
    start = draw(st.text('abfnprt', max_size=3))
    if mids[0] == 'ae' and not draw(st.integers(0, 2)):
        start = ''
    if mids[0] == 'ae':
        end = draw(st.text('amnst', max_size=4))
    else:
        end = draw(st.sampled_from(ends))
    token = start + draw(st.sampled_from(mids)) + end
    if draw(st.integers(0, 11)) == 0:
        token = token.capitalize()
    pool = {start + m + e for m in mids + ['i', 'y'] for e in (end, '', 'e', 'se', 'ze')} | {token.replace('ae', 'e'), token.replace('oe', 'e')}
    known = draw(st.lists(st.sampled_from(sorted(pool - {token})), min_size=1, max_size=6, unique=True))
    lm = {w: (draw(st.sampled_from([1, 4, 5, 50])), draw(st.sampled_from([.1, .2, .3, .01, .02, .03, .05, .001]))) for w in known}
    return token, lm


def standardization(value, obs):
    token, lm = value
    model = env.make_language_model(lm, 1)
    standardize = Standardizer(model)
    got = standardize(token)
    want = normref.standardize(lm, token)
    check(got in want, 'standard spelling of %r, knowing %r, is %r instead of %r', token, lm, got, sorted(want))
    if want != {token} or any(w != token for w in lm):
        obs.nontrivial(value)
    if want != {token}:
        obs.label('respelled')
    if token in lm and lm[token][0] >= 5:
        obs.label('well known')


def together(value, obs):
    """Each token by itself, whatever was asked before"""
    groups, order = value
    lm = {}
    for _, known in groups:
        for word, entry in known.items():
            lm.setdefault(word, entry)
    standardize = Standardizer(env.make_language_model(lm, 1))
    tokens = []
    for token, known in groups:
        tokens += [token, token.capitalize(), token.upper(), token.lower()] + sorted(known)[:3]
    tokens = [tokens[k % len(tokens)] for k in order]
    for k, token in enumerate(tokens):
        got = standardize(token)
        want = normref.standardize(lm, token)
        check(got in want, 'standard spelling of %r after %r, knowing %r, is %r instead of %r', token, tokens[:k], lm, got, sorted(want))
    if len(tokens) > 2:
        obs.nontrivial(value)


def _together():
    return st.tuples(st.lists(_values(), min_size=1, max_size=3), st.lists(st.integers(0, 60), min_size=2, max_size=14))


def ordinary(value, obs):
    """Tokens without alternative spelling, or that nothing is known about, are left alone"""
    token, known = value
    standardize = Standardizer(env.make_language_model({w: (9, .1) for w in known}, 1))
    got = standardize(token)
    want = normref.standardize({w: (9, .1) for w in known}, token)
    check(got in want, 'standard spelling of %r, knowing %r, is %r instead of %r', token, known, got, sorted(want))
    if token not in known:
        obs.nontrivial(value)


def _ordinary():
    token = st.one_of(texts.plain_words(), st.sampled_from(["n't", "'s", '.', '1,000', 'www.x.com', '', 'I', 'é', 'aeroplane', 'four', 'or',
                                                            'our', 'ice', 'ise', 'dog', 'ell', 'Mr.', '$5', 'poet', 'color-ed']))
    return st.tuples(token, st.lists(texts.lower_words(), max_size=4, unique=True))


SCALE = 4
CASES = [
    Case('spellings', _values, standardization, quick=900),
    Case('short', _short, standardization, quick=400),
    Case('together', _together, together, quick=200),
    Case('ordinary', _ordinary, ordinary, quick=250),
]
