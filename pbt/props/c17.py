"""Past participles, and back"""
from hypothesis import strategies as st
from pbt import env, normref, texts
from pbt.core import Case, check, same
from pbt.props import c16
from scrappybara.normalization.inflector import Inflector
from scrappybara.syntax.tags import Tag

RULE = 'Every irregular verb of the data files (exhaustive, inflected then lemmatized back), and generated regular verbs with language ' \
       'models that prefer the simple or the doubled consonant, or know neither. Non-trivial: the past participle is not just "-ed".'

setup = env.use_private_data


def _reverse():
    return {v: k for k, v in c16.tables()['irregular_past_participles'].items()}


def participle(value, obs):
    lemmas, lm = value
    reverse = _reverse()
    inflector = Inflector(env.make_language_model(lm, 1), reverse)
    for lemma in lemmas:
        got = inflector.past_participle(lemma)
        want = normref.past_participle(lm, reverse, lemma)
        check(got in want, 'past participle of %r (asked in %r), knowing %r, is %r instead of %r', lemma, lemmas, lm, got, sorted(want))
    if want != {lemma + 'ed'}:
        obs.nontrivial(value)


@st.composite
def _lemmas(draw):
    lemma = draw(st.one_of(texts.lower_words(1, 8), st.text(texts.LOWER, min_size=12, max_size=28), st.text(alphabet='aeiouytnrlde', min_size=1, max_size=5)))
    # Also other verbs that look like it
    lemmas = [draw(st.sampled_from([lemma, lemma, draw(st.sampled_from(texts.LOWER)) + lemma[1:], 're' + lemma, 'trans' + lemma, lemma[:-1] + 't', lemma[1:] or 'o']))
              for _ in range(draw(st.integers(0, 3)))] + [lemma]
    pool = [f for lemma in lemmas for f in (lemma + 'ed', lemma + lemma[-1] + 'ed', lemma + 'd', lemma, lemma[:-1] + 'ied', lemma + lemma[-1])]
    known = draw(st.lists(st.sampled_from(pool), max_size=3 + len(lemmas), unique=True))
    return lemmas, {w: (draw(st.integers(1, 9)), draw(st.sampled_from([.1, .2, .3, .05]))) for w in known}


def round_trip(value, obs):
    """A verb the model knows: inflected then lemmatized, it comes back"""
    lemma, doubled, contexts, noise = value
    pps = c16.tables()['irregular_past_participles']
    forms = normref.past_participle({lemma + lemma[-1] + 'ed': (3, .3)} if doubled else {lemma + 'ed': (3, .3)}, _reverse(), lemma)
    form = sorted(forms)[0]
    lm = {lemma: (9, .01), form: (5, .005)}
    for context in contexts:
        lm[context + ' ' + lemma] = (4, .02)
    for word in noise:
        lm.setdefault(word, (3, .002))
    inflector = Inflector(env.make_language_model(lm, 1, 1), _reverse())
    got = inflector.past_participle(lemma)
    same(got, form, 'past participle of %r, knowing %r' % (lemma, lm))
    lemmatize, _ = c16.make(lm)
    back, suffix = lemmatize(got, Tag.VERB)
    same((back, suffix.name if suffix is not None else None), (lemma, 'PAST'), 'lemma of %r, past participle of %r' % (got, lemma))
    obs.nontrivial(value)
    obs.label('doubled consonant' if form.endswith(lemma[-1] * 2 + 'ed') and lemma[-2:] != lemma[-1] * 2 else 'other')


def _regular_verb(lemma):
    return not lemma.endswith('icke') and lemma not in _reverse() and lemma not in ('need', 'be') and any(v in lemma for v in 'aeiou')


@texts.cached
def _round_trips():
    c16.tables()
    verb = st.one_of(st.sampled_from(['bark', 'bake', 'free', 'dye', 'format', 'roll', 'party', 'travel', 'stop', 'play', 'enjoy', 'agree',
                                      'argue', 'marry', 'fix', 'plan', 'cook', 'singe', 'carry', 'photo', 'click', 'trick', 'pick', 'flick',
                                      'untie', 'stymie', 'belie', 'tie', 'ski', 'taxi', 'finesse', 'programme', 'mimic', 'panic', 'recall', 'cooperate', 'mistreat',
                                      'discuss', 'submit', 'unify', 'outlast', 'grandstand', 're-visit', 'co-host']),
                     texts.lower_words(4, 8),
                     st.tuples(texts.lower_words(3, 5), st.sampled_from(['y', 'e', 'ee', 'op', 'ate', 'll', 'ue', 'ay', 'et', 'ick', 'ie', 'i', 'esse', 'ic', 'alle', 'ice', 'ike', 'ee'])).map(''.join))
    noise = st.lists(texts.lower_words(), max_size=3)
    return st.tuples(verb.filter(_regular_verb), st.booleans(), st.lists(st.sampled_from(['i', 'we', 'should', 'the']), max_size=2),
                     noise).filter(_no_rival)


def _no_rival(value):
    """The noise doesn't hold another lemma of the same form"""
    lemma, _, _, noise = value
    stem = lemma.rstrip('ey')
    form = sorted(normref.past_participle({lemma + 'ed': (1, .1)}, {}, lemma))[0]
    tables = c16.tables()
    forms = (form, lemma + lemma[-1] + 'ed')
    bases = tuple(f[len(p):] for f in forms for p in normref.PREFIXES if f.startswith(p)) + tuple(f.split('-')[1] for f in forms if f.count('-') == 1)
    if any(f in tables[t] for f in forms + bases for t in ('irregular_past_participles', 'irregular_preterits')):
        return False
    return not any(w.startswith(stem[:-1]) for w in noise)


def irregular(lemma, obs):
    reverse = _reverse()
    lm = {'a': (1, .1)}
    inflector = Inflector(env.make_language_model(lm, 1, 1), reverse)
    got = inflector.past_participle(lemma)
    same(got, reverse[lemma], 'past participle of %r' % lemma)
    lemmatize, _ = c16.make(lm)
    back, suffix = lemmatize(got, Tag.VERB)
    same((back, suffix.name if suffix is not None else None), (lemma, 'PAST'), 'lemma of %r' % got)
    obs.nontrivial(lemma)


SCALE = 3
CASES = [
    Case('irregular', None, irregular, examples=lambda: sorted(_reverse())),
    Case('participle', _lemmas, participle, quick=500),
    Case('round trip', _round_trips, round_trip, quick=350),
]
