"""Lemmatization"""
from hypothesis import strategies as st
from pbt import env, normref, texts
from pbt.core import Case, check
from scrappybara.normalization.lemmatizer import Lemmatizer
from scrappybara.syntax.tags import Tag
from scrappybara.utils.files import load_dict_from_txt_file, load_set_from_txt_file

RULE = 'Every irregular form of the data files, alone and with every prefix (exhaustive); generated words stem + inflection (doubled ' \
       'consonants, -ies, -ves, -men, -icked ...) with every tag, with and without prefix or hyphen, in any case, against language ' \
       'models that know any subset of the candidate lemmas, alone or after a pronoun or modal, one word or several in a row. Non-trivial: a suffix is expected or ' \
       'the word has an inflectional ending.'

setup = env.use_private_data
_TABLES = {}


def tables():
    """Read independently of the library"""
    if not _TABLES:
        folder = env.use_private_data() / 'english'
        for name in ('irregular_preterits', 'irregular_past_participles', 'irregular_plurals', 'irregular_comparatives',
                     'irregular_superlatives'):
            with open(folder / (name + '.txt'), encoding='utf-8') as reader:
                _TABLES[name] = dict(line.strip().split('\t') for line in reader)
        with open(folder / 'adjectives.txt', encoding='utf-8') as reader:
            _TABLES['adjectives'] = {line.strip() for line in reader}
    return _TABLES


def make(lm, t=None):
    """The library's lemmatizer, and the reference"""
    t = t or tables()
    args = [t['adjectives'], t['irregular_preterits'], t['irregular_past_participles'], t['irregular_plurals'],
            t['irregular_comparatives'], t['irregular_superlatives']]
    reverse = {v: k for k, v in t['irregular_past_participles'].items()}
    return Lemmatizer(env.make_language_model(lm, 1, 1), *args, reverse), normref.LemmaRef(lm, *args)


def judge(lemmatize, ref, word, tag, lm):
    got = lemmatize(word, Tag[tag])
    check(isinstance(got, tuple) and len(got) == 2, 'lemma of %r: %r', word, got)
    suffix = got[1].name if got[1] is not None else None
    want = ref(word, tag)
    check((got[0], suffix) in want, 'lemma of %r as %s, knowing %r, is %r instead of %r', word, tag, lm, (got[0], suffix), want)
    return want


_ENDINGS = ['', 's', 'es', 'ies', 'ed', 'ied', 'ing', 'icked', 'icking', 'icks', 'er', 'est', 'ier', 'iest', 'ves', 'ieves', 'men', 'a',
            'i', 'ss', "'s"]
_BASES = ['', 'e', 'y', 'ie', 'ic', 'f', 'fe', 've', 'ief', 'man', 'on', 'us', 'is', 's', 'ee']


_STEMS = ['bark', 'bak', 'fre', 'format', 'rol', 'part', 'l', 'th', 'wol', 'wi', 'wo', 'fox', 'ax', 'analys', 'larg', 'fat', 'happ', 'picn',
          'nucle', 'criteri', 'play', 'd', 'go', 'misty', 'read', 'cook', 'unt', 'discuss', 'subdu', 'coat', 'need', 'acu', 'bett', 'remind']


@st.composite
def _values(draw):
    tag = draw(st.sampled_from(['VERB', 'VERB', 'VERB', 'NOUN', 'NOUN', 'NOUN', 'ADJ', 'ADJ', 'ADJ', 'ADV', 'PROPN', 'DET']))
    stem = draw(st.one_of(st.sampled_from(_STEMS), st.text(alphabet='aeiourtnslbdk', min_size=1, max_size=6),
                          st.text(alphabet='aeiourtnslbdk', min_size=10, max_size=28)))
    double = draw(st.integers(0, 3)) == 0
    endings = sorted({r[0] for r in normref._RULES.get(tag, [])}) or _ENDINGS
    ending = draw(st.sampled_from(endings)) if draw(st.integers(0, 9)) else draw(st.sampled_from(_ENDINGS))
    inflected = stem + (stem[-1] if double else '') + ending
    prefix = draw(st.sampled_from(['', '', '', '', 're', 'un', 'mis', 'dis', 'out', 'co', 'sub', 'grand', 're-', 'well-', 'a-b-', 'pre']))
    word = prefix + inflected
    # Candidate lemmas, by any rule
    pool = {word, word + 'es', inflected, stem, stem + 'e'}
    for form in {word, inflected}:
        for rule_ending, _, _, cut, _ in normref._RULES.get(tag, []):
            start = form[:len(form) - len(rule_ending)]
            if form.endswith(rule_ending) and len(start) > 1:
                base, base_endings = cut(start)
                pool |= {base + e for e in base_endings}
    pool = sorted(p for p in pool if p)
    probas = st.sampled_from([.001 * i for i in range(1, 60)])
    lm = {w: (draw(st.integers(1, 9)), draw(probas)) for w in draw(st.lists(st.sampled_from(pool), max_size=6, unique=True))}
    contexts = st.sampled_from(normref._VERB_CONTEXTS + ['the', 'a', 'it'])
    for w in draw(st.lists(st.sampled_from(pool), max_size=3)):
        first = draw(contexts) if tag == 'VERB' or draw(st.integers(0, 2)) else draw(st.sampled_from(pool))
        lm[first + ' ' + w] = (draw(st.integers(1, 9)), draw(probas))
    word = draw(st.sampled_from([str, str, str, str.capitalize, str.upper]))(word)
    adjs = draw(st.lists(st.sampled_from([word.lower(), stem, stem + 'er']), max_size=2))
    return word, tag, lm, adjs


def regular(value, obs):
    word, tag, lm, adjs = value
    t = dict(tables())
    t['adjectives'] = t['adjectives'] | set(adjs)
    lemmatize, ref = make(lm, t)
    want = judge(lemmatize, ref, word, tag, lm)
    if any(s for _, s in want):
        obs.nontrivial(value)
        for _, suffix in want:
            obs.label(str(suffix))
    else:
        obs.label('no suffix')


def together(value, obs):
    """Each word by itself, whatever was asked before"""
    groups, order = value
    lm, words = {}, []
    for word, tag, known, _ in groups:
        for text, entry in known.items():
            lm.setdefault(text, entry)
        words += [(w, t) for w in (word, word.lower(), word.capitalize(), word.upper()) for t in (tag, tag, 'VERB', 'NOUN', 'ADJ')]
        words += [(text, tag) for text in sorted(known) if ' ' not in text][:4]
    lemmatize, ref = make(lm)
    for k in order:
        judge(lemmatize, ref, *words[k % len(words)], lm)
    obs.nontrivial(value)


def _together():
    return st.tuples(st.lists(_values(), min_size=1, max_size=3), st.lists(st.integers(0, 99), min_size=2, max_size=14))


_PREFIXES = ['', 're', 'un', 'mis', 'dis', 'out', 'co', 'sub', 'grand', 're-', 'over-', 'x', '-']


def _irregular_forms():
    out = []
    for name, tag in (('irregular_preterits', 'VERB'), ('irregular_past_participles', 'VERB'), ('irregular_plurals', 'NOUN'),
                      ('irregular_comparatives', 'ADJ'), ('irregular_superlatives', 'ADJ')):
        for form in sorted(tables()[name]):
            out.append((form, tag))
    for tag, forms in normref._FULL.items():
        out += [(form, tag) for form in forms]
    return out


_SHARED = []


def irregular(value, obs):
    form, tag = value
    if not _SHARED:
        _SHARED.append(make({'a': (1, .1)}))
    lemmatize, ref = _SHARED[0]
    for prefix in _PREFIXES:
        for case in (str, str.upper, str.capitalize):
            want = judge(lemmatize, ref, case(prefix + form), tag, {})
    for other in ('NOUN', 'VERB', 'ADJ', 'ADV', 'PROPN'):
        judge(lemmatize, ref, form, other, {})
    obs.nontrivial(value)


_RANDOM_WORDS = ["'", '', '-', '--', 'a-', '-s', 's', 'es', 'ies', 'ing', 'ed', "'s", '1990s', '.', 'é', 'ß', 'er', 'est', 'US', 'i', 're',
                 'reed', 'coed', 'unies', 'x-s', 'bless', 'ss']


def anything(value, obs):
    word, tag = value
    if not _SHARED:
        _SHARED.append(make({'a': (1, .1)}))
    judge(*_SHARED[0], word, tag, {})
    if word.lower() != word or any(word.endswith(e) for e in _ENDINGS[1:]):
        obs.nontrivial(value)


SCALE = 3
CASES = [
    Case('irregular', None, irregular, examples=_irregular_forms),
    Case('regular', _values, regular, quick=2000),
    Case('together', _together, together, quick=200),
    Case('anything', lambda: st.tuples(st.one_of(st.text(max_size=8), st.sampled_from(_RANDOM_WORDS), texts.plain_words()),
                                       st.sampled_from([t.name for t in Tag])), anything, quick=400,
         examples=lambda: [(w, t.name) for w in _RANDOM_WORDS for t in Tag]),
]
