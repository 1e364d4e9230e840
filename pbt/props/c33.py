"""Character and word tables"""
import numpy as np
import os
import string

from hypothesis import strategies as st
from pbt import env, texts
from pbt.core import Case, check, same
from scrappybara.syntax.charset import Charset
from scrappybara.syntax.wordset import Wordset

RULE = 'Word-vector files of 0 to 12 words with language models that know a subset of them, saved then loaded and queried in any case; the ' \
       'character table saved then loaded, and all its characters and random ones queried. Non-trivial: some word of the file is kept and ' \
       'some is not.'

_KNOWN_CHARS = string.ascii_letters + string.digits + '`~!@#$£€%^&*()-_=+[{]}\\|;:\'",<.>/?' + '†‡ʃʄ'
setup = env.use_private_data


def _no_file():
    """Nothing saved before"""
    folder = env.use_private_data() / 'models'
    for name in os.listdir(folder):
        os.remove(folder / name)


def charset(value, obs):
    if len(value) % 2:
        _no_file()
    Charset().save()
    table = Charset().load()
    codes = {c: int(table[c]) for c in _KNOWN_CHARS}
    same(len(set(codes.values())), len(codes), 'distinct codes of the known characters')
    for c in value:
        if c not in codes:
            check(int(table[c]) not in codes.values(), 'the unknown character %r has the code of a known one', c)
            same(int(table[c]), int(table['日']), 'code of the unknown character %r' % c)
        else:
            same(int(table[c]), codes[c], 'code of %r, asked again' % c)
    check(all(0 <= v < len(table) for v in list(codes.values()) + [int(table['日'])]), 'codes out of range: %r', codes)
    same(len(table), len(Charset().load()), 'size of the table, after questions and before')
    if any(c not in codes for c in value):
        obs.nontrivial(('chars', value))


def wordset(value, obs):
    words, known = value
    folder = env.use_private_data() / 'glove'
    folder.mkdir(exist_ok=True)
    vectors = {}
    with open(folder / 'glove.6B.100d.txt', 'w', encoding='utf-8') as writer:
        for i, word in enumerate(words):
            vectors[word] = [round(.001 * ((i + 1) * 31 + j) - 1, 4) for j in range(100)]
            writer.write(word + ' ' + ' '.join(str(v) for v in vectors[word]) + '\n')
    lm = env.make_language_model({w: (1, .1) for w in known}, 1)
    if len(words) % 2:
        _no_file()
    Wordset().save(str(folder), lm)
    table = Wordset().load()
    kept = [w for w in words if w in known]
    same(len(table), len(kept) + 1, 'size of the table')
    for word in words + known + ['zzzzz', '']:
        want = vectors[word] if word in kept else [0.] * 100
        if word != word.lower():
            continue
        for form in (word, word.upper(), word.capitalize(), word[:1].upper() + word[1:], word[:-1] + word[-1:].upper()):
            if form.lower() == word:
                check(bool(np.allclose(np.asarray(table[form], dtype=float), want, atol=1e-5)) and len(table[form]) == 100,
                      'vector of %r', form)
    same(len(table), len(kept) + 1, 'size of the table, after questions')
    if kept and len(kept) < len(words):
        obs.nontrivial(value)


_ODD = ['straße', 'ſo', 'ﬁne', 'naïve', 'ος', 'μm', 'ǆ', 'self-made', "o'clock", 'u.s.', '1990s']


@st.composite
def _words(draw):
    word = st.one_of(texts.lower_words(), texts.lower_words(), st.sampled_from(_ODD), st.tuples(
        texts.lower_words(), st.sampled_from(list('éßſσςμµøıǆ') + ['-', "'", '.', '1'])).map(''.join))
    words = draw(st.lists(word.filter(lambda w: w == w.lower()), max_size=12, unique=True))
    words += draw(st.lists(st.sampled_from(words).map(str.capitalize).filter(lambda w: w not in words), max_size=2, unique=True)) if words else []
    words = draw(st.permutations(words))
    lower = [w for w in words if w == w.lower()]  # What the language model can know
    other = draw(st.lists(texts.lower_words(), max_size=3))
    known = sorted(set(draw(st.lists(st.sampled_from(lower + other), max_size=8)) if lower + other else []))
    return words, known


SCALE = 3
CASES = [
    Case('words', _words, wordset, quick=150),
    Case('chars', lambda: st.text(max_size=30), charset, quick=60),
]
