"""Sentences are encoded faithfully for the models"""
import pickle

import numpy as np
from hypothesis import strategies as st
from pbt import env, texts
from pbt.core import Case, Violation, check, same
from scrappybara.syntax.charset import Charset
from scrappybara.syntax.training_samples import SentenceTooLongError, make_masks, vectorize_sentence
from scrappybara.syntax.wordset import Wordset

RULE = 'Sentences of 0 to 53 tokens of 0 to 40 characters (any case, unknown characters, unknown words), encoded and compared position by ' \
       'position with the character and word tables; series of similar sentences, encoded one after the other and compared together; ' \
       'every pair of positions for the two pointers, and series of pairs. Non-trivial: at least one known word, ' \
       'or a token longer than 20 characters, or an unknown character.'

SENT, WORD, DIM = 50, 20, 100
_KNOWN = ['cat', 'dog', 'the', 'sees', 'a', '.', "n't", 'internationalization', 'ʃʃʃ', 'ʄʄʄ', 'straße', 'ſo', 'ﬁne', 'naïve', 'ος', 'μm', 'ǆ']
_STATE = {}


def setup():
    folder = env.use_private_data()
    rng = np.random.RandomState(5)
    vectors = {w: rng.rand(DIM).astype(np.float32) + 1 for w in _KNOWN}
    env.write_word_vectors(vectors)
    with open(folder / 'models' / 'char_codes.pkl', 'rb') as reader:
        codes = pickle.load(reader)
    _STATE.update(vectors=vectors, codes=codes, charset=Charset().load(), wordset=Wordset().load())


def ref_vectorize(tokens, codes, vectors):
    unknown = max(codes.values()) + 1
    chars = np.zeros((SENT + 2, WORD + 2), dtype=int)
    words = np.zeros((SENT + 2, DIM))
    for i, token in enumerate(['ʃʃʃ'] + tokens + ['ʄʄʄ']):
        for j, c in enumerate('†' + token[-WORD:] + '‡' if token else '†‡'):
            chars[i, j] = codes.get(c, unknown)
        if token.lower() in vectors:
            words[i] = vectors[token.lower()]
    return chars, words


def encoding(value, obs):
    tokens = list(value)
    before = list(tokens)
    if len(tokens) > SENT:
        try:
            vectorize_sentence(tokens, _STATE['charset'], _STATE['wordset'])
        except SentenceTooLongError:
            obs.label('too long')
            return
        raise Violation('a sentence of %d tokens was accepted' % len(tokens))
    length, chars, words = vectorize_sentence(tokens, _STATE['charset'], _STATE['wordset'])
    same(tokens, before, 'the tokens were changed')
    same(length, len(tokens) + 2, 'length of %r' % tokens)
    want_chars, want_words = ref_vectorize(tokens, _STATE['codes'], _STATE['vectors'])
    chars, words = np.asarray(chars), np.asarray(words)
    same(chars.shape, want_chars.shape, 'shape of the character codes')
    same(words.shape, want_words.shape, 'shape of the word vectors')
    check(bool((chars == want_chars).all()), 'character codes of %r:\n%s', tokens, chars[:len(tokens) + 3].tolist())
    check(bool(np.allclose(words, want_words)), 'word vectors of %r', tokens)
    if any(t.lower() in _STATE['vectors'] or len(t) > WORD or any(c not in _STATE['codes'] for c in t) for t in tokens):
        obs.nontrivial(value)
    if any(len(t) > WORD for t in tokens):
        obs.label('long token')


def masks(value, obs):
    made = [(pair, make_masks(*pair)) for pair in value]
    for pair, pointers in made:  # All together: the first ones are still the same
        for mask, idx in zip(pointers, pair):
            same([k for k, b in enumerate(mask) if b], [idx], 'pointer to %d, of all those of %r' % (idx, value))
            same(len(mask), SENT + 2, 'length of a pointer')
    obs.nontrivial(value)


def series(value, obs):
    """The encodings of several sentences, kept as in a batch"""
    made = [vectorize_sentence(list(tokens), _STATE['charset'], _STATE['wordset']) for tokens in value]
    for tokens, (length, chars, words) in zip(value, made):
        want_chars, want_words = ref_vectorize(list(tokens), _STATE['codes'], _STATE['vectors'])
        same(length, len(tokens) + 2, 'length of %r among %r' % (tokens, value))
        check(bool((np.asarray(chars) == want_chars).all()), 'character codes of %r among %r', tokens, value)
        check(bool(np.allclose(np.asarray(words), want_words)), 'word vectors of %r among %r', tokens, value)
    if len({repr(tokens) for tokens in value}) > 1:
        obs.nontrivial(value)


def _sentences():
    token = st.one_of(st.sampled_from(_KNOWN), st.sampled_from(_KNOWN).map(str.upper), st.sampled_from(_KNOWN).map(str.title),
                      st.sampled_from(_KNOWN).map(lambda w: w[:-1] + w[-1].upper()), texts.plain_words(), st.text(max_size=5),
                      st.text(alphabet='abcdefghijABC', min_size=18, max_size=24), st.text(alphabet='abé日', min_size=19, max_size=40))
    return st.one_of(st.lists(token, max_size=12), st.lists(token, min_size=46, max_size=53))


@st.composite
def _series(draw):
    """Sentences that look alike: same length, other case, one more token, another order"""
    token = st.one_of(st.sampled_from(_KNOWN), texts.plain_words(), st.text(alphabet='abéC', min_size=18, max_size=23))
    out = [draw(st.lists(token, max_size=6))]
    for _ in range(draw(st.integers(1, 5))):
        base = list(draw(st.sampled_from(out)))
        kind = draw(st.integers(0, 5))
        if kind == 0:
            base = [t.upper() for t in base]
        elif kind == 1:
            base = base + [draw(token)]
        elif kind == 2:
            base = base[::-1]
        elif kind == 3:
            base = base[:-1]
        elif base:
            base[draw(st.integers(0, len(base) - 1))] = draw(token)
        out.append(base)
    return out


SCALE = 3
CASES = [
    Case('encoding', _sentences, encoding, quick=400,
         examples=[['a'] * n for n in range(0, 55)] + [['abcdefghijklmnopqrstuvwxyz'[:n]] for n in range(27)]),
    Case('series', _series, series, quick=250),
    Case('pointers', lambda: st.lists(st.tuples(st.integers(0, 51), st.integers(0, 51)), min_size=1, max_size=9), masks, quick=200,
         examples=[[(i, j)] for i in range(52) for j in range(52)] + [[(i, j), (j, i)] for i in range(0, 52, 3) for j in range(52)]),
]
