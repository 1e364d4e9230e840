"""Tokenization conserves the text"""
import re

from hypothesis import strategies as st
from pbt import texts
from pbt.core import Case, Violation, check
from scrappybara.preprocessing.tokenizer import Tokenizer

RULE = 'Texts: random fragments (punctuation, quotes, numbers, URLs, clitics, dashes, exotic spaces), a dense ASCII ' \
       'alphabet, any unicode, constructed sentences, ' \
       'few kinds of pieces in all arrangements, many smileys and URLs in a row, and series of texts that look alike. Non-trivial: at least two non-blank characters and at least ' \
       'one that is not a letter.'

_TOKENIZE = Tokenizer()
_NUMBER = re.compile(r"\s\d[\d,.]*$")
_FEET_NUMBER = re.compile(r"\s\d[\d,.]*('\d[\d,.]*)?$")
_LOOSE_NUMBER = re.compile(r"[\s\"()]\d[\d,.]*$")
_LOOSE_FEET_NUMBER = re.compile(r"[\s\"()]\d[\d,.]*('\d[\d,.]*)?$")


def normalized(text):
    """The typographic normalizations a user is told about"""
    text = re.sub('[‘’′]', "'", text)
    text = re.sub('[“”″]', '"', text)
    return re.sub('[–—]+', ' - ', text)


def align(text, out, loose=False):
    """None if out holds exactly the non-blank characters of text, else what differs.
    Loose: quotes and brackets separate words like whitespace does.
    """
    number = _LOOSE_NUMBER if loose else _NUMBER
    feet_number = _LOOSE_FEET_NUMBER if loose else _FEET_NUMBER
    text = normalized(text).strip()
    i = j = 0
    n = len(text)
    while True:
        while i < n and text[i].isspace():
            i += 1
        if i == n:
            return None if j == len(out) else 'invented %r' % out[j:j + 30]
        if text[i] == '*' and i and text[i - 1] == '*' and not out.startswith('*', j):
            start = i
            while start and text[start - 1] == '*':
                start -= 1
            end = i
            while end < n and text[end] == '*':
                end += 1
            if start and (text[start - 1].isalpha() or text[start - 1] in '\'"') and end < n and text[end].isalpha():
                i += 1
                continue
        if j < len(out) and text[i] == out[j]:
            i += 1
            j += 1
        elif text[i] == "'" and out.startswith('ft', j) and number.search(text[:i]):
            i += 1
            j += 2
        elif text[i] == '"' and out.startswith('in', j) and feet_number.search(text[:i]):
            i += 1
            j += 2
        else:
            return 'text …%r… became …%r…' % (text[max(0, i - 10):i + 10], out[max(0, j - 10):j + 10])


def checked_tokens(tokens, what='tokens'):
    check(isinstance(tokens, list) and all(isinstance(t, str) for t in tokens), '%s: not a list of strings: %r', what, tokens)
    return tokens


def conserves(text, obs):
    tokens = checked_tokens(_TOKENIZE(text))
    if not text:
        return
    problem = align(text, ''.join(tokens))
    check(problem is None, 'tokens of %r are %r: %s', text, tokens, problem)
    solid = re.sub(r'\s', '', text)
    if len(solid) > 1 and not solid.isalpha():
        obs.nontrivial(text)
    if 'http' in text or 'www.' in text or '/' in text:
        obs.label('with url-like text')
    if "'" in text or '"' in text:
        obs.label('with quotes')


def conserves_constructed(value, obs):
    conserves(value[0], obs)


def series(values, obs):
    for text in values:
        conserves(text, obs)


@st.composite
def text_series(draw, texts_):
    """Texts that look alike, one after the other: other case, another letter or digit, a part, twice"""
    out = [draw(texts_)]
    for _ in range(draw(st.integers(1, 4))):
        text = draw(st.sampled_from(out))
        kind = draw(st.integers(0, 6))
        at = draw(st.integers(0, max(0, len(text) - 1)))
        if kind == 0:
            text = text.swapcase()
        elif kind == 1:
            text = text[:at]
        elif kind == 2:
            text = text[at:]
        elif kind == 3:
            text = text + text[at:]
        elif kind == 4:
            text = text[:at] + draw(st.sampled_from(['x', '7', '.', ' ', "'", '"', '\n'])) + text[at:]
        else:
            text = text[:at] + draw(st.sampled_from(['x', 'Q', '7', '.', ' '])) + text[at + 1:]
        out.append(text)
    return out


def many_protected():
    """Smileys, URLs and the like, glued to digits and words"""
    piece = st.sampled_from([':)', ';-)', ':(', ':-)', ':)', ':)1', ':)2', ':(12', ':)3', 'a.b/c', 'www.x.org', "'n'", '1', '2', 'a', '0:)', 'x.y/:)', ',', '.', 'http://a.b./c.d/e', 'www.a.b./c.d/e', 'x.yhttp://a.b./c.d/e', 'a.b/chttp://a.b'])
    return st.lists(st.tuples(piece, st.sampled_from([' ', ' ', ''])).map(''.join), min_size=8, max_size=45).map(''.join)


_EXAMPLES = ['a.b/chttp://a.b', "www.x.com 'n' foo", "rock 'n' cannot", 'see a.b/ and a.b/c,d', "in the 1990's",
             'a**b', '1**2', "x 5'6\" y", ' '.join('http://a%d.com/x' % i for i in range(25)), 'a' * 5000,
             '.' * 300, ' '.join(['U.S.'] * 50), "'" * 40, '“‘a’”', 'x——y', '\u00a0a\u2003b'] + [' '.join(['www.y.com'] * k + [odd] * n) for k in (0, 8, 9, 15, 99) for n in (1, 2)
                                                                    for odd in ('http://a.b./c.d/e', 'a.b/chttp://a.b')]

CASES = [
    Case('raw', texts.raw_texts, conserves, quick=4000, examples=_EXAMPLES),
    Case('constructed', lambda: texts.constructed(texts.any_items(), max_size=12), conserves_constructed, quick=1500),
    Case('series', lambda: text_series(st.one_of(texts.raw_texts(), texts.constructed(texts.any_items(), max_size=12).map(lambda v: v[0]))), series, quick=700),
    Case('swarm', None, conserves, quick=15000, tape=texts.swarm_text),
    Case('many protected', many_protected, conserves, quick=700),
    Case('lines', lambda: st.lists(texts.fragment_texts(8), min_size=2, max_size=4).map('\n'.join), conserves, quick=1000),
]
