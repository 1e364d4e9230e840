"""Blanks and typography don't change the tokens"""
import re

from hypothesis import strategies as st
from pbt import texts
from pbt.core import Case, check, same
from pbt.props.c01 import checked_tokens
from scrappybara.preprocessing.tokenizer import Tokenizer

RULE = 'A text, rewritten with other whitespace (any unicode blanks, any run length, leading and trailing), other ' \
       'quote characters or other long dashes; both versions must give the same tokens. Non-trivial: the two versions ' \
       'differ and the text has at least two tokens.'

_TOKENIZE = Tokenizer()
_BLANKS = [' ', '  ', '\u00a0\u00a0', '\u3000 ', ' \u2003', '\u2009\u200a\u3000', '\x1c\x1d', '\x0c\x0b', '\u1680\u205f', '\u202f\u2029', '\t', '\n', '\r\n', '\u00a0', '\u2003', '\u3000', '\x0b', '\u2028', ' \n ', '\x1f', '\x85']


_QUOTES = {"'": "'‘’′", '‘': "'‘’′", '’': "'‘’′", '′': "'‘’′", '"': '"“”″', '“': '"“”″', '”': '"“”″', '″': '"“”″'}


@texts.cached
def _text():
    return st.one_of(texts.fragment_texts(), texts.ascii_texts(),
                     texts.constructed(texts.any_items(), max_size=8).map(lambda p: p[0]))


@st.composite
def _blanks(draw):
    text = draw(_text())
    picks = draw(st.binary(min_size=8, max_size=8))
    chunks = text.split()
    out = draw(st.sampled_from(['', ' ', '\n', '\u00a0 ']))
    for i, chunk in enumerate(chunks):
        if i:
            out += _BLANKS[picks[i % 8] % len(_BLANKS)]
        out += chunk
    return ' '.join(chunks), out + draw(st.sampled_from(['', ' ', '\t', '\u2003']))


@st.composite
def _typography(draw):
    text = draw(_text())
    pools = {"'": "'‘’′", '‘': "'‘’′", '’': "'‘’′", '′': "'‘’′", '"': '"“”″', '“': '"“”″', '”': '"“”″', '″': '"“”″'}
    picks = draw(st.binary(min_size=8, max_size=8))
    out = ''.join(pools[c][(picks[i % 8] + i) % 4] if c in pools else c for i, c in enumerate(text))
    return text, out


@st.composite
def _dashes(draw):
    parts = draw(st.lists(texts.fragment_texts(4).map(lambda t: t.strip(' –—') or 'a'), min_size=2, max_size=4))
    one = two = parts[0]
    for part in parts[1:]:
        one += draw(st.sampled_from(['–', '—', '––', '—–', ' – ', ' - '])) + part
        two += draw(st.sampled_from(['–', '—', '———', '–— ', ' —'])) + part
    return one, two


def _swarm(tape):
    """A text and the same with other blanks, quotes or dashes"""
    text = texts.swarm_text(tape)
    kind = tape.below(3)
    if kind == 0:
        chunks = text.split()
        two = tape.pick(['', ' ', '\n', '\u00a0 '])
        for i, chunk in enumerate(chunks):
            two += (tape.pick(_BLANKS) if i else '') + chunk
        return ' '.join(chunks), two + tape.pick(['', ' ', '\t', '\u2003'])
    if kind == 1:
        return text, ''.join(tape.pick(_QUOTES[c]) if c in _QUOTES else c for c in text)
    one = two = ''
    for part in re.split('[–—]+', text) if tape.chance(50) else [text[i:i + 5] for i in range(0, len(text), 5)]:
        part = part.strip(' –—') or 'a'
        if one:
            one += tape.pick(['–', '—', '––', '—–', ' – ', ' - '])
            two += tape.pick(['–', '—', '———', '–— ', ' —'])
        one += part
        two += part
    return one, two


def invariant(value, obs):
    one, two = value
    if not one.strip() or not two.strip():
        return
    tokens = checked_tokens(_TOKENIZE(one))
    other = checked_tokens(_TOKENIZE(two))
    same(other, tokens, 'tokens of %r and of %r' % (two, one))
    for token in tokens:
        check(token and not re.search(r'\s', token), 'token %r of %r is empty or has a blank', token, one)
    if one != two and len(tokens) > 1:
        obs.nontrivial(value)


def repeatable(value, obs):
    """A tokenizer has no memory: what was tokenized before, and by which instance, does not matter"""
    first = [checked_tokens(_TOKENIZE(text)) for text in value]
    again = Tokenizer()
    same([again(text) for text in reversed(value)], first[::-1], 'tokens on a second pass, other order, new instance')
    kept = [list(tokens) for tokens in first]
    for tokens in first:  # What the caller does with a result is his own business
        tokens.reverse()
        tokens.append('changed')
    same([_TOKENIZE(text) for text in value], kept, 'tokens after the caller has changed the lists he was given')
    same([Tokenizer()(text) for text in value], kept, 'tokens of a new instance after the caller has changed the lists he was given')
    if len(value) > 1:
        obs.nontrivial(value)


CASES = [
    Case('swarm', None, invariant, quick=8000, tape=_swarm),
    Case('blanks', _blanks, invariant, quick=1500, examples=[(' a  b ', 'a\u00a0b')] + [('a b.', 'a' + b * n + 'b.' + b * n) for b in ' \n\t\u00a0\u2003' for n in (5, 17, 65, 130, 300, 1500)]),
    Case('quotes', _typography, invariant, quick=1500, examples=[("it's", 'it’s'), ("'a' \"b\"", '‘a’ “b”')]),
    Case('dashes', _dashes, invariant, quick=1000, examples=[('a – b', 'a' + d * n + 'b') for d in ('–', '—', '–—') for n in (1, 2, 5, 17, 65, 130, 300)]),
    Case('memory', lambda: st.lists(_text(), min_size=1, max_size=4), repeatable, quick=150),
]
