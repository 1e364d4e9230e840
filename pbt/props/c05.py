"""Splitting into sentences conserves the text"""
import re

from hypothesis import strategies as st
from pbt import texts
from pbt.core import Case, check
from pbt.props import c01
from scrappybara.preprocessing.sentencizer import Sentencizer

RULE = 'Texts: random fragments with quotes, brackets (nested, unbalanced, empty), sentence enders, newlines and tabs; ' \
       'few kinds of pieces in all arrangements; a dense ASCII alphabet; any unicode; constructed sentences; pilcrows and other signs that could be taken for marks; none with private-use characters. ' \
       'Non-trivial: the text has a quote, a bracket or a line break, and gives at least two tokens.'

_SENTENCIZE = Sentencizer()
_MARKERS = re.compile('[\ue000-\uf8ff]')


def checked_sentences(sents):
    check(isinstance(sents, list), 'not a list of sentences: %r', sents)
    for tokens in sents:
        c01.checked_tokens(tokens, 'sentence')
    return sents


def conserves(text, obs):
    sents = checked_sentences(_SENTENCIZE(text))
    for tokens in sents:
        check(len(tokens) > 0, 'empty sentence in %r, from %r', sents, text)
        for token in tokens:
            check(token.strip() != '', 'blank token in %r, from %r', sents, text)
            check(not _MARKERS.search(token), 'marker in token %r, from %r', token, text)
    problem = c01.align(text, ''.join(t for tokens in sents for t in tokens), loose=True)
    check(problem is None, 'sentences of %r are %r: %s', text, sents, problem)
    if re.search('["()\n\t]', text) and sum(len(tokens) for tokens in sents) > 1:
        obs.nontrivial(text)
        if '"' in text and '(' in text:
            obs.label('quotes and brackets')
    if len(sents) > 2:
        obs.label('three sentences or more')


def series(values, obs):
    for text in values:
        conserves(text, obs)


def _dense():
    return st.text(alphabet=st.sampled_from('""((()) .. ?!:aabTIc019\n\t,\'“”'), max_size=24)


def _blocks():
    piece = st.one_of(st.sampled_from(['"', '(', ')', '."', '".', '?"', '""', '()', '\n', '\t', ':', '.', '...', '!', ' ', ' ',
                                       '" "', ')(', '")', '("', '.")', '(".")', '…', '1', "5'", '6"', '12', 'U.S.',
                                       '[', ']', '…"', '."."', "'", 'a.b/c"d"', 'x/"y."']),
                      texts.plain_words())
    return st.lists(piece, min_size=1, max_size=16).map(''.join)


_PIECES = sorted(set(texts.PIECES) | {'¶', '༺0༻', '⦅', '⦅1⦆', '"', '(', ')', '."', '".', '?"', '""', '()', ')(', '")', '("', '.")', '(".")', '."."', '(a)', '"b"'}) + \
          ['"', '(', ')', '."', '"a."', '(b.)', '\n'] * 8


_EXAMPLES = ['He said "I left." Then he left.', '(He said "I left.") Then', '"" () (\"\")', 'a\n\nb\tc', '"a (b" c)',
             ' '.join('"q%d."' % i for i in range(120)), ' '.join('(b%d)' % i for i in range(120)),
             ' '.join('"q%d" (b%d)' % (i, i) for i in range(60)), '¶', '"a." ¶ b', '¶ 12. (¶ 13.) "¶"', '⦅ x', '༺0༻ "a" (⦅1⦆)']

CASES = [
    Case('blocks', _blocks, conserves, quick=2500, examples=_EXAMPLES),
    Case('swarm', None, conserves, quick=8000, tape=lambda tape: texts.swarm_text(tape, _PIECES)),
    Case('dense', _dense, conserves, quick=1500),
    Case('raw', texts.raw_texts, conserves, quick=1500),
    Case('series', lambda: c01.text_series(st.one_of(_blocks(), texts.fragment_texts(8))), series, quick=500),
    Case('lines', lambda: st.lists(texts.fragment_texts(8), min_size=2, max_size=4).map('\n'.join), conserves, quick=800),
    Case('constructed', lambda: texts.constructed(texts.any_items(), max_size=12).map(lambda p: p[0]), conserves, quick=600),
]
