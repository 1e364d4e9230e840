"""Sentence boundaries"""
import re

from hypothesis import strategies as st
from pbt import texts
from pbt.core import Case, same
from pbt.props.c05 import checked_sentences
from scrappybara.preprocessing.sentencizer import Sentencizer
from scrappybara.preprocessing.tokenizer import Tokenizer

RULE = 'Texts are assembled line by line from sentences whose tokens and boundaries are known: words, abbreviations, ' \
       'decimals, times, URLs, acronyms and ellipsis characters (no boundary), quotes and round brackets with sentence ' \
       'enders inside (no boundary), nested quotes in brackets, enders . ? ! : and runs of them, quotes closed right ' \
       'after a dot, and line ends; few kinds of pieces in all arrangements, compared with a split of the tokens of each line. Non-trivial: at least two sentences.'

_SENTENCIZE = Sentencizer()
_TOKENIZE = Tokenizer()
_ENDER = re.compile('[.?!:]+')
_MARK = '\ue004'
_QUOTED = re.compile('"[^"]*"')
_BRACKETED = re.compile(r'\([^)]*\)')
_BLOCK = re.compile('([⟦⟪])([0-9]+)[⟧⟫]')


def boundaries(value, obs):
    text, sents = value
    same(checked_sentences(_SENTENCIZE(text)), sents, 'sentences of %r' % text)
    if len(sents) > 1:
        obs.nontrivial(text)
    if '"' in text:
        obs.label('with quotes')
    if '(' in text:
        obs.label('with brackets')
    if '."' in text:
        obs.label('quote closed after a dot')
    if '\n' in text or '\t' in text or '\r' in text:
        obs.label('several lines')


@texts.cached
def _word():
    return st.one_of(texts.lower_words(), texts.cap_words())


@st.composite
def _minis(draw, last):
    """Small sentences inside quotes or brackets. Returns text, tokens."""
    parts = []
    tokens = []
    nb = draw(st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3), st.integers(4, 12)))
    for i in range(nb):
        words = [draw(texts.cap_words())] + draw(st.lists(texts.lower_words(), max_size=2))
        ender = draw(st.sampled_from(['.', '?', '!', ':', '...', '?!'] if i < nb - 1 else last))
        parts.append(' '.join(words) + ender)
        tokens += words + ([ender] if ender else [])
    return ' '.join(parts), tokens


@texts.cached
def _quote():
    return _minis(('', '', '?', '!', ',', '…')).map(lambda m: ('"%s"' % m[0], ['"'] + m[1] + ['"']))


@texts.cached
def _dot_quote():
    return _minis(('.',)).map(lambda m: ('"%s"' % m[0], ['"'] + m[1] + ['"']))


@texts.cached
def _bracket():
    plain = _minis(('', '', '.', '?', '!')).map(lambda m: ('(%s)' % m[0], ['('] + m[1] + [')']))
    nested = st.tuples(texts.lower_words(), st.one_of(_quote(), _dot_quote()), texts.lower_words()).map(
        lambda p: ('(%s %s %s)' % (p[0], p[1][0], p[2]), ['(', p[0]] + p[1][1] + [p[2], ')']))
    nested_last = st.tuples(texts.lower_words(), _dot_quote()).map(
        lambda p: ('(%s %s)' % (p[0], p[1][0]), ['(', p[0]] + p[1][1] + [')']))
    return st.one_of(plain, plain, nested, nested_last)


@texts.cached
def _inside():
    """What can be inside a sentence without ending it. Always followed by a lowercase word."""
    low = texts.lower_words()
    one = lambda t: (t, [t])
    return st.one_of(
        _word().map(one), _word().map(one),
        low.map(lambda w: (w + '.', [w + '.'])),
        texts.acronyms().map(one),
        st.tuples(st.sampled_from([t.capitalize() for t in texts.TITLES]), texts.cap_words()).map(
            lambda p: (p[0] + '. ' + p[1], [p[0] + '.', p[1]])),
        st.tuples(st.integers(0, 999), st.integers(0, 99)).map(lambda p: one('%d.%d' % p)),
        st.tuples(st.integers(1, 12), st.integers(10, 59)).map(lambda p: one('%d:%d' % p)),
        st.tuples(st.sampled_from(['http://', 'www.']), low, st.sampled_from(['.com', '.com/a:b', '.org/x?y!z', '.net/a.b'])).map(
            lambda p: one(''.join(p))),
        st.tuples(low, low).map(lambda p: one('%s@%s.com' % p)),
        low.map(lambda w: (w + '…', [w, '…'])),
        low.map(lambda w: (w + ',', [w, ','])),
        low.map(lambda w: (w + ';', [w, ';'])),
        st.just(('[', ['['])),
        _quote(), _quote(), _bracket(), _bracket(),
    )


@texts.cached
def _runs():
    """Runs of enders of any length"""
    return st.one_of(st.text(alphabet='?!', min_size=1, max_size=8), st.integers(2, 8).map(lambda n: '.' * n))


@st.composite
def _sentence(draw, first):
    """Returns text, tokens, ender ('' when only the end of the line ends it)"""
    parts = [draw(first)]
    tokens = list(parts)
    for text, item_tokens in draw(st.lists(_inside(), max_size=3)):
        follow = draw(texts.lower_words())
        parts += [text, follow]
        tokens += item_tokens + [follow]
    kind = draw(st.integers(0, 7))
    if kind == 0:
        text, item_tokens = draw(_dot_quote())
        parts.append(text)
        tokens += item_tokens
        return ' '.join(parts), tokens, '"'
    if kind == 1:
        text, item_tokens = draw(st.one_of(_quote(), _bracket()))
        parts.append(text)
        tokens += item_tokens
    if kind == 2:
        return ' '.join(parts), tokens, ''
    ender = draw(st.one_of(st.sampled_from(['.', '.', '.', '?', '!', ':', '?!', '...', '!!', '??']), _runs()))
    return ' '.join(parts) + ender, tokens + [ender], ender


@st.composite
def _texts(draw, max_lines=3, max_sents=4):
    lines = []
    sents = []
    for _ in range(draw(st.integers(1, max_lines))):
        parts = []
        first = _word()
        for _ in range(draw(st.integers(1, max_sents))):
            text, tokens, ender = draw(_sentence(first))
            parts.append(text)
            sents.append(tokens)
            if ender == '':
                break
            first = texts.cap_words() if '.' in ender else _word()
        lines.append(' '.join(parts))
    text = lines[0]
    for line in lines[1:]:
        text += draw(st.sampled_from(['\n', '\n\n', '\t', '\r\n', ' \n ', '\r', '\n  \n'])) + line
    return draw(st.sampled_from(['', '', '\n', ' '])) + text + draw(st.sampled_from(['', '', '\n', ' '])), sents


def split(text):
    """Sentences according to the tokens of each line, where a quoted or bracketed part counts as one symbol"""
    sents = []
    for line in re.split('[\t\n\r]+', text):
        blocks = []

        def _hide(match, brackets):
            blocks.append(match.group()[1:-1])
            return ' %s%d%s ' % (brackets[0], len(blocks) - 1, brackets[1])

        line = line.replace('."', '." %s ' % _MARK)
        line = _QUOTED.sub(lambda m: _hide(m, '⟦⟧'), line)
        line = _BRACKETED.sub(lambda m: _hide(m, '⟪⟫'), line)

        def _shown(token):
            match = _BLOCK.fullmatch(token)
            if match is None:
                return [token]
            ends = '""' if match.group(1) == '⟦' else '()'
            inside = [t for token_ in _TOKENIZE(blocks[int(match.group(2))]) for t in _shown(token_) if t and t != _MARK]
            return [ends[0]] + inside + [ends[1]]

        sent = []
        for token in [t for t in _TOKENIZE(line) if t]:
            if token != _MARK:
                sent += _shown(token)
            if token == _MARK or _ENDER.fullmatch(token):
                sents.append(sent)
                sent = []
        sents.append(sent)
    return [sent for sent in sents if sent]


def agrees(text, obs):
    boundaries((text, split(text)), obs)


_INLINE = ['.', '?', '!', ':', '...', '?!', 'a', 'Word', 'word', 'U.S.', '5', '1.', ',', "'", '-', '"', '(', ')', '."', '".', ')."', '("', '")']


def _swarm(tape):
    if tape.chance(50):
        return texts.swarm_text(tape)
    pool = [tape.pick(_INLINE) for _ in range(tape.between(2, 7))]
    glue = tape.pick([['', ' '], [' '], ['', '', ' ', '\n'], [' ', ' ', ' ', '\t']])
    if tape.chance(10):  # Long sentences
        return ''.join('%s%s%s ' % ('so ' * tape.between(0, 70), tape.pick(pool), tape.pick(pool)) for _ in range(tape.between(1, 6)))
    return ''.join(tape.pick(pool) + tape.pick(glue) for _ in range(tape.between(1, 20)))


CASES = [Case('swarm', None, agrees, quick=6000, tape=_swarm),
         Case('boundaries', _texts, boundaries, quick=1500),
         Case('long', lambda: _texts(12, 6), boundaries, quick=150)]
