"""Segmentation rules hold in any context"""
from hypothesis import strategies as st
from pbt import texts
from pbt.core import Case, same
from pbt.props.c01 import checked_tokens
from scrappybara.preprocessing.tokenizer import Tokenizer

RULE = 'Texts are assembled from items whose tokens are known by construction (words with clitics, "cannot", words ' \
       'joined by punctuation, symbols, dashes, bullets, feet and inches, quoted and bracketed groups, trailing ' \
       'punctuation, sentence-ending dots). Non-trivial: the text has to be split at more places than its blanks.'

_TOKENIZE = Tokenizer()


def segmented(value, obs):
    text, tokens = value
    same(checked_tokens(_TOKENIZE(text)), tokens, 'tokens of %r' % text)
    if tokens != text.split():
        obs.nontrivial(text)
    else:
        obs.label('already split by blanks')


def _sizes():
    """Long words, and long runs of signs"""
    out = []
    for size in (2, 3, 4, 8, 16, 21, 26, 31, 41, 51, 65, 101, 129, 260):
        word = ('abcdefgh' * size)[:size]
        for sign in '/:&+*':
            if size > 2:
                out.append(('see %s%s%s now' % (word, sign, word), ['see', word, sign, word, 'now']))
        for clitic in ("n't", "'re", "'ll", "'ve", "'m", "'d", "'s"):
            out.append(('so %s%s go' % (word, clitic), ['so', word, clitic, 'go']))
        for sign in ',;!?':
            out.append(('so %s%s go' % (word, sign), ['so', word, sign, 'go']))
        out.append(('so %s. Go' % word, ['so', word, '.', 'Go']))
        out.append(('so %s.Go %s.' % (word, word), ['so', word, '.', 'Go', word, '.']))
        out.append(('so -%s go' % word, ['so', '-', word, 'go']))
        for run in ('?', '!', '.', '=', '"', ';', '|', '\\', '(', ')', '[', ']', '{', '}', '?!'):
            run = (run * size)[:size]
            out.append(('so %s go' % run, ['so', run, 'go']))
        out.append(('so %s >= %s => b' % (word, word), ['so', word, '>=', word, '=>', 'b']))
        words = [word[:1 + i % 9] for i in range(size)]
        out.append((', '.join(words) + ' end', [t for w in words[:-1] for t in (w, ',')] + [words[-1], 'end']))
        out.append(('cannot ' * size + 'go', ['can', 'not'] * size + ['go']))
        out.append(("they're " * size + 'go', ['they', "'re"] * size + ['go']))
    return out


CASES = [
    Case('sizes', None, segmented, examples=_sizes),
    Case('long', lambda: texts.constructed(texts.any_items(), min_size=25, max_size=70), segmented, quick=40),
    Case('segmentation', lambda: texts.constructed(texts.segmentation_items(), max_size=5), segmented, quick=2500),
    Case('mixed', lambda: texts.constructed(texts.any_items(), max_size=9), segmented, quick=1500),
    Case('words', lambda: texts.constructed(st.one_of(texts.words_items(), texts.number_items()), max_size=9), segmented,
         quick=800),
]
