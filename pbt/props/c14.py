"""Context windows"""
from hypothesis import strategies as st
from pbt.core import Case, check, same
from scrappybara.langmodel.token_context import TokenContext

RULE = 'A token with 0 to 7 tokens before and after (repeated tokens included), window orders 2 to 9. Non-trivial: at least one ' \
       'window of the order exists.'


def windows(value, obs):
    token, before, after, order = value
    context = TokenContext(token, list(before), list(after))
    tokens = before + [token] + after
    want = [' '.join(tokens[i:i + order]) for i in range(len(tokens) - order + 1) if i <= len(before) < i + order]
    same(sorted(context.candidates(order)), sorted(want), 'windows of order %d of %r in %r' % (order, token, (before, after)))
    same(list(context.left_ngram), before + [token], 'left ngram')
    same(list(context.right_ngram), [token] + after, 'right ngram')
    same(sorted(context.candidates(order)), sorted(want), 'windows asked again')
    if want:
        obs.nontrivial(value)
    if len(want) == order:
        obs.label('full context')


def _values():
    word = st.sampled_from(['a', 'b', 'c', 'the', 'cat'])
    return st.tuples(word, st.lists(word, max_size=7), st.lists(word, max_size=7), st.integers(2, 9))


def _grid():
    return [('x', ['b%d' % i for i in range(b)], ['a%d' % i for i in range(a)], n)
            for b in range(7) for a in range(7) for n in range(2, 8)] + \
        [('x', ['b%d' % i for i in range(b)], ['a%d' % i for i in range(a)], n) for b in (9, 20, 50) for a in (0, 9, 30) for n in (2, 9, 10, 20, 35)]


SCALE = 4
CASES = [Case('windows', _values, windows, quick=600, examples=_grid)]
