"""One tag per token"""
from hypothesis import strategies as st
from pbt import env
from pbt.core import Case, check, same
from scrappybara.syntax.tagger import Tagger
from scrappybara.syntax.tags import Tag

RULE = 'Batches of 1 to 8 sentences (a few of up to 600) of 1 to 50 tokens with arbitrary predicted tags, some of which read the same, in several batches for one tagger. Non-trivial: at least two sentences of different lengths.'

NAMES = ['w%d' % i for i in range(60)]


def setup():
    env.use_private_data()
    env.ORACLE.vocabulary(NAMES + ['sent%d' % i for i in range(8)] + ['%s %s' % p for p in zip(NAMES, NAMES[1:])] +
                          ['sent%d w1' % i for i in range(8)])
    env.stub_models()


def tagging(value, obs):
    sents, joined = value
    inputs = [['sent%d' % (k % 4)] + NAMES[1:len(tags)] for k, tags in enumerate(sents)]
    for k, tokens in enumerate(inputs):
        where = joined[k % len(joined)]
        if where < len(tokens) - 1:  # A token with a blank inside
            tokens[where:where + 2] = [' '.join(tokens[where:where + 2])]
    plan = {}
    for tokens, tags in zip(inputs, sents):
        plan.setdefault(tuple(tokens), tags[:len(tokens)])
    env.ORACLE.tags = lambda tokens: plan[tuple(tokens)]
    tagger = Tagger()
    for batch in (inputs, inputs[1:], inputs[::-1]):
        if not batch:
            continue
        got = tagger.tag([list(tokens) for tokens in batch])
        check(isinstance(got, list), 'not a list: %r', got)
        same([[Tag(t).value for t in tags] for tags in got], [list(plan[tuple(tokens)]) for tokens in batch], 'tags of %r' % (batch,))
    value = sents
    if len({len(t) for t in value}) > 1:
        obs.nontrivial(value)


def _values():
    tags = st.integers(1, len(list(Tag)) - 1)
    tags = st.one_of(st.lists(tags, min_size=1, max_size=5), st.lists(tags, min_size=1, max_size=9), st.lists(tags, min_size=40, max_size=50))
    return st.tuples(st.lists(tags, min_size=1, max_size=8), st.lists(st.sampled_from([99, 99, 0, 1, 2, 3]), min_size=1, max_size=8))


def _large(nb):
    return [[(k * 7 + j * 3 + k // 4) % (len(list(Tag)) - 1) + 1 for j in range(k % 31 + 1)] for k in range(nb)], [99, 99, 1, 99]


SCALE = 3
CASES = [Case('tagging', _values, tagging, quick=300, examples=[([[3] * n], [99]) for n in range(1, 51)] + [_large(nb) for nb in (33, 65, 130, 260, 600)])]
