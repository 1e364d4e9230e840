"""Parsing always gives well-formed trees"""
from hypothesis import strategies as st
from pbt import env, trees
from pbt.core import Case, check, same
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.parser import Parser
from scrappybara.syntax.tags import Tag

RULE = 'Batches of 0 to 6 sentences (a few of 390) of 1 to 50 tokens with arbitrary predicted tags, dependencies and transitions (any code, for any state), 1 to ' \
       '4 cores and batches of 1 to 7. Non-trivial: at least two arcs in a sentence.'

NAMES = ['w%d' % i for i in range(60)]
NB_TAGS, NB_DEPS = len(list(Tag)), len(list(Dep))


def setup():
    env.use_private_data()
    env.ORACLE.vocabulary(NAMES + ['sent%d' % i for i in range(400)])
    env.stub_models()


def totality(value, obs):
    sents, nb_cores, batch_size = value
    inputs = [['sent%d' % k] + NAMES[1:len(sent[0])] for k, sent in enumerate(sents)]

    def predicted(tokens):
        return sents[int(tokens[0][4:])]

    def policy(tokens, i, j):
        choices = predicted(tokens)[2]
        if choices[0] > 3:  # Shift up to the last token, then always the same
            return choices[0] - 4 if j == len(tokens) - 1 else 3
        return choices[(i * 7 + j * 3) % len(choices)]

    env.ORACLE.tags = lambda tokens: predicted(tokens)[0]
    env.ORACLE.deps = lambda tokens, tags: predicted(tokens)[1]
    env.ORACLE.trans = lambda tokens, tags, deps, i, j: policy(tokens, i, j)
    all_tags, all_trees = Parser(nb_cores, batch_size)(inputs)
    same((len(all_tags), len(all_trees)), (len(sents), len(sents)), 'number of parses')
    for tokens, sent, tags, tree in zip(inputs, sents, all_tags, all_trees):
        same([int(t) for t in tags], list(sent[0]), 'tags of a sentence of %d tokens' % len(tokens))
        deps = sent[1]
        valid = [i for i, d in enumerate(deps) if d != Dep.NODEP]
        arcs = trees.arc_eager(valid, lambda i, j: policy(tokens, i, j))
        if not arcs:
            check(tree is None, 'a tree without any arc')
            continue
        check(tree is not None, 'no tree for %r', sent)
        got = trees.read_tree(tree)
        # Well-formed
        parent = {}
        for label, p, c in got:
            check(c not in parent, 'token %d has two parents in %r', c, got)
            parent[c] = p
            check(0 <= p < len(tokens) and 0 <= c < len(tokens) and deps[p] != Dep.NODEP and deps[c] != Dep.NODEP,
                  'arc %r out of the tree, dependencies %r', (label, p, c), deps)
        for node in parent:
            seen = set()
            while node in parent:
                check(node not in seen, 'cycle in %r', got)
                seen.add(node)
                node = parent[node]
        for node in range(len(tokens)):
            same(sorted(int(c) for _, c in tree.children(node)), sorted(c for c, p in parent.items() if p == node), 'children of %d' % node)
            same(tree.parent(node) is None, node not in parent, 'parent of %d' % node)
        # Exactly what was predicted
        want = sorted((int(Dep.SPLIT) if deps[c] == Dep.ROOT else deps[c], p, c) for p, c in arcs)
        same(got, want, 'arcs for %r' % (sent,))
        same(tree.root, trees.root_of(arcs), 'root for %r' % (sent,))
        if len(got) > 1:
            obs.nontrivial(sent)
        if len({p for p in parent.values()} - set(parent)) > 1:
            obs.label('forest')


@st.composite
def _sentence(draw, max_tokens):
    nb = draw(st.integers(1, max_tokens))
    tags = draw(st.lists(st.integers(0, NB_TAGS - 1), min_size=nb, max_size=nb))
    dep = st.one_of(st.integers(0, NB_DEPS - 1), st.sampled_from([1, 2, 24, 18, 3, 10]))
    deps = draw(st.lists(dep, min_size=nb, max_size=nb))
    trans = draw(st.lists(st.integers(0, 3), min_size=1, max_size=17))
    return tags, deps, trans


def _many(nb, nb_cores, batch_size):
    sents = []
    for i in range(nb):
        size = 2 + i % 5
        sents.append(([(i + k) % NB_TAGS for k in range(size)], [(i * 3 + k * 5) % NB_DEPS for k in range(size)], [i % 4, 1, i // 4 % 4, 0, 2]))
    return sents, nb_cores, batch_size


SCALE = 2
CASES = [
    Case('small', lambda: st.tuples(st.lists(_sentence(8), max_size=6), st.integers(1, 4), st.integers(1, 7)), totality, quick=700,
         examples=[_many(20, 1, 20), _many(130, 2, 128), _many(130, 2, 1000), _many(390, 3, 50)]),
    Case('large', lambda: st.tuples(st.lists(_sentence(50), min_size=1, max_size=3), st.integers(1, 4), st.integers(1, 4)), totality, quick=150,
         examples=[([([5] * nb, [3] * nb, [4 + last])], 1, 1) for nb in (30, 50) for last in (0, 1, 2)]),
]
