"""The transitions taught from a labelled sentence rebuild its tree"""
from hypothesis import strategies as st
from pbt import env, trees
from pbt.core import Case, check, same
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.labelled_data import LabelledSentence
from scrappybara.syntax.parser import Parser
from scrappybara.syntax.tags import Tag

RULE = 'Labelled sentences with a random projective tree of 2 to 50 tokens (any root position, any labels, tokens out of the tree anywhere); the ' \
       'transitions derived from the labels are replayed through the parser, in batches of 1 to 4 sentences. Non-trivial: at least ' \
       'three arcs.'

NAMES = ['w%d' % i for i in range(60)]
TREE_DEPS = [d.name for d in Dep if d not in (Dep.PAD, Dep.NODEP, Dep.ROOT)]
TAGS = [t.name for t in Tag if t != Tag.PAD]


def setup():
    env.use_private_data()
    env.ORACLE.vocabulary(NAMES + ['sent%d' % i for i in range(8)])
    env.stub_models()


def tuples_of(sent):
    """(token, tag, dep, parent) of a generated sentence: list of (is in tree, parent rank, tag idx, dep idx)"""
    inside, parents, tags, deps = sent
    idxs = [i for i, f in enumerate(inside) if f]
    out = []
    for i, flag in enumerate(inside):
        tag = TAGS[tags[i % len(tags)] % len(TAGS)]
        if not flag:
            out.append((NAMES[i], tag, 'NODEP', -1))
            continue
        parent = parents[idxs.index(i)]
        if parent < 0:
            out.append((NAMES[i], tag, 'ROOT', -1))
        else:
            out.append((NAMES[i], tag, TREE_DEPS[deps[i % len(deps)] % len(TREE_DEPS)], idxs[parent]))
    return out


def round_trip(value, obs):
    sents, nb_cores, batch_size = value
    labelled = []
    plans = {}
    for k, sent in enumerate(sents):
        tuples = tuples_of(sent)
        tuples[0] = ('sent%d' % k,) + tuples[0][1:]
        ls = LabelledSentence(k, tuples)
        labelled.append((tuples, ls))
        plan = {}
        steps = list(ls.transitions)
        same([tuple(s) for s in ls.transitions], [tuple(s) for s in steps], 'transitions of %r, asked again' % tuples)
        for step in steps:
            idx_1, idx_2, trans = step
            check((idx_1, idx_2) not in plan, 'the transitions of %r decide twice on %r', tuples, (idx_1, idx_2))
            plan[(idx_1, idx_2)] = int(trans)
        plans['sent%d' % k] = plan
    by_first = {t[0][0]: t for t, _ in labelled}

    def trans(tokens, tags, deps, i, j):
        plan = plans[tokens[0]]
        check((i, j) in plan, 'the parser gets to a state %r that the labels of %r never taught', (i, j), by_first[tokens[0]])
        return plan[(i, j)]

    env.ORACLE.tags = lambda tokens: [Tag[t[1]].value for t in by_first[tokens[0]]]
    env.ORACLE.deps = lambda tokens, tags: [Dep[t[2]].value for t in by_first[tokens[0]]]
    env.ORACLE.trans = trans
    all_tags, all_trees = Parser(nb_cores, batch_size)([[t[0] for t in tuples] for tuples, _ in labelled])
    same((len(all_tags), len(all_trees)), (len(labelled), len(labelled)), 'number of parses')
    for (tuples, ls), tags, tree in zip(labelled, all_tags, all_trees):
        same([Tag(t).name for t in tags], [t[1] for t in tuples], 'tags of %r' % tuples)
        want = sorted((int(Dep[d]), p, c) for c, (_, _, d, p) in enumerate(tuples) if p >= 0)
        root = [i for i, t in enumerate(tuples) if t[2] == 'ROOT'][0]
        same(trees.read_tree(ls.tree), want, 'tree of the labelled sentence %r' % tuples)
        same(ls.tree.root, root, 'root of the labelled sentence %r' % tuples)
        if not want:
            continue
        check(tree is not None, 'no tree for %r', tuples)
        same(trees.read_tree(tree), want, 'arcs of %r' % tuples)
        same(tree.root, root, 'root of %r' % tuples)
        if len(want) > 2:
            obs.nontrivial(tuples)
            obs.label('arcs: %d+' % (len(want) // 10 * 10))


@st.composite
def _sentence(draw, max_tokens):
    nb = draw(st.integers(2, max_tokens))
    inside = draw(st.lists(st.sampled_from([True, True, True, False]), min_size=nb, max_size=nb))
    if sum(inside) < 2:
        inside = [True] * nb
    parents = draw(trees.projective(sum(inside)))
    numbers = st.lists(st.integers(0, 40), min_size=1, max_size=9)
    return inside, parents, draw(numbers), draw(numbers)


def _exhaustive():
    """All projective trees of up to 5 nodes"""
    out = []
    for nb in range(2, 6):
        for code in range(nb ** nb):
            parents = [code // nb ** i % nb for i in range(nb)]
            roots = [i for i, p in enumerate(parents) if p == i]
            if len(roots) != 1:
                continue
            parents[roots[0]] = -1
            if _acyclic(parents) and _fully_projective(parents):
                out.append(([([True] * nb, parents, [7, 13, 0], [3, 8, 1, 15])], 1, 1))
    return out


def _acyclic(parents):
    for i in range(len(parents)):
        seen = set()
        while i >= 0:
            if i in seen:
                return False
            seen.add(i)
            i = parents[i]
    return True


def _fully_projective(parents):
    """No crossing arcs, and the root is not covered by an arc"""
    root = parents.index(-1)
    return trees.is_projective(parents) and not any(
        p >= 0 and min(c, p) < root < max(c, p) for c, p in enumerate(parents))


SCALE = 2
CASES = [
    Case('exhaustive', None, round_trip, examples=_exhaustive),
    Case('small', lambda: st.tuples(st.lists(_sentence(9), min_size=1, max_size=4), st.integers(1, 3), st.integers(1, 4)), round_trip, quick=600),
    Case('large', lambda: st.tuples(st.lists(_sentence(50), min_size=1, max_size=2), st.integers(1, 3), st.integers(1, 3)), round_trip, quick=120,
         examples=[([([True] * nb, parents, [1], [1])], 1, 1) for nb in (30, 50)
                   for parents in ([nb - 1] * (nb - 1) + [-1], [-1] + [0] * (nb - 1), [-1] + list(range(nb - 1)), list(range(1, nb)) + [-1])]),
]
