"""Labelled sentences give back their labels"""
import json

from hypothesis import strategies as st
from pbt import trees
from pbt.core import Case, check, same
from pbt.props import c18
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.labelled_data import LabelledSentence
from scrappybara.syntax.tags import Tag

RULE = 'Labelled sentences of 1 to 14 tokens with any tree (crossing arcs or not, any root, any labels, tokens out of the tree), with warnings on any ' \
       'tokens: labels, leaves, valid tokens, all pairs of arcs and the warnings are compared with the tuples. Non-trivial: at least three arcs.'


def _crossing(arc_1, arc_2):
    """An end of one arc is strictly inside the other one, the other end strictly outside"""
    (a, b), (c, d) = sorted(arc_1), sorted(arc_2)
    return len({a, b, c, d}) == 4 and (a < c < b) != (a < d < b)


def labels(value, obs):
    sentences, asked = value
    made = []
    for k, (tuples, warnings) in enumerate(sentences):
        sent = LabelledSentence(k, tuples)
        for idx, comment, focus in warnings:
            sent.register_warning(idx, comment, list(focus))
        made.append((k, tuples, warnings, sent))
    for _ in range(asked):  # Asking doesn't change the answers
        for k, tuples, warnings, sent in made:
            _compare(k, tuples, warnings, sent, obs)


def _compare(k, tuples, warnings, sent, obs):
    same(sent.id, k, 'id')
    tokens = [t[0] for t in tuples]
    same(list(sent.tokens), tokens, 'tokens')
    same((len(sent), list(sent), [sent[i] for i in range(len(tuples))], sent[-1]), (len(tuples), tokens, tokens, tokens[-1]), 'length, loop and indexes of %r' % tuples)
    same((str(sent), repr(sent)), (' '.join(tokens),) * 2, 'text')
    same([Tag(t).name for t in sent.tags], [t[1] for t in tuples], 'tags of %r' % tuples)
    same([Dep(d).name for d in sent.deps], [t[2] for t in tuples], 'dependencies of %r' % tuples)
    arcs = {i: (t[3], i) for i, t in enumerate(tuples) if t[3] >= 0}
    root = [i for i, t in enumerate(tuples) if t[2] == 'ROOT'][0]
    same(sent.tree.root, root, 'root of %r' % tuples)
    same(trees.read_tree(sent.tree), sorted((int(Dep[tuples[c][2]]), p, c) for p, c in arcs.values()), 'tree of %r' % tuples)
    same(list(sent.valid_idxs), [i for i, t in enumerate(tuples) if t[2] != 'NODEP'], 'tokens in the tree of %r' % tuples)
    parents = {p for p, _ in arcs.values()}
    for i in range(len(tuples)):
        same(bool(sent.is_leaf(i)), i not in parents, 'leaf %d of %r' % (i, tuples))
    for i in sorted(arcs) + [root]:
        for j in sorted(arcs) + [root]:
            want = i != root and j != root and _crossing(arcs[i], arcs[j])
            same(bool(sent.have_crossing_arcs(i, j)), want, 'do the arcs to %d and %d cross in %r' % (i, j, tuples))
            if want:
                obs.label('crossing arcs')
    if warnings:
        want = {}
        for idx, comment, focus in warnings:
            want.setdefault(str(idx), []).append({'comment': comment, 'focusIdxs': list(focus)})
        check(isinstance(sent.warnings_json, str), 'warnings: %r', sent.warnings_json)
        same(json.loads(sent.warnings_json), want, 'warnings')
        check(all(c in sent.warnings_json for _, comment, _ in warnings for c in comment if ord(c) > 160), 'letters of the warnings in %s', sent.warnings_json)
    else:
        same(sent.warnings_json, None, 'warnings')
    if len(arcs) > 2:
        obs.nontrivial((tuples, warnings))


@st.composite
def _sentence(draw):
    nb = draw(st.integers(1, 14))
    inside = draw(st.lists(st.sampled_from([True, True, True, False]), min_size=nb, max_size=nb))
    if not any(inside):
        inside[0] = True
    size = sum(inside)
    if draw(st.booleans()):
        parents = draw(trees.projective(size)) if size > 1 else [-1]
    else:
        names = draw(st.permutations(range(size)))
        parents = [None] * size
        for i in range(size):
            parents[names[i]] = names[draw(st.integers(0, i - 1))] if i else -1
    numbers = st.lists(st.integers(0, 40), min_size=1, max_size=9)
    tuples = c18.tuples_of((inside, parents, draw(numbers), draw(numbers)))
    comment = st.text(alphabet='abé日 "\\\n', max_size=8)
    warnings = draw(st.lists(st.tuples(st.integers(0, nb - 1), comment, st.lists(st.integers(0, nb - 1), max_size=3)), max_size=4))
    return tuples, warnings


def _large():
    out = []
    for nb in (60, 90, 200):
        for step in (1, 3):
            tuples = [('w%d' % i, 'NOUN', 'NODEP' if i % step else 'CPL', -1 if i % step else max(i - step, 0)) for i in range(nb)]
            tuples[0] = ('w0', 'VERB', 'ROOT', -1)
            warnings = [(nb - 1, 'no %d' % k, list(range(k))) for k in range(8)] + [(i, 'here', [i]) for i in range(nb)]
            out.append(([(tuples, warnings if nb < 200 else [])], 1))
    return out


CASES = [Case('labels', lambda: st.tuples(st.lists(_sentence(), min_size=1, max_size=3), st.integers(1, 2)), labels, quick=500, examples=_large)]
