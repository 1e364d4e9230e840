"""Multiword names, particles and functional words are grouped as labelled"""
from pbt import semgen, semref
from pbt.core import Case, check, same
from pbt.tape import taped
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.nodifier import Nodifier
from scrappybara.syntax.tags import Tag
from scrappybara.utils.tree import Tree

RULE = 'Labelled trees of 1 to 24 words (grammatical ones, and random ones with any labels), with names of up to five words, particles before and after, ' \
       'functional words, and words out of the tree; arcs are attached in a random order. Non-trivial: a name, a particle or a functional word.'


def _describe(units):
    return sorted((u.idx, u.text, u.tag, tuple(u.particles), u.infinitive) for u in units)


def _describe_nodes(nodes):
    return sorted((n.idx, n.original, n.tag.name, tuple(n.particles), bool(n.is_inf_to)) for n in nodes)


def grouping(value, obs):
    tuples, places, order = value
    tuples = semgen.insert(tuples, places)
    root = [i for i, t in enumerate(tuples) if t[2] == 'ROOT'][0]
    tree = Tree(root)
    arcs = [(Dep[d], p, c) for c, (_, _, d, p) in enumerate(tuples) if p >= 0]
    for k in order:
        if arcs:
            arcs.append(arcs.pop(k % len(arcs)))
    for arc in arcs:
        tree.register_child(*arc)
    tokens = [t[0] for t in tuples]
    node_dict, node_tree = Nodifier()(list(tokens), [Tag[t[1]] for t in tuples], tree)
    units = semref.group(tuples)
    meaningful = [u for u in units.values() if not u.functional]
    same(_describe_nodes(node_dict.values()), _describe(meaningful), 'units of %r' % (tuples,))
    for idx, node in node_dict.items():
        same(idx, node.idx, 'position of the unit %r of %r' % (node.original, tuples))
    by_idx = {u.idx: u for u in units.values()}
    same(node_tree.root.idx, units[root].idx, 'root unit of %r' % (tuples,))
    same(len(node_tree), len([u for u in units.values() if u.parent is not None]) + 1, 'number of units in the tree of %r' % (tuples,))
    for node in node_dict.values():
        unit = by_idx[node.idx]
        found = node_tree.parent(node)
        got = None if found is None else (found[0].name, found[1].idx, found[1].original)
        want = None if unit.parent is None else (unit.parent[0], unit.parent[1].idx, unit.parent[1].text)
        same(got, want, 'parent of the unit %r of %r' % (unit, tuples))
        if found is not None and not unit.parent[1].functional:
            check(node_dict.get(found[1].idx) is found[1], 'the parent of %r in the tree is not the unit of %r', unit, tuples)
        same(sorted((d.name, c.idx, c.original) for d, c in node_tree.children(node)), sorted((d, c.idx, c.text) for d, c in unit.children),
             'dependents of the unit %r of %r' % (unit, tuples))
    deps = {t[2] for t in tuples}
    for name in ('FLAT', 'PART', 'NODEP'):
        if name in deps:
            obs.label(name)
    if deps & set(semref.FUNCTIONAL + ('FLAT',)):
        obs.nontrivial(value)


def particles(value, obs):
    """Particles of any tree, also with dependents of their own: attached to their word in order, never a unit"""
    tuples, places = value
    tuples = semgen.insert(tuples, places)
    root = [i for i, t in enumerate(tuples) if t[2] == 'ROOT'][0]
    tree = Tree(root)
    below = {}
    for c, (_, _, d, p) in enumerate(tuples):
        if p >= 0:
            tree.register_child(Dep[d], p, c)
            below.setdefault(p, {}).setdefault(d, []).append(c)
    node_dict, _ = Nodifier()([t[0] for t in tuples], [Tag[t[1]] for t in tuples], tree)
    for i, (word, _, dep, _) in enumerate(tuples):
        found = below.get(i, {}).get('PART', [])
        if not found or dep in semref.FUNCTIONAL + ('FLAT',) or 'FLAT' in below[i]:
            continue
        check(i in node_dict, 'no unit for %r (%d) of %r', word, i, tuples)
        node = node_dict[i]
        same((node.original, list(node.particles), bool(node.is_inf_to)),
             (word, [tuples[p][0].lower() for p in found if p > i], any(p < i and tuples[p][0].lower() == 'to' for p in found)),
             'particles of %r (%d) of %r' % (word, i, tuples))
        for p in found:
            if not {'PART', 'FLAT'} & set(below.get(p, {})):
                check(p not in node_dict, 'the particle %r (%d) is a unit in %r', tuples[p][0], p, tuples)
        obs.nontrivial(value)
        if any(p in below for p in found):
            obs.label('particle with dependents')


def no_tree(value, obs):
    tokens, tags = value
    node_dict, node_tree = Nodifier()(list(tokens), [Tag[t] for t in tags], None)
    same((dict(node_dict), node_tree), ({}, None), 'units of a sentence without tree')
    obs.label('without tree')


def _names(tape):
    """Names, particles and functional words mostly"""
    node = semgen._Word(tape.pick(['Carry', 'bob', 'dog']), tape.pick(['VERB', 'NOUN', 'ADJ']), 'ROOT')

    def fill(parent, depth):
        for _ in range(tape.below(4)):
            dep = tape.pick(['FLAT', 'PART', 'PART', 'ART', 'NEG', 'MARK', 'CPL', 'SUBJ', 'OBJ', 'AUX', 'MODAL', 'CMARK', 'IMARK', 'INTJ', 'AND',
                             'FLAT', 'CALLEE', 'SPLIT', 'ORPHAN', 'EXIST', 'IOBJ', 'IPROP', 'PROP', 'OR'])
            word = semgen._Word(tape.pick(['to', 'To', 'up', 'New', 'York', 'City', 'the', 'not', 'TO', 'a', 'Of']),
                                tape.pick(['NOUN', 'PROPN', 'FRAG', 'VERB', 'PREP', 'ADV']), dep)
            last = word
            if dep == 'FLAT' or tape.chance(25):
                for _ in range(tape.below(4)):
                    new = semgen._Word(tape.pick(['New', 'York', 'City', 'to']), tape.pick(['PROPN', 'NOUN', 'ADV']), 'FLAT')
                    (last.after if tape.below(5) else last.before).append(new)
                    last = new
            elif depth < 3:
                fill(word, depth + 1)
            (parent.after if tape.below(3) else parent.before).append(word)

    fill(node, 0)
    return semref.tidy(semgen._flatten(node))


def _with(make):
    return lambda tape: (make(tape), semgen.punctuation(tape), [tape.below(30) for _ in range(tape.below(12))])


def _many():
    verb = ('carry', 'VERB', 'ROOT', -1)
    out = []
    for nb in range(1, 25):
        out.append(([('New', 'PROPN', 'ROOT', -1)] + [('York%d' % i, 'PROPN', 'FLAT', i) for i in range(nb)], [], []))
        out.append(([verb] + [('up%d' % i, 'FRAG', 'PART', 0) for i in range(nb)], [], []))
        out.append(([verb] + [(w, t, d, 0) for _ in range(nb) for w, t, d in (('not', 'ADV', 'NEG'), ('dog', 'NOUN', 'OBJ'))], [], []))
    return out


SCALE = 5
CASES = [
    Case('names', lambda: taped(_with(_names), 30, 140), grouping, quick=1500),
    Case('grammar', lambda: taped(_with(lambda t: semgen.grammatical(t, 24)), 80, 200), grouping, quick=1000),
    Case('shaken', lambda: taped(_with(lambda t: semgen.shaken(t, semgen.grammatical(t, 20), 5)), 80, 200), grouping, quick=700),
    Case('odd', lambda: taped(_with(lambda t: semgen.labelled_tree(t, 14, 30)), 60, 160), grouping, quick=1000),
    Case('particles', lambda: taped(lambda t: (semgen.labelled_tree(t, 14, 50, is_tidy=False), semgen.punctuation(t)), 60, 160), particles, quick=700),
    Case('chains', lambda: taped(_with(lambda t: semref.tidy(
        [('New', 'PROPN', 'ROOT', -1)] + [(t.pick(['York', 'City', 'Bank']), t.pick(['PROPN', 'NOUN']), 'FLAT', i) for i in range(t.below(6))])),
        8, 30), grouping, quick=100, examples=_many),
    Case('no tree', lambda: taped(lambda t: ([t.pick(['a', 'b'])] * t.below(4), ['NOUN'] * 3), 2, 6), no_tree, quick=5),
]
