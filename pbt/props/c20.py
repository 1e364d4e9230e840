"""The dependency tree answers all queries consistently"""
from hypothesis import strategies as st
from pbt import trees
from pbt.core import Case, check, same
from scrappybara.utils.tree import Tree

RULE = 'Histories of attaching children (each child once, any order, any labels, up to 14 nodes, deep chains up to 60), with all queries ' \
       'compared to a plain list of arcs after every few steps. Non-trivial: at least three arcs and two labels.'

_LABELS = ['A', 'B', 'C']


def _compare(tree, root, arcs, nodes):
    parent = {c: (label, p) for label, p, c in arcs}
    same(tree.root, root, 'root')
    same(sorted(map(tuple, tree)), sorted(arcs), 'arcs')
    same(sorted(map(tuple, tree)), sorted(arcs), 'arcs, iterated again')
    if len(arcs) < 20:
        pairs = [(tuple(a), tuple(b)) for a in tree for b in tree]
        same(sorted(pairs), sorted((a, b) for a in arcs for b in arcs), 'pairs of arcs of %r, by two nested loops' % (arcs,))
    same(len(tree), 1 + len(arcs), 'number of nodes')
    got_nodes = list(tree.nodes)
    same(sorted(got_nodes), sorted([root] + [c for _, _, c in arcs]), 'nodes')
    for node in nodes:
        same(tree.parent(node), parent.get(node), 'parent of %r in %r' % (node, arcs))
        children = [(label, c) for label, p, c in arcs if p == node]
        same(sorted(tree.children(node)), sorted(children), 'children of %r in %r' % (node, arcs))
        same(tree.has_node(node), node in parent or bool(children), 'presence of %r in %r' % (node, arcs))
        if node in parent:
            want = [(label, c) for label, p, c in arcs if p == parent[node][1] and c != node]
        else:
            want = []
        same(sorted(tree.siblings(node)), sorted(want), 'siblings of %r in %r' % (node, arcs))
        for label in _LABELS:
            via = [c for la, c in children if la == label]
            same(list(tree.children_via(node, label)), via, 'children of %r via %s in %r' % (node, label, arcs))
            same(tree.child_via(node, label), via[0] if via else None, 'first child of %r via %s in %r' % (node, label, arcs))
            same(bool(tree.has_child_via(node, label)), bool(via), 'child of %r via %s' % (node, label))
            same(bool(tree.has_parent_via(node, label)), node in parent and parent[node][0] == label, 'parent of %r via %s' % (node, label))
            up = []
            current = node
            while current in parent and parent[current][0] == label:
                current = parent[current][1]
                up.append(current)
            same(list(tree.ancestors_via(node, label)), up[::-1], 'ancestors of %r via %s in %r' % (node, label, arcs))
            down = []

            def descend(n):
                for la, p, c in arcs:
                    if p == n and la == label:
                        down.append(c)
                        descend(c)

            descend(node)
            same(sorted(tree.descendants_via(node, label)), sorted(down), 'descendants of %r via %s in %r' % (node, label, arcs))
        for labels in ({'A'}, {'A', 'B'}, {'B', 'C'}, set(), {'A', 'B', 'C'}):
            same(bool(tree.has_child_via_set(node, labels)), any(la in labels for la, _ in children), 'child of %r via %r' % (node, labels))
            same(bool(tree.has_parent_via_set(node, labels)), node in parent and parent[node][0] in labels,
                 'parent of %r via %r' % (node, labels))


def history(value, obs):
    parents, labels, order, every, kind = value
    name = [lambda i: i, lambda i: 'node %d' % i, lambda i: (i, i + 1), lambda i: 1000 + i][kind]  # Equal, but not always the same object
    root = name(parents.index(-1))
    tree = Tree(root)
    other = Tree('z')
    arcs = []
    nodes = [name(i) for i in range(len(parents) + 1)]
    for step, child in enumerate(order):
        if parents[child] == -1:
            continue
        label = labels[child % len(labels)]
        tree.register_child(label, name(parents[child]), name(child))
        arcs.append((label, name(parents[child]), name(child)))
        other.register_child(_LABELS[step % 3], 'z' if step < 2 else step - 1, step + 1)  # Another tree with the same names
        if step % every == 0:
            _compare(tree, root, arcs, nodes)
    _compare(tree, root, arcs, nodes)
    if len(arcs) > 2 and len({a[0] for a in arcs}) > 1:
        obs.nontrivial(value)


@st.composite
def _values(draw):
    nb = draw(st.integers(1, 14))
    parents = [-1] + [draw(st.integers(0, i - 1)) for i in range(1, nb)]
    names = draw(st.permutations(range(nb)))  # The root is not always the first node
    renamed = [None] * nb
    for i, p in enumerate(parents):
        renamed[names[i]] = names[p] if p >= 0 else -1
    labels = draw(st.lists(st.sampled_from(_LABELS), min_size=1, max_size=7))
    return renamed, labels, draw(st.permutations(range(nb))), draw(st.integers(1, 6)), draw(st.integers(0, 3))


SCALE = 2
CASES = [
    Case('history', _values, history, quick=600,
         examples=[([-1] + list(range(60)), ['A'], list(range(61)), 100, 0), ([-1] + [0] * 60, ['A', 'B'], list(range(61)), 100, 0)]),
]
