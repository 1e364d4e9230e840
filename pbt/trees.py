"""Generators of dependency trees, and a reference arc-eager parser"""
from hypothesis import strategies as st

LEFT, RIGHT, REDUCE, SHIFT = 0, 1, 2, 3


@st.composite
def projective(draw, nb):
    """Returns the list of parents (-1 for the root) of a projective tree of nb nodes"""
    parents = [-1] * nb

    def grow(start, end, parent):
        root = draw(st.integers(start, end - 1))
        parents[root] = parent
        for lo, hi in ((start, root), (root + 1, end)):
            while lo < hi:
                cut = draw(st.integers(lo + 1, hi))
                grow(lo, cut, root)
                lo = cut

    if nb:
        grow(0, nb, -1)
    return parents


def is_projective(parents):
    arcs = [(min(c, p), max(c, p)) for c, p in enumerate(parents) if p >= 0]
    return not any(a < c < b < d for a, b in arcs for c, d in arcs)


def arc_eager(valid, policy):
    """Valid: indexes of the tokens to parse. Policy: (stack top, buffer first) => transition.
    Returns list of arcs (parent, child). A token has only one parent.
    """
    if not valid:
        return []
    stack, buffer, arcs, headed = [valid[0]], list(valid[1:]), [], set()
    while buffer:
        if not stack:
            stack.append(buffer.pop(0))
            continue
        top, first = stack[-1], buffer[0]
        trans = policy(top, first)
        if trans == LEFT:
            if top not in headed:
                arcs.append((first, top))
                headed.add(top)
            stack.pop()
        elif trans == RIGHT:
            arcs.append((top, first))
            headed.add(first)
            stack.append(buffer.pop(0))
        elif trans == REDUCE:
            stack.pop()
        else:
            stack.append(buffer.pop(0))
    return arcs


def root_of(arcs):
    """First token with children and no parent, or None"""
    children = {c for _, c in arcs}
    roots = sorted(p for p, _ in arcs if p not in children)
    return roots[0] if roots else None


def read_tree(tree):
    """Set of (label, parent, child) of a library tree, through its iterator"""
    return sorted((int(label), int(parent), int(child)) for label, parent, child in tree)
