"""Dividing and batching lists"""
from hypothesis import strategies as st
from pbt.core import Case, check, same
from scrappybara.utils.mutables import divide_list, make_batches

RULE = 'Every (length, parts) with length up to 90 and parts up to 110 (exhaustive), then lists up to 3,000 items and parts up ' \
       'to 3,100, a few of millions of items, lists of equal or unhashable items; batches likewise. Non-trivial: at least two parts and two items.'


def _lists(parts, items, what):
    check(isinstance(parts, list) and all(isinstance(p, list) for p in parts), '%s: not a list of lists: %r', what, parts)
    same([i for p in parts for i in p], items, '%s: items in order' % what)
    return parts


def divide(value, obs):
    items, nb = value
    items = list(range(items)) if isinstance(items, int) else items
    before = list(items)
    what = '%d items divided in %d' % (len(items), nb)
    parts = _lists(divide_list(items, nb), before, what)
    same(items, before, '%s: input changed' % what)
    same(len(parts), min(nb, len(items)), '%s: number of parts' % what)
    if parts:
        sizes = [len(p) for p in parts]
        check(max(sizes) - min(sizes) <= 1, '%s: unbalanced sizes %r', what, sizes)
    if len(items) > 1 and nb > 1:
        obs.nontrivial(('divide', len(items), nb))


def batch(value, obs):
    items, size = value
    items = list(range(items)) if isinstance(items, int) else items
    before = list(items)
    what = '%d items by batches of %d' % (len(items), size)
    parts = _lists(make_batches(items, size), before, what)
    same(items, before, '%s: input changed' % what)
    check(all(len(p) == size for p in parts[:-1]), '%s: sizes %r', what, [len(p) for p in parts])
    check(not parts or 0 < len(parts[-1]) <= size, '%s: last batch %r', what, parts[-1:])
    if len(items) > 1 and len(parts) > 1:
        obs.nontrivial(('batch', len(items), size))


def huge(value, obs):
    """Lists of millions of items, whose items are all the same but a few"""
    nb, parts = value
    items = [0] * nb
    marks = {0: 'first', nb // 2: 'middle', nb - 2: 'last but one', nb - 1: 'last'}
    for idx, mark in marks.items():
        items[idx] = mark
    for what, found in (('%d items divided in %d' % value, divide_list(items, parts)), ('%d items in batches of %d' % (nb, nb // parts + 1), make_batches(items, nb // parts + 1))):
        sizes = [len(p) for p in found]
        same(sum(sizes), nb, '%s: number of items' % what)
        idx = 0
        for part in found:
            for i, mark in marks.items():
                if idx <= i < idx + len(part):
                    same(part[i - idx], mark, '%s: item %d' % (what, i))
            idx += len(part)
        same(len(found), parts, '%s: number of parts' % what)
    check(max(len(p) for p in divide_list(items, parts)) - min(len(p) for p in divide_list(items, parts)) <= 1, 'unbalanced')
    obs.nontrivial(value)


def _grid():
    return [(n, p) for n in range(0, 91) for p in range(1, 111)]


def _random():
    return st.one_of(st.tuples(st.integers(0, 3000), st.integers(1, 3100)), st.tuples(st.integers(0, 3000), st.integers(1, 16)),
                     st.tuples(st.lists(st.sampled_from([0, [], 'a', None]), max_size=30), st.integers(1, 40)))


SCALE = 2
CASES = [
    Case('divide grid', None, divide, examples=_grid),
    Case('batch grid', None, batch, examples=_grid),
    Case('huge', None, huge, examples=[(2 ** 24 + 3, 3), (2 ** 24 + 1, 1), (3000001, 7), (2000003, 999)]),
    Case('divide', _random, divide, quick=800),
    Case('batch', _random, batch, quick=800),
]
