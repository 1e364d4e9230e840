"""Parallel processing gives what sequential processing gives"""
import threading
import time

from hypothesis import strategies as st
from pbt.core import Case, Violation, check, same
from scrappybara.utils.multithreading import run_multithreads

RULE = 'Lists of 0 to 60 items, 1 to 20 threads, and a schedule: each item has a delay, so that workers finish in any ' \
       'order, or the workers are released one by one in a generated order; some items raise (any kind of exception), some ' \
       'take seconds, other threads and calls are alive. Non-trivial: at least two ' \
       'items and two threads.'


class _Boom(Exception):
    pass


class _Base(BaseException):
    pass


_ERRORS = [_Boom, ValueError, KeyError, StopIteration, SystemExit, _Base, OSError, MemoryError, AssertionError]


def _run(items, process, nb):
    before = list(items)
    out = run_multithreads(items, process, nb)
    same(items, before, 'the input list was changed')
    check(isinstance(out, list), 'not a list: %r', out)
    return out


def sequential(value, obs):
    items, nb, delays = value
    calls = []

    def process(item):
        idx, payload = item
        calls.append(idx)
        delay = delays[idx % len(delays)]
        if delay:
            time.sleep(delay / 5000)
        return [idx, payload, 'done'] if idx % 3 else payload  # None too

    indexed = list(enumerate(items))
    out = _run(indexed, process, nb)
    same(out, [[i, x, 'done'] if i % 3 else x for i, x in indexed], 'results of %d items on %d threads' % (len(items), nb))
    same(sorted(calls), list(range(len(items))), 'items processed by %d threads' % nb)
    if len(items) > 1 and nb > 1:
        obs.nontrivial((len(items), nb, tuple(delays)))
    if nb > len(items):
        obs.label('more threads than items')
    if not items:
        obs.label('no item')


def errors(value, obs):
    items, nb, bad, kind = value
    error_type = _ERRORS[kind]
    bad = {b % len(items) for b in bad}

    def process(item):
        if item in bad:
            raise error_type(item)
        return item

    try:
        out = run_multithreads(list(range(len(items))), process, nb)
    except error_type as error:
        check(error.args[0] in bad, 'raised for an item that is fine: %r', error)
    else:
        raise Violation('%d of %d items failed on %d threads, but no error was raised: %r' % (len(bad), len(items), nb, out))
    obs.nontrivial((len(items), nb, tuple(sorted(bad)), error_type.__name__))


def interleaved(value, obs):
    """Forces the order in which the workers finish: each worker waits for its turn on its first item"""
    nb_items, nb, order = value
    turns = {}
    lock = threading.Lock()
    started = {}

    def process(item):
        me = threading.get_ident()
        with lock:
            if me not in started:
                started[me] = len(started)
                turns[started[me]] = threading.Event()
            rank = started[me]
        # A worker with a higher priority than mine goes first, if it ever starts (bounded wait: never a deadlock)
        deadline = time.time() + 0.002
        while time.time() < deadline:
            with lock:
                ahead = [r for r in started.values() if order[r % len(order)] < order[rank % len(order)]
                         and not turns[r].is_set()]
            if not ahead:
                break
            time.sleep(0.0002)
        turns[rank].set()
        return item * 3

    items = list(range(nb_items))
    same(_run(items, process, nb), [i * 3 for i in items], 'results of %d items on %d threads' % (nb_items, nb))
    if nb_items > 1 and nb > 1:
        obs.nontrivial(value)


def slow(value, obs):
    """Some items take seconds"""
    nb_items, nb, slow_idx, seconds = value

    def process(item):
        if item == slow_idx:
            time.sleep(seconds)
        return -item

    items = list(range(nb_items))
    same(_run(items, process, nb), [-i for i in items], 'results of %d items on %d threads when item %d takes %s s' % (nb_items, nb, slow_idx, seconds))
    obs.label('slow item')
    obs.nontrivial(value)


def crowded(value, obs):
    """Other threads are alive, some of them in the middle of the same function"""
    nb_others, nb_inside, nb_items, nb = value
    go = threading.Event()
    results = {}

    def inside(k):
        def process(item):
            go.wait(20)
            return item + k

        results[k] = run_multithreads(list(range(nb_items)), process, nb)

    others = [threading.Thread(target=go.wait, args=(20,), daemon=True) for _ in range(nb_others)]
    others += [threading.Thread(target=inside, args=(k,), daemon=True) for k in range(nb_inside)]
    for thread in others:
        thread.start()
    items = list(range(nb_items))
    try:
        same(_run(items, lambda i: i * 3, nb), [i * 3 for i in items], 'results of %d items on %d threads with %d threads around' % (nb_items, nb, nb_others))
    finally:
        go.set()
        for thread in others:
            thread.join(20)
    same(results, {k: [i + k for i in items] for k in range(nb_inside)}, 'results of calls at the same time')
    if nb_items > 1:
        obs.nontrivial(value)


def _items():
    return st.lists(st.one_of(st.integers(), st.none(), st.text(max_size=3), st.lists(st.integers(), max_size=2)), max_size=60)


def _sequential():
    return st.tuples(_items(), st.integers(1, 20), st.lists(st.sampled_from([0, 0, 0, 1, 3]), min_size=1, max_size=7))


CASES = [
    Case('sequential', _sequential, sequential, quick=250),
    Case('errors', lambda: st.tuples(st.lists(st.none(), min_size=1, max_size=40), st.integers(1, 12),
                                     st.lists(st.integers(0, 39), min_size=1, max_size=3), st.integers(0, len(_ERRORS) - 1)), errors, quick=300),
    Case('interleaved', lambda: st.tuples(st.integers(0, 24), st.integers(1, 8),
                                          st.lists(st.integers(0, 7), min_size=1, max_size=8)), interleaved, quick=40),
    Case('slow', None, slow, examples=[(4, 4, 1, 6), (6, 2, 0, 11), (3, 3, 2, 2), (5, 1, 3, 4), (9, 8, 8, 8), (2, 2, 0, 5), (7, 3, 3, 7), (8, 4, 6, 3)]),
    Case('crowded', lambda: st.tuples(st.sampled_from([0, 1, 7, 30, 70]), st.integers(0, 3), st.integers(0, 40), st.integers(1, 9)), crowded, quick=25),
    Case('grid', None, lambda v, obs: sequential((list(range(v[0])), v[1], [0]), obs),
         examples=[(n, t) for n in range(0, 26) for t in range(1, 27)]),
]
