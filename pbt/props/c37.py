"""The timer measures laps and the total"""
import importlib
import time
import timeit

from hypothesis import strategies as st
from pbt.core import Case, same

RULE = 'Histories of up to 12 laps and totals on 1 to 3 timers, with a stand-in for the clock that advances by 0 to 400,000 seconds between them. ' \
       'Non-trivial: at least two laps and a total with time between them.'

_NOW = [0.]
_NAMES = [(timeit, 'default_timer'), (time, 'perf_counter'), (time, 'monotonic'), (time, 'time')]


def _text(seconds):
    seconds = int(seconds)
    return '%d:%02d:%02d' % (seconds // 3600, seconds // 60 % 60, seconds % 60)


def history(value, obs):
    start, nb, steps = value
    real = [getattr(module, name) for module, name in _NAMES]
    got, want = [], []
    try:
        for module, name in _NAMES:
            setattr(module, name, lambda: _NOW[0])
        import scrappybara.utils.timer as module
        module = importlib.reload(module)
        _NOW[0] = start
        timers = [module.Timer() for _ in range(nb)]
        since, total = [start] * nb, start
        for advance, which, kind in steps:
            _NOW[0] += advance
            which %= nb
            if kind == 'lap':
                got.append(timers[which].lap_time)
                want.append(_text(_NOW[0] - since[which]))
            else:
                got.append(timers[which].total_time)
                want.append(_text(_NOW[0] - total))
            since[which] = _NOW[0]
    finally:
        for (module, name), function in zip(_NAMES, real):
            setattr(module, name, function)
    same(got, want, 'times of the steps %r' % (steps,))
    if sum(kind == 'lap' and advance > 1 for advance, _, kind in steps) > 1 and any(kind == 'total' for _, _, kind in steps):
        obs.nontrivial(value)


def _values():
    advance = st.one_of(st.integers(0, 90), st.integers(0, 9000), st.sampled_from([0, 59, 60, 61, 3599, 3600, 3601, 35999, 36000, 86400, 400000]))
    quarters = st.tuples(advance, st.sampled_from([0, .25, .5, .75])).map(sum)
    return st.tuples(quarters, st.integers(1, 3), st.lists(st.tuples(quarters, st.integers(0, 2), st.sampled_from(['lap', 'lap', 'total'])), min_size=1, max_size=12))


CASES = [Case('history', _values, history, quick=400)]
