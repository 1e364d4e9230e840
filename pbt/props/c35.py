"""The model wrappers answer the most likely code of each position"""
import types
import warnings

import numpy as np
from hypothesis import strategies as st
from pbt import env
from pbt.core import Case, Violation, check, same
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag
from scrappybara.syntax.transitions import Trans

RULE = 'Batches of 1 to 6 encoded sentences. Answers: the network is replaced by generated probabilities, the highest of which can be low or close to the second one, and what it is given and what the wrapper makes ' \
       'of its output are compared with the arguments and with the highest probabilities; same for learning, which must give the inputs as prediction does. Networks: the real networks with random weights ' \
       'answer each sentence alone, in batches in any order, and after saving and loading. Non-trivial: at least two sentences with different answers.'

SENT, WORD, DIM, CHARS = 52, 22, 100, 103
KINDS = {'tags': (['chars', 'words'], len(Tag)), 'deps': (['tags', 'chars', 'words'], len(Dep)),
         'trans': (['tags', 'deps', 'chars', 'words', 'mask_1', 'mask_2'], len(Trans))}
_STATE = {}


def setup():
    """Adapts the Keras version of this environment to the functions used by the code"""
    import os
    os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
    warnings.simplefilter('ignore')
    import tensorflow as tf
    keras = tf.keras
    keras.utils.set_random_seed(1)
    real_mask, save, load = tf.boolean_mask, keras.Model.save_weights, keras.Model.load_weights

    def boolean_mask(tensor, mask, axis=None, name='boolean_mask'):
        if isinstance(tensor, keras.KerasTensor):
            return keras.layers.Lambda(lambda x: real_mask(x[0], x[1], axis=axis), output_shape=tuple(tensor.shape[2:]))([tensor, mask])
        return real_mask(tensor, mask, axis=axis, name=name)

    def suffixed(path):
        return str(path) if str(path).endswith('.weights.h5') else str(path) + '.weights.h5'

    tf.boolean_mask = boolean_mask
    keras.Model.save_weights = lambda self, path, *a, **k: save(self, suffixed(path), *a, **k)
    keras.Model.load_weights = lambda self, path, *a, **k: load(self, suffixed(path), *a, **k)
    env.use_private_data()
    _STATE['keras'] = keras
    _STATE['predict'], _STATE['fit'] = keras.Model.predict, keras.Model.fit
    keras.Model.predict = lambda self, *a, **k: _STATE['predict'](self, *a, **dict(k, verbose=0))
    _STATE['quiet_predict'] = keras.Model.predict


def _make(kind):
    from scrappybara.syntax import models
    cls = {'tags': models.PTagsModel, 'deps': models.PDepsModel, 'trans': models.TransModel}[kind]
    return cls(CHARS)


def _model(kind):
    if kind not in _STATE:
        _STATE[kind] = _make(kind)
    return _STATE[kind]


def _sentence(seed):
    """Encoded sentence"""
    rand = np.random.RandomState(seed)
    n = rand.randint(1, 51)
    tags, deps = np.zeros(SENT, dtype=np.int32), np.zeros(SENT, dtype=np.int32)
    chars, words = np.zeros((SENT, WORD), dtype=np.int32), np.zeros((SENT, DIM), dtype=np.float32)
    tags[1:n + 1] = rand.randint(1, len(Tag), n)
    deps[1:n + 1] = rand.randint(1, len(Dep), n)
    for i in range(n + 2):
        size = rand.randint(3, WORD + 1)
        chars[i, :size] = rand.randint(1, CHARS - 1, size)
        words[i] = rand.rand(DIM) * 4 - 2
    masks = []
    for _ in range(2):
        masks.append([False] * SENT)
        masks[-1][rand.randint(1, n + 1)] = True
    return {'tags': tags, 'deps': deps, 'chars': chars, 'words': words, 'mask_1': masks[0], 'mask_2': masks[1]}


def _columns(kind, sents):
    return [[s[name] for s in sents] for name in KINDS[kind][0]]


def _equal(got, want):
    got, want = np.asarray(got), np.asarray(want)
    return got.shape == want.shape and bool(np.allclose(got.astype(float), want.astype(float), atol=1e-6))


def _check_inputs(inputs, columns, what):
    """The network is given each argument once (in an order of its own)"""
    if not isinstance(inputs, (list, tuple)):
        return
    same(len(inputs), len(columns), '%s: number of inputs of the network' % what)
    left = list(inputs)
    for k, column in enumerate(columns):
        found = [i for i, one in enumerate(left) if _equal(one, column)]
        check(found, '%s: the network is not given argument %d', what, k)
        left.pop(found[0])


def answers(value, obs):
    """Most likely codes"""
    kind, seeds, spikes = value
    wrapper = _model(kind)
    sents = [_sentence(s) for s in seeds]
    columns = _columns(kind, sents)
    nb = KINDS[kind][1]
    rand = np.random.RandomState(sum(seeds) % 10007)
    shape = (len(sents), nb) if kind == 'trans' else (len(sents), SENT, nb)
    probas = rand.rand(*shape).astype(np.float32) * .5
    flat = probas.reshape(-1, nb)
    for row, code in zip(flat, spikes * len(flat)):
        row[code % nb] = row.max() + (1, .3, .03, .003, .0003)[code // 7 % 5]  # Close to the second one or not
    probas /= probas.sum(axis=-1, keepdims=True)
    calls = []

    def predict(self, inputs, *args, **kwargs):
        calls.append(inputs)
        start = sum(len(c[0]) for c in calls[:-1] if isinstance(c, (list, tuple)))  # Sentences given in several calls
        size = len(inputs[0]) if isinstance(inputs, (list, tuple)) else len(sents)
        return probas[start:start + size]

    _STATE['keras'].Model.predict = predict
    try:
        got = wrapper.predict(*columns)
    finally:
        _STATE['keras'].Model.predict = _STATE['quiet_predict']
    if not calls:
        obs.label('the network is called otherwise')
        return
    if len(calls) == 1:
        _check_inputs(calls[0], columns, 'prediction of ' + kind)
    want = probas.argmax(axis=-1).tolist()
    same([int(c) for c in got] if kind == 'trans' else [[int(c) for c in seq] for seq in got], want, '%s of the highest probabilities' % kind)
    enum = {'tags': Tag, 'deps': Dep, 'trans': Trans}[kind]
    for code in range(nb):  # Any of them can be the highest one
        check(code in [e.value for e in enum], '%s: code %d means nothing', kind, code)
    if len(sents) > 1 and want[0] != want[1]:
        obs.nontrivial(value)
    obs.label(kind)


def learning(value, obs):
    kind, seeds, targets, split, accuracies = value
    wrapper = _model(kind)
    sents = [_sentence(s) for s in seeds]
    columns = _columns(kind, sents)
    labels = [targets[i % len(targets)] for i in range(len(sents))] if kind == 'trans' else [s['tags' if kind == 'tags' else 'deps'] for s in sents]
    calls = []

    def fit(self, inputs, outputs, *args, **kwargs):
        calls.append((inputs, outputs, kwargs))
        return types.SimpleNamespace(history={'accuracy': [a / 100 for a in accuracies], 'val_accuracy': [(100 - a) / 200 for a in accuracies], 'loss': [1.]})

    _STATE['keras'].Model.fit = fit
    try:
        got = wrapper.learn(7, 2, 3, labels, split, *columns)
    finally:
        _STATE['keras'].Model.fit = _STATE['fit']
    if not calls:
        obs.label('the network is called otherwise')
        return
    same(len(calls), 1, 'number of trainings')
    inputs, outputs, kwargs = calls[0]
    _check_inputs(inputs, columns, 'learning of ' + kind)
    check(bool((np.asarray(outputs) == np.asarray(labels)).all()), 'learning of %s: the network is taught other labels', kind)
    for name, number in (('batch_size', 7), ('epochs', 3), ('validation_split', split)):
        if name in kwargs:
            same(kwargs[name], number, '%s of the training' % name)
    asked = []

    def predict(self, inputs, *args, **kwargs):
        asked.append(inputs)
        return np.ones((len(sents), KINDS[kind][1]) if kind == 'trans' else (len(sents), SENT, KINDS[kind][1]))

    _STATE['keras'].Model.predict = predict
    try:
        wrapper.predict(*columns)
    finally:
        _STATE['keras'].Model.predict = _STATE['quiet_predict']
    if len(asked) == 1 and isinstance(inputs, (list, tuple)) and isinstance(asked[0], (list, tuple)):
        check(len(inputs) == len(asked[0]) and all(_equal(a, b) for a, b in zip(inputs, asked[0])), '%s: the network learns from its inputs in an order and predicts '
              'from them in another', kind)
    want = max((100 - a) / 200 for a in accuracies) * 100 if split else max(accuracies)
    check(abs(got - want) < 1e-6, 'accuracy of %r is %r instead of %r', accuracies, got, want)
    if len(sents) > 1:
        obs.nontrivial(value)


def _networks(wrapper):
    return [v for v in vars(wrapper).values() if isinstance(v, _STATE['keras'].Model)]


def _randomize(wrapper, seed, size=.12):
    """Weights that give various answers"""
    rand = np.random.RandomState(seed)
    base = _STATE.setdefault('weights', {})
    for k, network in enumerate(_networks(wrapper)):
        key = (id(wrapper), k)
        base.setdefault(key, (network.get_weights(), wrapper))  # Initial ones: changes do not add up
        network.set_weights([(w + rand.randn(*w.shape) * size).astype(np.float32) for w in base[key][0]])


def _codes(kind, wrapper, sents):
    out = wrapper.predict(*_columns(kind, sents))
    same(len(out), len(sents), '%s: number of answers' % kind)
    return [int(c) for c in out] if kind == 'trans' else [[int(c) for c in seq] for seq in out]


def _close(kind, wrapper, sent, one, other):
    """Both codes are the most likely ones, up to rounding"""
    networks = _networks(wrapper)
    if len(networks) != 1:
        return False
    probas = np.asarray(_STATE['predict'](networks[0], [np.array(c) for c in _columns(kind, [sent])], verbose=0))[0].reshape(-1, KINDS[kind][1])
    one, other = ([one], [other]) if kind == 'trans' else (one, other)
    return all(abs(p[a] - p[b]) < 1e-3 for p, a, b in zip(probas, one, other))


def _check_counts(kind, wrapper, sent, seed):
    """Each argument counts in the probabilities"""
    found = _networks(wrapper)
    if len(found) != 1:
        return
    kept = []

    def predict(self, *args, **kwargs):
        kept.append(np.asarray(_STATE['predict'](self, *args, **dict(kwargs, verbose=0))))
        return kept[-1]

    _STATE['keras'].Model.predict = predict
    try:
        wrapper.predict(*_columns(kind, [sent]))
        names = KINDS[kind][0]
        if not kept:
            return
        left = list(names)
        for k in range(1, 10):  # With some weights, the probabilities of one code are too high for the others to count
            if k > 3:
                _randomize(wrapper, seed * 17 + k, .02 * (k % 5))
            kept[:] = []
            wrapper.predict(*_columns(kind, [sent]))
            for name in list(left):
                kept[1:] = []
                wrapper.predict(*_columns(kind, [dict(sent, **{name: _sentence(seed * 31 + k)[name]})]))
                if np.abs(kept[1] - kept[0]).max() > 0:
                    left.remove(name)
            if not left:
                break
        for name in names:
            check(name not in left, '%s: the answers do not depend on the argument %s', kind, name)
    finally:
        _STATE['keras'].Model.predict = _STATE['quiet_predict']
        _randomize(wrapper, seed)


def networks(value, obs):
    kind, seed, seeds, order = value
    if kind not in KINDS:
        return
    wrapper = _model(kind)
    _randomize(wrapper, seed)
    sents = [_sentence(s) for s in seeds]
    alone = [_codes(kind, wrapper, [s])[0] for s in sents]

    def agree(got, want, who, what):
        for k, (g, w) in enumerate(zip(got, want)):
            if g != w and not _close(kind, wrapper, sents[who[k]], g, w):
                raise Violation('%s: %s of sentence %d: %r instead of %r' % (what, kind, who[k], g, w))

    if kind != 'trans':
        same([len(c) for c in alone], [SENT] * len(sents), '%s: codes per sentence' % kind)
    check(all(0 <= c < KINDS[kind][1] for codes in alone for c in ([codes] if kind == 'trans' else codes)), '%s: code out of range', kind)
    _check_counts(kind, wrapper, sents[0], seed)
    order = [o % len(sents) for o in order] + list(range(len(sents)))
    agree(_codes(kind, wrapper, [sents[o] for o in order]), [alone[o] for o in order], order, 'in a batch')
    for other in KINDS:  # Each model has a file of its own
        if other != kind and other in _STATE:
            _STATE[other].save()
    wrapper.save()
    for other in KINDS:
        if other != kind and other in _STATE:
            _randomize(_STATE[other], seed + 1)
            _STATE[other].save()
    if 'again ' + kind not in _STATE:
        _STATE['again ' + kind] = _make(kind)
    again = _STATE['again ' + kind]
    loaded = again.load()
    check(loaded is again, 'loading does not give the model')
    agree(_codes(kind, again, sents), alone, list(range(len(sents))), 'saved then loaded')
    if len({repr(a) for a in alone}) > 1:
        obs.nontrivial(value)
    obs.label('network of ' + kind)


_KIND = st.sampled_from(sorted(KINDS))
_SEEDS = st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=6)


def _network_examples():
    # Two models at least are made by each process, so that files can be mixed up
    kinds = sorted(KINDS)
    return [(kinds[i % 3], i + 1, [i * 5 + k for k in range(4)], [3, 1, 1, 0, 2, i]) for i in range(24)]


CASES = [
    Case('networks', None, networks, examples=_network_examples),
    Case('answers', lambda: st.tuples(_KIND, _SEEDS, st.lists(st.integers(0, 40), min_size=1, max_size=7)), answers, quick=60),
    Case('learning', lambda: st.tuples(_KIND, _SEEDS, st.lists(st.integers(0, 3), min_size=1, max_size=6), st.sampled_from([0.0, 0.1, 0.25]),
                                       st.lists(st.integers(0, 100), min_size=1, max_size=5)), learning, quick=30),
]
