"""Results are deterministic and shared objects can be used from threads"""
import json
import os
import subprocess
import sys
import threading

from hypothesis import strategies as st
from pbt import env, semgen, texts
from pbt.core import VERIF, Case, HarnessError, check, same
from pbt.props import c16
from pbt.tape import taped

RULE = 'Texts, corpora to build language models from, language models with ties and queries on them, inflected words, labelled sentences: the answers of this process and of three processes with ' \
       'other hash seeds are compared, order included. Threads: 2 to 6 threads share one tokenizer, sentence splitter, language model, lemmatizer or extraction pipeline with a switch ' \
       'interval of a microsecond, each with its own list of inputs. Non-trivial: a non-empty answer; at least two threads with different inputs.'

SEEDS = [1, 2, 12345]
_WORKERS = []
_OWN = []


def setup():
    env.use_private_data()


def _workers():
    if not _WORKERS:
        for seed in SEEDS:
            environ = dict(os.environ, PYTHONHASHSEED=str(seed))
            _WORKERS.append(subprocess.Popen([sys.executable, '-m', 'pbt.worker'], cwd=VERIF, env=environ, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                             encoding='utf-8', errors='surrogatepass'))
        from pbt.worker import Answers
        _OWN.append(Answers())
    return _WORKERS


def everywhere(value, obs):
    kind, args = value
    workers = _workers()
    for worker in workers:
        worker.stdin.write(json.dumps(repr(value)) + '\n')
        worker.stdin.flush()
    try:
        want = repr(getattr(_OWN[0], kind)(*args))
    except Exception as error:
        want = 'raised %s' % type(error).__name__
    answers = [worker.stdout.readline() for worker in workers]
    for seed, answer in zip(SEEDS, answers):
        if not answer:
            raise HarnessError('a worker ended')
        answer = json.loads(answer)
        check(answer == want, '%s%r gives\n  %s\nand in a process with hash seed %d\n  %s', kind, args, want, seed, answer)
    if len(want) > 4 and not want.startswith('raised'):
        obs.nontrivial(value)
    obs.label(kind if not want.startswith('raised') else kind + ' (refused)')


# THREADS
# -------------------------------------------------------------------------->


def _together(process, lists):
    """Every thread processes its list with the same object. Returns the results per thread."""
    results = [None] * len(lists)
    barrier = threading.Barrier(len(lists))

    def work(k):
        barrier.wait()
        out = []
        for item in lists[k]:
            try:
                out.append(process(item))
            except Exception as error:
                out.append('raised %s' % type(error).__name__)
        results[k] = out

    before = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work, args=(k,)) for k in range(len(lists))]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
    finally:
        sys.setswitchinterval(before)
    return results


def _shared(kind):
    """Returns a function from one input to one plain answer, on one shared object"""
    if kind == 'tokenizer':
        from scrappybara import Tokenizer
        return Tokenizer()
    if kind == 'sentencizer':
        from scrappybara import Sentencizer
        return Sentencizer()
    if kind == 'language model':
        lm = env.make_language_model(_LM, 1, 1, 1)
        return lambda text: (lm.next_word(text), lm.best_token('dog', 'cat', 'a', before=text, after=text), lm.best_ngram(*text.split()), lm.top_ngrams(2, 3), 'dog' in lm)
    if kind == 'lemmatizer':
        from scrappybara.syntax.tags import Tag
        lemmatize, _ = c16.make(semgen.LM)
        return lambda pair: lemmatize(pair[0], Tag[pair[1]])
    return lambda pair: semgen.extract(*pair)


def threads(value, obs):
    kind, lists = value
    process = _shared(kind)
    want = [[_alone(process, item) for item in items] for items in lists]
    for _ in range(3):
        got = _together(process, lists)
        for k, items in enumerate(lists):
            for item, g, w in zip(items, got[k], want[k]):
                same(g, w, '%s shared by %d threads, %r' % (kind, len(lists), item))
    same([[_alone(process, item) for item in items] for items in lists], want, '%s after being shared' % kind)
    if len(lists) > 1 and len({repr(items) for items in lists}) > 1:
        obs.nontrivial(value)
        obs.label(kind)


def _alone(process, item):
    try:
        return process(item)
    except Exception as error:
        return 'raised %s' % type(error).__name__


# GENERATORS
# -------------------------------------------------------------------------->

_VOCAB = ['a', 'b', 'c', 'dog', 'cat', 'the', 'of']
_LM = {' '.join(g): (1 + len(g), [.1, .2, .2, .3][sum(map(len, g)) % 4]) for g in
       [(x,) for x in _VOCAB] + [(x, y) for x in _VOCAB for y in _VOCAB[:4]] + [(x, y, z) for x in _VOCAB[:3] for y in _VOCAB[2:5] for z in _VOCAB]}


def _text_requests():
    text = texts.raw_texts().filter(bool)
    return st.tuples(st.sampled_from(['tokens', 'sentences']), st.tuples(text))


def _corpus(t):
    def sentence():
        return ' '.join(t.pick(_VOCAB + ['Dog', 'eats', 'big']) for _ in range(t.between(1, 9))) + t.pick(['.', '.', '', '?'])

    mkn = t.below(2)
    return 'language_model', ([' '.join(sentence() for _ in range(t.between(1, 3))) for _ in range(t.between(1, 4))], t.between(1 + mkn, 3),
                              ['maximum_likelihood_estimation', 'modified_kneser_ney'][mkn])


def _queries(t):
    lm = {}
    for _ in range(t.below(25)):
        gram = ' '.join(t.pick(_VOCAB) for _ in range(t.between(1, 3)))
        lm[gram] = (t.between(1, 5), t.pick([.1, .1, .2, .3]))
    choices = [t.pick(_VOCAB) for _ in range(t.between(1, 6))]
    return 'best', (lm, choices, ' '.join(t.pick(_VOCAB) for _ in range(t.below(4))), ' '.join(t.pick(_VOCAB) for _ in range(t.below(4))))


def _words():
    return c16._values().map(lambda v: ('normal', (v[0], v[1], v[2])))


def _sentence(t):
    return semgen.grammatical(t, 20) if t.below(3) else semgen.labelled_tree(t, 14, 80)


def _sentences(t):
    return 'tuples', (_sentence(t), not t.below(2))


def _shared_texts():
    text = texts.raw_texts().filter(bool)
    return st.tuples(st.sampled_from(['tokenizer', 'sentencizer']), st.lists(st.lists(text, min_size=2, max_size=8), min_size=2, max_size=5))


def _shared_others(t):
    kind = t.pick(['language model', 'lemmatizer', 'pipeline'])
    endings = ['', 's', 'ed', 'ing', 'es', 'ies', 'er', 'est']

    def item():
        if kind == 'language model':
            return ' '.join(t.pick(_VOCAB) for _ in range(t.between(1, 4)))
        if kind == 'lemmatizer':
            return t.pick(['', 're', 'un', 'over-', 'mis']) + t.pick(semgen._LEMMAS) + t.pick(endings), t.pick(['VERB', 'NOUN', 'ADJ'])
        return semgen.grammatical(t, 10), not t.below(2)

    return kind, [[item() for _ in range(t.between(2, 5))] for _ in range(t.between(2, 6))]


CASES = [
    Case('texts in processes', _text_requests, everywhere, quick=300, shards=4),
    Case('queries in processes', lambda: taped(_queries, 30, 200), everywhere, quick=300, shards=4),
    Case('words in processes', _words, everywhere, quick=300, shards=4),
    Case('tuples in processes', lambda: taped(_sentences, 60, 200), everywhere, quick=400, shards=4),
    Case('language models in processes', lambda: taped(_corpus, 30, 200), everywhere, quick=25, shards=4),
    Case('shared by threads: texts', _shared_texts, threads, quick=60),
    Case('shared by threads: others', lambda: taped(_shared_others, 100, 500), threads, quick=50),
]
