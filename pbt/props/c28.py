"""Tuples, sentences and documents give back what they were built from"""
import itertools

from hypothesis import strategies as st
from pbt.core import Case, Violation, check, same
from scrappybara.exceptions import ArgumentValueError
from scrappybara.pipeline.document import Document
from scrappybara.pipeline.sentence import Sentence
from scrappybara.semantics.argument import Argument
from scrappybara.semantics.semantic_tuple import SemanticTuple

RULE = 'Tuples of 0 to 6 arguments with any word, code and polarity, documents of 0 to 5 sentences with 0 to 4 of them, every code with both polarities (exhaustive), every other single ' \
       'character and longer texts as codes. Non-trivial: at least two arguments, or a document with two sentences that have tuples.'

TAG_OF = {'A': 'ADJ', 'L': 'ADJ', 'I': 'VERB', 'R': 'VERB', 'T': 'VERB', 'C': 'VERB', 'N': 'NOUN', 'O': 'NOUN', 'P': 'NOUN', 'S': 'NOUN', 'U': 'NOUN'}
CODES = sorted(TAG_OF)


def _flat(word, aff, decorated=True):
    return word if aff or not decorated else 'NOT ' + word


def _argument(word, code, aff):
    arg = Argument(word, code, aff)
    same((arg.word, arg.code, arg.is_affirmative), (word, code, aff), 'argument')
    same(arg.tag, TAG_OF[code], 'part of speech of %r' % code)
    for text in (str(arg), repr(arg), arg.flatten(), arg.flatten(True), arg.flatten(with_decorators=True)):
        same(text, _flat(word, aff), 'argument as text')
    same(arg.flatten(with_decorators=False), word, 'argument without decorators')
    return arg


def arguments(value, obs):
    word, code, aff = value
    _argument(word, code, aff)
    same(Argument(word, code).is_affirmative, True, 'polarity by default')
    if not aff:
        obs.nontrivial(value)


def refused(value, obs):
    word, code = value
    try:
        Argument(word, code)
    except ArgumentValueError:
        obs.nontrivial(value)
        return
    raise Violation('the code %r was accepted' % (code,))


def _check_tuple(stuple, spec):
    code = ''.join(c for _, c, _ in spec)
    same(stuple.code, code, 'code of %r' % (spec,))
    same(len(stuple), len(spec), 'length of %r' % (spec,))
    for _ in range(2):  # Reading changes nothing
        same([(a.word, a.code, a.is_affirmative) for a in stuple], list(spec), 'arguments of %r' % (spec,))
    for idx, arg in enumerate(spec):
        got = stuple.arg(idx)
        same((got.word, got.code, got.is_affirmative), arg, 'argument %d of %r' % (idx, spec))
    want = '%s(%s)' % (code, ', '.join(_flat(w, a) for w, _, a in spec))
    for text in (str(stuple), repr(stuple), stuple.flatten(), stuple.flatten(True)):
        same(text, want, 'text form of %r' % (spec,))
    same(stuple.flatten(with_decorators=False), '%s(%s)' % (code, ', '.join(w for w, _, _ in spec)), 'text form of %r without decorators' % (spec,))
    for c in CODES:
        same(bool(stuple.has_any_arg_with_code(c)), any(c == k for _, k, _ in spec), 'has code %r: %r' % (c, spec))


def tuples(spec, obs):
    args = [_argument(*a) for a in spec]
    stuple = SemanticTuple(*args)
    _check_tuple(stuple, spec)
    check(all(a is b for a, b in zip(stuple, args)), 'other arguments than those given')
    its = iter(stuple), iter(stuple)  # Two readers at the same time
    seen = [(next(its[0]), next(its[1])) for _ in spec]
    check(all(a is b for a, b in seen), 'iterating twice at the same time')
    if len(spec) > 1:
        obs.nontrivial(spec)
        obs.label('%d arguments' % len(spec))


def documents(value, obs):
    doc = Document()
    same((list(doc.sentences), list(doc.stuples), list(doc)), ([], [], []), 'new document')
    kept, made = [], {}
    for spec in value:
        sent = Sentence()
        same((list(sent.stuples), list(sent)), ([], []), 'new sentence')
        for t in spec:
            if t not in made or len(t) % 2:  # The same object twice, sometimes
                made[t] = SemanticTuple(*[Argument(*a) for a in t])
            sent.stuples.append(made[t])
        doc.sentences.append(sent)
        kept.append(sent)
        # Same content at every step
        check(len(doc.sentences) == len(kept) and all(a is b for a, b in zip(doc, kept)), 'sentences of a document')
        want = [t for s in kept for t in s.stuples]
        got = doc.stuples
        check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'tuples of a document: %r instead of %r', got, want)
    for sent, spec in zip(doc, value):
        same(len(list(sent)), len(spec), 'tuples of a sentence')
        for stuple, t in zip(sent, spec):
            _check_tuple(stuple, t)
        same([str(t) for t in sent], [str(t) for t in sent.stuples], 'iterating over a sentence')
    if sum(bool(s) for s in value) > 1:
        obs.nontrivial(value)


_WORD = st.one_of(st.sampled_from(['dog', 'can opener', 'be', 'NOT', 'not', '', 'a, b', '(x)', 'é', "o'neil", 'NOT dog', '%s', 'sell out']), st.text(max_size=8))
_ARG = st.tuples(_WORD, st.sampled_from(CODES), st.booleans())
_TUPLE = st.lists(_ARG, max_size=6).map(tuple)
_OTHER_CODES = [chr(i) for i in range(33, 127) if chr(i) not in TAG_OF] + ['', 'NN', 'AL', 'ADJ', 'n', 'NOUN', None, 'N ', 'ACL']

def _large():
    fact = (('dog', 'N', True), ('eat', 'I', False))
    return [[[fact] * (k % 3) for k in range(300)], [[fact] * 300, [], [fact] * 120], [[fact]] * 250]


SCALE = 3
CASES = [
    Case('arguments', lambda: _ARG, arguments, quick=400, examples=lambda: [(w, c, a) for w in ('dog', 'NOT', '') for c in CODES for a in (True, False)]),
    Case('refused', lambda: st.tuples(_WORD, st.one_of(st.text(max_size=3), st.none(), st.integers())).filter(lambda v: v[1] not in TAG_OF), refused, quick=200,
         examples=lambda: [('dog', c) for c in _OTHER_CODES]),
    Case('tuples', lambda: _TUPLE, tuples, quick=1000,
         examples=lambda: [tuple(('w%d' % k, c, True) for k, c in enumerate(cs)) for n in (1, 2, 3) for cs in itertools.product(CODES, repeat=n)]),
    Case('documents', lambda: st.one_of(
        st.lists(st.lists(_TUPLE, max_size=4), max_size=5),
        st.lists(_TUPLE, min_size=1, max_size=3).flatmap(lambda some: st.lists(st.lists(st.sampled_from(some), max_size=4), max_size=5))), documents, quick=300,
         examples=_large),
]
