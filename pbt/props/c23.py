"""Semantic tuples are well-formed on any tree"""
import re

from pbt import env, normref, semgen, semref
from pbt.core import Case, check, same
from pbt.tape import taped
from scrappybara.syntax.dependencies import Dep
from scrappybara.syntax.tags import Tag
from scrappybara.utils.tree import Tree

RULE = 'Batches of 1 to 3 sentences of 1 to 25 tokens with any tree (projective or not, any root), any labels, tags and words (odd unicode words ' \
       'included), or without tree. Non-trivial: at least two tuples.'

_NOUN = '[NPOUS]'
_PROPERTY = '[NPOUSAL]'
_FORMS = re.compile('{n}(I|[TR]{n}|C{p}|T{n}(I|T{n}|C{p}))'.format(n=_NOUN, p=_PROPERTY))
_ODD = ['ß', 'İ', 'é', '日本', "'", "''", '-', '--', 'a-b', '-a', 'a-', 'x', 'ss', 's', 'ed', 'ing', 'est', 'iest', 'ies', 'ves', 'men', 'es', '1st', '…', 're', 'un',
        'un-', 'CAFÉ', 'naïve', 'our', 'ise', 'aeaeae', 'oe', '_', '\\', '%s', '{}', 'AEON', 'yyy', 'ied', 'icked', 'icking', "n't"]
_ALL_TAGS = [t.name for t in Tag]


def setup():
    env.use_private_data()
    semgen.pipeline()
    semgen.reference()


def _allowed(tuples):
    """All words that may appear in the tuples of a sentence"""
    ref = semgen.reference()
    words = {'be'}
    texts = [t[0].lower() for t in tuples]
    for text in texts:
        words.add(text)
        words.add(semref.SUBJECT_FORM.get(text, text))
        for standard in normref.standardize(ref.lm, text) | {text}:
            for tag in _ALL_TAGS:
                for lemma, _ in ref.lemma(standard, tag):
                    words.add(lemma)
                    words.add(semref.SUBJECT_FORM.get(lemma, lemma))
                    words |= normref.past_participle(ref.lm, ref.participles, lemma)
    return words


def totality(value, obs):
    sents, chunk, nb = value
    tokens, tags, trees_ = [], [], []
    for tuples, with_tree in sents:
        tokens.append([t[0] for t in tuples])
        tags.append([Tag[t[1]] for t in tuples])
        tree = None
        if with_tree:
            tree = Tree([i for i, t in enumerate(tuples) if t[2] == 'ROOT'][0])
            for c, (_, _, d, p) in enumerate(tuples):
                if p >= 0:
                    tree.register_child(Dep[d], p, c)
        trees_.append(tree)
    stuples = semgen.logic(tokens, tags, trees_, chunk, nb)
    same(len(stuples), len(sents), 'number of results')
    for (tuples, with_tree), found in zip(sents, stuples):
        facts = semgen.read(found)
        if not with_tree:
            same(facts, [], 'tuples of a sentence without tree')
            continue
        allowed = _allowed(tuples) if facts else set()
        for fact in facts:
            code = ''.join(c for _, c, _ in fact)
            check(_FORMS.fullmatch(code) is not None, 'unknown form %s of %r, from %r', code, fact, tuples)
            for k, (word, _, affirmative) in enumerate(fact):
                check(isinstance(word, str) and isinstance(affirmative, bool), 'malformed argument in %r, from %r', fact, tuples)
                check(affirmative or k == 1, 'negation on another argument than the first verb in %r, from %r', fact, tuples)
                rest = [w for w in word.split(' ') if w not in allowed and w not in _joined(allowed, word)]
                check(word != '' and not rest, '%r in %r is not a word of %r', word, fact, tuples)
            obs.label('form of %d' % len(fact))
        if len(facts) > 1:
            obs.nontrivial((tuples, chunk))


def _joined(allowed, word):
    """Participle of a compound or of a word with spaces"""
    return {w for w in word.split(' ') if any(w == a + e for a in allowed for e in ('ed', 'd', 'ied'))} if ' ' in word else set()


def _sentence(tape):
    kind = tape.below(4)
    if kind == 0:
        tuples = semgen.labelled_tree(tape, 25, 60, is_tidy=False)
    elif kind == 1:
        tuples = semgen.labelled_tree(tape, 14, 30, any_parents=True, is_tidy=False)
    elif kind == 2:
        tuples = semgen.grammatical(tape, 24)
        if tape.below(2):
            tuples = semgen.shaken(tape, tuples, 5)
    else:
        tuples = semgen.labelled_tree(tape, 10, 0, any_parents=bool(tape.below(2)), is_tidy=False)
    odd = tape.pick([0, 0, 20, 60])
    if odd:
        tuples = [(tape.pick(_ODD) if tape.chance(odd) else w, tape.pick(_ALL_TAGS) if tape.chance(odd // 2) else g, d, p) for w, g, d, p in tuples]
    if tape.chance(10):  # Everything under one label
        dep = tape.pick(semgen.TREE_DEPS)
        tuples = [(w, g, d if d == 'ROOT' else dep, p) for w, g, d, p in tuples]
    return semgen.insert(tuples, semgen.punctuation(tape)), not tape.chance(5)


SCALE = 5
CASES = [
    Case('any', lambda: taped(lambda t: ([_sentence(t) for _ in range(t.pick([1, 1, 1, 2, 3]))], bool(t.below(2)), t.between(1, 4)), 80, 240), totality,
         quick=1500),
]
