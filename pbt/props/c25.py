"""Extraction is stable under rewording that keeps the syntax"""
from pbt import env, semgen
from pbt.core import Case, Violation
from pbt.tape import taped

RULE = 'A labelled sentence (grammatical, or a random tree) and a transformed one: words inserted out of the tree, other capitals, "and" exchanged for "or", ' \
       'the main verb (a word seen nowhere else) negated, compounds joined or not, a sentence alone or in a batch (up to 480 sentences). Non-trivial: at least two tuples and a ' \
       'transformation that changes the input.'


def setup():
    env.use_private_data()
    semgen.IS_ODD[0] = False  # Pronouns tagged as nouns would get modifiers
    semgen.pipeline()


def _same_facts(before, after, tuples, others, what):
    if sorted(before) != sorted(after):
        raise Violation('%s:\n  %r gives %r\n  %r gives %r' % (what, tuples, semgen.show(before), others, semgen.show(after)))


def insertion(value, obs):
    tuples, places, chunk = value
    others = semgen.insert(tuples, places)
    facts = semgen.extract(tuples, chunk)
    _same_facts(facts, semgen.extract(others, chunk), tuples, others, 'words out of the tree change the tuples')
    if len(facts) > 1 and places:
        obs.nontrivial(value)
        obs.label('insertion')


def capitals(value, obs):
    tuples, cases, chunk = value
    others = []
    for (w, g, d, p), case in zip(tuples, cases):
        others.append((w.upper() if case == 1 else w.lower() if case == 2 else w.capitalize() if case == 3 else w, g, d, p))
    facts = semgen.extract(tuples, chunk)
    _same_facts(facts, semgen.extract(others, chunk), tuples, others, 'capitals change the tuples')
    if len(facts) > 1 and others != tuples:
        obs.nontrivial(value)
        obs.label('capitals')


def coordination(value, obs):
    tuples, swaps, chunk = value
    other = {'AND': 'OR', 'OR': 'AND'}
    others = [(w, g, other.get(d, d) if s else d, p) for (w, g, d, p), s in zip(tuples, swaps)]
    facts = semgen.extract(tuples, chunk)
    _same_facts(facts, semgen.extract(others, chunk), tuples, others, 'the kind of coordination changes the tuples')
    if len(facts) > 1 and others != tuples:
        obs.nontrivial(value)
        obs.label('coordination')


def negation(value, obs):
    """The main verb is "zork", which occurs nowhere else"""
    tuples, chunk = value
    root = [i for i, t in enumerate(tuples) if t[2] == 'ROOT'][0]
    if any(t[2] == 'FLAT' and t[3] == root for t in tuples):
        return  # The main word would be a name
    base = [('zork', 'VERB', d, p) if i == root else (w, g, d, p) for i, (w, g, d, p) in enumerate(tuples)]
    if not any(t[3] == root and t[2] not in ('NEG', 'FLAT') for t in base):
        return  # A dependent of its own would change what it shares
    base = [t if not (t[2] == 'NEG' and t[3] == root) else (t[0], t[1], 'AUX', root) for t in base]
    pos = root + 1
    others = [(w, g, d, p + 1 if p >= pos else p) for w, g, d, p in base]
    others.insert(pos, ('not', 'ADV', 'NEG', root))
    twice = [(w, g, d, p + 1 if p >= pos else p) for w, g, d, p in others]
    twice.insert(pos, ('not', 'ADV', 'NEG', root))
    facts = semgen.extract(base, chunk)
    passive_of_main = [i for i, t in enumerate(base) if t[2] == 'PROP' and t[3] == root]  # Its agents are turned active
    want = []
    for fact in facts:
        flip = any('zork' in w.split() or 'zorked' in w.split() for w, _, _ in fact)
        want.append(tuple((w, c, (not a) if flip and k == 1 else a) for k, (w, c, a) in enumerate(fact)))
    got = semgen.extract(others, chunk)
    if not passive_of_main:
        _same_facts(want, got, base, others, 'negating the main verb does not negate exactly its facts (expected, then found)')
    strip = lambda items: sorted(tuple((w, c) for w, c, _ in f) for f in items)
    if strip(got) != strip(facts):
        raise Violation('negating the main verb of %r changes more than polarity: %r, then %r' % (base, semgen.show(facts), semgen.show(got)))
    _same_facts(got, semgen.extract(twice, chunk), others, twice, 'a second negation of the main verb changes the tuples')
    if len(facts) > 1 and sorted(got) != sorted(facts):
        obs.nontrivial(value)
        obs.label('negation')


def compounds(value, obs):
    (tuples,) = value
    short = lambda items: sorted(tuple((w.split(' ')[-1] if c in 'NCA' else w, c, a) for w, c, a in f) for f in items)  # A noun can be predicted as copula, or go on with an adjective
    joined, alone = semgen.extract(tuples, True), semgen.extract(tuples, False)
    if short(joined) != short(alone):
        raise Violation('joining compounds of %r changes more than nouns: %r, then %r' % (tuples, semgen.show(alone), semgen.show(joined)))
    if len(alone) > 1 and sorted(joined) != sorted(alone):
        obs.nontrivial(value)
        obs.label('compounds')


def batch(value, obs):
    from scrappybara.syntax.labelled_data import LabelledSentence
    sents, nb, chunk = value
    labelled = [LabelledSentence(i, s) for i, s in enumerate(sents)]
    stuples = semgen.logic([s.tokens for s in labelled], [s.tags for s in labelled], [s.tree for s in labelled], chunk, nb)
    got = [sorted(semgen.read(s)) for s in stuples]
    want = [sorted(semgen.extract(s, chunk)) for s in sents]
    if got != want:
        raise Violation('tuples of a batch on %d threads: %r, instead of %r alone, for %r' % (nb, got, want, sents))
    if len(sents) > 1 and nb > 1:
        obs.nontrivial(value)
        obs.label('batch')


def _sentence(tape):
    kind = tape.below(4)
    if kind == 3:
        return semgen.labelled_tree(tape, 12, 80)
    tuples = semgen.grammatical(tape, 20)
    return semgen.shaken(tape, tuples) if kind == 2 else tuples


def _insertion(t):
    places = semgen.punctuation(t, 4)
    if places and not t.below(3):  # Many at one place
        places += places[-1:] * t.between(1, 25)
    return _sentence(t), places, not t.below(2)


def _capitals(t):
    tuples = _sentence(t)
    return tuples, [t.below(4) for _ in tuples], not t.below(2)


def _coordination(t):
    tuples = _sentence(t)
    return tuples, [bool(t.below(2)) for _ in tuples], not t.below(2)


def _many(nb, threads):
    """Many short sentences"""
    nouns, verbs = ['dogs', 'children', 'cities', 'them', 'wolves', 'knives', 'houses'], ['ate', 'stopped', 'carried', 'loves', 'gave']
    sents = []
    for i in range(nb):
        sent = [(nouns[i % 7], 'NOUN', 'SUBJ', 1), (verbs[i // 7 % 5], 'VERB', 'ROOT', -1)]
        sents.append(sent + [(nouns[i // 35 % 7], 'NOUN', 'OBJ', 1)] * (i // 35 % 2))
    return sents, threads, True


SCALE = 3
CASES = [
    Case('insertion', lambda: taped(_insertion, 60, 200), insertion, quick=700),
    Case('capitals', lambda: taped(_capitals, 60, 200), capitals, quick=700),
    Case('coordination', lambda: taped(_coordination, 60, 200), coordination, quick=700),
    Case('negation', lambda: taped(lambda t: (_sentence(t), not t.below(2)), 60, 200), negation, quick=1000),
    Case('compounds', lambda: taped(lambda t: (_sentence(t),), 60, 200), compounds, quick=700),
    Case('batch', lambda: taped(lambda t: ([semgen.grammatical(t, 12) for _ in range(t.below(6))], t.between(1, 6), not t.below(2)), 60, 300), batch,
         quick=200, examples=[_many(nb, threads) for nb in (25, 120, 480) for threads in (1, 4, 7)]),
]
