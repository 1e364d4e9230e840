"""The facts extracted are exactly those the syntax states"""
from pbt import env, semgen
from pbt.core import Case, Violation
from pbt.tape import taped

RULE = 'Labelled sentences of 1 to 50 words: grammatical ones (coordination, negation, relative clauses, reflexives, clause objects, copulas, participles ' \
       'with agents, indirect properties, particles, compounds, names), the same with a few words, labels or attachments changed, random trees with usual labels, random trees with any labels, each with words ' \
       'out of the tree inserted, with and without compounds; compared with the reference model. Templates: coordinated and negated members put in ' \
       'fixed constructions, whose facts are known by construction. Non-trivial: at least two facts.'


def setup():
    env.use_private_data()
    semgen.pipeline()
    semgen.reference()


def compare(tuples, chunk, want):
    got = semgen.extract(tuples, chunk)
    if sorted(got) != sorted(want):
        raise Violation('facts of %r (compounds joined: %r):\n  got  %r\n  want %r' % (tuples, chunk, semgen.show(got), semgen.show(want)))


def facts(value, obs):
    tuples, places, chunk = value
    tuples = semgen.insert(tuples, places)
    want = semgen.reference()(tuples, chunk)
    compare(tuples, chunk, want)
    if len(want) > 1:
        obs.nontrivial(value)
    for fact in want:
        obs.label(''.join(c if c in 'TICR' else 'n' for _, c, _ in fact) + ('' if fact[1][2] else ' negative'))


def _with(make):
    return lambda tape: (make(tape), semgen.punctuation(tape), not tape.below(3))


# ###############################################################################
# TEMPLATES
# ###############################################################################

# Word, tag => canonical form, code
_NOUNS = [('dogs', 'NOUN', 'dog', 'N'), ('children', 'NOUN', 'child', 'N'), ('Bob', 'PROPN', 'bob', 'P'), ('them', 'PRON', 'they', 'O'),
          ('34', 'NUM', '34', 'U'), ('#OnSale', 'SYM', '#onsale', 'S'), ('me', 'PRON', 'i', 'O'), ('cities', 'NOUN', 'city', 'N')]
_VERBS = [('ate', 'eat', 'eaten'), ('stopped', 'stop', 'stopped'), ('carried', 'carry', 'carried'), ('loves', 'love', 'loved')]
_ADJS = [('bigger', 'big', 'A', None), ('happy', 'happy', 'A', None), ('broken', 'broken', 'L', 'break'), ('loved', 'loved', 'L', 'love')]


class _Builder(object):
    """Words are added from left to right; parents can be set later"""

    def __init__(self):
        self.words = []

    def add(self, word, tag, dep, parent=None):
        self.words.append([word, tag, dep, parent])
        return len(self.words) - 1

    def set(self, idx, parent):
        self.words[idx][3] = parent

    def group(self, members, dep):
        """Coordinated members: list of (word, tag, negated). Returns index of the first one."""
        first = None
        for k, (word, tag, negated, conj) in enumerate(members):
            neg = self.add('not', 'ADV', 'NEG') if negated else None
            idx = self.add(word, tag, dep if first is None else conj, first)
            if neg is not None:
                self.set(neg, idx)
            if first is None:
                first = idx
        return first

    def tuples(self):
        return [(w, t, d, -1 if p is None else p) for w, t, d, p in self.words]


def _aff(*negated):
    return sum(negated) % 2 == 0


def _group(items, chosen):
    """chosen: list of (rank, negated, is or) => words to add, and (canon, code, negated)"""
    return ([(items[r][0], items[r][1], n, 'OR' if o else 'AND') for r, n, o in chosen],
            [(items[r][2], items[r][3], n) for r, n, o in chosen])


def template(value, obs):
    kind, subjs, verb, verb_neg, objs, adjs, verb_2, neg_2 = value
    b = _Builder()
    subj_words, subj_refs = _group(_NOUNS, subjs)
    obj_words, obj_refs = _group(_NOUNS, objs)
    word, lemma, pp = _VERBS[verb]
    word_2, lemma_2, pp_2 = _VERBS[verb_2]
    adj_words = [(_ADJS[r][0], 'ADJ', n, 'OR' if o else 'AND') for r, n, o in adjs]
    adj_refs = [(_ADJS[r][1], _ADJS[r][2], _ADJS[r][3], n) for r, n, o in adjs]
    want = []

    def verb_of(dep, subj, text, negated):
        neg = b.add("n't", 'ADV', 'NEG') if negated else None
        v = b.add(text, 'VERB', dep)
        if neg is not None:
            b.set(neg, v)
        if subj is not None:
            b.set(subj, v)
        return v

    def passives(verb_neg_, pp_, subj_negs):
        for o, oc, on in obj_refs:
            all_negative = bool(subj_negs) and all(subj_negs)
            want.append(((o, oc, True), ('be', 'C', _aff(verb_neg_, on, all_negative)), (pp_, 'L', True)))

    if kind == 'transitive':
        s = b.group(subj_words, 'SUBJ')
        v = verb_of('ROOT', s, word, verb_neg)
        b.set(b.group(obj_words, 'OBJ'), v)
        for s_, sc, sn in subj_refs:
            for o, oc, on in obj_refs:
                want.append(((s_, sc, True), (lemma, 'T', _aff(sn, verb_neg, on)), (o, oc, True)))
        passives(verb_neg, pp, [n for _, _, n in subj_refs])
    elif kind == 'intransitive':
        s = b.group(subj_words, 'SUBJ')
        verb_of('ROOT', s, word, verb_neg)
        want += [((s_, sc, True), (lemma, 'I', _aff(sn, verb_neg))) for s_, sc, sn in subj_refs]
    elif kind == 'shared':  # They ate and carried dogs / they ate and n't stopped
        s = b.group(subj_words, 'SUBJ')
        v = verb_of('ROOT', s, word, verb_neg)
        v2 = b.add(word_2, 'VERB', 'AND', v)
        if neg_2:
            b.add('not', 'ADV', 'NEG', v2)
        b.set(b.group(obj_words, 'OBJ'), v)
        for s_, sc, sn in subj_refs:
            for o, oc, on in obj_refs:
                want.append(((s_, sc, True), (lemma, 'T', _aff(sn, verb_neg, on)), (o, oc, True)))
                if not neg_2:
                    want.append(((s_, sc, True), (lemma_2, 'T', _aff(sn, on)), (o, oc, True)))
            if neg_2:  # It has a child of its own: objects are not shared
                want.append(((s_, sc, True), (lemma_2, 'I', _aff(sn, neg_2))))
        passives(verb_neg, pp, [n for _, _, n in subj_refs])
        if not neg_2:
            passives(False, pp_2, [n for _, _, n in subj_refs])
    elif kind == 'copula':
        s = b.group(subj_words, 'SUBJ')
        v = verb_of('ROOT', s, 'was', verb_neg)
        b.set(b.group(adj_words, 'PROP'), v)
        for s_, sc, sn in subj_refs:
            for a, ac, _, an in adj_refs:
                want.append(((s_, sc, True), ('be', 'C', _aff(sn, verb_neg, an)), (a, ac, True)))
    elif kind == 'passive':  # Dogs were loved by children
        s = b.group(subj_words, 'SUBJ')
        v = verb_of('ROOT', s, 'were', verb_neg)
        a = b.group(adj_words[:1], 'PROP')
        b.set(a, v)
        by = b.add('by', 'PREP', 'MARK')
        o = b.group(obj_words, 'CPL')
        b.set(by, o)
        b.set(o, a)
        adj, ac, active, an = adj_refs[0]
        for s_, sc, sn in subj_refs:
            want.append(((s_, sc, True), ('be', 'C', _aff(sn, verb_neg, an)), (adj, ac, True)))
            if active:
                for o_, oc, on in obj_refs:
                    want.append(((o_, oc, True), (active, 'T', _aff(on, an, sn, verb_neg)), (s_, sc, True)))
    elif kind == 'relative':  # Children that ate dogs [slept]
        n = b.add(subj_words[0][0], subj_words[0][1], 'ROOT')
        who = b.add('that', 'PRON', 'SUBJ')
        v = verb_of('CPL', who, word, verb_neg)
        b.set(v, n)
        b.set(b.group(obj_words, 'OBJ'), v)
        s_, sc, _ = subj_refs[0]
        for o, oc, on in obj_refs:
            want.append(((s_, sc, True), (lemma, 'T', _aff(verb_neg, on)), (o, oc, True)))
        passives(verb_neg, pp, [False])
    elif kind == 'clause':  # Dogs loves children carried cities
        s = b.group(subj_words, 'SUBJ')
        v = verb_of('ROOT', s, word, verb_neg)
        s2 = b.group(subj_words, 'SUBJ')
        v2 = verb_of('OBJ', s2, word_2, neg_2)
        b.set(v2, v)
        b.set(b.group(obj_words, 'OBJ'), v2)
        for s_, sc, sn in subj_refs:
            for s2_, s2c, s2n in subj_refs:
                for o, oc, on in obj_refs:
                    want.append(((s_, sc, True), (lemma, 'T', _aff(sn, verb_neg, s2n, neg_2, on)), (s2_, s2c, True), (lemma_2, 'T', True),
                                 (o, oc, True)))
        passives(neg_2, pp_2, [n for _, _, n in subj_refs])
    elif kind == 'adjectives':  # Not happy and bigger dogs
        adj = b.group(adj_words, 'CPL')
        n = b.add(subj_words[0][0], subj_words[0][1], 'ROOT')
        b.set(adj, n)
        s_, sc, _ = subj_refs[0]
        for a, ac, _, an in adj_refs:
            want.append(((s_, sc, True), ('be', 'C', _aff(an)), (a, ac, True)))
    elif kind == 'reflexive':  # Dogs loves themselves
        s = b.group(subj_words, 'SUBJ')
        v = verb_of('ROOT', s, word, verb_neg)
        b.add('themselves', 'PRON', 'OBJ', v)
        for s_, sc, sn in subj_refs:
            for o, oc, on in subj_refs:
                want.append(((s_, sc, True), (lemma, 'T', _aff(sn, verb_neg, on)), (o, oc, True)))
        obj_refs = subj_refs
        passives(verb_neg, pp, [n for _, _, n in subj_refs])
    elif kind == 'recipient':
        s = b.group(subj_words, 'SUBJ')
        v = verb_of('ROOT', s, word, verb_neg)
        b.set(b.group(obj_words, 'IOBJ'), v)
        for s_, sc, sn in subj_refs:
            want.append(((s_, sc, True), (lemma, 'I', _aff(sn, verb_neg))))
            for o, oc, on in obj_refs:
                want.append(((s_, sc, True), (lemma, 'R', _aff(sn, verb_neg, on)), (o, oc, True)))
    elif kind == 'particle':
        s = b.group(subj_words, 'SUBJ')
        v = verb_of('ROOT', s, word, verb_neg)
        b.add('Up', 'FRAG', 'PART', v)
        b.set(b.group(obj_words, 'OBJ'), v)
        b.add('with', 'FRAG', 'PART', v)
        for s_, sc, sn in subj_refs:
            for o, oc, on in obj_refs:
                want.append(((s_, sc, True), (lemma + ' up with', 'T', _aff(sn, verb_neg, on)), (o, oc, True)))
        passives(verb_neg, pp + ' up with', [n for _, _, n in subj_refs])
    compare(b.tuples(), True, want)
    obs.label(kind)
    if len(want) > 1:
        obs.nontrivial(value)


_KINDS = ['transitive', 'intransitive', 'shared', 'copula', 'passive', 'relative', 'clause', 'adjectives', 'reflexive', 'recipient', 'particle']


def _templates(tape):
    def some(items, most=3):
        return [(tape.below(len(items)), not tape.below(4) == 0 and tape.chance(40), tape.chance(40)) for _ in range(tape.between(1, most))]

    return (tape.pick(_KINDS), some(_NOUNS), tape.below(len(_VERBS)), tape.chance(40), some(_NOUNS), some(_ADJS), tape.below(len(_VERBS)),
            tape.chance(40))


def _large():
    """Long compounds, many members, many objects, clauses in clauses"""
    out = []
    for nb in (4, 6, 8, 11, 16):
        words = ['dogs', 'city', 'child', 'house', 'box']
        verb = nb
        chain = [(words[i % 5], 'NOUN', 'CPL', i + 1) for i in range(nb - 1)]
        star = [(words[i % 5], 'NOUN', 'CPL', nb - 1) for i in range(nb - 1)]
        for compound in (chain, star):
            out.append(compound + [('box', 'NOUN', 'SUBJ', verb), ('ate', 'VERB', 'ROOT', -1)])
        out.append([('Bob', 'PROPN', 'SUBJ', 1), ('ate', 'VERB', 'ROOT', -1), ('dogs', 'NOUN', 'OBJ', 1)] + [(words[i % 5], 'NOUN', 'AND', 2) for i in range(nb)])
        out.append([('Bob', 'PROPN', 'SUBJ', 1), ('ate', 'VERB', 'ROOT', -1)] + [(words[i % 5], 'NOUN', 'OBJ', 1) for i in range(nb)])
        out.append([('Bob', 'PROPN', 'SUBJ', 1), ('ate', 'VERB', 'ROOT', -1)] + [(('ate', 'loves', 'carried')[i % 3], 'VERB', 'AND', 1) for i in range(nb)])
        out.append([('happy', 'ADJ', 'CPL', nb)] * nb + [('dogs', 'NOUN', 'ROOT', -1)])
    return [(tuples, [], chunk) for tuples in out for chunk in (True, False)]


SCALE = 4
CASES = [
    Case('templates', lambda: taped(_templates, 12, 60), template, quick=1500),
    Case('small', lambda: taped(_with(lambda t: semgen.grammatical(t, 7))), facts, quick=1500, examples=_large),
    Case('grammar', lambda: taped(_with(lambda t: semgen.grammatical(t, 24)), 80, 200), facts, quick=2000),
    Case('shaken', lambda: taped(_with(lambda t: semgen.shaken(t, semgen.grammatical(t, t.pick([6, 12, 20])))), 60, 200), facts, quick=2500),
    Case('long', lambda: taped(_with(lambda t: semgen.shaken(t, semgen.grammatical(t, 48)) if t.below(2) else semgen.grammatical(t, 48)), 200, 500),
         facts, quick=100),
    Case('usual', lambda: taped(_with(lambda t: semgen.labelled_tree(t, 12, 90)), 60, 160), facts, quick=700),
    Case('odd', lambda: taped(_with(lambda t: semgen.labelled_tree(t, 10, 40)), 60, 160), facts, quick=700),
]
