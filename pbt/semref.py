"""Reference model of the grouping of words and of the extraction of semantic tuples.
A labelled sentence is a list of (token, tag, dep, parent idx). Everything is expressed as relations that are looked up ("who are the subjects of
this verb?"), where the library registers arguments while it walks through the tree.
A tuple is given as ((word, code, is affirmative), ...).
"""
from pbt import normref
from pbt.core import HarnessError

NOUNS = ('NOUN', 'PROPN', 'PRON', 'SYM', 'NUM')
PROPS = NOUNS + ('ADJ',)
FUNCTIONAL = ('ART', 'AUX', 'CMARK', 'NEG', 'INTJ', 'MARK', 'IMARK', 'PART', 'MODAL')
MARKERS = ('MARK', 'CMARK', 'IMARK')
RELATIVE = ('that', 'which', 'who')
REFLEXIVE = ('myself', 'yourself', 'yourselves', 'himself', 'herself', 'itself', 'ourself', 'ourselves', 'theirself', 'themselves',
             'oneself')
SUBJECT_FORM = {'me': 'i', 'her': 'she', 'him': 'he', 'us': 'we', 'them': 'they'}
CODES = {'NOUN': 'N', 'PROPN': 'P', 'PRON': 'O', 'NUM': 'U', 'SYM': 'S'}


class Unit(object):

    def __init__(self, idx, text, tag):
        self.idx = idx  # Last token of the unit
        self.text = text
        self.tag = tag
        self.particles = []
        self.infinitive = False
        self.parent = None  # (dep, unit)
        self.children = []  # [(dep, unit)]

    def __repr__(self):
        return '%s/%s@%d' % (self.text, self.tag, self.idx)

    @property
    def functional(self):
        return self.parent is not None and self.parent[0] in FUNCTIONAL

    def via(self, *deps):
        return [c for d, c in self.children if d in deps]

    def first(self, dep):
        found = self.via(dep)
        return found[0] if found else None


def tidy(tuples):
    """Makes names proper chains without other dependents, and particles leaves: other shapes have no specified grouping"""
    tuples = [list(t) for t in tuples]

    def children(i):
        return [c for c, t in enumerate(tuples) if t[3] == i]

    changed = True
    while changed:
        changed = False
        for i, t in enumerate(tuples):
            bad = False
            if t[2] == 'FLAT':
                bad = any(tuples[c][2] != 'FLAT' for c in children(i)) or \
                    any(c < i and tuples[c][2] == 'FLAT' for c in children(t[3]))
            elif t[2] == 'PART':
                bad = bool(children(i)) or any(tuples[c][2] == 'FLAT' for c in children(t[3])) or tuples[t[3]][2] == 'FLAT'
            if bad:
                t[2] = 'CPL'
                changed = True
    return [tuple(t) for t in tuples]


def group(tuples):
    """Returns all the units (functional ones included), by first token"""
    kids = {i: [c for c, t in enumerate(tuples) if t[3] == i] for i in range(len(tuples))}
    root = [i for i, t in enumerate(tuples) if t[2] == 'ROOT'][0]
    inside = [i for i, t in enumerate(tuples) if i == root or t[3] >= 0]
    if len(inside) == 1:
        return {root: Unit(root, tuples[root][0], tuples[root][1])}
    units = {}
    for i in inside:
        if tuples[i][2] in ('FLAT', 'PART'):
            continue
        words = [i]
        while [c for c in kids[words[-1]] if tuples[c][2] == 'FLAT']:
            words.append([c for c in kids[words[-1]] if tuples[c][2] == 'FLAT'][0])
        unit = Unit(words[-1], ' '.join(tuples[w][0] for w in words), tuples[words[-1]][1])
        for p in kids[i]:
            if tuples[p][2] == 'PART':
                if p > i:
                    unit.particles.append(tuples[p][0].lower())
                elif tuples[p][0].lower() == 'to':
                    unit.infinitive = True
        units[i] = unit
    for i, unit in units.items():
        for c in kids[i]:
            if c in units:
                unit.children.append((tuples[c][2], units[c]))
                units[c].parent = (tuples[c][2], unit)
    return units


def only(answers, what):
    if len(answers) != 1:
        raise HarnessError('ambiguous reference for %r: %r' % (what, answers))
    return list(answers)[0]


class Reference(object):

    def __init__(self, lm, tables, adjs, nouns):
        self.lm = lm
        self.adjs = adjs
        self.nouns = nouns
        self.lemma = normref.LemmaRef(lm, adjs, *[tables[n] for n in (
            'irregular_preterits', 'irregular_past_participles', 'irregular_plurals', 'irregular_comparatives',
            'irregular_superlatives')])
        self.participles = {}
        for pp, lemma in tables['irregular_past_participles'].items():
            self.participles[lemma] = pp

    def participle(self, lemma):
        return only(normref.past_participle(self.lm, self.participles, lemma), lemma)

    def __call__(self, tuples, chunk=True):
        """Returns list of tuples"""
        if not any(t[2] == 'ROOT' for t in tuples):
            return []
        units = list(group(tuples).values())
        self.normalize([u for u in units if not u.functional], [u for u in units if u.functional], chunk)
        return _Facts(units, self.participle).all()

    def normalize(self, nodes, functional, chunk):
        for u in functional:
            u.lemma = u.canon = u.text.lower()
            u.active = None
        for u in nodes:
            u.standard = only(normref.standardize(self.lm, u.text.lower()), u.text)
            u.lemma = only(self.lemma(u.standard, u.tag), (u.standard, u.tag))[0]
            u.active = None
        fixed = {}
        for u in nodes:
            if u.children or u.parent is None:
                continue
            dep, parent = u.parent
            if dep in ('PROP', 'IPROP') or (dep == 'CPL' and parent.tag in NOUNS):
                if u.tag in NOUNS and u.lemma in self.adjs:
                    fixed[u] = 'ADJ'
                elif u.tag == 'ADJ' and u.lemma in self.nouns:
                    fixed[u] = 'NOUN'
        for u, tag in fixed.items():
            u.tag = tag
        for u in nodes:
            if u.tag == 'PRON':
                u.canon = SUBJECT_FORM.get(u.lemma, u.lemma)
            elif u.tag == 'NOUN' and chunk and not self.is_modifier(u):
                members, todo = [u], [u]
                while todo:
                    head = todo.pop()
                    new = [c for c in head.via('CPL') if c in nodes and self.is_modifier(c)]
                    members += new
                    todo += new
                u.canon = ' '.join(m.lemma for m in sorted(members, key=lambda m: m.idx))
            elif u.tag in ('VERB', 'ADJ'):
                u.canon = ' '.join([u.lemma] + u.particles)
                if u.tag == 'ADJ':
                    verb, suffix = only(self.lemma(u.standard, 'VERB'), (u.standard, 'VERB'))
                    if suffix == 'PAST':
                        u.active = ' '.join([verb] + u.particles)
            else:
                u.canon = u.lemma

    @staticmethod
    def is_modifier(u):
        """Noun in front of the noun it complements"""
        if u.tag not in NOUNS or u.parent is None or u.via(*MARKERS):
            return False
        dep, parent = u.parent
        return dep == 'CPL' and parent.tag in NOUNS and u.idx < parent.idx


class _Facts(object):

    def __init__(self, units, participle):
        self.units = units
        self.nodes = [u for u in units if not u.functional]
        self.participle = participle

    # RELATIONS
    # -------------------------------------------------------------------------->

    def linked(self, parent, dep):
        """Meaningful units attached to a parent"""
        return [u for u in self.nodes if u.parent is not None and u.parent[1] is parent and u.parent[0] == dep]

    def conjuncts(self, u):
        return [] if u.functional else u.via('AND') + u.via('OR')

    def all_of(self, u):
        return [u] + self.conjuncts(u)

    def affirmative(self, u):
        return u.functional or not u.via('NEG')

    def antecedent(self, verb, pron):
        """Noun that a relative pronoun stands for"""
        if verb.parent is None or verb.via(*MARKERS):
            return None
        dep, noun = verb.parent
        if dep == 'CPL' and noun.tag in NOUNS and pron.tag == 'PRON' and pron.canon in RELATIVE:
            return noun
        return None

    def subject_meant(self, verb, subj):
        found = self.antecedent(verb, subj)
        if found is None and subj.canon in REFLEXIVE and verb.parent is not None and verb.parent[0] == 'OBJ' \
                and verb.parent[1].tag == 'VERB':
            found = verb.parent[1].first('SUBJ')
        return found or subj

    def object_meant(self, verb, obj):
        found = self.antecedent(verb, obj)
        if found is None and obj.canon in REFLEXIVE:
            found = verb.first('SUBJ')
        return found or obj

    def own_subjects(self, verb):
        out = [x for s in self.linked(verb, 'SUBJ') for x in self.all_of(self.subject_meant(verb, s))]
        if not verb.functional and verb.parent is not None and verb.parent[0] == 'CPL' and verb.tag == 'VERB' and verb.via('MARK') \
                and verb.parent[1].tag == 'VERB' and not verb.via('SUBJ') and verb.parent[1].via('SUBJ'):
            out += self.all_of(verb.parent[1].first('SUBJ'))  # I ate but did not drink
        return out

    def shared(self, own, u, allowed):
        out = own(u)
        if u.parent is not None and u.parent[0] in ('AND', 'OR') and not u.parent[1].functional and allowed:
            out = out + own(u.parent[1])
        return out

    def subjects(self, verb):
        return self.shared(self.own_subjects, verb, not verb.via('SUBJ'))

    def own_objects(self, verb):
        out = [x for o in self.linked(verb, 'OBJ') for x in self.all_of(self.object_meant(verb, o))]
        if not verb.functional and verb.parent is not None and verb.parent[0] == 'CPL' and not verb.via(*MARKERS) and not verb.via('OBJ') \
                and verb.parent[1].tag in NOUNS and verb.via('SUBJ') and verb.first('SUBJ').canon not in RELATIVE:
            out += self.all_of(verb.parent[1])  # The apple I ate
        return out

    def objects(self, verb):
        return self.shared(self.own_objects, verb, not verb.children)

    def others(self, verb, dep):
        """Recipients, properties, indirect properties, existences"""
        return [x for u in self.linked(verb, dep) for x in self.all_of(u)]

    def plain(self, verb):
        """Neither copula, nor with indirect property or existence"""
        return not any(self.linked(verb, dep) for dep in ('PROP', 'IPROP', 'EXIST'))

    def adjectives(self, noun):
        out = [x for a in self.linked(noun, 'CPL') if a.tag == 'ADJ' and not a.via('MARK') for x in self.all_of(a)]
        if not noun.functional and noun.parent is not None and noun.parent[0] == 'CPL' and noun.via('CMARK') and noun.tag in NOUNS \
                and noun.parent[1].tag == 'ADJ':
            out += self.all_of(noun.parent[1])  # Bigger than a dog
        return out

    def agents(self, adj):
        if adj.parent is None or adj.parent[0] not in ('PROP', 'CPL'):
            return []
        return [x for u in self.linked(adj, 'CPL') if u.via('MARK') and u.first('MARK').canon == 'by' for x in self.all_of(u)]

    # FACTS
    # -------------------------------------------------------------------------->

    def polarity(self, *units):
        """Negative if an odd number of members is"""
        return sum(not self.affirmative(u) for u in units) % 2 == 0

    @staticmethod
    def noun(u):
        return u.canon, CODES.get(u.tag, 'N'), True

    @staticmethod
    def property(u):
        if u.tag == 'ADJ':
            return u.canon, 'L' if u.active else 'A', True
        return u.canon, CODES.get(u.tag, 'N'), True

    def passive(self, verb):
        return ' '.join([self.participle(verb.lemma)] + verb.particles)

    def all(self):
        out = []
        in_clauses = set()
        verbs = [u for u in self.nodes if u.tag == 'VERB']
        nouns = lambda units: [u for u in units if u.tag in NOUNS]
        # Verb with a clause as object
        for verb in verbs:
            if verb.infinitive or not self.plain(verb):
                continue
            for subj in nouns(self.subjects(verb)):
                for clause in [o for o in self.objects(verb) if o.tag == 'VERB']:
                    in_clauses.add(clause)
                    for subj_2 in nouns(self.subjects(clause)) if self.subjects(clause) else [subj]:
                        members = [subj, verb, subj_2, clause]
                        tails = []
                        if self.plain(clause):
                            if not self.objects(clause) and clause.canon not in ('have', 'get', 'be', 'do'):
                                tails.append(('I', None))
                            tails += [('T', o) for o in nouns(self.objects(clause))]
                        tails += [('C', p) for p in self.others(clause, 'PROP')]
                        for code, tail in tails:
                            aff = self.polarity(*members + ([tail] if tail else []))
                            fact = [self.noun(subj), (verb.canon, 'T', aff), self.noun(subj_2), (clause.canon, code, True)]
                            if tail:
                                fact.append(self.property(tail) if code == 'C' else self.noun(tail))
                            out.append(tuple(fact))
        for u in self.nodes:
            if u in in_clauses:
                continue
            if u.tag == 'VERB' and not u.infinitive and self.plain(u):
                subjs = nouns(self.subjects(u))
                for subj in subjs:
                    if not self.objects(u) and u.canon not in ('have', 'get', 'be', 'do'):
                        out.append((self.noun(subj), (u.canon, 'I', self.polarity(subj, u))))
                    for obj in nouns(self.objects(u)):
                        out.append((self.noun(subj), (u.canon, 'T', self.polarity(subj, u, obj)), self.noun(obj)))
                    for iobj in nouns(self.others(u, 'IOBJ')):
                        out.append((self.noun(subj), (u.canon, 'R', self.polarity(subj, u, iobj)), self.noun(iobj)))
            if u.tag in NOUNS:
                out += self.properties(u)
        # Objects
        for verb in verbs:
            if self.plain(verb) and verb.canon not in ('have', 'get'):
                subjs = self.subjects(verb)
                for obj in nouns(self.objects(verb)):
                    aff = self.polarity(verb, obj)
                    if subjs and not any(self.affirmative(s) for s in subjs):
                        aff = not aff
                    out.append((self.noun(obj), ('be', 'C', aff), (self.passive(verb), 'L', True)))
        return out

    def properties(self, noun):
        out = []

        def active(adj, *others):
            if adj.tag == 'ADJ' and adj.active:
                for agent in [a for a in self.agents(adj) if a.tag in NOUNS]:
                    out.append((self.noun(agent), (adj.active, 'T', self.polarity(agent, adj, noun, *others)), self.noun(noun)))

        for verb in self.units:
            # Copula
            subj = verb.first('SUBJ')
            if subj is not None:
                meant = self.antecedent(verb, subj) or subj
                times = self.all_of(meant).count(noun)
                for p in self.others(verb, 'PROP') * times:
                    if p.tag in PROPS and not p.via(*MARKERS):
                        out.append((self.noun(noun), (verb.canon, 'C', self.polarity(noun, verb, p)), self.property(p)))
                        active(p, verb)
            # They made him king
            obj = verb.first('OBJ')
            if obj is not None and noun in self.all_of(obj):
                for p in self.others(verb, 'IPROP'):
                    if p.tag in PROPS:
                        members = [verb, noun, p] + ([subj] if subj is not None else [])
                        out.append((self.noun(noun), ('be ' + self.passive(verb), 'C', self.polarity(*members)), self.property(p)))
        # A man named Bob
        for adj in self.linked(noun, 'CPL'):
            if adj.tag == 'ADJ' and not adj.via('MARK') and adj.active and adj.via('PROP'):
                for p in self.all_of(adj.first('PROP')):
                    if p.tag in PROPS:
                        out.append((self.noun(noun), ('be ' + adj.canon, 'C', self.polarity(noun, adj, p)), self.property(p)))
        for adj in self.adjectives(noun):
            code = 'L' if adj.active else 'A'
            out.append((self.noun(noun), ('be', 'C', self.polarity(noun, adj)), (adj.canon, code, True)))
            active(adj)
        return out
