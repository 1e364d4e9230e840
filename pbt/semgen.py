"""Labelled sentences: words, a language model that knows their base forms, trees with plausible labels"""
from pbt import env, semref
from pbt.props import c16

_LEMMAS = ['dog', 'city', 'child', 'color', 'company', 'insurance', 'apple', 'house', 'knife', 'oil', 'king', 'wolf', 'boss', 'gold',
           'eat', 'stop', 'love', 'carry', 'make', 'name', 'call', 'sleep', 'have', 'get', 'be', 'do', 'want', 'say', 'find', 'plan',
           'give', 'run', 'big', 'happy', 'tired', 'nice', 'broken', 'loved', 'red', 'named', 'break', 'tire', 'organize', 'good',
           'planned', 'stopped', 'clear', 'human', 'travel', 'traveling', 'organized', 'colored', 'wash', 'dress', 'like']
LM = {w: (9, round(.002 + .0007 * i, 6)) for i, w in enumerate(_LEMMAS)}
LM.update({'colour': (2, .0001), 'organise': (1, .0002), 'they break': (9, .3), 'they make': (9, .2)})

WORDS = {
    'NOUN': ['dog', 'dogs', 'city', 'cities', 'child', 'children', 'colour', 'color', 'company', 'insurance', 'apples', 'house', 'houses',
             'knives', 'Oil', 'king', 'wolves', 'boss', 'gold', 'red', 'human', 'X-ray', 'travel', 'run', 'dress'],
    'PROPN': ['Bob', 'Paris', 'Anna', 'York', 'New', 'Dogs', 'Heritage', 'Auctions', 'US', 'Her', 'us'],
    'PRON': ['I', 'me', 'you', 'her', 'him', 'us', 'them', 'they', 'he', 'she', 'it', 'that', 'which', 'who', 'himself', 'themselves', 'Myself',
             'itself', 'someone', 'Who', 'this', 'her', 'yourself', 'yourselves', 'herself', 'ourself', 'ourselves', 'theirself', 'oneself', 'You', 'Her',
             'THEM', 'Themselves', 'THAT', 'Which', 'we', 'We', 'hers', 'his', 'whom', 'whose', 'what', 'each'],
    'NUM': ['34', '175', 'two', '3.5'],
    'SYM': ['#OnSale', 'mysite.com', '$'],
    'VERB': ['eat', 'ate', 'eaten', 'eats', 'eating', 'stop', 'stopped', 'stopping', 'love', 'loved', 'carry', 'carried', 'make', 'made', 'named',
             'name', 'call', 'calls', 'sleep', 'slept', 'have', 'has', 'had', 'get', 'got', 'be', 'is', 'was', "'s", 'are', 'do', 'did', 'want',
             'wants', 'say', 'said', 'find', 'found', 'organised', 'organizes', 'planned', 'give', 'gave', 'Run', 'ran', 'travelling', 'wash',
             'dressed', 'liked', 'broke'],
    'ADJ': ['big', 'bigger', 'biggest', 'happy', 'happier', 'tired', 'nice', 'broken', 'loved', 'named', 'made', 'stopped', 'planned', 'red',
            'better', 'gold', 'human', 'eaten', 'called', 'organised', 'Carried', 'coloured', 'clear', 'found', 'given'],
    'ADV': ['not', "n't", 'never', 'very', 'well', 'at', 'all'],
    'PREP': ['by', 'of', 'in', 'with', 'By', 'than', 'to'],
    'CONJ': ['that', 'but', 'because', 'and', 'or', 'if'],
    'DET': ['the', 'a', 'no', 'his'],
    'MAT': ['will', 'did', 'has', 'can'],
    'FRAG': ['to', 'up', 'down', 'with', 'Off', 'To'],
    'EXPR': ['oh', 'please'],
    'PUNCT': ['.', ',', '"', '-'],
    'THERE': ['there', 'here'],
}
TAG_WEIGHTS = ['NOUN'] * 5 + ['VERB'] * 5 + ['ADJ'] * 4 + ['PRON'] * 4 + ['PROPN'] * 2 + ['NUM', 'SYM', 'ADV', 'PREP', 'CONJ', 'DET', 'THERE']
TREE_DEPS = ['AND', 'ART', 'AUX', 'CALLEE', 'CMARK', 'CPL', 'EXIST', 'FLAT', 'IMARK', 'INTJ', 'IOBJ', 'IPROP', 'MARK', 'MODAL', 'NEG', 'OBJ', 'OR',
             'ORPHAN', 'PART', 'PROP', 'SPLIT', 'SUBJ']
# Usual words of functional dependencies: dep => tag
_FIXED_TAGS = {'ART': 'DET', 'AUX': 'MAT', 'CMARK': 'PREP', 'INTJ': 'EXPR', 'MARK': 'PREP', 'IMARK': 'PREP', 'MODAL': 'MAT', 'NEG': 'ADV',
               'PART': 'FRAG'}
# parent tag => usual deps
_USUAL = {
    'VERB': ['SUBJ'] * 5 + ['OBJ'] * 5 + ['PROP'] * 2 + ['CPL'] * 3 + ['AND', 'AND', 'OR', 'NEG', 'NEG', 'PART', 'PART', 'MARK', 'IOBJ', 'IPROP', 'AUX',
                                                                      'MODAL', 'EXIST', 'IMARK'],
    'NOUN': ['CPL'] * 7 + ['AND', 'OR', 'NEG', 'ART', 'MARK', 'FLAT', 'CMARK', 'PROP'],
    'ADJ': ['CPL'] * 4 + ['AND', 'OR', 'NEG', 'MARK', 'PROP', 'PART', 'CMARK'],
}

_STATE = {}


def _wide():
    """Words of the data files: tag => words whose base form leaves no doubt"""
    if 'wide' not in _STATE:
        ref, tables = reference(), c16.tables()
        forms = lambda *names: {w for n in names for pair in tables['irregular_' + n].items() for w in pair}
        verbs, nouns = forms('preterits', 'past_participles'), ref.nouns | forms('plurals')
        adjs = ref.adjs | forms('comparatives', 'superlatives')
        _STATE['wide'] = {}
        for tag, words in (('VERB', verbs), ('NOUN', nouns | ref.adjs), ('ADJ', adjs | verbs | ref.nouns)):
            kept = []
            for word in sorted(w for w in words if len(w.split()) == 1):
                try:
                    standard = semref.only(semref.normref.standardize(LM, word), word)
                    lemmas = [semref.only(ref.lemma(standard, t), word)[0] for t in (tag, 'VERB', 'NOUN', 'ADJ')]
                    for lemma in lemmas:
                        ref.participle(lemma)
                    kept.append(word)
                except semref.HarnessError:
                    pass
            _STATE['wide'][tag] = kept
    return _STATE['wide']


IS_WIDE = [True]  # Words of the data files are used too
IS_ODD = [True]  # A few words have another tag than usual


def any_word(tape, tag):
    if IS_WIDE[0] and tag in ('VERB', 'NOUN', 'ADJ') and tape.chance(20):
        word = tape.pick(_wide()[tag])
        return word.capitalize() if tape.chance(10) else word
    if IS_WIDE[0] and IS_ODD[0] and tape.chance(4):
        word = tape.pick(WORDS[tape.pick(_CONTENT)])  # A word that usually is something else
        return word if is_clear(word, tag) else tape.pick(WORDS[tag])
    return tape.pick(WORDS[tag])


_CONTENT = ['NOUN', 'VERB', 'ADJ', 'PRON', 'PROPN', 'ADV', 'DET', 'PREP']


def is_clear(word, tag):
    """The base forms of the word leave no doubt, also when it is taken for an adjective, a noun or a participle"""
    clear = _STATE.setdefault('clear', {})
    if (word, tag) not in clear:
        ref = reference()
        try:
            standard = semref.only(semref.normref.standardize(LM, word.lower()), word)
            for t in {tag, 'VERB', 'NOUN', 'ADJ'}:
                ref.participle(semref.only(ref.lemma(standard, t), word)[0])
            clear[word, tag] = True
        except semref.HarnessError:
            clear[word, tag] = False
    return clear[word, tag]


def reference():
    if 'ref' not in _STATE:
        folder = env.use_private_data() / 'english'
        sets = {}
        for name in ('adjectives', 'nouns'):
            with open(folder / (name + '.txt'), encoding='utf-8') as reader:
                sets[name] = {line.strip() for line in reader}
        _STATE['ref'] = semref.Reference(LM, c16.tables(), sets['adjectives'], sets['nouns'])
    return _STATE['ref']


def pipeline():
    if 'pipe' not in _STATE:
        from scrappybara.pipeline.logic_pipeline import LogicPipeline
        env.use_private_data()
        _STATE['pipe'] = LogicPipeline(env.make_language_model(LM, 1, 1))
    return _STATE['pipe']


def read(stuples):
    """Library tuples => plain tuples"""
    return [tuple((a.word, a.code, a.is_affirmative) for a in t) for t in stuples]


def show(facts):
    return sorted('%s(%s)' % (''.join(c for _, c, _ in f), ', '.join(w if a else 'NOT ' + w for w, _, a in f)) for f in facts)


def logic(token_lists, tags, idx_trees, chunk, nb_processes=1):
    """Semantic tuples of parsed sentences: one list per sentence"""
    pipe = pipeline()
    if hasattr(pipe, '_logic_process'):
        return pipe._logic_process(token_lists, tags, idx_trees, chunk, nb_processes)[1]
    if 'steps' not in _STATE:
        _STATE['steps'] = _steps()
    nodify, standardize, lemmatize, fix, join, canonicalize, find_arg, extract_stuples = _STATE['steps']

    def one(pack):
        node_dict, node_tree = nodify(*pack)
        nodes = node_dict.values()
        for node in nodes:
            node.standard = standardize(node.standard)
            node.lemma, node.suffix = lemmatize(node.standard, node.tag)
        for node in nodes:
            fix(node, node_tree)
        if chunk:
            join(nodes, node_tree)
        for node in nodes:
            canonicalize(node)
        find_arg(nodes, node_tree)
        return extract_stuples(nodes)

    from scrappybara.utils.multithreading import run_multithreads
    return run_multithreads(list(zip(token_lists, tags, idx_trees)), one, nb_processes)


def _steps():
    """The steps of the logic pipeline one by one, in case that its inner method has another name"""
    from scrappybara.normalization.canonicalizer import Canonicalizer
    from scrappybara.normalization.lemmatizer import Lemmatizer
    from scrappybara.normalization.standardizer import Standardizer
    from scrappybara.semantics.semantic_tuple_extractor import SemanticTupleExtractor
    from scrappybara.syntax.arg_finder import ArgFinder
    from scrappybara.syntax.chunker import Chunker
    from scrappybara.syntax.fixer import Fixer
    from scrappybara.syntax.nodifier import Nodifier
    from scrappybara.utils.files import load_dict_from_txt_file, load_set_from_txt_file
    from scrappybara.utils.mutables import reverse_dict
    lm = env.make_language_model(LM, 1, 1)
    table = lambda name: load_dict_from_txt_file('english', 'irregular_%s.txt' % name)
    adjs, nouns = load_set_from_txt_file('english', 'adjectives.txt'), load_set_from_txt_file('english', 'nouns.txt')
    pps = table('past_participles')
    reversed_pps = reverse_dict(pps)
    lemmatize = Lemmatizer(lm, adjs, table('preterits'), pps, table('plurals'), table('comparatives'), table('superlatives'), reversed_pps)
    return Nodifier(), Standardizer(lm), lemmatize, Fixer(adjs, nouns), Chunker(), Canonicalizer(lemmatize), ArgFinder(), \
        SemanticTupleExtractor(lm, reversed_pps)


def extract(tuples, chunk=True):
    """Plain tuples that the library extracts from a labelled sentence"""
    from scrappybara.syntax.labelled_data import LabelledSentence
    sent = LabelledSentence(0, tuples)
    if chunk:
        return read(pipeline().test_sample(tuples))
    return read(logic([sent.tokens], [sent.tags], [sent.tree], False)[0])


def random_tree(tape, nb):
    """Parents (-1 for the root) of a projective tree"""
    parents = [-1] * nb

    def grow(start, end, parent):
        root = start + tape.below(end - start)
        parents[root] = parent
        for lo, hi in ((start, root), (root + 1, end)):
            while lo < hi:
                cut = tape.between(lo + 1, hi)
                grow(lo, cut, root)
                lo = cut

    grow(0, nb, -1)
    return parents


def _depth(parents, i):
    n = 0
    while parents[i] >= 0:
        i = parents[i]
        n += 1
    return n


def labelled_tree(tape, max_tokens=12, usual=90, any_parents=False, is_tidy=True):
    """Labelled sentence on a random tree. Usual: chances (%) to follow the usual labels under a parent."""
    nb = tape.between(1, max_tokens)
    if any_parents:  # Not projective
        parents = [-1] + [tape.below(i) for i in range(1, nb)]
        names = list(range(nb))
        for i in range(nb - 1, 0, -1):
            j = tape.below(i + 1)
            names[i], names[j] = names[j], names[i]
        moved = [-1] * nb
        for i, p in enumerate(parents):
            moved[names[i]] = names[p] if p >= 0 else -1
        parents = moved
    else:
        parents = random_tree(tape, nb)
    out = [None] * nb
    for i in sorted(range(nb), key=lambda k: _depth(parents, k)):
        parent = parents[i]
        if parent < 0:
            dep, tag = 'ROOT', tape.pick(['VERB'] * 6 + ['NOUN', 'ADJ'])
        elif tape.below(100) < usual:
            ptag = out[parent][1]
            dep = tape.pick(_USUAL.get('NOUN' if ptag in semref.NOUNS else ptag, ['CPL', 'AND', 'OR']))
            if dep in _FIXED_TAGS and i in parents:
                dep = 'CPL'
            if dep in ('AND', 'OR', 'FLAT'):
                tag = ptag
            elif dep in _FIXED_TAGS:
                tag = _FIXED_TAGS[dep]
            else:
                tag = tape.pick(TAG_WEIGHTS)
        else:
            dep, tag = tape.pick(TREE_DEPS), tape.pick(TAG_WEIGHTS)
        words = None
        if dep == 'MARK' and tape.below(2):
            words = ['by', 'By', 'by', 'but']
        elif dep == 'PART' and i < parent:
            words = ['to', 'To', 'up']
        out[i] = (tape.pick(words) if words else any_word(tape, tag), tag, dep, parent)
    return semref.tidy(out) if is_tidy else out


# GRAMMAR
# -------------------------------------------------------------------------->


class _Word(object):

    def __init__(self, word, tag, dep, before=(), after=()):
        self.word, self.tag, self.dep = word, tag, dep
        self.before = list(before)
        self.after = list(after)


def _flatten(root):
    """Labelled sentence of a tree of words"""
    out = []

    def walk(node):
        own = [walk(c) for c in node.before]
        idx = len(out)
        out.append([node.word, node.tag, node.dep, -1])
        own += [walk(c) for c in node.after]
        for c in own:
            out[c][3] = idx
        return idx

    walk(root)
    return [tuple(t) for t in out]


class Grammar(object):
    """Sentences that look like English syntax, with all the constructions that matter for extraction"""

    def __init__(self, tape, max_words=24):
        self.tape = tape
        self.left = max_words

    def word(self, tag, dep, words=None):
        self.left -= 1
        return _Word(self.tape.pick(words) if words else any_word(self.tape, tag), tag, dep)

    def negate(self, node, percent=20):
        if self.left > 0 and self.tape.chance(percent):
            neg = self.word('ADV', 'NEG', ['not', "n't", 'never', 'no'])
            (node.before if self.tape.below(3) else node.after).append(neg)

    def conjuncts(self, node, make, percent=20):
        """Adds coordinated words"""
        while self.left > 0 and self.tape.chance(percent):
            other = make(self.tape.pick(['AND', 'OR']))
            node.after.append(other)
            percent = 25

    def noun(self, dep, depth, conj=True):
        t = self.tape
        tag = t.pick(['NOUN'] * 6 + ['PRON'] * 4 + ['PROPN'] * 2 + ['NUM', 'SYM'])
        if t.chance(12):
            return self.pronoun(dep)
        node = self.word(tag, dep)
        if tag == 'PROPN' and t.chance(50):
            last = node
            for _ in range(t.between(1, 2)):
                new = self.word('PROPN', 'FLAT')
                last.after.append(new)
                last = new
        if self.left <= 0:
            return node
        if t.chance(25):
            node.before.append(self.word('DET', 'ART'))
        if t.chance(35):
            node.before.append(self.adjective('CPL', depth + 1))
        if t.chance(30) and self.left > 0:
            node.before.append(self.modifier(depth + 1))
        self.negate(node, 12)
        if depth < 3 and self.left > 1:
            if t.chance(15):
                node.after.append(self.marked('CPL', depth + 1))
            if t.chance(20):
                node.after.append(self.relative(depth + 1))
            if t.chance(12):
                node.after.append(self.adjective('CPL', depth + 1))
        if conj:
            self.conjuncts(node, lambda d: self.noun(d, depth + 1, False))
        return node

    def pronoun(self, dep):
        return self.word('PRON', dep, ['I', 'me', 'her', 'him', 'us', 'them', 'that', 'who', 'himself', 'themselves', 'myself', 'itself', 'yourself', 'yourselves',
                                       'herself', 'ourself', 'ourselves', 'theirself', 'oneself', 'you', 'Himself', 'Us', 'which', 'whom'])

    def modifier(self, depth):
        node = self.word(self.tape.pick(['NOUN', 'NOUN', 'PROPN', 'NUM']), 'CPL')
        if depth < 4 and self.left > 0 and self.tape.chance(35):
            node.before.append(self.modifier(depth + 1))
        if self.left > 0 and self.tape.chance(8):
            node.before.append(self.word('PREP', 'MARK'))
        if depth < 4 and self.left > 1:
            if self.tape.chance(20):
                node.before.append(self.adjective('CPL', depth + 2))
            if self.tape.chance(8):
                node.after.append(self.relative(depth + 2))
            if self.tape.chance(8):
                node.after.append(self.word('NOUN', self.tape.pick(['AND', 'OR'])))
        return node

    def marked(self, dep, depth):
        """by someone, of something"""
        node = self.noun(dep, depth + 1)
        node.before.insert(0, self.word('PREP', self.tape.pick(['MARK', 'MARK', 'MARK', 'CMARK', 'IMARK']), ['by', 'by', 'By', 'of', 'than']))
        return node

    def adjective(self, dep, depth, conj=True):
        t = self.tape
        node = self.word('ADJ', dep)
        if self.left <= 0:
            return node
        self.negate(node, 15)
        if t.chance(20):
            node.after.append(self.word('FRAG', 'PART', ['up', 'down', 'with', 'Off']))
        if depth < 4 and self.left > 1:
            if t.chance(30):
                node.after.append(self.marked('CPL', depth + 1))
            if t.chance(20):
                node.after.append(self.noun('PROP', depth + 1) if t.below(2) else self.adjective('PROP', depth + 2))
        if conj:
            self.conjuncts(node, lambda d: self.adjective(d, depth + 1, False))
        return node

    def property(self, dep, depth):
        return self.adjective(dep, depth) if self.tape.below(2) else self.noun(dep, depth)

    def relative(self, depth):
        """the dog that eats, the dog I saw, the dog who is big"""
        return self.verb('CPL', depth, subj=self.tape.pick(['rel', 'noun', 'none', 'rel obj', 'rel', 'noun']))

    def verb(self, dep, depth, subj=None, conj=True):
        t = self.tape
        node = self.word('VERB', dep)
        if subj is None:
            subj = t.pick(['noun', 'noun', 'noun', 'none', 'refl'])
        marked = self.left > 0 and depth and t.chance(20)
        if marked:
            node.before.append(self.word(t.pick(['CONJ', 'PREP']), t.pick(['MARK', 'MARK', 'IMARK', 'CMARK']), ['but', 'that', 'by', 'because']))
        rel = ['that', 'which', 'who', 'Who']
        if subj == 'rel':
            node.before.append(self.word('PRON', 'SUBJ', rel))
        elif subj == 'rel obj':
            node.before.append(self.word('PRON', 'OBJ', rel))
            node.before.append(self.noun('SUBJ', depth + 1))
        elif subj == 'refl':
            node.before.append(self.pronoun('SUBJ'))
        elif subj == 'noun' and self.left > 0:
            node.before.append(self.noun('SUBJ', depth + 1))
        if self.left > 0 and t.chance(15):
            node.before.append(self.word('MAT', t.pick(['AUX', 'MODAL'])))
        self.negate(node)
        if self.left > 0 and t.chance(12):
            node.before.append(self.word('FRAG', 'PART', ['to', 'To', 'up']))
        if self.left > 0 and t.chance(20):
            node.after.append(self.word('FRAG', 'PART', ['up', 'down', 'with', 'Off']))
            if t.chance(20):
                node.after.append(self.word('FRAG', 'PART', ['up', 'with']))
        kind = t.pick(['obj', 'obj', 'none', 'prop', 'clause', 'iobj', 'iprop', 'exist', 'prop', 'clause', 'refl'])
        if self.left > 0:
            if kind in ('obj', 'iobj', 'iprop'):
                node.after.append(self.noun('OBJ', depth + 1))
            if kind == 'refl':
                node.after.append(self.pronoun('OBJ'))
            if kind == 'iobj':
                node.after.append(self.noun('IOBJ', depth + 1))
            if kind == 'iprop':
                node.after.append(self.property('IPROP', depth + 1))
            if kind == 'prop':
                node.after.append(self.property('PROP', depth + 1))
            if kind == 'exist':
                node.after.append(self.noun('EXIST', depth + 1))
            if kind == 'clause' and depth < 4:
                node.after.append(self.verb('OBJ', depth + 1))
        if self.left > 1 and depth < 3 and t.chance(20):
            node.after.append(self.verb('CPL', depth + 1) if t.below(2) else self.marked('CPL', depth + 1))
        if conj:
            self.conjuncts(node, lambda d: self.coordinated(d, depth + 1), 25)
        return node

    def coordinated(self, dep, depth):
        if self.tape.below(3) == 0:
            return self.word('VERB', dep)
        return self.verb(dep, depth, subj=self.tape.pick(['none', 'none', 'noun']), conj=False)

    def sentence(self):
        node = self.verb('ROOT', 0) if self.tape.below(10) < 9 else self.noun('ROOT', 0)
        return semref.tidy(_flatten(node))


def grammatical(tape, max_words=24):
    return Grammar(tape, max_words).sentence()


def shaken(tape, tuples, most=3):
    """Changes a few words, labels or attachments"""
    out = [list(t) for t in tuples]

    def free_dep(i):
        ptag = out[out[i][3]][1]
        return tape.pick(_USUAL.get('NOUN' if ptag in semref.NOUNS else ptag, TREE_DEPS)) if tape.below(3) else tape.pick(TREE_DEPS)

    def retag(i):
        out[i][1] = tape.pick(TAG_WEIGHTS)
        out[i][0] = any_word(tape, out[i][1])

    for _ in range(tape.between(1, most)):
        i = tape.below(len(out))
        kind = tape.pick(['leaf', 'leaf', 'leaf', 'tag', 'dep', 'move', 'word'])
        is_root = out[i][3] < 0
        if kind == 'leaf' and len(out) < 30:
            pos = tape.between(max(0, i - 1), i + 1)
            for t in out:
                if t[3] >= pos:
                    t[3] += 1
            out.insert(pos, ['', 'NOUN', 'CPL', i + 1 if pos <= i else i])
            out[pos][2] = free_dep(pos)
            if out[pos][2] in _FIXED_TAGS:
                out[pos][1] = _FIXED_TAGS[out[pos][2]]
                out[pos][0] = tape.pick(WORDS[out[pos][1]])
            elif out[pos][2] in ('AND', 'OR') and tape.below(4):
                out[pos][1] = out[out[pos][3]][1]
                out[pos][0] = any_word(tape, out[pos][1])
            else:
                retag(pos)
        elif kind == 'tag':
            retag(i)
        elif kind == 'word':
            out[i][0] = any_word(tape, out[i][1])
        elif kind == 'dep' and not is_root:
            out[i][2] = free_dep(i)
        elif kind == 'move' and not is_root:
            below, todo = {i}, [i]
            while todo:
                k = todo.pop()
                new = [c for c, t in enumerate(out) if t[3] == k]
                below |= set(new)
                todo += new
            others = [k for k in range(len(out)) if k not in below]
            out[i][3] = tape.pick(others)
    return semref.tidy([tuple(t) for t in out])


def insert(tuples, places):
    """Inserts words out of the tree. Places: list of (position, token, tag)"""
    out = list(tuples)
    for pos, token, tag in places:
        pos %= len(out) + 1
        out = [(t, g, d, p + 1 if p >= pos else p) for t, g, d, p in out]
        out.insert(pos, (token, tag, 'NODEP', -1))
    return out


def punctuation(tape, most=3):
    return [(tape.below(40), tape.pick(['.', ',', '-', '"', 'and', 'by', 'that']), tape.pick(['PUNCT', 'CONJ', 'NOUN', 'VERB']))
            for _ in range(tape.below(most + 1))]
