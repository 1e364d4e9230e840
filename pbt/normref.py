"""Reference model of spelling standardization, lemmatization and inflection.
The language model is a dictionary text => (count, proba). Where several answers are equally likely, all are returned.
"""
import re

VOWELS = 'eyuioa'
CONSONANTS = 'qwrtpsdfghjklzxcvbnm'
PREFIXES = ('re', 'un', 'mis', 'dis', 'out', 'co', 'sub', 'grand')


def best(lm, candidates):
    """Set of the most likely candidates, or None if none is known"""
    known = [c for c in candidates if c in lm]
    if not known:
        return None
    top = max(lm[c][1] for c in known)
    return {c for c in known if lm[c][1] == top}


# ###############################################################################
# STANDARDIZATION
# ###############################################################################

# (pattern, spellings to choose from (base forms), number of characters of the base form that are kept)
_SPELLINGS = [
    (r'(?P<s>[a-z]{3,})(our|or)(?P<e>ing|ed|s|)', ['{s}or', '{s}our'], None),
    (r'(?P<s>[a-z]{3,})(?P<m>[yi])[sz](?P<e>ations|ation|ers|er|ing|ed|es|e)', ['{s}{m}ze', '{s}{m}se'], 1),
    (r'(?P<s>[a-z]{3,})[cs](?P<e>ives|ive|es|e)', ['{s}se', '{s}ce'], 1),
    (r'(?P<s>[a-z]{3,})(ogue|og)(?P<e>s|)', ['{s}og', '{s}ogue'], None),
]


def standardize(lm, token):
    """Set of acceptable spellings"""
    if token in lm and lm[token][0] >= 5:
        return {token}
    for pattern, bases, cut in _SPELLINGS:
        match = re.fullmatch(pattern, token, re.I)
        if match:
            groups = match.groupdict()
            found = best(lm, [b.format(**groups) for b in bases])
            if found:
                return {(f[:-cut] if cut else f) + groups['e'] for f in found}
    match = re.fullmatch(r'([a-z]{3,})(ell|el)(ing|ers|ed|er)', token, re.I)
    if match:
        found = best(lm, [match.group(1) + 'el' + match.group(3), match.group(1) + 'ell' + match.group(3)])
        if found:
            return found
    for digraph in ('ae', 'oe'):
        if len(token) > 4 and digraph in token:
            found = best(lm, [token.replace(digraph, 'e'), token])
            if found:
                return found
    return {token}


# ###############################################################################
# LEMMATIZATION
# ###############################################################################


def _after_consonant(start):
    return start[-1] in CONSONANTS


def _doubled(start):
    return len(start) > 2 and start[-3] in VOWELS and start[-1] == start[-2] and start[-1] in CONSONANTS


def _any(start):
    return True


def _keep(*endings):
    return lambda start: (start, list(endings))


def _last(*endings):
    """The last letter belongs to the endings"""
    return lambda start: (start[:-1], [start[-1] + e for e in endings])


def _undouble(start):
    return start[:-2], [start[-1], start[-1] * 2]


def _undouble_verb(start):
    return start[:-2], [start[-1], start[-1] * 2, start[-1] * 2 + 'e']


# tag => list of (ending, min length of the start, condition, stem & endings, suffix)
_RULES = {
    'ADJ': [
        ('est', 4, _doubled, _undouble, 'SUPERLATIVE'),
        ('er', 4, _doubled, _undouble, 'COMPARATIVE'),
        ('iest', 2, _after_consonant, _keep('y'), 'SUPERLATIVE'),
        ('est', 3, _any, _last('', 'e'), 'SUPERLATIVE'),
        ('ier', 2, _after_consonant, _keep('y'), 'COMPARATIVE'),
        ('er', 3, 'not an adjective', _last('', 'e'), 'COMPARATIVE'),
    ],
    'VERB': [
        ('icking', 2, _after_consonant, _keep('ic', 'ick'), 'PROGRESSIVE'),
        ('icked', 2, _after_consonant, _keep('ic', 'ick'), 'PAST'),
        ('ing', 4, _doubled, _undouble_verb, 'PROGRESSIVE'),
        ('ing', 3, _any, _last('', 'e'), 'PROGRESSIVE'),
        ('icks', 2, _after_consonant, _keep('ic', 'ick'), 'THIRD_PERSON'),
        ('ed', 4, _doubled, _undouble_verb, 'PAST'),
        ('ied', 2, _after_consonant, _keep('y', 'ie', 'i'), 'PAST'),
        ('ies', 1, _after_consonant, _keep('y', 'ie'), 'THIRD_PERSON'),
        ('ed', 2, _any, _last('', 'e'), 'PAST'),
        ('es', 2, _any, _last('', 'e'), 'THIRD_PERSON'),
        ('s', 2, _any, _last(''), 'THIRD_PERSON'),
    ],
    'NOUN': [
        ('a', 5, _any, _keep('on'), 'PLURAL'),
        ('ieves', 1, _after_consonant, _keep('ief'), 'PLURAL'),
        ('i', 4, _any, _keep('us'), 'PLURAL'),
        ('ies', 2, _after_consonant, _keep('y', 'ie'), 'PLURAL'),
        ('ves', 2, _any, _keep('f', 'fe', 've'), 'PLURAL'),
        ('men', 2, _any, _keep('man'), 'PLURAL'),
        ('es', 2, _any, _last('', 'e', 'is'), 'PLURAL'),
        ('s', 2, 'not a singular', _last(''), 'PLURAL'),
    ],
}

_FULL = {
    'VERB': {"'m": ('be', None), 'am': ('be', None), "'re": ('be', None), 'are': ('be', None), "'s": ('be', 'THIRD_PERSON'),
             'is': ('be', 'THIRD_PERSON'), 'being': ('be', 'PROGRESSIVE'), 'has': ('have', 'THIRD_PERSON'),
             'doing': ('do', 'PROGRESSIVE'), 'need': ('need', None)},
    'ADJ': {'better': ('good', 'COMPARATIVE'), 'best': ('good', 'SUPERLATIVE')},
    'ADV': {'better': ('well', 'COMPARATIVE'), 'best': ('well', 'SUPERLATIVE'), "'": ("'s", None)},
}
for _tag in ('NOUN', 'PROPN', 'PRON', 'SYM', 'NUM'):
    _FULL[_tag] = {"'s": ('we', None), 'acumen': ('acumen', None)}

_VERB_CONTEXTS = ['i', 'you', 'we', 'they', 'may', 'might', 'can', 'could', 'would', 'should']


def _strip_prefix(word):
    if word.count('-') == 1:
        prefix, base = word.split('-')
        return prefix + '-', base
    for prefix in PREFIXES:
        if word.startswith(prefix):
            return prefix, word[len(prefix):]
    return None


class LemmaRef(object):

    def __init__(self, lm, adjs, preterits, pps, plurals, comparatives, superlatives):
        self.lm = lm
        self.adjs = adjs
        self.tables = {
            'NOUN': [(plurals, 'PLURAL')],
            'VERB': [(pps, 'PAST'), (preterits, 'PAST')],
            'ADJ': [(comparatives, 'COMPARATIVE'), (superlatives, 'SUPERLATIVE')],
        }

    def irregular(self, word, tag):
        for table, suffix in self.tables.get(tag, []):
            if word in table:
                return table[word], suffix
        return None

    def candidates(self, stem, endings, tag):
        words = [stem + e for e in endings]
        if len(words) == 1:
            return {words[0]} if words[0] in self.lm else None
        contexts = _VERB_CONTEXTS if tag == 'VERB' else words
        found = best(self.lm, [c + ' ' + w for w in words for c in contexts])
        if found:
            return {f.split()[-1] for f in found}
        return best(self.lm, words)

    def __call__(self, word, tag):
        """Set of acceptable (lemma, name of the suffix)"""
        word = word.lower()
        if word in _FULL.get(tag, {}):
            return {_FULL[tag][word]}
        found = self.irregular(word, tag)
        if found:
            return {found}
        split = _strip_prefix(word)
        if split:
            found = self.irregular(split[1], tag)
            if found:
                return {(split[0] + found[0], found[1])}
        for ending, min_length, condition, cut, suffix in _RULES.get(tag, []):
            if not word.endswith(ending) or len(word) - len(ending) < min_length:
                continue
            start = word[:len(word) - len(ending)]
            if condition == 'not an adjective':
                if word in self.adjs:
                    continue
            elif condition == 'not a singular':
                if word.endswith('ss') or word + 'es' in self.lm:
                    continue
            elif not condition(start):
                continue
            stem, endings = cut(start)
            found = self.candidates(stem, endings, tag)
            if found:
                return {(f, suffix) for f in found}
            split = _strip_prefix(stem)
            if split:
                found = self.candidates(split[1], endings, tag)
                if found:
                    return {(split[0] + f, suffix) for f in found}
            return {(word, None)}
        return {(word, None)}


# ###############################################################################
# INFLECTION
# ###############################################################################


def past_participle(lm, irregular, lemma):
    """Set of acceptable past participles"""
    if lemma in irregular:
        return {irregular[lemma]}
    if len(lemma) > 1:
        if lemma[-1] == 'e':
            return {lemma + 'd'}
        if lemma[-1] == 'y' and lemma[-2] in CONSONANTS:
            return {lemma[:-1] + 'ied'}
        if lemma[-1] in CONSONANTS and lemma[-2] in VOWELS:
            return best(lm, [lemma + 'ed', lemma + lemma[-1] + 'ed']) or {lemma + 'ed'}
    return {lemma + 'ed'}
