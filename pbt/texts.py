"""Generators of texts: raw (any characters) and constructed (text + the tokens it must give)."""
import functools
import re
import string

from hypothesis import strategies as st

cached = functools.lru_cache(maxsize=None)  # Building a strategy is slow

LOWER = string.ascii_lowercase
UPPER = string.ascii_uppercase

# Words whose ending dot is kept before an uppercase letter
TITLES = ['m', 'mr', 'mrs', 'ms', 'sr', 'dr', 'prof', 'rev', 'gov', 'sen', 'rep', 'lt', 'sgt', 'ave', 'st', 'ed', 'feat']

FRAGMENTS = [
    'cat', 'dog', 'The', 'I', 'a', 'B', 'R', 'D', 'U.S.', 'e.g.', 'Mr.', 'dr.', 'St', '.', '..', '...', '…', '!', '?',
    '?!', ',', ':', ';', "'", '"', '(', ')', '[', ']', '{', '}', '-', '--', '–', '—', '/', '\\', '|', '*', '**', '+',
    '&', '%', '$', '#', '@', '<', '>', '=', '>=', '<=', '=>', '=<', '->', '<-', "'s", "n't", "'re", "'n'", "'n", "n'",
    'can', 'not', 'cannot', '1', '12', '1,234', '3.5', "5'", '6"', '5\'6"', "1990's", 'http://a.b', 'www.x.com',
    'https://x.org/p?q=1.', 'a.b/c', 'x.y/', 'foo@bar.com', ':)', ':-(', ';)', '’', '“', '”', '‘', '′', '″', 'é',
    '日本', '😀', '_', 'NEW', 'ed.', '90', '•', '~', '^', '`', 'ing', 'e', '\u00a0', '\t', '\n', '>a<b', 'x=1', 'R & D',
    '\u2028', '\u3000', '\r\n', '\x0b', '"He left."', '(a "b.")', '""', '()', '."', '".', '?"', 'Œ', 'ß', 'İ', 'ſ',
    '¶', '༺0༻', '⦅', '⦆', '⦅0⦆', '༺',
]

# Private-use characters have no meaning: the sentencizer takes some as internal markers. The placeholder words are those of the tokenizer
# (see KNOWN_FINDINGS.txt).
RESERVED = set(map(chr, range(0xe000, 0xf900)))
PLACEHOLDER = re.compile(r'_PROTECTED_\d+_|_NSD_|_R?NSGE_|_R?NSLE_', re.I)


def _clean(text):
    text = ''.join(c for c in text if c not in RESERVED)
    return PLACEHOLDER.sub('', text)


@cached
def fragment_texts(max_size=14):
    piece = st.one_of(st.sampled_from(FRAGMENTS), st.just(' '), st.just(' '), plain_words())
    return st.lists(piece, min_size=1, max_size=max_size).map(lambda p: _clean(''.join(p)))


@cached
def any_texts(max_size=40):
    return st.text(alphabet=st.characters(exclude_categories=('Cs',)), max_size=max_size).map(_clean)


@cached
def ascii_texts(max_size=30):
    return st.text(alphabet=st.sampled_from(
        "aabbcdeinorstIRDSTU019   ..,,:;!?'\"()[]{}-/\\|*+&%$#@<>=_–—’“”\n"), max_size=max_size).map(_clean)


@cached
def raw_texts():
    return st.one_of(fragment_texts(), ascii_texts(), fragment_texts(30), any_texts())


PIECES = sorted(set(FRAGMENTS) | set("abzAIRSZ019.,:;!?'\"()[]{}-/\\|*+&%$#@<>=_–—’“”\n\t") | {
    'word', 'Word', 'WORD', 'x-y', 's', 't', 'd', 'm', 'll', 've', "'ll", "'d", "'m", "'ve", 'cannot', 'Cannot', 'CAN', "N'T", '10', '007',
    '1.', '1)', '2:', 'a:', 'word:', 'http', 'https:', '//', 'www.', '.com', '.org/', 'A.', 'B.C.', 'p.m.', 'Mrs.', 'St.', '>>', '<<', '==',
    '!!', '??', '. .', '.. .', '. . .', '....', "''", '``', '---', '& ', ' &', 'A & B', '50%', '%a', '$5', '#tag', '@me', '1/2', 'and/or',
    '(s)', '[1]', '{x}', "o'clock", "rock'n'roll", "'90s", "s'", '10:30', 'a.b', 'a.B', 'b.A', "b.'", '1,000', '1, 2', ', ', '. ', '.\n', '! ', '" ', ' "'})
_GAPS = ['', '', ' ', ' ', ' ', '  ', '\n', '\t', '\u00a0']


def swarm_text(tape, pieces=None):
    """A few kinds of pieces, used many times: what is close to each other is what interacts"""
    times = tape.between(2, 40) if tape.chance(3) else 1  # Long texts
    pool = [tape.pick(pieces or PIECES) for _ in range(tape.between(1, 6))]
    glue = tape.pick([['', ' '], ['', '', '', ' '], [' '], ['', ' ', ' ', ' '], _GAPS, ['']])
    out = []
    for _ in range(tape.between(1, 16)):
        out.append(tape.pick(pool))
        out.append(tape.pick(glue))
    return _clean((''.join(out) * times)[:1200])


# ###############################################################################
# WORDS
# ###############################################################################

COMMON = ['cat', 'house', 'apple', 'run', 'green', 'table', 'people', 'work', 'think', 'money', 'market', 'report',
          'sing', 'the', 'and', 'but', 'with', 'can', 'not', 'said', 'soon', 'story', 'sister', 'something']
# Words that look like abbreviations, but are not in the list of titles
SHORT = ['no', 'co', 'inc', 'fig', 'art', 'may', 'mar', 'sun', 'sat', 'gen', 'vol', 'op', 'cap', 'col', 'pop', 'sec', 'min', 'max', 'ex', 'est', 'vs', 'etc', 'jr',
         'corp', 'ltd', 'mt', 'al', 'app', 'so', 'it', 'go', 'us', 'me', 'pm', 'lord', 'hon', 'capt', 'cpl', 'pres', 'dept', 'blvd', 'rd', 'miss', 'sir', 'is']
_AVOID = set(TITLES) | {'cannot', 'www', 'http', 'https'}


@cached
def lower_words(min_size=3, max_size=9):
    return st.one_of(st.sampled_from([w for w in COMMON if len(w) >= min_size]),
                     st.text(alphabet=LOWER, min_size=min_size, max_size=max_size)).filter(lambda w: w not in _AVOID)


@cached
def cap_words():
    return lower_words().map(lambda w: w[0].upper() + w[1:])


@cached
def upper_words():
    return lower_words(2, 6).map(str.upper).filter(lambda w: w.lower() not in _AVOID and len(w) > 1)


@cached
def plain_words():
    return st.one_of(lower_words(), cap_words(), lower_words(), upper_words())


@cached
def integers():
    return st.integers(0, 99999).map(str)


@cached
def measures():
    return st.one_of(integers(), integers(), st.tuples(st.integers(0, 99), st.integers(0, 99)).map(lambda p: '%d.%d' % p),
                     st.integers(1000, 99999).map(lambda n: '{:,}'.format(n)))


@cached
def hyphenated():
    return st.tuples(lower_words(), lower_words()).map('-'.join)


# ###############################################################################
# CONSTRUCTED TEXT
# An item is (text, tokens, traits). Traits is a string of letters:
#   w  plain word: a dot can be attached whatever follows
#   n  plain number: same, but it can't be the last item inside quotes (it would read as feet or inches)
#   t  other trailing punctuation can be attached
#   p  protected text: hides its first character from the dot rules
#   s  needs some text before it (preceded by whitespace)
#   f  needs some text after it
#   x  no dot can be attached
# ###############################################################################

CLITICS = ["n't", "'re", "'ll", "'ve", "'m", "'d", "'s"]


def _clitic_case(args):
    word, clitic, upper = args
    if word.isupper() or upper == 0:
        clitic = clitic.upper()
    return word + clitic, [word, clitic], 't'


def _joined(sep, left, right):
    return st.tuples(left, right).map(lambda p: (p[0] + sep + p[1], [p[0], sep, p[1]], 't'))


@cached
def _spaced_symbol(symbol):
    """'>=' can be written '> =', with or without spaces around"""
    sp = st.sampled_from(['', ' '])
    words = st.one_of(lower_words(), integers(), cap_words(), upper_words())
    return st.tuples(words, sp, sp, sp, words).map(
        lambda p: (p[0] + p[1] + symbol[0] + p[2] + symbol[1] + p[3] + p[4], [p[0], symbol, p[4]], 't'))


@cached
def _ampersand():
    sp = st.sampled_from(['', ' '])
    single = st.tuples(st.sampled_from(UPPER), sp, sp, st.sampled_from(UPPER)).map(
        lambda p: (p[0] + p[1] + '&' + p[2] + p[3], [p[0] + '&' + p[3]], 'tx'))
    words = st.tuples(st.one_of(lower_words(), cap_words()), st.one_of(lower_words(), cap_words()),
                      st.sampled_from(['&', '& ', ' &', ' & '])).map(
        lambda p: (p[0] + p[2] + p[1], [p[0], '&', p[1]], 't'))
    caps = st.tuples(upper_words(), upper_words()).map(lambda p: (p[0] + '&' + p[1], [p[0] + '&' + p[1]], 't'))
    return st.one_of(single, words, caps)


@cached
def words_items():
    return st.one_of(lower_words().map(lambda w: (w, [w], 'wt')), cap_words().map(lambda w: (w, [w], 'wt')),
                     upper_words().map(lambda w: (w, [w], 'wt')),
                     st.tuples(st.sampled_from(SHORT), st.integers(0, 2)).map(lambda p: (str.lower, str.capitalize, str.upper)[p[1]](p[0])).map(lambda w: (w, [w], 'wt')))


@cached
def number_items():
    return integers().map(lambda n: (n, [n], 'nt'))


@cached
def _run_lengths():
    return st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(6, 40))


@cached
def segmentation_items():
    """Items that have to be segmented"""
    letter_words = st.one_of(lower_words(), cap_words(), upper_words())
    long_words = letter_words.filter(lambda w: len(w) > 2)
    wordlike = st.one_of(letter_words, integers())
    return st.one_of(
        # Clitics, cannot
        st.tuples(letter_words, st.sampled_from(CLITICS), st.integers(0, 9)).map(_clitic_case),
        st.tuples(letter_words, st.sampled_from(CLITICS), st.integers(0, 9)).map(_clitic_case),
        st.integers(1900, 2020).map(lambda y: ("%d's" % y, [str(y), "'s"], 'ts')),
        st.sampled_from([('cannot', ['can', 'not'], 't'), ('Cannot', ['Can', 'not'], 't'),
                         ('CANNOT', ['CAN', 'NOT'], 't')]),
        # Infix symbols
        st.sampled_from(['|', '\\', '=', ';', '||', '==', '!', '?', '"', '[', ']', '{', '}', '(', ')']).flatmap(
            lambda s: _joined(s, letter_words, letter_words)),
        st.tuples(st.sampled_from('|\\=;!?[]{}()'), _run_lengths()).flatmap(
            lambda p: _joined(p[0] * p[1], letter_words, wordlike)),
        st.sampled_from(['>', '<']).flatmap(lambda s: _joined(s, wordlike, wordlike)),
        st.sampled_from(['>=', '<=', '=>', '=<']).flatmap(_spaced_symbol),
        _joined('/', letter_words, letter_words),
        _joined('/', letter_words, integers()),
        _joined('/', integers(), letter_words),
        _joined('/', st.sampled_from(LOWER + UPPER), letter_words),
        _joined('/', letter_words, st.sampled_from(LOWER + UPPER)),
        st.tuples(letter_words, letter_words, st.sampled_from([' /', '/ ', ' / '])).map(
            lambda p: (p[0] + p[2] + p[1], [p[0], '/', p[1]], 't')),
        _joined('+', long_words, long_words),
        st.tuples(integers(), letter_words).map(lambda p: (p[0] + '+' + p[1], [p[0] + '+', p[1]], 't')),
        st.tuples(letter_words, letter_words, _run_lengths()).map(
            lambda p: (p[0] + '*' * p[2] + p[1], [p[0], '*', p[1]], 't')),
        _ampersand(),
        _joined('%', letter_words, wordlike),
        _joined('%', integers(), letter_words),
        letter_words.map(lambda w: ('%' + w, ['%', w], 't')),
        _joined(':', st.one_of(lower_words(), cap_words()), letter_words),
        _joined(':', long_words, integers()),
        _joined(':', integers(), letter_words),
        _joined(':', integers(), st.sampled_from(LOWER + UPPER)),
        lower_words().map(lambda w: (' :' + w, [':', w], 'ts')),
        # Commas
        _joined(',', letter_words, letter_words),
        _joined(',', letter_words, integers()),
        _joined(',', integers(), letter_words),
        # Bullets & dashes
        st.tuples(st.sampled_from('*-'), st.one_of(letter_words, letter_words, st.sampled_from(LOWER + UPPER))).map(
            lambda p: (p[0] + p[1], [p[0], p[1]], 's')),
        st.tuples(wordlike, st.sampled_from(['–', '—', '——', '–—', ' — ', '– ', ' —', ' - ']), wordlike).map(
            lambda p: (p[0] + p[1] + p[2], [p[0], '-', p[2]], 't')),
        # Apostrophes
        _joined("'", long_words, long_words),
        # Feet & inches
        measures().map(lambda n: (n + "'", [n + 'ft'], 's')),
        measures().map(lambda n: (n + '"', [n + 'in'], 's')),
        st.tuples(measures(), measures()).map(lambda p: (p[0] + "'" + p[1] + '"', [p[0] + 'ft' + p[1] + 'in'], 's')),
        # Dot of an abbreviation before punctuation
        st.tuples(letter_words, st.sampled_from(['', ' ']), st.sampled_from([',', ';', '!', '?', ' :', '!!', '???'])).map(
            lambda p: (p[0] + '.' + (p[1] + p[2]).replace('  ', ' '), [p[0] + '.', p[2].strip()], '')),
        # Dot between sentences without space
        st.tuples(st.one_of(lower_words(), cap_words()), st.one_of(cap_words(), upper_words(), st.sampled_from(UPPER))).map(
            lambda p: (p[0] + '.' + p[1], [p[0], '.', p[1]], 't')),
        st.tuples(st.sampled_from(LOWER), cap_words()).map(lambda p: (p[0] + '.' + p[1], [p[0], '.', p[1]], 't')),
        # Ellipses
        st.sampled_from(['..', '...', '.....', '…', '……', '?!', '!?', '?!?!', '!?!?!']).flatmap(
            lambda s: _joined(s, letter_words, wordlike)),
        st.tuples(st.sampled_from(['.', '…', '?!', '!?', '?', '!']), _run_lengths()).flatmap(lambda p: _joined(p[0] * (p[1] + 1), letter_words, letter_words)),
        st.tuples(letter_words, st.sampled_from(['?!', '!!', '???', '!?', '?!?!?!', '!?!?'])).map(lambda p: (p[0] + p[1], [p[0], p[1]], '')),
    )


def _one(strategy, traits='t'):
    return strategy.map(lambda t: (t, [t], traits))


@cached
def _domain():
    label = st.one_of(lower_words(2, 7), st.tuples(lower_words(2, 5), st.integers(0, 99)).map(lambda p: '%s%d' % p))
    return st.tuples(st.lists(label, min_size=1, max_size=3), st.sampled_from(['com', 'org', 'net', 'au', 'co.uk'])).map(
        lambda p: '.'.join(p[0] + [p[1]]))


PATH_CHARS = LOWER + UPPER + '0123456789' + '/_-?=&#%+.,:;~!$*()@\'"'


@cached
def _path():
    """No final dot (it ends the sentence), no empty label"""
    return st.text(alphabet=PATH_CHARS, max_size=12).map(lambda p: '/' + re.sub(r'\.+', '.', p).strip('.'))


@cached
def urls():
    host = _domain()
    return st.one_of(
        st.tuples(st.sampled_from(['http://', 'https://', 'HTTP://', 'Https://', 'www.', 'WWW.', 'http://www.']), host).map(''.join),
        st.tuples(st.sampled_from(['http://', 'https://', 'www.']), host, _path()).map(''.join),
        st.tuples(host, _path()).map(''.join),
        st.tuples(st.sampled_from(['ftp://', 'sftp://', 'git://', 'HTTP://', 'WWW.']), host, _path()).map(''.join),
    )


@cached
def acronyms():
    upper = st.lists(st.sampled_from(UPPER), min_size=2, max_size=9)
    lower = st.lists(st.sampled_from(LOWER), min_size=2, max_size=9)
    return st.one_of(upper, lower).map(lambda l: '.'.join(l) + '.')


@cached
def protected_items():
    """Items that have to stay in one piece"""
    capitalized = st.one_of(cap_words(), upper_words())
    return st.one_of(
        _one(urls(), 'p'),
        _one(urls(), 'p'),
        _one(_domain()),
        _one(st.tuples(lower_words(2, 6), _domain()).map('@'.join)),
        _one(st.tuples(lower_words(2, 6), lower_words(2, 6), _domain()).map(lambda p: '%s.%s@%s' % p)),
        # Numbers
        _one(st.tuples(integers(), integers()).map('.'.join), ''),
        _one(st.tuples(integers(), integers(), integers()).map('.'.join), ''),
        _one(st.tuples(integers(), integers(), integers()).map(lambda p: '%s.%s.%s.' % p), ''),
        _one(integers().map(lambda n: '.' + n), ''),
        _one(st.integers(1000, 9999999).map(lambda n: '{:,}'.format(n)), 'nt'),
        _one(st.integers(100000, 9999999).map(lambda n: '{:,.2f}'.format(n / 100)), ''),
        _one(st.tuples(integers(), integers()).map(lambda p: '$%s.%sM' % p), 't'),
        _one(integers().map(lambda n: n + '%'), 't'),
        _one(st.tuples(st.integers(0, 23), st.integers(0, 59)).map(lambda p: '%d:%02d' % p), 't'),
        _one(st.tuples(st.integers(0, 12), st.integers(0, 59), st.sampled_from(['am', 'pm', 'PM', 'h'])).map(
            lambda p: '%d:%02d%s' % p), 't'),
        _one(st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(lambda p: '%d:%02d:%02d' % p), 't'),
        _one(st.tuples(st.integers(1, 28), st.integers(1, 12), st.integers(1900, 2030)).map(lambda p: '%d/%d/%d' % p), 't'),
        _one(st.tuples(integers(), integers()).map('*'.join), 't'),
        # Dots
        _one(acronyms(), ''),
        _one(acronyms(), ''),
        _one(acronyms().map(lambda a: a[:-1]), ''),
        _one(cap_words().map(lambda w: '.' + w), 't'),
        # Titles, initials
        st.tuples(st.sampled_from(TITLES), st.sampled_from([str.lower, str.capitalize, str.upper]), capitalized).map(
            lambda p: (p[1](p[0]) + '. ' + p[2], [p[1](p[0]) + '.', p[2]], 'wt')),
        st.tuples(st.sampled_from(TITLES), st.sampled_from(TITLES), capitalized).map(
            lambda p: ('%s. %s. %s' % (p[0], p[1].capitalize(), p[2]), [p[0] + '.', p[1].capitalize() + '.', p[2]], 'wt')),
        st.tuples(st.sampled_from(UPPER), capitalized).map(lambda p: (p[0] + '. ' + p[1], [p[0] + '.', p[1]], 'wt')),
        st.tuples(st.sampled_from(UPPER), st.sampled_from(UPPER), capitalized).map(
            lambda p: ('%s. %s. %s' % p, [p[0] + '.', p[1] + '.', p[2]], 'wt')),
        # Symbols
        _one(st.sampled_from([':)', ':-)', ';)', ';-)', ':(', ':-(', ';(']), 'p'),
        _one(st.sampled_from(["'n'", "'n", "n'", "'N'", "'N", "N'"]), 'psf'),
        _one(st.tuples(st.sampled_from('#@_'), st.one_of(lower_words(), cap_words())).map(''.join), 't'),
        _one(hyphenated()),
        _one(st.tuples(st.sampled_from(['o', 'd', 'O', 'D']), lower_words()).map("'".join)),
        _one(st.tuples(st.sampled_from(UPPER), st.sampled_from(UPPER)).map('/'.join), ''),
        _one(st.tuples(integers(), integers()).map('->'.join), 't'),
    ).filter(lambda i: _valid_protected(i[0]))


def _valid_protected(text):
    return not any(text.lower().endswith(c) for c in CLITICS)


@cached
def any_items():
    return st.one_of(words_items(), words_items(), segmentation_items(), protected_items(), number_items())


TRAILING = [',', '!', '?', ';', ':', '!!', '?!', '...', '…', '|']


def _first(item):
    """What the dot rules see after a dot and a space: a lowercase letter, a number, punctuation, anything else"""
    text, _, traits = item
    if 'p' in traits:
        return 'other'
    text = text.lstrip()
    if re.match(r'[a-z]', text):
        return 'lower'
    if re.match(r'\d+\b', text, re.A):
        return 'number'
    if re.match(r'[,:;?!]', text):
        return 'punct'
    if re.match(r'[A-Z]', text):
        return 'upper'
    return 'other'


# "R & D" also takes in the single capital letters around it: keep them away
_SINGLE_AMP = re.compile(r'^[A-Z]&[A-Z]$')
_ENDS_CAPITAL = re.compile(r'\b[A-Z][^\w\s]*$')
_STARTS_CAPITAL = re.compile(r'^[^\w\s]*[A-Z]\b')


def _append(sequence, item):
    if sequence:
        before, after = sequence[-1], item
        if (_SINGLE_AMP.search(after[1][0]) and _ENDS_CAPITAL.search(before[0])) or \
                (_SINGLE_AMP.search(before[1][-1]) and _STARTS_CAPITAL.search(after[0])):
            sequence.append(('word', ['word'], 'w'))
    sequence.append(item)


@st.composite
def constructed(draw, items, min_size=1, max_size=7, groups=True, ends=None):
    """Returns (text, tokens). Nothing is left to chance: every token is known from the way the text was made."""
    nodes = []  # (text, tokens, first, trailing)
    nb = draw(st.integers(min_size, max_size))
    sequence = []
    for i in range(nb):
        kind = draw(st.integers(0, 11)) if groups else 11
        if kind == 0:
            op, cl = draw(st.sampled_from([('(', ')'), ('[', ']'), ('{', '}'), ('((', '))'), ('"', '"')]))
            inner = _inner(draw(st.lists(items, min_size=1, max_size=3)), op)
            sequence.append((op + ' '.join(i[0].strip() for i in inner) + cl,
                             [op] + [t for i in inner for t in i[1]] + [cl], 'tg'))
        elif kind == 1:
            inner = [draw(words_items()) for _ in range(draw(st.integers(1, 3)))]
            sequence.append(("'" + ' '.join(i[0] for i in inner) + "'",
                             ["'"] + [t for i in inner for t in i[1]] + ["'"], 'q'))
        else:
            item = draw(items)
            if 's' in item[2] and not sequence:
                word = draw(lower_words())
                sequence.append((word, [word], 'w'))
            _append(sequence, item)
    if 'f' in sequence[-1][2]:
        word = draw(lower_words())
        sequence.append((word, [word], 'w'))
    texts = []
    tokens = []
    for i, item in enumerate(sequence):
        text, item_tokens, traits = item
        item_tokens = list(item_tokens)
        last = i == len(sequence) - 1
        follow = None if last else _first(sequence[i + 1])
        before_dot = not last and sequence[i + 1][0].startswith('.')
        choice = draw(st.integers(0, 5))
        if choice == 0 and ('t' in traits or 'q' in traits):
            trail = draw(st.sampled_from(TRAILING if 'q' not in traits and not before_dot else [',', '!', '?', ';']))
            text += trail
            item_tokens.append(trail)
        elif choice in (1, 2) and ('w' in traits or ('n' in traits and not (texts and texts[-1].endswith('.'))) or
                                   'g' in traits):
            text += '.'
            if 'g' in traits or follow in (None, 'upper', 'other'):
                item_tokens.append('.')
            else:
                item_tokens[-1] += '.'
        elif choice == 3 and last and traits in ('t', 'q'):
            text += '.'
            item_tokens.append('.')
        texts.append(text)
        tokens.extend(item_tokens)
    return ' '.join(texts), tokens


def _inner(items, op):
    """Keeps the items that mean the same inside brackets or quotes"""
    kept = []
    for item in items:
        if op == '"' and ('"' in item[0] or "'" in item[0]):  # A number before the closing quote would be read as inches
            continue
        if not kept and ('s' in item[2] or 'p' in item[2]):
            continue
        _append(kept, item)
    while kept and not kept[-1][2].startswith('w'):
        kept.pop()
    return kept or [('word', ['word'], 'wt')]
