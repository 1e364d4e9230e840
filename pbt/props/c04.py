"""Texts that must not be split stay in one piece"""
from hypothesis import strategies as st
from pbt import texts
from pbt.core import Case, same
from pbt.props.c01 import checked_tokens
from scrappybara.preprocessing.tokenizer import Tokenizer

RULE = 'Texts are assembled from items that must stay whole (URLs with any path, domains, e-mail addresses, decimals, ' \
       'thousands, times, dates, acronyms, titles, initials, abbreviations, smileys, contracted "and", tags) among ' \
       'ordinary words and items that must be split; the full token list is known by construction. Non-trivial: the ' \
       'text has at least one token with a dot, comma, colon, slash, bracket or quote inside.'

_TOKENIZE = Tokenizer()


def whole(value, obs):
    text, tokens = value
    same(checked_tokens(_TOKENIZE(text)), tokens, 'tokens of %r' % text)
    if any(len(t) > 1 and not t.isalnum() for t in tokens):
        obs.nontrivial(text)
    if len([t for t in tokens if '/' in t and '.' in t]) > 1:
        obs.label('several URLs')


@st.composite
def _many_urls(draw):
    """Long lists of URLs, with URLs that are prefixes of others, or twice the same"""
    urls = draw(st.lists(texts.urls(), min_size=2, max_size=6))
    for _ in range(draw(st.integers(0, 14))):
        base = draw(st.sampled_from(urls))
        urls.append(base if draw(st.booleans()) else base + '/' + draw(texts.lower_words()))
    tokens = []
    for url in draw(st.permutations(urls)):
        if draw(st.integers(0, 2)) == 0:
            tokens.append(draw(texts.lower_words()))
        tokens.append(url)
    return ' '.join(tokens), tokens


@st.composite
def _url_end(draw):
    """A sentence that ends with a URL: the final dot is not part of it"""
    word = draw(texts.lower_words())
    url = draw(texts.urls().filter(lambda u: u.lower().startswith(('http', 'www'))))
    follow = draw(st.one_of(st.just(''), texts.cap_words()))
    return '%s %s. %s' % (word, url, follow), [word, url, '.'] + ([follow] if follow else [])


def _lists():
    """Very many of them in one text"""
    out = []
    for nb in (40, 101, 150, 300):
        for make in (lambda i: 'www.site%d.com' % i, lambda i: 'http://a.org/%d' % (i % 7), lambda i: (':)', ';-(')[i % 2], lambda i: "'n'" if i % 2 else 'salt',
                     lambda i: ('word', 'site%d.net/a.b' % i, 'http://x%d.com' % i, 'n\'', 'and')[i % 5], lambda i: '%d.5' % i, lambda i: '1,%03d' % i):
            tokens = ['see'] + [make(i) for i in range(nb)] + ['end']
            out.append((' '.join(tokens), tokens))
    return out


def _sizes():
    """Long ones"""
    out = []
    for size in (1, 2, 3, 4, 5, 6, 8, 11, 16, 21, 26, 31, 41, 65, 101, 260):
        word = ('abcdefgh' * size)[:size]
        number = ('1234567890' * size)[:size]
        for token in ('http://%s.com' % word, 'https://a.b/%s' % word, 'www.%s.org' % word, 'http://a.com/' + '/'.join([word[:3]] * size), 'x.%s/y' % word,
                      'http://' + '.'.join(['a'] * size) + '.com', '%s@%s.com' % (word, word), '%s.%s@x.org' % (word, word), '%s.5' % number, '1.%s' % number,
                      '1' + ',234' * size, '1' + ',234' * size + '.5', 'A.' * (size + 1), 'R&D', '%s.com/?q=%s' % (word, word)):
            out.append(('see %s now' % token, ['see', token, 'now']))
    return out


CASES = [
    Case('sizes', None, whole, examples=_sizes),
    Case('long', lambda: texts.constructed(texts.any_items(), min_size=25, max_size=70), whole, quick=30),
    Case('lists', None, whole, examples=_lists),
    Case('whole', lambda: texts.constructed(texts.protected_items(), max_size=5), whole, quick=2500),
    Case('mixed', lambda: texts.constructed(texts.any_items(), max_size=9), whole, quick=800),
    Case('many urls', _many_urls, whole, quick=800),
    Case('url ends sentence', _url_end, whole, quick=200),
]
