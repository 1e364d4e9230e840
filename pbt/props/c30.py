"""Text marking, table and file helpers"""
import itertools
import os
import string

from hypothesis import strategies as st
from pbt import env
from pbt.core import Case, check, same
from scrappybara.utils import files, maths, mutables, text

RULE = 'Marked texts with 0 to 5 parts, some missing, in any characters but the separators; objects, word lists and tables in any characters of the encoding, written to a scratch folder, ' \
       'sub-folders included; histories of insertions in grouping tables against a reference; words x endings x lengths, words x prefixes; all polarities of 2 to 6 members (exhaustive). ' \
       'Non-trivial: at least two parts, lines or insertions, or a word that is split.'

setup = env.use_private_data
_VOWELS, _CONSONANTS = set('aeiouy'), set('bcdfghjklmnpqrstvwxz')


# MARKED TEXTS
# -------------------------------------------------------------------------->


def marking(value, obs):
    name, parts = value
    kept = [str(p) for p in parts if p is not None]
    got = text.functionalize(name, *parts)
    same(got, '%s(%s)' % (name, ', '.join(kept)), 'function call of %r' % (value,))
    same(tuple(text.defunctionalize(got)), (str(name), ', '.join(kept)), 'reading %r back' % got)
    got = text.attach_attributes(name, *parts)
    same(list(text.detach_attributes(got)), [str(name)] + kept, 'reading the attributes of %r back' % got)
    got = text.associate(*parts)
    same(text.dissociate(got), tuple(kept) if len(kept) == 2 else None, 'reading the association %r back' % got)
    if len(parts) > 1:
        obs.nontrivial(value)
    obs.label('%d parts' % len(kept))
    if None in parts:
        obs.label('missing part')


_MARKED = st.text(alphabet=st.characters(exclude_characters='()ǁ»', exclude_categories=('Cs',)), max_size=8).flatmap(
    lambda s: st.sampled_from([s, s, s, s * 30]))


def _marking():
    part = st.one_of(_MARKED, _MARKED, st.none(), st.integers(-99, 99), st.integers())
    return st.tuples(st.one_of(_MARKED, st.integers(0, 9)), st.one_of(st.lists(part, max_size=5), st.tuples(_MARKED, _MARKED).map(list)))


# FILES
# -------------------------------------------------------------------------->

_CELL = st.text(alphabet=st.one_of(st.sampled_from('ab é日😀 \u2028\x85\x0b,;"\\#'), st.characters(exclude_categories=('Cs',))), min_size=1, max_size=6).map(
    lambda w: w.replace('\n', '').replace('\r', '').replace('\t', '').strip()).filter(bool)


def _path(depth):
    folder = env.use_private_data()
    subs = ['sub%d' % k for k in range(depth)]
    os.makedirs(os.path.join(str(folder), *subs), exist_ok=True)
    return subs


def paths(value, obs):
    folder = str(env.use_private_data())
    same(os.path.abspath(files.file_path(*value)), os.path.abspath(os.path.join(folder, *value)), 'path of %r' % (value,))
    if len(value) > 1:
        obs.nontrivial(value)


def pickles(value, obs):
    objects, depth = value
    subs = _path(depth)
    names = ['obj%d.pkl' % k for k in range(len(objects))]
    for obj, name in zip(objects, names):
        files.save_pkl_file('stale, and longer than the object that replaces it' * 9, *subs, name)
        files.save_pkl_file(obj, *subs, name)
    for obj, name in zip(objects, names):
        got = files.load_pkl_file(*subs, name)
        check(got == obj and type(got) is type(obj), '%r is loaded as %r', obj, got)
    if len(objects) > 1:
        obs.nontrivial(value)


def _write(subs, name, lines, last_break):
    with open(os.path.join(str(env.use_private_data()), *subs, name), 'w', encoding='utf-8', newline='') as writer:
        writer.write('\n'.join(lines) + ('\n' if lines and last_break else ''))


def word_lists(value, obs):
    words, depth, last_break = value
    subs = _path(depth)
    _write(subs, 'words.txt', words, last_break)
    got = files.load_set_from_txt_file(*subs, 'words.txt')
    check(isinstance(got, (set, frozenset)), 'not a set: %r', got)
    same(got, set(words), 'words of the list %r' % words)
    # The library's own writer
    with files.txt_file_writer(*subs, 'words.txt') as writer:
        for word in words:
            writer.write(word + '\n')
    same(files.load_set_from_txt_file(*subs, 'words.txt'), set(words), 'words of the list %r' % words)
    with files.txt_file_reader(*subs, 'words.txt') as reader:
        same([line.rstrip('\n') for line in reader], words, 'lines of the list')
    if len(set(words)) > 1:
        obs.nontrivial(value)


def tables(value, obs):
    table, depth, last_break = value
    subs = _path(depth)
    _write(subs, 'table.txt', ['%s\t%s' % item for item in table.items()], last_break)
    got = files.load_dict_from_txt_file(*subs, 'table.txt')
    same(got, table, 'two-column table')
    same(list(got), list(table), 'order of a table')
    if len(table) > 1:
        obs.nontrivial(value)


_OBJECTS = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(), st.floats(allow_nan=False), st.text(max_size=5), st.binary(max_size=5)),
                        lambda inner: st.one_of(st.lists(inner, max_size=3), st.dictionaries(st.text(max_size=3), inner, max_size=3),
                                                st.tuples(inner, inner)), max_leaves=6)


# TABLES
# -------------------------------------------------------------------------->


def reversal(table, obs):
    """One-to-one tables"""
    before = dict(table)
    got = mutables.reverse_dict(table)
    same(got, {v: k for k, v in table.items()}, 'reversed %r' % table)
    same(list(got.values()), list(table), 'order of the reversed table')
    same(mutables.reverse_dict(got), table, 'reversed twice')
    same(table, before, 'the table was changed')
    if len(table) > 1:
        obs.nontrivial(table)


def grouping(history, obs):
    lists, sets, nested = {}, {}, {}
    ref_lists, ref_sets, ref_nested = {}, {}, {}
    for k1, k2, item in history:
        mutables.append_to_dict_list(lists, k1, item)
        mutables.add_in_dict_set(sets, k1, item)
        mutables.append_in_dict_dict_list(nested, k1, k2, item)
        ref_lists.setdefault(k1, []).append(item)
        ref_sets.setdefault(k1, set()).add(item)
        ref_nested.setdefault(k1, {}).setdefault(k2, []).append(item)
    same(lists, ref_lists, 'lists after %r' % history)
    same(sets, ref_sets, 'sets after %r' % history)
    same(nested, ref_nested, 'nested lists after %r' % history)
    same(([list(d) for d in (lists, sets, nested)]), [list(d) for d in (ref_lists, ref_sets, ref_nested)], 'order of the keys after %r' % history)
    if len(history) > len(ref_lists) > 1:
        obs.nontrivial(history)


# WORDS
# -------------------------------------------------------------------------->


def starts(value, obs):
    word, ending, shortest = value
    got = text.token_start(word, ending, shortest)
    want = word[:len(word) - len(ending)] if word.endswith(ending) else ''
    want = want if want and len(want) >= shortest else None
    same(got, want, 'start of %r before %r, at least %d characters' % (word, ending, shortest))
    if want:
        obs.nontrivial(value)


def prefixes(value, obs):
    word, known = value
    got = text.token_prefix(word, known)
    if word.count('-') == 1:
        want = [(word[:word.index('-') + 1], word[word.index('-') + 1:])]
    else:
        want = [(p, word[len(p):]) for p in known if word.startswith(p)]
    if not want:
        check(got is None, 'prefix of %r among %r: %r', word, known, got)
        return
    check(got is not None and tuple(got) in want, 'prefix of %r among %r: %r instead of one of %r', word, known, got, want)
    obs.nontrivial(value)


def characters(word, obs):
    got = text.vowel_double_consonant_endings(word)
    double = len(word) > 2 and word[-3] in _VOWELS and word[-1] in _CONSONANTS and word[-1] == word[-2]
    same(list(got) if got else got, [word[-1], word[-1] * 2] if double else None, 'double consonant of %r' % word)
    same(bool(text.has_only_letters(word)), bool(word) and all(c in string.ascii_letters for c in word), '%r has only letters' % word)
    same(bool(text.has_only_lowercase_letters(word)), bool(word) and all(c in string.ascii_lowercase for c in word), '%r has only lowercase letters' % word)
    if word:
        same(bool(text.starts_with_uppercase_letter(word)), word[0] in string.ascii_uppercase, '%r starts with an uppercase letter' % word)
        same(bool(text.ends_with_consonant(word)), word[-1] in _CONSONANTS, '%r ends with a consonant' % word)
    if double:
        obs.nontrivial(word)


def polarity(bools, obs):
    same(bool(maths.xnor(*bools)), bools.count(False) % 2 == 0, 'polarity of %r' % (bools,))
    obs.nontrivial(bools)


_LETTERS = st.text(alphabet='abcenrtsdgi-', max_size=7)
_WORD = st.one_of(_LETTERS, st.text(alphabet='aeiybst', min_size=1, max_size=4).flatmap(lambda s: st.sampled_from([s, s + s[-1], s + 'bb', s + 'Bb', 'A' + s])), st.text(max_size=5),
                 st.tuples(st.text(alphabet='abcdefghijklmnoprstuvwyz', min_size=9, max_size=40), st.sampled_from(['', '', 'tt', '1', 'é', '.', 'Z', '-a', ' '])).map(''.join))


def _starts():
    ending = st.text(alphabet='gnised', min_size=1, max_size=4)
    return st.tuples(st.text(alphabet='gnised', max_size=5), ending, st.integers(0, 6), st.integers(0, 3)).map(
        lambda v: (v[0] + v[1] if v[3] else v[0], v[1], v[2]))


def _prefixes():
    known = st.lists(st.text(alphabet='reunx', min_size=1, max_size=3), max_size=5)
    return st.tuples(_LETTERS, known, st.integers(0, 9), st.integers(0, 3)).map(
        lambda v: ((v[1][v[2] % len(v[1])] if v[1] and v[3] else '') + v[0], v[1]))


SCALE = 2
CASES = [
    Case('polarity', None, polarity, examples=lambda: [bs for n in range(2, 7) for bs in itertools.product([True, False], repeat=n)]),
    Case('marking', _marking, marking, quick=700),
    Case('paths', lambda: st.lists(st.text(alphabet='ab_.é 1', min_size=1, max_size=5).map(lambda s: 'x' + s), min_size=1, max_size=4), paths, quick=60),
    Case('pickles', lambda: st.tuples(st.lists(_OBJECTS, max_size=4), st.integers(0, 2)), pickles, quick=150),
    Case('word lists', lambda: st.tuples(st.lists(_CELL, max_size=8), st.integers(0, 2), st.booleans()), word_lists, quick=300),
    Case('tables', lambda: st.tuples(st.dictionaries(_CELL, _CELL, max_size=8), st.integers(0, 2), st.booleans()), tables, quick=300),
    Case('reversal', lambda: st.lists(st.tuples(_CELL, _CELL), max_size=8, unique_by=(lambda p: p[0], lambda p: p[1])).map(dict), reversal, quick=200),
    Case('grouping', lambda: st.lists(st.tuples(st.integers(0, 4), st.sampled_from('abc'), st.integers(0, 5)), max_size=25), grouping, quick=300),
    Case('starts', _starts, starts, quick=600),
    Case('prefixes', _prefixes, prefixes, quick=600),
    Case('characters', lambda: _WORD, characters, quick=800),
]
