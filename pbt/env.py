"""A private data folder, so that checks can write language models & co without touching the repository's data"""
import os
import pathlib
import pickle
import shutil
import tempfile

import scrappybara.config as cfg
from pbt.core import REPO, HarnessError
from scrappybara.utils import files

_REAL = pathlib.Path(REPO) / 'scrappybara' / 'data'
_DIR = None


def use_private_data():
    """Points the data folder to a scratch folder of this process. Returns its path."""
    global _DIR
    if _DIR is None:
        root = os.environ.get('PBT_SCRATCH') or tempfile.mkdtemp(prefix='pbt_')
        _DIR = pathlib.Path(tempfile.mkdtemp(prefix='data_', dir=root))
        shutil.copytree(_REAL / 'english', _DIR / 'english')
        (_DIR / 'langmodel').mkdir()
        (_DIR / 'models').mkdir()
        for name in os.listdir(_REAL / 'models'):
            if name.endswith('.pkl'):
                shutil.copy(_REAL / 'models' / name, _DIR / 'models' / name)
    cfg.DATA_DIR = _DIR
    for sub in ('langmodel', 'models', 'english'):
        if not os.path.abspath(files.file_path(sub)).startswith(str(_DIR)):
            raise HarnessError('cannot redirect the data folder')
    return _DIR


def write_language_model(ngrams):
    """Arg ngrams: order => list of (text, count, proba)"""
    folder = use_private_data() / 'langmodel'
    for order, lines in ngrams.items():
        with open(folder / ('%d_grams.txt' % order), 'w', encoding='utf-8') as writer:
            for text, count, proba in lines:
                writer.write('%s\t%d\t%.17f\n' % (text, count, proba))


def read_ngram_file(order):
    """Returns list of (text, count, proba)"""
    with open(use_private_data() / 'langmodel' / ('%d_grams.txt' % order), encoding='utf-8') as reader:
        return [(t, int(c), float(p)) for t, c, p in [line.rstrip('\n').split('\t') for line in reader]]


def clear_language_model():
    folder = use_private_data() / 'langmodel'
    for name in os.listdir(folder):
        os.remove(folder / name)


def make_language_model(ngrams, *min_counts):
    """Arg ngrams: dictionary text => (count, proba)"""
    from scrappybara.langmodel.language_model import LanguageModel
    orders = {order: [] for order in range(1, len(min_counts) + 1)}
    for text, (count, proba) in ngrams.items():
        orders[len(text.split())].append((text, count, proba))
    write_language_model(orders)
    return LanguageModel(*min_counts)


def write_word_vectors(vectors):
    with open(use_private_data() / 'models' / 'word_vectors.pkl', 'wb') as writer:
        pickle.dump(vectors, writer)


# ###############################################################################
# STAND-INS FOR THE NEURAL MODELS
# The weights are not in the repository. The stand-ins read the sentence back from the vectors they are given, and answer
# what the check has decided for that sentence.
# ###############################################################################

START, END = 'ʃʃʃ', 'ʄʄʄ'


class Oracle(object):
    """What the stand-ins answer. Set the three functions before use."""

    def __init__(self):
        self.words = {}  # id => word
        self.tags = None  # tokens => list of tag codes
        self.deps = None  # tokens, tag codes => list of dep codes
        self.trans = None  # tokens, tag codes, dep codes, idx on the stack, idx in the buffer => transition code
        self.seen = []

    def vocabulary(self, words):
        """Writes word vectors which identify each word"""
        import numpy as np
        words = [START, END] + sorted({w.lower() for w in words})
        vectors = {}
        for idx, word in enumerate(words):
            vector = np.zeros(cfg.WORD_VECTOR_SIZE, dtype=np.float32)
            vector[0] = idx + 1
            vectors[word] = vector
        self.words = {idx + 1: word for idx, word in enumerate(words)}
        write_word_vectors(vectors)

    def read(self, word_vectors):
        """Tokens (lower case) of a vectorized sentence"""
        from pbt.core import Violation
        ids = [int(v[0]) for v in word_vectors]
        if len(ids) != cfg.PADDED_SENT_LENGTH or any(i and i not in self.words for i in ids):
            raise Violation('malformed word vectors: %r' % ids)
        words = [self.words.get(i) for i in ids]
        if words[0] != START or END not in words:
            raise Violation('word vectors without start or end: %r' % words)
        end = words.index(END)
        if any(i for i in ids[end + 1:]):
            raise Violation('word vectors after the end of the sentence: %r' % words)
        return tuple(words[1:end])


ORACLE = Oracle()


def _pad(codes):
    codes = [0] + [int(c) for c in codes] + [0]
    return codes + [0] * (cfg.PADDED_SENT_LENGTH - len(codes))


def stub_models():
    """Replaces the neural models by stand-ins that follow ORACLE"""
    from pbt.core import Violation
    from scrappybara.syntax import models
    import numpy as np

    def init(self, charset_size):
        self._model = None

    def load(self):
        return self

    def same_size(*args):
        if len({len(a) for a in args}) != 1:
            raise Violation('a model was given %r' % [len(a) for a in args])

    def codes_of(codes, tokens, what):
        codes = [int(c) for c in codes]
        if len(codes) != cfg.PADDED_SENT_LENGTH:
            raise Violation('%s have length %d' % (what, len(codes)))
        return tuple(codes[1:len(tokens) + 1])

    def index_of(mask, tokens):
        idxs = [i for i, m in enumerate(mask) if m]
        if len(mask) != cfg.PADDED_SENT_LENGTH or len(idxs) != 1 or not 0 <= idxs[0] - 1 < len(tokens):
            raise Violation('bad mask %r for %d tokens' % (list(mask), len(tokens)))
        return idxs[0] - 1

    def predict_tags(self, char_codes, word_vectors):
        same_size(char_codes, word_vectors)
        return [[np.int64(c) for c in _pad(ORACLE.tags(ORACLE.read(w)))] for w in word_vectors]

    def predict_deps(self, tag_codes, char_codes, word_vectors):
        same_size(tag_codes, char_codes, word_vectors)
        out = []
        for tags, vectors in zip(tag_codes, word_vectors):
            tokens = ORACLE.read(vectors)
            tags = codes_of(tags, tokens, 'tags')
            if tags != tuple(int(t) for t in ORACLE.tags(tokens)):
                raise Violation('%r is given the tags %r of another sentence' % (tokens, tags))
            out.append([np.int64(c) for c in _pad(ORACLE.deps(tokens, tags))])
        return out

    def predict_trans(self, tag_codes, dep_codes, char_codes, word_vectors, masks_1, masks_2):
        same_size(tag_codes, dep_codes, char_codes, word_vectors, masks_1, masks_2)
        out = []
        for tags, deps, vectors, m1, m2 in zip(tag_codes, dep_codes, word_vectors, masks_1, masks_2):
            tokens = ORACLE.read(vectors)
            tags, deps = codes_of(tags, tokens, 'tags'), codes_of(deps, tokens, 'dependencies')
            if tags != tuple(int(t) for t in ORACLE.tags(tokens)) or \
                    deps != tuple(int(d) for d in ORACLE.deps(tokens, tags)):
                raise Violation('%r is given the tags or dependencies of another sentence' % (tokens,))
            out.append(np.int64(ORACLE.trans(tokens, tags, deps, index_of(m1, tokens), index_of(m2, tokens))))
        return out

    for cls, predict in ((models.PTagsModel, predict_tags), (models.PDepsModel, predict_deps), (models.TransModel, predict_trans)):
        cls.__init__ = init
        cls.load = load
        cls.predict = predict
