"""Answers requests in a process with its own hash seed: python -m pbt.worker, one JSON request per line on stdin, one JSON answer per line on stdout"""
import ast
import json
import os
import sys

from pbt import core

core.setup_paths()


class Answers(object):

    def __init__(self):
        import scrappybara as sb
        from pbt import env
        env.use_private_data()
        self.env = env
        self.tokenize = sb.Tokenizer()
        self.sentencize = sb.Sentencizer()

    def tokens(self, text):
        return self.tokenize(text)

    def sentences(self, text):
        return self.sentencize(text)

    def language_model(self, texts, max_order, smoothing):
        from scrappybara.langmodel.language_model import LanguageModel
        from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
        self.env.clear_language_model()
        LanguageModelBuilder(max_order, smoothing, 1)(iter(texts))
        folder = self.env.use_private_data() / 'langmodel'
        written = {}
        for name in sorted(os.listdir(folder)):
            with open(folder / name, encoding='utf-8') as reader:
                written[name] = reader.read()
        lm = LanguageModel(*[1] * max_order)
        return written, [lm.top_ngrams(n) for n in range(1, max_order + 1)]

    def best(self, lm, choices, before, after):
        """Everything a language model picks among several texts"""
        model = self.env.make_language_model(lm, 1, 1, 1)
        return (model.best_ngram(*choices), model.best_token(*choices, before=before, after=after), model.next_word(before), model.next_word(before, 1),
                [model.top_ngrams(n) for n in (1, 2, 3)])

    def normal(self, word, tag, lm):
        from pbt.props import c16
        from scrappybara.normalization.standardizer import Standardizer
        from scrappybara.syntax.tags import Tag
        lemmatize, _ = c16.make(lm)
        lemma, suffix = lemmatize(word, Tag[tag])
        return lemma, suffix.name if suffix else None, Standardizer(self.env.make_language_model(lm, 1, 1))(word)

    def tuples(self, tuples, chunk):
        from pbt import semgen
        return semgen.extract(tuples, chunk)


def main():
    out = os.fdopen(os.dup(1), 'w', encoding='utf-8')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    answers = Answers()
    for line in sys.stdin:
        kind, args = ast.literal_eval(json.loads(line))
        try:
            answer = repr(getattr(answers, kind)(*args))
        except Exception as error:
            answer = 'raised %s' % type(error).__name__
        out.write(json.dumps(answer) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
