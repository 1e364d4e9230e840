"""Reference model of ngram extraction and smoothing"""
import collections
import re


def valid(token):
    return token == 'I' or bool(re.fullmatch('[a-z][a-zA-Z]*', token))


def ref_ngrams(token_lists, order):
    out = []
    for tokens in token_lists:
        for i in range(len(tokens) - order + 1):
            window = tokens[i:i + order]
            if all(valid(t) for t in window):
                out.append(' '.join(window).lower())
    return out


def ref_counts(token_lists, max_order):
    """order => Counter of tuples"""
    return {n: collections.Counter(tuple(g.split(' ')) for g in ref_ngrams(token_lists, n)) for n in range(1, max_order + 1)}


def ref_mle(counts):
    return {n: {g: c / sum(ctr.values()) for g, c in ctr.items()} for n, ctr in counts.items()}


def ref_mkn(counts):
    """Modified Kneser-Ney, straight from the definition. None if there is not enough data."""
    max_order = max(counts)
    discounts = {}
    for n in range(2, max_order + 1):
        n1, n2, n3, n4 = [sum(1 for c in counts[n].values() if c == k) for k in (1, 2, 3, 4)]
        if 0 in (n1, n2, n3, n4):
            return None
        y = n1 / (n1 + 2 * n2)
        discounts[n] = {0: 0., 1: 1 - 2 * y * n2 / n1, 2: 2 - 3 * y * n3 / n2, 3: 3 - 4 * y * n4 / n3}
    followers = {n: collections.defaultdict(lambda: [0, 0, 0]) for n in range(2, max_order + 1)}
    left = collections.Counter()  # Number of distinct words on the left
    both = collections.Counter()  # Number of distinct pairs (word on the left, word on the right)
    for n in range(2, max_order + 1):
        for gram, c in counts[n].items():
            followers[n][gram[:-1]][min(c, 3) - 1] += 1
            left[gram[1:]] += 1
            both[(n, gram[1:-1])] += 1

    def proba(gram, top):
        n = len(gram)
        if n == 1:
            return left[gram] / len(counts[2])
        if top:
            numerator = counts[n][gram]
            discount = discounts[n][min(numerator, 3)]
            denominator = counts[n - 1][gram[:-1]]
        else:
            numerator = left[gram]
            discount = discounts[n + 1][min(numerator, 3)]
            denominator = both[(n + 1, gram[:-1])]
        weight = sum(f * discounts[n][k + 1] for k, f in enumerate(followers[n][gram[:-1]]))
        return max(numerator - discount, 0.) / denominator + weight / denominator * proba(gram[1:], False)

    return {n: {gram: proba(gram, True) for gram in counts[n]} for n in range(1, max_order + 1)}
