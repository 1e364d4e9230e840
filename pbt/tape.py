"""Generation from a tape of random bytes: ten times faster than hypothesis strategies for recursive structures, and it still shrinks
(a shorter tape, or smaller bytes, give simpler choices: zero is always the first option)
"""


class Tape(object):

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def below(self, n):
        """Integer in [0, n)"""
        if n <= 1:
            return 0
        if self.pos >= len(self.data):
            return 0
        value = self.data[self.pos]
        self.pos += 1
        if n > 64:
            value = value * 256 + (self.data[self.pos] if self.pos < len(self.data) else 0)
            self.pos += 1
            return value * n // 65536
        return value * n // 256

    def between(self, low, high):
        return low + self.below(high - low + 1)

    def pick(self, options):
        return options[self.below(len(options))]

    def chance(self, percent):
        """False on a zero"""
        return self.below(100) >= 100 - percent


class Taped(object):
    """Generator of what make(tape) builds: see core._run_tapes"""

    def __init__(self, make, min_size, max_size):
        self.make = make
        self.min_size = min_size
        self.max_size = max_size


def taped(make, min_size=40, max_size=160):
    return Taped(make, min_size, max_size)
