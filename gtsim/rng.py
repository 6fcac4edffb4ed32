"""The one source of choices."""
import hashlib
import random


def derive(*parts):
    """Derive a 63 bit seed from anything printable."""
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big") >> 1


class Rng(random.Random):
    """random.Random with some helpers."""

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[int(self.random() * len(seq))]

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.random() * total
        for value, weight in pairs:
            x -= weight
            if x < 0:
                return value
        return pairs[-1][0]

    def split(self, *parts):
        return Rng(derive(self.getrandbits(63), *parts))

    def logint(self, lo, hi):
        """Integer between lo and hi, small ones more often."""
        import math
        return min(hi, int(math.exp(self.uniform(math.log(lo), math.log(hi + 1)))))
