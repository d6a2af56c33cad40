"""Seeded, splittable PRNG. Everything a run does derives from one of these;
it never touches the global random state of the code under test."""
import hashlib
import random


def _h(*parts):
    s = '\x1f'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(s.encode()).digest()[:8], 'big')


class Rng(random.Random):

    def __init__(self, *key):
        self.key = key
        super().__init__(_h(*key))

    def __reduce__(self):
        raise TypeError('Rng is not picklable')

    def sub(self, *key):
        return Rng(*self.key, *key)

    def chance(self, p):
        return self.random() < p

    def seed32(self):
        return self.getrandbits(31)

    def weighted(self, pairs):
        """pairs: [(weight, value), ...]"""
        t = sum(w for w, _ in pairs)
        x = self.random() * t
        for w, v in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][1]
