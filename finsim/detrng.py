"""Seeded random streams that do not depend on interpreter hashing."""
import hashlib
import random


def seed_of(*parts):
    h = hashlib.sha256("/".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Rng(random.Random):
    def __init__(self, *parts):
        super().__init__()
        self.seed(seed_of(*parts))

    def __reduce__(self):
        raise TypeError("streams are not copied")

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[int(self.random() * len(seq))]

    def wpick(self, pairs):
        """[(item, weight), ...]"""
        t = sum(w for _, w in pairs)
        x = self.random() * t
        for it, w in pairs:
            x -= w
            if x < 0:
                return it
        return pairs[-1][0]
