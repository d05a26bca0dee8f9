"""Seeded randomness: one integer decides everything.  Every stream is derived by name, so adding a draw to one
stream cannot shift another."""
import hashlib


class Rng:
    """Small PCG-style generator: independent of Python's random module version."""
    __slots__ = ("s", "inc")

    def __init__(self, *key):
        h = hashlib.sha256("/".join(str(k) for k in key).encode()).digest()
        self.s = int.from_bytes(h[:8], "big")
        self.inc = int.from_bytes(h[8:16], "big") | 1

    def u32(self):
        old = self.s
        self.s = (old * 6364136223846793005 + self.inc) & 0xFFFFFFFFFFFFFFFF
        x = ((old >> 18) ^ old) >> 27 & 0xFFFFFFFF
        r = old >> 59
        return ((x >> r) | (x << ((-r) & 31))) & 0xFFFFFFFF

    def random(self):
        return ((self.u32() >> 5) * 67108864.0 + (self.u32() >> 6)) / 9007199254740992.0

    def below(self, n):
        return int(self.random() * n)

    def randint(self, a, b):
        return a + self.below(b - a + 1)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def chance(self, p):
        return self.random() < p

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def gauss(self):
        import math
        u = max(self.random(), 1e-300)
        return math.sqrt(-2 * math.log(u)) * math.cos(2 * math.pi * self.random())

    def shuffle(self, lst):
        for i in range(len(lst) - 1, 0, -1):
            j = self.below(i + 1)
            lst[i], lst[j] = lst[j], lst[i]
        return lst

    def sample(self, seq, k):
        return self.shuffle(list(seq))[:k]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def seed63(self):
        return (self.u32() << 31) ^ self.u32()
