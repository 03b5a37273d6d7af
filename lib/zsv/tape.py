"""Choice tape: every random decision of the framework is drawn from here.

A run is a pure function of (code, VERIF_SEED).  A Tape records the choices it hands out, so any generated
object can be regenerated from the recorded list (replay) and simplified by editing that list (shrinking):
smaller numbers mean simpler choices, an exhausted tape yields zeros.
"""
import random, hashlib


class Tape:
    __slots__ = ("choices", "pos", "rng", "out")

    def __init__(self, seed=None, choices=None):
        self.choices = list(choices) if choices is not None else None
        self.pos = 0
        self.rng = random.Random(_mix(seed)) if choices is None else None
        self.out = []

    def raw(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        if self.choices is not None:
            v = self.choices[self.pos] % n if self.pos < len(self.choices) else 0
            self.pos += 1
        else:
            v = self.rng.randrange(n)
        self.out.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.raw(hi - lo + 1)

    def chance(self, num, den=100):
        # simple outcome (False) is choice 0
        return self.raw(den) >= den - num

    def pick(self, seq):
        return seq[self.raw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first is the simplest"""
        total = sum(w for w, _ in pairs)
        x = self.raw(total)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        return pairs[-1][1]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.raw(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def shuffled(self, seq):
        r = list(seq)
        for i in range(len(r) - 1, 0, -1):
            j = self.raw(i + 1)
            r[i], r[j] = r[j], r[i]
        return r

    def bits(self, n):
        v = 0
        while n > 0:
            k = min(n, 30)
            v = (v << k) | self.raw(1 << k)
            n -= k
        return v

    def bytes(self, n):
        return bytes(self.raw(256) for _ in range(n))


def _mix(seed):
    return int.from_bytes(hashlib.sha256(repr(seed).encode()).digest()[:8], "big")


def shrink(choices, fails, deadline, now):
    """Greedy tape shrinking. fails(choices)->bool must be deterministic. Returns the smallest failing tape."""
    best = list(choices)
    # drop trailing
    improved = True
    while improved and now() < deadline:
        improved = False
        n = len(best)
        size = max(n // 2, 1)
        while size >= 1 and now() < deadline:
            i = 0
            while i < len(best) and now() < deadline:
                cand = best[:i] + best[i + size:]
                if len(cand) < len(best) and fails(cand):
                    best = cand
                    improved = True
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(best) and now() < deadline:
            v = best[i]
            for c in (0, v // 2, v - 1):
                if 0 <= c < v and now() < deadline:
                    cand = best[:i] + [c] + best[i + 1:]
                    if fails(cand):
                        best = cand
                        improved = True
                        break
            i += 1
    return best
