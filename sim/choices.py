"""Every decision of a simulated run goes through a Choices object.

A run has a few named streams (workload, faults, schedule, ...).  In search
mode a stream draws from a PRNG that depends only on (seed, stream name); in
replay mode it reads back recorded values, and 0 where nothing is recorded.
By convention the value 0 is always the plainest alternative (no fault, the
running process goes on, the smallest workload), so that a replay file only has
to list the decisions that are not 0 and so that shrinking means lowering.
"""
import hashlib
import random


def _seed_of(*parts):
    h = hashlib.sha256("/".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Choices:
    def __init__(self, seed=None, recorded=None):
        self.seed = seed
        self.recorded = recorded          # {stream: {index: value}} or None
        self.rngs = {}
        self.log = {}                     # {stream: [values]}

    def _next(self, stream):
        log = self.log.setdefault(stream, [])
        i = len(log)
        return log, i

    def choose(self, stream, n, p0=None):
        """An integer in range(n).  With p0, 0 has (at least) probability p0."""
        log, i = self._next(stream)
        if n <= 1:
            v = 0
        elif self.recorded is not None:
            v = self.recorded.get(stream, {}).get(i, 0)
            if v >= n:
                v = n - 1
        else:
            rng = self.rngs.get(stream)
            if rng is None:
                rng = self.rngs[stream] = random.Random(_seed_of(self.seed, stream))
            if p0 is not None and rng.random() < p0:
                v = 0
            elif p0 is not None:
                v = rng.randrange(1, n)
            else:
                v = rng.randrange(n)
        log.append(v)
        return v

    def flag(self, stream, p):
        return self.choose(stream, 2, 1.0 - p) == 1

    def pick(self, stream, seq, p0=None):
        return seq[self.choose(stream, len(seq), p0)]

    def weighted(self, stream, weights):
        """Index drawn with the given weights; index 0 is the plainest."""
        log, i = self._next(stream)
        n = len(weights)
        if self.recorded is not None:
            v = min(self.recorded.get(stream, {}).get(i, 0), n - 1)
        else:
            rng = self.rngs.get(stream)
            if rng is None:
                rng = self.rngs[stream] = random.Random(_seed_of(self.seed, stream))
            v = rng.choices(range(n), weights)[0]
        log.append(v)
        return v

    def sub(self, stream):
        return Stream(self, stream)

    def nonzero(self):
        return {s: {str(i): v for i, v in enumerate(vals) if v}
                for s, vals in self.log.items() if any(vals)}

    @staticmethod
    def from_nonzero(d):
        return Choices(recorded={s: {int(i): v for i, v in m.items()}
                                 for s, m in d.items()})


class Stream:
    """A Choices object bound to one stream."""
    def __init__(self, ch, name):
        self.ch, self.name = ch, name

    def choose(self, n, p0=None):
        return self.ch.choose(self.name, n, p0)

    def flag(self, p):
        return self.ch.flag(self.name, p)

    def pick(self, seq, p0=None):
        return self.ch.pick(self.name, seq, p0)

    def weighted(self, w):
        return self.ch.weighted(self.name, w)

    def shuffled(self, seq):
        """A permutation; all-zero choices give the identity."""
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.choose(len(seq))))
        return out
