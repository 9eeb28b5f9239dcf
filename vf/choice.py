"""Every random choice of a case is drawn here, so that a case is a list of small integers that shrinks and replays.

A generator is a function gen(c) with c a Choices; the list c.taken reproduces its result. Drawing past the end of a
replayed list gives 0, which every generator arranges to be its simplest alternative.
"""
import random, time


class Choices:
    def __init__(self, seed=None, replay=None, limit=20000):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.taken = []
        self.limit = limit
        self.tags = {}

    def raw(self, n):
        """0 <= result < n"""
        i = len(self.taken)
        if i >= self.limit or n <= 1:
            v = 0
        elif self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.taken.append(v)
        return v

    # ---- what generators use
    def n(self, lo, hi):
        return lo + self.raw(hi - lo + 1)

    def small(self, lo, hi):
        """skewed to lo"""
        span = hi - lo
        return lo + min(self.raw(span + 1), self.raw(span + 1))

    def bool(self, num=1, den=2):
        """true with probability num/den; false is the simplest"""
        return self.raw(den) >= den - num

    def pick(self, xs):
        return xs[self.raw(len(xs))]

    def weighted(self, pairs):
        """[(weight, value), ...]; the first is the simplest"""
        tot = sum(w for w, _ in pairs)
        r = self.raw(tot)
        for w, v in pairs:
            if r < w:
                return v
            r -= w
        return pairs[-1][1]

    def list(self, f, lo, hi):
        return [f() for _ in range(self.n(lo, hi))]

    def bits(self, k):
        """k random bits in 16 bit draws, so that each draw shrinks"""
        v = 0
        while k > 0:
            t = min(16, k)
            v = (v << t) | self.raw(1 << t)
            k -= t
        return v

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = i - self.raw(i + 1)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def tag(self, name, k=1):
        self.tags[name] = self.tags.get(name, 0) + k


def shrink(taken, fails, budget=60.0, max_tries=3000):
    """Smallest list found such that fails(list); fails is called at most max_tries times within budget seconds."""
    end = time.monotonic() + budget
    best = list(taken)
    tries = [0]
    seen = set()

    def attempt(cand):
        nonlocal best
        if tries[0] >= max_tries or time.monotonic() > end:
            return False
        k = tuple(cand)
        if k in seen:
            return False
        seen.add(k)
        tries[0] += 1
        if fails(cand):
            best = cand
            return True
        return False

    while best and best[-1] == 0:
        best = best[:-1]
    improved = True
    while improved and time.monotonic() < end and tries[0] < max_tries:
        improved = False
        for size in (64, 32, 16, 8, 4, 2, 1):
            i = len(best) - size
            while i >= 0:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                i -= max(1, size // 2) if size > 1 else 1
                i = min(i, len(best) - size)
                if time.monotonic() > end:
                    return best
        for size in (16, 4, 1):
            i = 0
            while i < len(best):
                if any(best[i:i + size]):
                    if attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                        improved = True
                i += size
                if time.monotonic() > end:
                    return best
        for i in range(len(best)):
            if i >= len(best):
                break
            lo, hi = 0, best[i]
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    hi = mid
                    improved = True
                else:
                    lo = mid
                if i >= len(best):
                    break
            if time.monotonic() > end:
                return best
        while best and best[-1] == 0:
            best = best[:-1]
    return best
