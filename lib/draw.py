"""Choice-sequence random source with integrated shrinking.

A generator asks a Draw for integers; the sequence of answers determines the case.  Shrinking
edits the sequence (delete, zero, lower) and regenerates, so every generator shrinks for free
and every shrunk case is one the generator can produce.
"""
import random, time


class Discard(Exception):
    """The case is not one to run."""


class Draw:
    def __init__(self, rng=None, prefix=None, limit=200000):
        self.rng, self.prefix, self.rec, self.limit = rng, prefix, [], limit

    def draw(self, n):
        """Integer in [0, n); 0 is the simplest answer."""
        i = len(self.rec)
        if n <= 1:
            return 0
        if i > self.limit + 50000 or self.prefix is not None and i > len(self.prefix) + 20000:
            raise Discard("generator does not end")
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v >= n:
                v = n - 1
        elif i >= self.limit:
            v = 0
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def bool(self, p=0.5):
        return self.draw(1000) >= 1000 - int(1000 * p)

    def weighted(self, pairs):
        """[(weight, item)]; the first item is the simplest."""
        t = sum(w for w, _ in pairs)
        v = self.draw(t)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def list(self, f, lo=0, hi=10, mean=None):
        """List of f() results; each element can be deleted independently by the shrinker."""
        mean = mean if mean is not None else (lo + hi) / 2
        p = 1.0 - 1.0 / (1.0 + max(0.0, mean - lo))
        out = []
        while len(out) < hi:
            if len(out) >= lo and not self.bool(p):
                break
            out.append(f())
        return out

    def repeat(self, mean, hi=10 ** 9):
        """Yields 0, 1, ...: about mean times, and the shrinker can cut any iteration."""
        i = 0
        while i < hi and self.bool(1.0 - 1.0 / (1.0 + mean)):
            yield i
            i += 1

    def times(self, n, f):
        return [f() for _ in range(n)]

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1):
            j = i + self.draw(len(xs) - i)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def mark(self):
        return len(self.rec)


def key(seq):
    return (len(seq), sum(1 for x in seq if x), seq)


def shrink(choices, attempt, seconds=60.0):
    """attempt(prefix) -> recorded choices if the case still fails the same way, else None."""
    end = time.time() + seconds
    best = list(choices)
    seen = set()

    def try_(cand):
        nonlocal best
        t = tuple(cand)
        if t in seen or time.time() > end:
            return False
        seen.add(t)
        rec = attempt(list(cand))
        if rec is None:
            return False
        while rec and rec[-1] == 0:
            rec = rec[:-1]
        if key(rec) < key(best):
            best = rec
            return True
        return False

    while best and best[-1] == 0:
        best.pop()
    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                if try_(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += max(1, size // 2) if size > 4 else 1
            size //= 2
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                if any(best[i:i + size]) and try_(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
                    improved = True
                i += size
            size //= 2
        i = 0
        while i < len(best) and time.time() < end:
            v = best[i]
            lo = 0
            if v > 0:
                for c in (v // 2, v - 1):
                    if c < best[i] and try_(best[:i] + [c] + best[i + 1:]):
                        improved = True
                        break
                else:
                    i += 1
                    continue
                if i < len(best) and best[i] > 0:
                    continue
            i += 1
    return best
