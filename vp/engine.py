"""A small property-based testing engine with integrated shrinking.

Hypothesis does not run on the PyPy 3.9 interpreter that the project needs, so
this module supplies the same idea: every generated case is a function of a
finite sequence of integer choices.  Random search draws the choices from a
seeded generator, and shrinking edits the choice sequence (deleting spans,
zeroing and lowering choices) and re-runs the property, so that every shrunk
case is one that the generator could have produced.
"""
import hashlib
import random


class Violation(Exception):
    """The property does not hold for the generated case.

    key identifies the class of failure; it is matched (exactly) against the
    committed list of known findings.
    """

    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class Reject(Exception):
    """The generated case is not in the domain of the property."""


class Overrun(Exception):
    """A replayed choice sequence was too short."""


class Case:
    """The source of choices for one generated case."""

    MAX_CHOICES = 20000

    def __init__(self, rng=None, prefix=None, scratch=None, tier='quick'):
        self.rng = rng
        self.prefix = prefix
        self.choices = []
        self.limits = []
        self.spans = []
        self.labels = []
        self.nontrivial_key = None
        self.scratch = scratch
        self.tier = tier
        self.stats = {}

    # -- primitive
    def _draw(self, n, weights=None):
        """Draw an integer in [0, n]"""
        if len(self.choices) >= self.MAX_CHOICES:
            raise Reject('too many choices')
        i = len(self.choices)
        if self.prefix is not None:
            if i >= len(self.prefix):
                raise Overrun()
            v = min(self.prefix[i], n)
        elif n == 0:
            v = 0
        elif weights is not None:
            v = weights(self.rng)
        else:
            v = self.rng.randint(0, n)
        self.choices.append(v)
        self.limits.append(n)
        return v

    # -- derived
    def int(self, lo, hi):
        return lo + self._draw(hi - lo)

    def bool(self, p=0.5):
        return bool(self._draw(1, lambda r: 1 if r.random() < p else 0))

    def choice(self, seq):
        return seq[self._draw(len(seq) - 1)]

    def weighted(self, pairs):
        """Pick one of [(weight, value)]; the first value is the simplest."""
        pairs = [p for p in pairs if p[0] > 0]
        total = sum(w for w, _ in pairs)

        def pick(rng):
            x = rng.random() * total
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._draw(len(pairs) - 1, pick)][1]

    def list(self, fn, lo=0, hi=5, avg=None):
        """A list of values of fn(). Every element starts with a 'continue'
        choice so that deleting its span deletes the element."""
        out = []
        avg = (lo + hi) / 2.0 if avg is None else avg
        p = 1.0 - 1.0 / (1.0 + max(avg - lo, 0.01))
        while len(out) < hi:
            start = len(self.choices)
            if len(out) >= lo:
                if not self.bool(p):
                    break
            else:
                self._draw(0)
            out.append(fn())
            self.spans.append((start, len(self.choices)))
        return out

    def text(self, alphabet, lo=0, hi=10, avg=None):
        return ''.join(self.list(lambda: self.choice(alphabet), lo, hi, avg))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self._draw(i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    # -- reporting
    def note(self, *items):
        """Record a readable description of the case (shown in replay files
        and evidence samples)."""
        self.labels.extend(items)

    def nontrivial(self, key):
        """Declare the case non-trivial; key (any repr-able value) is what
        makes it distinct from the others."""
        self.nontrivial_key = hashlib.sha1(
            repr(key).encode('utf-8', 'backslashreplace')).hexdigest()

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    # -- assertions
    def fail(self, message, key=None):
        raise Violation(message, key)

    def check(self, cond, message, key=None):
        if not cond:
            raise Violation(message() if callable(message) else message, key)

    def eq(self, actual, expected, what, key=None):
        if not (actual == expected):
            raise Violation("{}:\n    expected {!r}\n    observed {!r}".format(
                what, expected, actual), key)


def case_rng(seed, prop, worker, index):
    h = hashlib.sha256('{}/{}/{}/{}'.format(seed, prop, worker, index)
                       .encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


class Shrinker:
    """Shrink a failing choice sequence.

    run(choices) -> (failed, actual_choices, spans, result)
    """

    def __init__(self, run, choices, spans, result, max_runs=400,
                 deadline=None):
        self.run_fn = run
        self.best = list(choices)
        self.spans = list(spans)
        self.result = result
        self.runs = 0
        self.max_runs = max_runs
        self.deadline = deadline
        self.seen = set()

    def out_of_budget(self):
        if self.runs >= self.max_runs:
            return True
        if self.deadline is not None:
            import time
            return time.time() > self.deadline
        return False

    def attempt(self, choices):
        if self.out_of_budget():
            return False
        key = tuple(choices)
        if key in self.seen:
            return False
        self.seen.add(key)
        self.runs += 1
        failed, actual, spans, result = self.run_fn(choices)
        if not failed:
            return False
        if (len(actual), actual) < (len(self.best), self.best):
            self.best, self.spans, self.result = list(actual), spans, result
            return True
        return False

    def shrink(self):
        improved = True
        while improved and not self.out_of_budget():
            improved = False
            improved |= self.delete_spans()
            improved |= self.delete_blocks()
            improved |= self.zero_blocks()
            improved |= self.lower()
        return self.best, self.result

    def delete_spans(self):
        improved = False
        again = True
        while again and not self.out_of_budget():
            again = False
            for a, b in sorted(set(self.spans), key=lambda s: s[0] - s[1]):
                if b <= a or b > len(self.best):
                    continue
                if self.attempt(self.best[:a] + self.best[b:]):
                    improved = again = True
                    break
                if self.out_of_budget():
                    break
        return improved

    def delete_blocks(self):
        improved = False
        for size in (16, 8, 4, 3, 2, 1):
            i = len(self.best) - size
            while i >= 0 and not self.out_of_budget():
                if self.attempt(self.best[:i] + self.best[i + size:]):
                    improved = True
                    i = min(i, len(self.best) - size)
                else:
                    i -= 1
        return improved

    def zero_blocks(self):
        improved = False
        for size in (16, 4, 1):
            i = 0
            while i < len(self.best) and not self.out_of_budget():
                block = self.best[i:i + size]
                if any(block):
                    new = (self.best[:i] + [0] * len(block) +
                           self.best[i + size:])
                    improved |= self.attempt(new)
                i += size
        return improved

    def lower(self):
        improved = False
        i = 0
        while i < len(self.best) and not self.out_of_budget():
            lo, hi = 0, self.best[i]
            while lo < hi and not self.out_of_budget():
                mid = (lo + hi) // 2
                new = self.best[:]
                new[i] = mid
                if self.attempt(new):
                    improved = True
                    if i >= len(self.best):
                        break
                    hi = min(mid, self.best[i])
                else:
                    lo = mid + 1
            i += 1
        return improved
