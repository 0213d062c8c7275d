"""
Reference model of ranges: a pair of integer cut positions over a list of ascending values.

The cut just below ``values[i]`` is 2i, the one just above it 2i+1; LOW and HIGH lie beyond all.
``values[i]`` lies in the range (lo, hi) iff lo <= 2i and 2i + 1 <= hi.
"""
LOW, HIGH = -1, 10 ** 9


class M:
    """A modelled range together with the real one."""

    __slots__ = ("lo", "hi", "real")

    def __init__(self, lo, hi, real):
        self.lo, self.hi, self.real = lo, hi, real

    @property
    def empty(self):
        return self.lo == self.hi

    def key(self):
        return (self.lo, self.hi)

    def contains(self, i):
        return self.lo <= 2 * i and 2 * i + 1 <= self.hi

    def __repr__(self):
        return f"{self.lo}:{self.hi}={self.real!r}"


def make(Range, values, lo, hi):
    """The real range between two cuts, through the public factories. May raise if lo > hi."""
    if lo == LOW and hi == HIGH:
        return Range.all()
    if lo == LOW:
        return (Range.at_most if hi % 2 else Range.less_than)(values[hi // 2])
    if hi == HIGH:
        return (Range.greater_than if lo % 2 else Range.at_least)(values[lo // 2])
    factory = {
        (0, 0): Range.closed_open, (0, 1): Range.closed,
        (1, 0): Range.open, (1, 1): Range.open_closed,
    }[lo % 2, hi % 2]
    return factory(values[lo // 2], values[hi // 2])


def valid_cuts(n):
    lows = [LOW] + list(range(2 * n))
    highs = list(range(2 * n)) + [HIGH]
    return [(lo, hi) for lo in lows for hi in highs if lo <= hi]


def invalid_cuts(n):
    """Lower end above the upper end, including (v..v)."""
    return [(lo, hi) for lo in range(2 * n) for hi in range(2 * n) if lo > hi]


def random_cuts(rng, n, p_unbounded=0.15):
    while True:
        lo = LOW if rng.random() < p_unbounded else rng.randrange(2 * n)
        hi = HIGH if rng.random() < p_unbounded else rng.randrange(2 * n)
        if lo > hi:
            lo, hi = hi, lo
        if lo != HIGH and hi != LOW and (lo, hi) != (LOW, LOW):
            return lo, hi


def cuts_of(r, values, BoundType):
    """Read the cuts back from a real range through its public accessors."""
    if r.has_lower_bound():
        i = values.index(r.lower_endpoint)
        lo = 2 * i + (1 if r.lower_bound_type is BoundType.open() else 0)
    else:
        lo = LOW
    if r.has_upper_bound():
        i = values.index(r.upper_endpoint)
        hi = 2 * i + (0 if r.upper_bound_type is BoundType.open() else 1)
    else:
        hi = HIGH
    return lo, hi


def coalesce(cut_pairs):
    """Minimal ascending list of disconnected non-empty cut pairs with the same union."""
    ret = []
    for lo, hi in sorted(p for p in cut_pairs if p[0] < p[1]):
        if ret and lo <= ret[-1][1]:
            ret[-1] = (ret[-1][0], max(ret[-1][1], hi))
        else:
            ret.append((lo, hi))
    return ret


def notations(values, lo, hi):
    """All texts for the range; more than one if there are several forms of a value."""
    def forms(i):
        return [str(f) for f in (values.forms(values[i]) if hasattr(values, "forms") else [values[i]])]

    lefts = ["(-\u221e"] if lo == LOW else [("(" if lo % 2 else "[") + v for v in forms(lo // 2)]
    rights = ["+\u221e)"] if hi == HIGH else [v + ("]" if hi % 2 else ")") for v in forms(hi // 2)]
    return [left + ".." + right for left in lefts for right in rights]
