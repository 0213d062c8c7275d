import attr

from vistautils.range import Range
from vistautils.span import HasSpan, Span

from vmon import gen
from vmon.engine import Property

PROP = Property(
    "C07",
    scale=40,
    rule="Exhaustive: all pairs of spans over offsets -3..6 (and objects having them), every operation "
    "compared with sets of offsets; all invalid pairs of offsets rejected. Random: far-away and huge "
    "spans, collections of spans for enclosing and sorting, ends which are no integers.",
    required=["pair", "rejected", "disjoint", "nested", "partial", "enclosing", "sorted", "has_span",
              "adjacent", "huge", "near"],
    assumptions=["booleans as ends are not considered"],
    files=["vistautils/span.py"],
)

LO, HI = -3, 6


@attr.s(frozen=True)
class Token(HasSpan):
    span = attr.ib()
    text = attr.ib(default="")


class Mention(HasSpan):
    def __init__(self, span):
        self.span = span


def check_pair(c, a, b):
    """All binary operations against interval arithmetic on plain integers."""
    c.count("pair")
    a0, a1, b0, b1 = a.start, a.end, b.start, b.end
    shared = range(max(a0, b0), min(a1, b1))
    if not shared:
        c.count("disjoint")
        if a1 == b0 or b1 == a0:
            c.count("adjacent")
    elif (a0 <= b0 and b1 <= a1) or (b0 <= a0 and a1 <= b1):
        c.count("nested")
    else:
        c.count("partial")
    inside = a0 <= b0 and b1 <= a1
    c.eq(a.contains_span(b), inside, "contains_span", a, b)
    c.eq(b in a, inside, "in", a, b)
    c.eq(a.overlaps(b), bool(shared), "overlaps", a, b)
    c.eq(a.precedes(b), a1 - 1 < b0, "precedes", a, b)
    c.eq(a.follows(b), a0 > b1 - 1, "follows", a, b)
    for what, got in (("intersection", a.intersection(b)), ("clip_to", a.clip_to(b))):
        if shared:
            c.check(isinstance(got, Span), what, got, a, b)
            c.eq((got.start, got.end), (shared[0], shared[-1] + 1), what, a, b)
        else:
            c.check(got is None, f"{what} of disjoint spans", got, a, b)
    union = Span.minimal_enclosing_span([a, b])
    c.eq((union.start, union.end), (min(a0, b0), max(a1, b1)), "minimal enclosing span", a, b)


def check_single(c, s, start, end, offsets):
    c.eq((s.start, s.end), (start, end), "ends")
    if end - start < 2 ** 60:
        c.eq(len(s), end - start, "length", s)
    r = s.as_range()
    c.check(isinstance(r, Range), "as_range", r)
    for i in offsets:
        covered = start <= i <= end - 1
        c.eq(s.contains_offset(i), covered, "contains_offset", s, i)
        c.eq(i in r, covered, "as_range contains", s, i, r)
    for Kind in (Token, Mention):
        c.count("has_span")
        x = Kind(s)
        c.eq((x.start, x.end), (start, end), "ends of an object having a span", s)
        for i in offsets:
            c.eq(x.contains_offset(i), s.contains_offset(i), "contains_offset of an object", s, i)


ALL = [(s, e) for s in range(LO, HI + 1) for e in range(LO, HI + 1)]


@PROP.scenario(quick=len(ALL), exhaustive=True)
def all_small_pairs(c):
    start, end = ALL[c.i]
    c.log("span", start, end)
    if start >= end:
        c.count("rejected")
        c.raises(ValueError, lambda: Span(start, end), "empty or reversed span", start, end)
        c.raises(ValueError, lambda: Span.from_inclusive_to_exclusive(start, end),
                 "empty or reversed span", start, end)
        return
    a = Span(start, end)
    check_single(c, a, start, end, range(LO - 2, HI + 3))
    check_single(c, Span.from_inclusive_to_exclusive(start, end), start, end, [start, end])
    for s, e in ALL:
        if s < e:
            b = Span(s, e)
            check_pair(c, a, b)
            c.eq(Token(a).contains_span(b), a.contains_span(b), "contains_span of an object")
            c.eq(Mention(b).contains_span(a), b.contains_span(a), "contains_span of an object")
    for amount in range(-9, 10):
        check_single(c, a.shift(amount), start + amount, end + amount, range(-12, 16))
    c.eq((a.start, a.end), (start, end), "unchanged by all of this")


def random_span(c, scale):
    base = c.rng.choice([0, 0, 10 ** 6, -(10 ** 6), 10 ** 20, 2 ** 63 - 5, -(2 ** 63)])
    if abs(base) >= 2 ** 62:
        c.count("huge")
    s = base + c.rng.randint(-scale, scale)
    return Span(s, s + c.rng.choice([1, 2, c.rng.randint(1, scale)]))


@PROP.scenario(quick=600)
def random_spans(c):
    scale = c.rng.choice([3, 30, 3000, 10 ** 9, 2 ** 55, 10 ** 24])
    spans = [random_span(c, scale) for _ in range(c.rng.randint(1, 9))]
    if c.rng.random() < 0.3:
        spans.append(c.rng.choice(spans))
    for _ in range(2):
        # one which is nearly the same
        like = c.rng.choice(spans)
        start, end = like.start + c.rng.randint(-1, 1), like.end + c.rng.randint(-1, 1)
        if start < end:
            spans.append(Span(start, end))
            c.count("near")
    c.log("spans", spans)
    for a in spans:
        edge = [a.start - 1, a.start, a.start + 1, a.end - 2, a.end - 1, a.end, a.end + 1]
        check_single(c, a, a.start, a.end, edge)
        for b in spans:
            check_pair(c, a, b)
        amount = c.rng.choice([1, -1, c.rng.randint(-(10 ** 25), 10 ** 25)])
        shifted = a.shift(amount)
        c.eq((shifted.start, shifted.end), (a.start + amount, a.end + amount), "shift", a, amount)
    for _ in range(3):
        c.count("enclosing")
        pick = c.rng.choice([list, tuple])(c.rng.sample(spans, c.rng.randint(1, len(spans))))
        got = Span.minimal_enclosing_span(c.rng.choice([list, iter, lambda x: (y for y in x)])(pick))
        c.eq((got.start, got.end), (min(s.start for s in pick), max(s.end for s in pick)),
             "minimal enclosing span", pick)
    c.raises(ValueError, lambda: Span.minimal_enclosing_span([]), "enclosing span of nothing")
    ordered = sorted(gen.shuffled(c.rng, spans), key=Span.earliest_then_longest_first_key)
    c.count("sorted")
    c.eq([(s.start, s.end) for s in ordered],
         sorted(((s.start, s.end) for s in spans), key=lambda x: (x[0], -x[1])), "sorted")
    for i, a in enumerate(ordered):
        for b in ordered[i + 1:]:
            c.check(not (b.contains_span(a) and (a.start, a.end) != (b.start, b.end)),
                    "an enclosing span comes after one it encloses", a, b)


NOT_INTEGERS = [1.0, 2.5, "3", None, (1,), b"2", [4], object(), float("inf"), float("nan"), 1j]


@PROP.scenario(quick=len(NOT_INTEGERS), exhaustive=True)
def ends_which_are_no_integers(c):
    bad = NOT_INTEGERS[c.i]
    c.log("bad end", bad)
    for other in (-5, 0, 1, 2, 3, 10 ** 9):
        c.count("rejected", 2)
        c.raises((TypeError, ValueError), lambda: Span(bad, other), "start", bad, other)
        c.raises((TypeError, ValueError), lambda: Span(other, bad), "end", other, bad)
    c.raises((TypeError, ValueError), lambda: Span(bad, bad), "both ends", bad)
