from vistautils.range import BoundType, ImmutableRangeSet, Range, RangeSet

from vmon import gen
from vmon.engine import Property
from vmon.rangemodel import coalesce, cuts_of, make, random_cuts, valid_cuts

PROP = Property(
    "C03",
    scale=7,
    rule="Exhaustive: all range sets made of the cut positions over 3 values, each asked all queries "
    "with all values and all ranges. Random: sets of up to 30 ranges of 17 endpoint types, mutable "
    "ones queried between additions and immutable ones; answers are compared with a scan of all "
    "member ranges.",
    required=["value_query", "range_query", "empty_set", "nothing_found", "found", "empty_query"],
    assumptions=["endpoint types are totally ordered with == consistent with <"],
    files=["vistautils/range.py"],
)


def check_value_queries(c, s, members, values, i):
    v = values[i]
    c.count("value_query")
    holding = [m for m in members if m[0] <= 2 * i and 2 * i + 1 <= m[1]]
    c.eq(v in s, bool(holding), "containment", s, v)
    got = s.range_containing(v)
    c.eq(got and cuts_of(got, values, BoundType), holding[0] if holding else None,
         "range containing", s, v)
    below = [m for m in members if m[0] <= 2 * i]
    above = [m for m in members if m[1] >= 2 * i + 1]
    for query, expected in (
        ("rightmost_containing_or_below", below[-1] if below else None),
        ("leftmost_containing_or_above", above[0] if above else None),
        ("maximal_containing_or_below", below[-1] if below else None),
        ("minimal_containing_or_above", above[0] if above else None),
    ):
        got = getattr(s, query)(v)
        c.count("found" if expected else "nothing_found")
        c.eq(
            None if got is None else cuts_of(got, values, BoundType), expected, query, s, v,
        )


def as_cuts(c, answer, values, what):
    got = [cuts_of(r, values, BoundType) for r in answer]
    c.eq(len(got), len(set(got)), f"{what} has no duplicates", got)
    return sorted(got)


def check_range_queries(c, s, members, values, cut, real):
    lo, hi = cut
    c.count("range_query")
    if lo == hi:
        c.count("empty_query")
    enclosing = [m for m in members if m[0] <= lo and hi <= m[1]]
    c.eq(s.encloses(real), bool(enclosing), "encloses", s, real)
    got = s.range_enclosing_range(real)
    c.eq(None if got is None else cuts_of(got, values, BoundType),
         enclosing[0] if enclosing else None, "enclosing range", s, real)
    c.eq(as_cuts(c, s.ranges_enclosed_by(real), values, "ranges enclosed by"),
         [m for m in members if lo <= m[0] and m[1] <= hi], "ranges enclosed by", s, real)
    c.eq(as_cuts(c, s.ranges_overlapping(real), values, "ranges overlapping"),
         [m for m in members if max(lo, m[0]) <= min(hi, m[1])], "ranges overlapping", s, real)
    c.eq(s.intersects(real), any(max(lo, m[0]) < min(hi, m[1]) for m in members),
         "intersects", s, real)


@PROP.scenario(quick=8 * 8, exhaustive=True)
def all_small_sets(c):
    """
    A set over three values is a choice, between each two neighbouring cuts, of covered or not
    (adjacent covered stretches are one range): seven stretches, so 128 sets.
    """
    family = gen.FAMILY_NAMES[c.i % len(gen.FAMILY_NAMES)]
    values = gen.values(c.rng, family, 3)
    points = [-1, 0, 1, 2, 3, 4, 5, 10 ** 9]
    queries = [(cut, make(Range, values, *cut)) for cut in valid_cuts(3)]
    for mask in (2 * c.i, 2 * c.i + 1):
        members = coalesce([(points[j], points[j + 1]) for j in range(7) if mask >> j & 1])
        c.log("set", family, values, members)
        reals = [make(Range, values, *m) for m in members]
        for s in (RangeSet.create_mutable().add_all(reals),
                  ImmutableRangeSet.builder().add_all(reals).build()):
            if not members:
                c.count("empty_set")
            for i in range(3):
                check_value_queries(c, s, members, values, i)
            for cut, real in queries:
                check_range_queries(c, s, members, values, cut, real)


@PROP.scenario(quick=1200)
def random_sets(c):
    family = c.rng.choice(gen.FAMILY_NAMES)
    n = c.rng.choice([2, 4, 8, 16, 40])
    values = gen.values(c.rng, family, n)
    s = RangeSet.create_mutable()
    added = []
    c.log("values", family, values)
    for _ in range(c.rng.randint(1, 6)):
        for _ in range(c.rng.randint(0, 6)):
            lo, hi = random_cuts(c.rng, n, c.rng.choice([0, 0, 0.1]))
            if lo != -1 and hi != 10 ** 9:
                hi = min(hi, lo + c.rng.randint(0, 5))
            s.add(make(Range, values, lo, hi))
            added.append((lo, hi))
        members = coalesce(added)
        c.log("members", members)
        if not members:
            c.count("empty_set")
        under_test = [s, s.immutable_copy()]
        for i in range(n):
            check_value_queries(c, c.rng.choice(under_test), members, values, i)
        queries = []
        for _ in range(6):
            cut = random_cuts(c.rng, n, 0.1)
            if members and c.rng.random() < 0.5:
                # touching the bounds of some member
                m, m2 = c.rng.choice(members), c.rng.choice(members)
                ends = sorted([c.rng.choice(m), c.rng.choice(m2)])
                if ends[0] != 10 ** 9 and ends[1] != -1:
                    cut = tuple(ends)
            queries.append((cut, make(Range, values, *cut)))
        for cut, real in queries:
            for t in under_test:
                check_range_queries(c, t, members, values, cut, real)
        reals = [real for _, real in queries]
        for k in range(len(queries) + 1):
            expected = all(
                any(m[0] <= lo and hi <= m[1] for m in members) for (lo, hi), _ in queries[:k]
            )
            t = c.rng.choice(under_test)
            c.eq(t.encloses_all(c.rng.choice([list, tuple, iter])(reals[:k])), expected,
                 "encloses_all", t, reals[:k])
        other_cuts = [random_cuts(c.rng, n, 0.0) for _ in range(c.rng.randint(0, 3))]
        other = RangeSet.create_mutable().add_all([make(Range, values, *x) for x in other_cuts])
        expected = all(
            any(m[0] <= lo and hi <= m[1] for m in members) for lo, hi in coalesce(other_cuts)
        )
        for o in (other, other.immutable_copy()):
            c.eq(s.encloses_all(o), expected, "encloses_all of a range set", s, o)
        c.check(s.encloses_all(s) and s.encloses_all(s.immutable_copy()), "encloses itself", s)
        # queries do not change the set
        c.eq([cuts_of(r, values, BoundType) for r in s.as_ranges()], members, "members afterwards")


@PROP.scenario(quick=12)
def large_sets(c):
    n = c.rng.choice([1100, 2300])
    c.log("large", n, c.rng.random())
    members = [(4 * i, 4 * i + c.rng.randint(1, 3)) for i in range(n)]
    values = list(range(2 * n + 1))
    s = ImmutableRangeSet.builder().add_all(
        [make(Range, values, *m) for m in gen.shuffled(c.rng, members)]
    ).build()

    class ByIndex(list):
        """values.index(v) is v here"""
        def index(self, v):
            return v

    values = ByIndex(values)
    for _ in range(12):
        i = c.rng.randrange(2 * n)
        check_value_queries(c, s, members, values, i)
    for _ in range(8):
        lo = c.rng.randrange(4 * n)
        hi = min(4 * n + 1, lo + c.rng.choice([0, 1, 2, 3, 9, 2 * n]))
        check_range_queries(c, s, members, values, (lo, hi), make(Range, values, lo, hi))
