from immutablecollections import immutabledict

from vistautils.range import BoundType, ImmutableRangeMap, Range, immutablerangemap

from vmon import gen
from vmon.engine import Property
from vmon.rangemodel import coalesce, cuts_of, make, random_cuts, valid_cuts

PROP = Property(
    "C04",
    scale=20,
    rule="Random valid entry collections (up to 15 disconnected key ranges of 17 endpoint types, with "
    "falsy, repeated and equal values) built in every order and way, asked all queries; maps of up to "
    "thousands of entries; exhaustive "
    "over all pairs of key ranges over 3 values, of which the valid ones must work and the others be "
    "rejected; random larger invalid collections.",
    required=["lookup", "hit", "miss", "falsy", "rejected", "accepted", "builder", "empty_map", "large", "builder_again"],
    assumptions=[
        "endpoint types are totally ordered with == consistent with <",
        "no two entries have the same key range; plain dictionaries are not passed in, because the "
        "pinned immutablecollections refuses them on Python 3.12",
    ],
    files=["vistautils/range.py"],
)

VALUES = [None, 0, "", False, (), 0.0, frozenset(), b"", 1, True, "x", -1, ("a",), 3.5, Range.all()]


def build(c, entries):
    way = c.rng.choice(["factory", "iterator", "constructor", "builder"])
    if way == "factory":
        return immutablerangemap(entries)
    if way == "iterator":
        return immutablerangemap(iter(entries))
    if way == "constructor":
        return ImmutableRangeMap(immutabledict(entries))
    builder = ImmutableRangeMap.builder()
    c.count("builder")
    for k, v in entries:
        c.check(builder.put(k, v) is builder, "put returns the builder")
    return builder.build()


def check_map(c, m, entries, values, queries, where=None):
    """*entries* are (cut, real range, value) in ascending order."""
    c.eq(m.is_empty(), not entries, "is_empty", m)
    stored = list(m.as_dict().items())
    c.eq(len(stored), len(entries), "number of entries", m)
    for cut, real, value in entries:
        c.check(m.as_dict()[real] is value, "stored value", m, real, value)
    for i in range(len(values)) if where is None else where:
        v = values[i]
        c.count("lookup")
        holding = [e for e in entries if e[0][0] <= 2 * i and 2 * i + 1 <= e[0][1]]
        c.count("hit" if holding else "miss")
        c.eq(v in m, bool(holding), "containment", m, v)
        if holding:
            c.check(m[v] is holding[0][2], "looked up value", m, v, m[v], holding[0][2])
            if not holding[0][2]:
                c.count("falsy")
        else:
            c.check(m[v] is None, "nothing for absent keys", m, v, m[v])
        below = [e for e in entries if e[0][0] <= 2 * i]
        above = [e for e in entries if e[0][1] >= 2 * i + 1]
        for query, expected in (
            ("get_from_rightmost_containing_or_below", below[-1][2] if below else None),
            ("get_from_leftmost_containing_or_above", above[0][2] if above else None),
            ("get_from_maximal_containing_or_below", below[-1][2] if below else None),
            ("get_from_minimal_containing_or_above", above[0][2] if above else None),
        ):
            c.check(getattr(m, query)(v) is expected, query, m, v, expected)
    for (lo, hi), real in queries:
        expected = [e[2] for e in entries if lo <= e[0][0] and e[0][1] <= hi]
        got = list(m.get_enclosed_by(real))
        c.eq(set(got), set(expected), "values enclosed by", m, real)
        c.eq(len(got), len(set(expected)), "values enclosed by, each once", m, real)


@PROP.scenario(quick=34, exhaustive=True)
def all_pairs_of_keys(c):
    values = [1, 2, 3]
    cuts = valid_cuts(3)
    a = cuts[c.i]
    c.log("pairs with", a)
    queries = [(x, make(Range, values, *x)) for x in cuts]
    for b in cuts:
        if a == b:
            continue
        valid = len(coalesce([a, b])) == 2
        entries = [(cut, make(Range, values, *cut), v) for cut, v in ((a, "A"), (b, 0))]
        pairs = [(real, v) for _, real, v in entries]
        if valid:
            c.count("accepted")
            check_map(c, build(c, pairs), sorted(entries, key=lambda e: e[0]), values, queries)
        else:
            c.count("rejected")
            c.raises(ValueError, lambda: build(c, pairs), "invalid key ranges", pairs)
    single = [(make(Range, values, *a), 1)]
    if a[0] == a[1]:
        c.raises(ValueError, lambda: build(c, single), "empty key range", single)
    else:
        check_map(c, build(c, single), [(a, single[0][0], single[0][1])], values, queries)


@PROP.scenario(quick=1500)
def random_maps(c):
    family = c.rng.choice(gen.FAMILY_NAMES)
    n = c.rng.choice([1, 3, 6, 12, 30])
    values = gen.values(c.rng, family, n)
    cuts = []
    for _ in range(c.rng.randint(0, 15)):
        lo, hi = random_cuts(c.rng, n, 0.08)
        if lo != -1 and hi != 10 ** 9:
            hi = min(hi, lo + c.rng.randint(1, 4))
        if lo < hi and all(hi < x[0] or x[1] < lo for x in cuts):
            cuts.append((lo, hi))
    pool = c.rng.sample(VALUES, c.rng.randint(1, len(VALUES)))
    entries = [(cut, make(Range, values, *cut), c.rng.choice(pool)) for cut in sorted(cuts)]
    if not entries:
        c.count("empty_map")
    c.log("map", family, values, [(e[0], e[2]) for e in entries])
    pairs = gen.shuffled(c.rng, [(real, v) for _, real, v in entries])
    queries = [(x, make(Range, values, *x)) for x in
               [random_cuts(c.rng, n, 0.2) for _ in range(8)] + cuts[:4]]
    m = build(c, pairs)
    c.count("accepted")
    check_map(c, m, entries, values, queries)
    if len(entries) > 1 and c.rng.random() < 0.5:
        # a builder can be used further after building
        c.count("builder_again")
        some = pairs[: c.rng.randint(0, len(pairs) - 1)]
        builder = ImmutableRangeMap.builder()
        for k, v in some:
            builder.put(k, v)
        first = builder.build()
        first_entries = [e for e in entries if any(e[1] is k for k, _ in some)]
        check_map(c, first, first_entries, values, queries)
        for k, v in pairs[len(some):]:
            builder.put(k, v)
        check_map(c, builder.build(), entries, values, queries)
        check_map(c, first, first_entries, values, queries)
    if not entries:
        check_map(c, immutablerangemap(), [], values, queries)
        check_map(c, ImmutableRangeMap.empty(), [], values, queries)
    if entries:
        # anything touching one of the keys makes the collection invalid
        lo, hi = c.rng.choice(cuts)
        options = [(x, y) for x, y in ((lo, lo), (hi, hi), (lo, hi - 1), (lo + 1, hi), (-1, lo),
                                       (hi, 10 ** 9), (-1, 10 ** 9))
                   if x <= y and x != 10 ** 9 and y != -1 and x < 2 * n
                   and (y < 2 * n or y == 10 ** 9) and (x, y) not in cuts]
        if options:
            bad = c.rng.choice(options)
            broken = pairs + [(make(Range, values, *bad), c.rng.choice(VALUES))]
            broken = gen.shuffled(c.rng, broken)
            c.log("invalid", bad)
            c.count("rejected")
            c.raises(ValueError, lambda: build(c, broken), "invalid key ranges", broken)


@PROP.scenario(quick=24, thorough=300)
def large_maps(c):
    """Maps of hundreds of entries, asked at some places."""
    family = c.rng.choice(["small_int", "adjacent_int", "big_int", "float_inf"])
    n = c.rng.choice([40, 200, 700, 2500])
    values = sorted(gen.values(c.rng, family, n))
    cuts, at = [], c.rng.choice([-1, 0, 1])
    while at < 2 * n - 1:
        if at == -1:
            lo, hi = -1, c.rng.randint(0, 3)
        else:
            lo, hi = at, min(at + c.rng.choice([1, 1, 2, 3]), 2 * n - 1)
        if lo < hi:
            cuts.append((lo, hi))
        at = hi + c.rng.choice([1, 1, 2, 5])
    if c.rng.random() < 0.3:
        cuts[-1] = (cuts[-1][0], 10 ** 9)
    entries = [(cut, make(Range, values, *cut), c.rng.choice(VALUES + [object()])) for cut in cuts]
    c.count("large")
    c.log("map of", len(entries), family, n)
    pairs = [(real, v) for _, real, v in entries]
    order = c.rng.choice(["sorted", "reversed", "random"])
    pairs = pairs if order == "sorted" else pairs[::-1] if order == "reversed" else gen.shuffled(c.rng, pairs)
    m = build(c, pairs)
    c.count("accepted")
    where = sorted(c.rng.sample(range(n), 12) + [0, n - 1, n // 2])
    ends = [random_cuts(c.rng, n, 0.1) for _ in range(6)] + c.rng.sample(cuts, 3) + [(cuts[1][0], cuts[-2][1])]
    check_map(c, m, entries, values, [(x, make(Range, values, *x)) for x in ends], where)
    # one key too many
    lo, hi = c.rng.choice(cuts[1:-1])
    bad = make(Range, values, *c.rng.choice([(lo, lo), (hi, hi), (lo + 1, hi) if lo + 1 <= hi else (hi, hi), (cuts[0][0], hi)]))
    c.count("rejected")
    if all(bad != k for k, _ in pairs):
        c.raises(ValueError, lambda: build(c, gen.shuffled(c.rng, pairs + [(bad, 0)])), "invalid key among many", bad)
