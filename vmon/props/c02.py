from vistautils.range import BoundType, ImmutableRangeSet, Range, RangeSet

from vmon import gen
from vmon.engine import Property
from vmon.rangemodel import HIGH, LOW, coalesce, cuts_of, make, random_cuts, valid_cuts

PROP = Property(
    "C02",
    scale=6,
    rule="Exhaustive: all sequences of up to three additions of the 34 kinds of ranges over 3 values. "
    "Random: histories of up to 40 operations (add, add_all of iterables, sets and itself, clear, "
    "immutable copies, builders used before and after building) on several sets at once; after every "
    "operation all sets and all copies taken so far are compared with the coalesced union.",
    required=["add", "add_all", "clear", "immutable_copy", "build", "snapshot_checked",
              "coalesced_many", "add_empty", "large", "grown_members"],
    assumptions=["endpoint types are totally ordered with == consistent with <"],
    files=["vistautils/range.py"],
)


def listing(range_set, values):
    return [cuts_of(r, values, BoundType) for r in range_set.as_ranges()]


def check_set(c, range_set, added, values, what):
    expected = coalesce(added)
    c.eq(listing(range_set, values), expected, f"ranges of the {what}", values, added)
    c.eq(len(range_set), len(expected), f"length of the {what}")
    c.eq(range_set.is_empty(), not expected, f"emptiness of the {what}")
    if expected:
        c.eq(
            cuts_of(range_set.span, values, BoundType), (expected[0][0], expected[-1][1]),
            f"span of the {what}", added,
        )
    else:
        c.raises(ValueError, lambda: range_set.span, f"span of an empty {what}")
    return expected


@PROP.scenario(quick=34, exhaustive=True)
def all_short_sequences(c):
    values = [10, 20, 30]
    cuts = valid_cuts(3)
    ranges = [make(Range, values, *x) for x in cuts]
    # listing() is slow, so we compare ranges directly with those the model expects
    real = dict(zip(cuts, ranges))
    first = cuts[c.i]
    c.log("sequences starting with", first)
    for second, second_range in zip(cuts, ranges):
        for third, third_range in zip(cuts, ranges):
            s = RangeSet.create_mutable()
            s.add(real[first]).add(second_range).add(third_range)
            expected = [real[x] for x in coalesce([first, second, third])]
            c.eq(list(s.as_ranges()), expected, "ranges", first, second, third)
    c.count("sequence", len(cuts) ** 2)


class Tracked:
    """A set together with the cuts of everything added since it was last cleared."""

    def __init__(self, real, added=()):
        self.real = real
        self.added = list(added)


def random_range(c, values, pool):
    if pool and c.rng.random() < 0.2:
        return c.rng.choice(pool)
    lo, hi = random_cuts(c.rng, len(values), c.rng.choice([0.0, 0.03, 0.15]))
    if c.rng.random() < 0.6 and hi != 10 ** 9 and lo != -1:
        hi = min(hi, lo + c.rng.randint(0, 4))
    if lo == hi:
        c.count("add_empty")
    ret = (lo, hi), make(Range, values, lo, hi)
    pool.append(ret)
    return ret


@PROP.scenario(quick=2500)
def histories(c):
    family = c.rng.choice(gen.FAMILY_NAMES)
    values = gen.values(c.rng, family, c.rng.choice([2, 3, 5, 8, 12, 20]))
    c.log("values", family, values)
    sets = [Tracked(RangeSet.create_mutable()) for _ in range(c.rng.randint(1, 2))]
    builders = [Tracked(ImmutableRangeSet.builder())]
    frozen = []  # immutable sets with what they have to contain forever
    pool = []
    for _ in range(c.rng.randint(1, 40)):
        kind = c.rng.choice(["add"] * 6 + ["add_all"] * 2 + ["copy", "clear", "build", "builder_add",
                                                            "builder_add_all"])
        s = c.rng.choice(sets)
        b = c.rng.choice(builders)
        before = len(coalesce(s.added))
        if kind == "add":
            cut, real = random_range(c, values, pool)
            c.log("add", cut)
            c.check(s.real.add(real) is s.real, "add returns the set")
            s.added.append(cut)
        elif kind == "add_all":
            source = c.rng.choice(["list", "tuple", "generator", "set", "frozen", "itself"])
            if source in ("list", "tuple", "generator"):
                items = [random_range(c, values, pool) for _ in range(c.rng.randint(0, 5))]
                reals = [r for _, r in items]
                argument = {"list": reals, "tuple": tuple(reals),
                            "generator": (r for r in reals)}[source]
                new = [cut for cut, _ in items]
            elif source == "set":
                other = c.rng.choice(sets)
                if other is s:
                    other = Tracked(RangeSet.create_mutable())
                argument, new = other.real, list(other.added)
            elif source == "frozen" and frozen:
                argument, new = c.rng.choice(frozen)
            else:
                source = "itself"
                argument, new = s.real, []
            c.log("add_all", source, new)
            c.check(s.real.add_all(argument) is s.real, "add_all returns the set")
            s.added.extend(new)
        elif kind == "copy":
            c.log("immutable_copy")
            frozen.append((s.real.immutable_copy(), list(s.added)))
        elif kind == "clear":
            if c.rng.random() < 0.6:
                continue
            c.log("clear")
            s.real.clear()
            s.added = []
        elif kind == "build":
            c.log("build")
            frozen.append((b.real.build(), list(b.added)))
            if c.rng.random() < 0.3:
                builders.append(Tracked(ImmutableRangeSet.builder()))
        elif kind == "builder_add":
            cut, real = random_range(c, values, pool)
            c.log("builder add", cut)
            c.check(b.real.add(real) is b.real, "builder add returns the builder")
            b.added.append(cut)
        else:
            items = [random_range(c, values, pool) for _ in range(c.rng.randint(0, 6))]
            c.log("builder add_all", [cut for cut, _ in items])
            c.check(b.real.add_all(iter([r for _, r in items])) is b.real, "returns the builder")
            b.added.extend(cut for cut, _ in items)
        if len(coalesce(s.added)) < before - 1:
            c.count("coalesced_many")
        for t in sets:
            check_set(c, t.real, t.added, values, "mutable set")
        for real, added in frozen[-4:] + frozen[:1]:
            c.count("snapshot_checked")
            check_set(c, real, added, values, "immutable set")
    for real, added in frozen:
        check_set(c, real, added, values, "immutable set at the end")
    # the same additions in any order and by any way give the same set
    t = sets[0]
    wanted = [(cut, make(Range, values, *cut)) for cut in t.added]
    for _ in range(3):
        order = gen.shuffled(c.rng, [r for _, r in wanted])
        check_set(c, RangeSet.create_mutable().add_all(order), t.added, values, "reordered set")
        built = ImmutableRangeSet.builder().add_all(order).build()
        check_set(c, built, t.added, values, "set built in another order")
        c.check(built == t.real, "built and mutable sets are equal")


@PROP.scenario(quick=150)
def growing_sets(c):
    """Sets growing at their ends, range by range, up to dozens of members."""
    n = c.rng.choice([20, 40, 80, 160])
    values = list(range(n)) if c.rng.random() < 0.6 else gen.values(c.rng, c.rng.choice(gen.FAMILY_NAMES), n)
    direction = c.rng.choice(["ascending", "descending", "both"])
    c.log("values", values[:3], n, direction)
    real = RangeSet.create_mutable()
    builder = ImmutableRangeSet.builder()
    added, frozen = [], []
    low = high = n if direction == "both" else 0 if direction == "ascending" else 2 * n - 1
    p_gap = c.rng.choice([0.5, 0.9, 0.97])
    while len(added) < 3 * n:
        gap = c.rng.choice([1, 1, 1, 2]) if c.rng.random() < p_gap else c.rng.choice([0, 0, -1, -2, -7])
        length = c.rng.choice([1, 1, 1, 2, 3])
        up = direction == "ascending" or direction == "both" and c.rng.random() < 0.5
        if up:
            lo = max(0, high + gap)
            hi = lo + length
            if c.rng.random() < 0.01:
                hi = HIGH
        else:
            hi = min(2 * n - 1, low - gap)
            lo = hi - length
            if c.rng.random() < 0.01:
                lo = LOW
        if lo < LOW or lo >= 2 * n or hi < 0 or (hi >= 2 * n and hi != HIGH):
            break
        c.log("add", (lo, hi))
        rng = make(Range, values, lo, hi)
        c.check(real.add(rng) is real, "add returns the set")
        builder.add(rng)
        added.append((lo, hi))
        if hi != HIGH:
            high = max(high, hi)
        if lo != LOW:
            low = min(low, lo)
        expected = [make(Range, values, *x) for x in coalesce(added)]
        c.eq(list(real.as_ranges()), expected, "ranges of the growing set")
        c.eq(len(real), len(expected), "length of the growing set")
        if c.rng.random() < 0.05:
            frozen.append((real.immutable_copy(), expected))
            frozen.append((builder.build(), expected))
    for copy, expected in frozen:
        c.count("snapshot_checked")
        c.eq(list(copy.as_ranges()), expected, "ranges of an earlier copy")
    c.count("grown_members", len(real))


@PROP.scenario(quick=16)
def large_sets(c):
    """More ranges than fit into one node of a sorted container."""
    n = c.rng.choice([1200, 2600, 4200])
    c.log("large", n, c.rng.random())
    positions = [2 * (2 * i) for i in range(n)]  # disconnected unit ranges
    cuts = [(p, p + c.rng.randint(1, 2)) for p in positions]
    values = list(range(2 * n + 2))
    real = RangeSet.create_mutable()
    for lo, hi in gen.shuffled(c.rng, cuts):
        real.add(make(Range, values, lo, hi))
    added = list(cuts)

    def check(what):
        expected = coalesce(added)
        got = list(real.as_ranges())
        c.eq(len(got), len(expected), f"number of ranges {what}")
        for r, (lo, hi) in zip(got, expected):
            c.check(r == make(Range, values, lo, hi), f"range {what}", r, (lo, hi))

    check("after filling")
    copy = real.immutable_copy()
    for _ in range(4):
        lo = c.rng.randrange(0, 2 * n)
        hi = min(4 * n - 1, lo + c.rng.choice([1, 9, 700, 3 * n]))
        c.log("add", (lo, hi))
        real.add(make(Range, values, lo, hi))
        added.append((lo, hi))
        check("after covering")
    c.eq(len(copy), n, "copy still has all ranges")
    real.clear()
    c.check(real.is_empty() and len(real) == 0 and not list(real.as_ranges()), "cleared")
    c.count("clear")
