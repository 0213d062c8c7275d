from vistautils.range import BoundType, Range

from vmon import gen
from vmon.engine import Property
from vmon.rangemodel import (
    HIGH, LOW, M, cuts_of, invalid_cuts, make, notations, random_cuts, valid_cuts,
)

PROP = Property(
    "C01",
    scale=60,
    rule="Exhaustive: for each of 20 endpoint types, all pairs of the ranges of all nine kinds over "
    "3 values, probed at 5 values around them. Random: tuples of ranges over up to 9 values of a "
    "random type. Every result is compared with the same operation on integer cut positions.",
    required=["contains", "invalid", "pair", "disconnected", "unbounded", "empty", "spanning"],
    assumptions=["endpoint types are totally ordered with == consistent with <"],
    files=["vistautils/range.py"],
)


def cuts(r, values):
    return cuts_of(r, values, BoundType)


def check_single(c, m, values):
    r = m.real
    c.eq(r.has_lower_bound(), m.lo != LOW, "has_lower_bound", m)
    c.eq(r.has_upper_bound(), m.hi != HIGH, "has_upper_bound", m)
    if m.lo != LOW:
        c.check(r.lower_endpoint == values[m.lo // 2], "lower endpoint", m)
        c.check(
            r.lower_bound_type is (BoundType.open() if m.lo % 2 else BoundType.closed()),
            "lower bound type", m,
        )
    else:
        c.count("unbounded")
        c.raises(ValueError, lambda: r.lower_endpoint, "endpoint of an unbounded lower end", m)
    if m.hi != HIGH:
        c.check(r.upper_endpoint == values[m.hi // 2], "upper endpoint", m)
        c.check(
            r.upper_bound_type is (BoundType.closed() if m.hi % 2 else BoundType.open()),
            "upper bound type", m,
        )
    else:
        c.raises(ValueError, lambda: r.upper_endpoint, "endpoint of an unbounded upper end", m)
    c.eq(r.is_empty(), m.empty, "is_empty", m)
    if m.empty:
        c.count("empty")
    c.check(repr(r) in notations(values, m.lo, m.hi), "notation", m)
    for i, v in enumerate(values):
        c.count("contains")
        c.eq(v in r, m.contains(i), f"containment of {v!r}", m)
    c.raises(ValueError, lambda: None in r, "membership of None", m)


def check_pair(c, a, b, values):
    c.count("pair")
    ra, rb = a.real, b.real
    c.eq(ra.encloses(rb), a.lo <= b.lo and b.hi <= a.hi, "encloses", a, b)
    lo, hi = max(a.lo, b.lo), min(a.hi, b.hi)
    connected = lo <= hi
    c.eq(ra.is_connected(rb), connected, "is_connected", a, b)
    c.eq(ra.intersects(rb), connected, "intersects", a, b)
    if connected:
        c.eq(cuts(ra.intersection(rb), values), (lo, hi), "intersection", a, b)
    else:
        c.count("disconnected")
        c.raises(ValueError, lambda: ra.intersection(rb), "intersection of disconnected", a, b)
    lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
    c.eq(cuts(ra.span(rb), values), (lo, hi), "span", a, b)
    spanning = Range.create_spanning([ra, rb])
    c.eq(cuts(spanning, values), (lo, hi), "create_spanning", a, b)
    c.eq(spanning, make(Range, values, lo, hi), "equality with the spanning range", a, b)
    c.eq(ra == rb, a.key() == b.key(), "equality", a, b)
    c.eq(ra != rb, a.key() != b.key(), "inequality", a, b)


def check_unchanged(c, ms, values):
    for m in ms:
        c.eq(cuts(m.real, values), m.key(), "operand changed", m)


@PROP.scenario(quick=len(gen.FAMILY_NAMES) * 4, exhaustive=True)
def all_pairs(c):
    """All pairs over three values, with probe values below, between and above them."""
    family = gen.FAMILY_NAMES[c.i // 4]
    part = c.i % 4
    values = gen.values(c.rng, family, 3)
    ms = [M(lo, hi, make(Range, values, lo, hi)) for lo, hi in valid_cuts(len(values))]
    c.log("enumerate", family, part, values)
    for m in ms[part::4]:
        check_single(c, m, values)
        for other in ms:
            check_pair(c, m, other, values)
            if m.key() == other.key():
                c.check(hash(m.real) == hash(make(Range, values, *m.key())), "hash", m)
    check_unchanged(c, ms, values)
    for lo, hi in invalid_cuts(len(values)):
        c.count("invalid")
        c.raises(ValueError, lambda: make(Range, values, lo, hi), "invalid range", values, lo, hi)


@PROP.scenario(quick=1200)
def random_ranges(c):
    family = c.rng.choice(gen.FAMILY_NAMES)
    values = gen.values(c.rng, family, c.rng.randint(1, 9))
    n = len(values)
    ms = []
    for _ in range(c.rng.randint(2, 4)):
        lo, hi = random_cuts(c.rng, n)
        ms.append(M(lo, hi, make(Range, values, lo, hi)))
    c.log("ranges", family, values, ms)
    for m in ms:
        check_single(c, m, values)
        for other in ms:
            check_pair(c, m, other, values)
    lo, hi = min(m.lo for m in ms), max(m.hi for m in ms)
    ranges = [m.real for m in ms]
    for container in (list, tuple):
        c.count("spanning")
        c.eq(cuts(Range.create_spanning(container(ranges)), values), (lo, hi), "spanning", ms)
    c.raises(ValueError, lambda: Range.create_spanning([]), "spanning nothing")
    # results of operations are ranges like any other
    spanned = ms[0].real.span(ms[1].real)
    check_single(c, M(*cuts(spanned, values), spanned), values)
    if ms[0].real.is_connected(ms[1].real):
        shared = ms[0].real.intersection(ms[1].real)
        m = M(max(ms[0].lo, ms[1].lo), min(ms[0].hi, ms[1].hi), shared)
        check_single(c, m, values)
        check_pair(c, m, ms[-1], values)
    check_unchanged(c, ms, values)
    bad = invalid_cuts(n)
    for lo, hi in c.rng.sample(bad, min(3, len(bad))):
        c.count("invalid")
        c.raises(ValueError, lambda: make(Range, values, lo, hi), "invalid range", values, lo, hi)


@PROP.scenario(quick=40)
def equal_but_different_values(c):
    """Endpoints and probes which are equal without being the same object or type."""
    k = c.rng.randint(-3, 3)
    forms = [k, float(k)] + ([bool(k)] if k in (0, 1) else [])
    a, b = c.rng.choice(forms), c.rng.choice(forms)
    c.log("values", a, b, c.rng.random())
    c.check(a in Range.closed(b, b), "closed range contains its endpoint", a, b)
    c.check(a not in Range.open_closed(b, b) and a not in Range.closed_open(b, b), "empty", a, b)
    c.check(Range.at_least(a) == Range.at_least(b), "equal endpoints", a, b)
    c.check(a in Range.at_most(b) and a not in Range.less_than(b), "upper end", a, b)
    c.check(a in Range.at_least(b) and a not in Range.greater_than(b), "lower end", a, b)
    c.check(Range.closed(a, b).encloses(Range.closed(b, a)), "enclosure", a, b)
    c.raises(ValueError, lambda: Range.open(a, b), "open range without values", a, b)
    c.check(Range.all() == Range.all() and not Range.all().is_empty(), "all")
    c.check(BoundType.open().flip() is BoundType.closed(), "flip")
    c.check(BoundType.closed().flip() is BoundType.open(), "flip")
