"""Random ranges, range sets, range maps and spans with their models, shared by C05 and C06."""
from immutablecollections import immutabledict

from vistautils.range import (
    BoundType, ImmutableRangeMap, ImmutableRangeSet, Range, RangeSet, immutablerangemap,
)
from vistautils.span import Span

from vmon import gen
from vmon.rangemodel import coalesce, cuts_of, make, random_cuts

MAP_VALUES = [0, 1, "", "x", False, None, (), ("a", 2), 2.5, frozenset([1]), b"z"]


def disconnected_cuts(rng, n, count, p_unbounded=0.1):
    cuts = []
    for _ in range(count):
        lo, hi = random_cuts(rng, n, p_unbounded)
        if lo != -1 and hi != 10 ** 9:
            hi = min(hi, lo + rng.randint(1, 4))
        if lo < hi and all(hi < x[0] or x[1] < lo for x in cuts):
            cuts.append((lo, hi))
    return sorted(cuts)


def build_set(rng, values, members, *, mutable):
    """A range set having exactly these members, through a random history."""
    pieces = []
    for lo, hi in members:
        # cover each member by overlapping or touching pieces
        finite_lo = lo if lo != -1 else 0
        finite_hi = hi if hi != 10 ** 9 else 2 * len(values) - 1
        if finite_hi - finite_lo >= 2 and rng.random() < 0.5:
            a = rng.randint(finite_lo + 1, finite_hi - 1)
            b = rng.randint(finite_lo, a)
            pieces += [(lo, a), (b, hi)]
        else:
            pieces.append((lo, hi))
        if rng.random() < 0.2:
            pieces.append((lo, hi))
    assert coalesce(pieces) == sorted(members)
    rng.shuffle(pieces)
    reals = [make(Range, values, *p) for p in pieces]
    if mutable:
        ret = RangeSet.create_mutable()
        if rng.random() < 0.3:
            ret.add(make(Range, values, 0, 1))
            ret.clear()
        if rng.random() < 0.5:
            return ret.add_all(reals)
        for r in reals:
            ret.add(r)
        return ret
    if rng.random() < 0.5:
        return ImmutableRangeSet.builder().add_all(reals).build()
    return RangeSet.create_mutable().add_all(reals).immutable_copy()


def build_map(rng, values, entries):
    """*entries*: list of (cut, value)."""
    pairs = gen.shuffled(rng, [(make(Range, values, *cut), v) for cut, v in entries])
    way = rng.choice(["factory", "constructor", "builder"])
    if way == "factory":
        return immutablerangemap(pairs)
    if way == "constructor":
        return ImmutableRangeMap(immutabledict(pairs))
    builder = ImmutableRangeMap.builder()
    for k, v in pairs:
        builder.put(k, v)
    return builder.build()


def random_recipe(rng, kind=None):
    """A description (plain data) from which :func:`build` makes the object."""
    kind = kind or rng.choice(["range", "range", "mutable", "immutable", "map", "span"])
    if kind == "span":
        start = rng.choice([0, rng.randint(-5, 5), rng.randint(-(10 ** 20), 10 ** 20)])
        return {"kind": kind, "start": start, "end": start + rng.choice([1, rng.randint(1, 10 ** 6)])}
    family = rng.choice(gen.FAMILY_NAMES)
    n = rng.choice([1, 2, 4, 9])
    ret = {"kind": kind, "values": gen.values(rng, family, n)}
    if kind == "range":
        ret["cut"] = random_cuts(rng, n, rng.choice([0.0, 0.2, 0.6]))
    else:
        cuts = disconnected_cuts(rng, n, rng.randint(0, 8), rng.choice([0.0, 0.1, 0.3]))
        if rng.random() < 0.05:
            cuts = [(-1, 10 ** 9)]
        if kind == "map":
            ret["entries"] = [(cut, rng.choice(MAP_VALUES)) for cut in cuts]
        else:
            ret["members"] = cuts
    return ret


def build(rng, recipe):
    kind = recipe["kind"]
    if kind == "span":
        return Span(recipe["start"], recipe["end"])
    if kind == "range":
        return make(Range, recipe["values"], *recipe["cut"])
    if kind == "map":
        return build_map(rng, recipe["values"], recipe["entries"])
    return build_set(rng, recipe["values"], recipe["members"], mutable=kind == "mutable")


def content(recipe):
    """What decides whether two objects are equal."""
    kind = recipe["kind"]
    if kind == "span":
        return "span", recipe["start"], recipe["end"]
    values = recipe["values"]

    def named(cut):
        return tuple(
            c if c in (-1, 10 ** 9) else (values[c // 2], c % 2) for c in cut
        )

    if kind == "range":
        return "range", named(recipe["cut"])
    if kind == "map":
        return "map", frozenset((named(cut), v) for cut, v in recipe["entries"])
    return "set", tuple(named(cut) for cut in recipe["members"])


def observe(recipe, obj, probes):
    """
    Everything the object answers, without relying on equality of ranges.

    *probes* are cut pairs over the recipe's values.
    """
    kind = recipe["kind"]
    if kind == "span":
        return [obj.start, obj.end, len(obj), repr(obj),
                [obj.contains_offset(i) for i in (recipe["start"] - 1, recipe["start"],
                                                  recipe["end"] - 1, recipe["end"])],
                obj.contains_span(Span(recipe["start"], recipe["end"]))]
    values = recipe["values"]

    def cuts(r):
        return None if r is None else cuts_of(r, values, BoundType)

    reals = [make(Range, values, *p) for p in probes]
    if kind == "range":
        ret = [cuts(obj), obj.is_empty(), [v in obj for v in values], repr(obj)]
        for r in reals:
            ret.append([obj.encloses(r), r.encloses(obj), obj.is_connected(r),
                        r.is_connected(obj), obj.intersects(r), cuts(obj.span(r))])
            if obj.is_connected(r):
                ret.append(cuts(obj.intersection(r)))
        return ret
    if kind == "map":
        ret = [obj.is_empty(), [(cuts(k), v) for k, v in sorted(
            obj.as_dict().items(), key=lambda e: cuts(e[0]))]]
        for v in values:
            ret.append([v in obj, obj[v], obj.get_from_rightmost_containing_or_below(v),
                        obj.get_from_leftmost_containing_or_above(v)])
        for r in reals:
            ret.append(set(obj.get_enclosed_by(r)))
        return ret
    ret = [obj.is_empty(), len(obj), [cuts(r) for r in obj.as_ranges()]]
    if not obj.is_empty():
        ret.append(cuts(obj.span))
    for v in values:
        ret.append([v in obj, cuts(obj.range_containing(v)),
                    cuts(obj.rightmost_containing_or_below(v)),
                    cuts(obj.leftmost_containing_or_above(v))])
    for r in reals:
        ret.append([obj.encloses(r), cuts(obj.range_enclosing_range(r)), obj.intersects(r),
                    sorted(cuts(x) for x in obj.ranges_overlapping(r)),
                    sorted(cuts(x) for x in obj.ranges_enclosed_by(r))])
    return ret


def probes_for(rng, recipe, count=4):
    if recipe["kind"] == "span":
        return []
    n = len(recipe["values"])
    return [random_cuts(rng, n, 0.2) for _ in range(count)]
