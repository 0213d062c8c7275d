import decimal
import fractions

from immutablecollections import immutabledict

from vistautils.range import ImmutableRangeSet, Range, RangeSet, immutablerangemap
from vistautils.span import Span

from vmon import gen
from vmon.engine import Property
from vmon.rangemodel import make, valid_cuts
from vmon.rangeobjs import build, content, random_recipe

PROP = Property(
    "C05",
    scale=16,
    rule="Groups of ranges, range sets (mutable and immutable), range maps and spans, many of them "
    "with equal content reached through different histories or endpoints of different numeric "
    "types, compared pairwise with ==, !=, hash, set and dictionary membership against the equality "
    "of their modelled content; and with unrelated objects. Exhaustive for all pairs of the 34 "
    "kinds of ranges over 3 values.",
    required=["equal_pair", "unequal_pair", "mutable_vs_immutable", "unrelated", "mixed_types",
              "as_key", "reordered_map"],
    assumptions=["endpoints and values are hashable, with hash consistent with =="],
    files=["vistautils/range.py", "vistautils/span.py"],
)

UNRELATED = [None, 0, 1, "", "x", (), (1, 2), [], {}, object(), frozenset(), 1.5, range(1, 3),
             immutabledict(), NotImplemented, int, b""]


def compare(c, a, b, equal, *context):
    c.eq(a == b, equal, "a == b", a, b, *context)
    c.eq(b == a, equal, "b == a", a, b, *context)
    c.eq(a != b, not equal, "a != b", a, b, *context)
    c.eq(b != a, not equal, "b != a", a, b, *context)
    if equal:
        c.count("equal_pair")
        c.eq(hash(a), hash(b), "hash codes of equal objects", a, b, *context)
        c.check(a in {b} and b in {a}, "equal objects as set members", a, b)
        c.check({a: 7}.get(b) == 7 and {b: 7}.get(a) == 7, "equal objects as keys", a, b)
        c.eq(len({a, b}), 1, "set of equal objects", a, b)
        c.count("as_key")
    else:
        c.count("unequal_pair")
        c.check(a not in {b} and b not in {a}, "different objects as set members", a, b)
        c.check(b not in [a] and len({a, b}) == 2, "different objects in collections", a, b)


def compare_unrelated(c, x):
    compare(c, x, x, True)
    for other in UNRELATED:
        c.count("unrelated")
        c.check(not (x == other) and not (other == x), "equal to an unrelated object", x, other)
        c.check(x != other and other != x, "not unequal to an unrelated object", x, other)


@PROP.scenario(quick=34, exhaustive=True)
def all_pairs_of_ranges(c):
    cuts = valid_cuts(3)
    families = [c.rng.choice(gen.FAMILY_NAMES), "small_int"]
    for family in families:
        values = gen.values(c.rng, family, 3)
        c.log("all against", cuts[c.i], values)
        a = make(Range, values, *cuts[c.i])
        for cut in cuts:
            b = make(Range, values, *cut)
            compare(c, a, b, cut == cuts[c.i])
            # as only member of a set, and as only key of a map
            if a.is_empty() or b.is_empty():
                continue
            sets_a = [RangeSet.create_mutable().add(a), ImmutableRangeSet.builder().add(a).build()]
            sets_b = [RangeSet.create_mutable().add(b), ImmutableRangeSet.builder().add(b).build()]
            for x in sets_a:
                for y in sets_b:
                    compare(c, x, y, cut == cuts[c.i])
            maps = [immutablerangemap([(a, 1)]), immutablerangemap([(b, 1)]),
                    immutablerangemap([(b, 2)])]
            compare(c, maps[0], maps[1], cut == cuts[c.i])
            compare(c, maps[0], maps[2], False)
        compare_unrelated(c, a)


def variant(rng, x):
    """A value equal to integer x, of another type."""
    options = [x, float(x), fractions.Fraction(x), decimal.Decimal(x)]
    if x in (0, 1):
        options.append(bool(x))
    return rng.choice(options)


def vary_values(c, recipe):
    if all(type(v) is int for v in recipe["values"]) and all(
        abs(v) < 2 ** 50 for v in recipe["values"]
    ):
        ret = dict(recipe)
        ret["values"] = [variant(c.rng, v) for v in recipe["values"]]
        c.count("mixed_types")
        return ret
    return recipe


@PROP.scenario(quick=1500)
def groups(c):
    recipes = []
    for _ in range(c.rng.randint(1, 3)):
        recipe = random_recipe(c.rng)
        recipes.append(recipe)
        for _ in range(c.rng.randint(1, 2)):
            twin = dict(recipe)
            kind = recipe["kind"]
            if kind in ("mutable", "immutable"):
                twin["kind"] = c.rng.choice(["mutable", "immutable"])
            if kind != "span" and c.rng.random() < 0.5:
                twin = vary_values(c, twin)
            # sometimes change it a little
            if c.rng.random() < 0.4:
                if kind == "map" and twin["entries"]:
                    entries = list(twin["entries"])
                    j = c.rng.randrange(len(entries))
                    if c.rng.random() < 0.5:
                        del entries[j]
                    else:
                        entries[j] = (entries[j][0], c.rng.choice(["x", 0, None]))
                    twin["entries"] = entries
                elif kind in ("mutable", "immutable") and twin["members"]:
                    members = list(twin["members"])
                    del members[c.rng.randrange(len(members))]
                    twin["members"] = members
                elif kind == "span":
                    twin["end"] += c.rng.randint(0, 1)
            recipes.append(twin)
    objects = [build(c.rng, r) for r in recipes]
    contents = [content(r) for r in recipes]
    c.log("objects", *contents)
    for i, (a, ra) in enumerate(zip(objects, recipes)):
        compare_unrelated(c, a)
        for j, (b, rb) in enumerate(zip(objects, recipes)):
            if j <= i:
                continue
            equal = contents[i] == contents[j]
            compare(c, a, b, equal)
            if equal and {ra["kind"], rb["kind"]} == {"mutable", "immutable"}:
                c.count("mutable_vs_immutable")
            if equal and ra["kind"] == "map" and len(ra["entries"]) > 1:
                c.count("reordered_map")
    # interchangeable within one big collection
    distinct = set(contents)
    c.eq(len(set(objects)), len(distinct), "number of different objects", objects)
    index = {}
    for obj, key in zip(objects, contents):
        index.setdefault(obj, key)
    for obj, key in zip(objects, contents):
        c.eq(index[obj], key, "found by an equal key", obj)


@PROP.scenario(quick=300)
def mutable_sets_over_time(c):
    """Equality follows the current content."""
    family = c.rng.choice(gen.FAMILY_NAMES)
    values = gen.values(c.rng, family, 5)
    cuts = valid_cuts(5)
    from vmon.rangemodel import coalesce

    sets = [(RangeSet.create_mutable(), []) for _ in range(3)]
    frozen = []
    c.log("values", values)
    for _ in range(c.rng.randint(1, 12)):
        s, added = c.rng.choice(sets)
        if c.rng.random() < 0.1:
            s.clear()
            del added[:]
            c.log("clear")
        else:
            cut = c.rng.choice(cuts[: c.rng.choice([8, len(cuts)])])
            s.add(make(Range, values, *cut))
            added.append(cut)
            c.log("add", cut)
        if c.rng.random() < 0.3:
            frozen.append((s.immutable_copy(), list(added)))
        everything = sets + frozen
        for i, (a, adds) in enumerate(everything):
            for b, others in everything[i:]:
                compare(c, a, b, coalesce(adds) == coalesce(others))


@PROP.scenario(quick=100)
def spans(c):
    some = [Span(s, e) for s in range(-2, 3) for e in range(s + 1, 4)]
    x = c.rng.choice(some)
    c.log("span", x)
    for y in some:
        compare(c, x, Span(y.start, y.end), (x.start, x.end) == (y.start, y.end))
        compare(c, x, Span.from_inclusive_to_exclusive(y.start, y.end),
                (x.start, x.end) == (y.start, y.end))
        compare(c, x, y.as_range(), False)
    big = c.rng.randint(10 ** 15, 10 ** 30)
    compare(c, Span(big, big + 1), Span(big, big + 1), True)
    compare(c, Span(big, big + 1), Span(big, big + 2), False)
    compare_unrelated(c, x)
