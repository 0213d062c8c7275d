import attr

from vistautils.span import HasSpan, HasSpanIndex, Span

from vmon import gen
from vmon.engine import Property

PROP = Property(
    "C08",
    scale=10,
    rule="Collections of up to 12 items (compared by identity, by a label alone, by content, or having "
    "their span as all of their content), overlapping or disjoint, indexed in random orders and asked "
    "all queries with all small spans; the answers are compared with a scan over the items. "
    "Exhaustive for all sets of up to 3 spans over offsets 0..3.",
    required=["large", "query", "disjoint_index", "index", "shared_span", "equal_items", "rejected", "found",
              "empty_index", "nothing"],
    assumptions=["in answers which are sets, items which are equal to each other count as one"],
    files=["vistautils/span.py", "vistautils/range.py"],
)


class Plain(HasSpan):
    """Compared by identity."""

    def __init__(self, span, label):
        self.span, self.label = span, label

    def __repr__(self):
        return f"Plain({self.span},{self.label})"


class ByLabel(Plain):
    """Items with the same label are equal wherever they are."""

    def __eq__(self, other):
        return isinstance(other, ByLabel) and self.label == other.label

    def __hash__(self):
        return hash(self.label)


@attr.s(frozen=True, hash=True)
class ByContent(HasSpan):
    span = attr.ib()
    label = attr.ib()


class Empty(ByContent):
    """False in boolean contexts."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


KINDS = [Plain, ByLabel, ByContent, Empty]


def scan(items, query):
    q0, q1 = query.start, query.end
    return {
        "get_exactly_matching": [x for x in items if (x.span.start, x.span.end) == (q0, q1)],
        "get_overlapping": [x for x in items if max(x.span.start, q0) < min(x.span.end, q1)],
        "get_contained": [x for x in items if q0 <= x.span.start and x.span.end <= q1],
        "get_containing": [x for x in items if x.span.start <= q0 and q1 <= x.span.end],
    }


def check_index(c, index, items, queries, disjoint):
    for query in queries:
        for name, expected in scan(items, query).items():
            c.count("query")
            got = getattr(index, name)(query)
            if disjoint and name in ("get_exactly_matching", "get_containing"):
                if expected:
                    c.count("found")
                    c.check(got is expected[0], name, query, got, expected, items)
                else:
                    c.count("nothing")
                    c.check(got is None, name + " finds nothing", query, got, items)
                continue
            c.count("found" if expected else "nothing")
            got = list(got)
            c.check(all(any(g is e for e in expected) for g in got), name + ": unexpected item",
                    query, got, expected)
            c.check(set(got) == set(expected), name, query, got, expected, items)
            c.eq(len(got), len(set(expected)), name + ": each once", query, got)


def note(c, items):
    if not items:
        c.count("empty_index")
    if len({(x.span.start, x.span.end) for x in items}) < len(items):
        c.count("shared_span")
    if len(set(items)) < len(items):
        c.count("equal_items")


def build(c, items, disjoint):
    make = HasSpanIndex.index_disjoint if disjoint else HasSpanIndex.index
    c.count("disjoint_index" if disjoint else "index")
    return make(c.rng.choice([list, tuple, iter])(items))


def are_disjoint(items):
    spans = sorted((x.span.start, x.span.end) for x in items)
    return all(a[1] <= b[0] for a, b in zip(spans, spans[1:]))


SMALL = [(s, e) for s in range(4) for e in range(s + 1, 4)]
COMBINATIONS = [()] + [(a,) for a in SMALL] + [(a, b) for a in SMALL for b in SMALL] + [
    (a, b, d) for a in SMALL for b in SMALL for d in SMALL
]


@PROP.scenario(quick=(len(COMBINATIONS) + 9) // 10, exhaustive=True)
def all_small_collections(c):
    queries = [Span(s, e) for s in range(-1, 5) for e in range(s + 1, 6)]
    for combination in COMBINATIONS[10 * c.i: 10 * c.i + 10]:
        Kind = c.rng.choice(KINDS)
        items = [Kind(Span(*ends), j) for j, ends in enumerate(combination)]
        c.log("items", items)
        note(c, items)
        check_index(c, build(c, items, False), items, queries, False)
        if are_disjoint(items):
            check_index(c, build(c, items, True), items, queries, True)
        else:
            c.count("rejected")
            c.raises(ValueError, lambda: build(c, items, True), "overlapping items", items)


@PROP.scenario(quick=900)
def random_collections(c):
    Kinds = c.rng.sample(KINDS, c.rng.choice([1, 1, 2]))
    labels = ["a", "b"] if c.rng.random() < 0.5 else list(range(20))
    width = c.rng.choice([4, 8, 20, 60, 60, 2 ** 45, 10 ** 24])
    base = c.rng.choice([0, 0, -7, 10 ** 12, -(10 ** 22)])
    disjoint = c.rng.random() < 0.5
    items = []
    if disjoint:
        at = base
        for _ in range(c.rng.choice([0, 1, 3, 8, 12])):
            at += c.rng.choice([0, 0, 1, 3])
            length = c.rng.choice([1, 1, 2, 5, width])
            items.append(c.rng.choice(Kinds)(Span(at, at + length), c.rng.choice(labels)))
            at += length
    else:
        for _ in range(c.rng.choice([0, 1, 3, 8, 12])):
            if items and c.rng.random() < 0.3:
                span = c.rng.choice(items).span
            else:
                s = base + c.rng.randint(0, width)
                span = Span(s, s + c.rng.choice([1, 2, c.rng.randint(1, width)]))
            items.append(c.rng.choice(Kinds)(span, c.rng.choice(labels)))
    c.log("items", items)
    note(c, items)
    ends = sorted({e for x in items for e in (x.span.start, x.span.end)}) or [0]
    queries = [x.span for x in items]
    for _ in range(14):
        s = c.rng.choice(ends) + c.rng.choice([-1, 0, 0, 1])
        e = c.rng.choice(ends) + c.rng.choice([-1, 0, 0, 1])
        if s > e:
            s, e = e, s
        queries.append(Span(s, max(e, s + 1)))
    for _ in range(2):
        order = gen.shuffled(c.rng, items)
        check_index(c, build(c, order, False), items, queries, False)
        if are_disjoint(items):
            check_index(c, build(c, order, True), items, queries, True)
    if items:
        # one more item touching any of them makes a disjoint index impossible
        victim = c.rng.choice(items).span
        s = c.rng.randint(victim.start - 2, victim.end - 1)
        span = c.rng.choice([victim, Span(s, max(victim.start, s) + 1),
                             Span(victim.start - 1, victim.end + 1)])
        bad = gen.shuffled(c.rng, items + [c.rng.choice(Kinds)(span, c.rng.choice(labels))])
        if c.rng.random() < 0.2:
            bad = items + [c.rng.choice(items)]
        c.log("one more", span)
        c.count("rejected")
        c.raises(ValueError, lambda: build(c, bad, True), "overlapping items", bad)


@PROP.scenario(quick=40, thorough=600)
def large_collections(c):
    """Hundreds of items, asked at some places."""
    Kinds = c.rng.sample(KINDS, c.rng.choice([1, 1, 2]))
    labels = ["a", "b"] if c.rng.random() < 0.3 else list(range(1000))
    size = c.rng.choice([20, 70, 300, 1200])
    disjoint = c.rng.random() < 0.5
    items, at = [], c.rng.choice([0, -50, 10 ** 12])
    for j in range(size):
        length = c.rng.choice([1, 1, 2, 5])
        at += c.rng.choice([0, 0, 1, 3]) if disjoint else c.rng.choice([0, 0, 0, 1])
        if not disjoint and c.rng.random() < 0.05:
            length = c.rng.choice([10, size, 3 * size])
        items.append(c.rng.choice(Kinds)(Span(at, at + length), c.rng.choice(labels)))
        if disjoint:
            at += length
    c.count("large")
    c.log("items", size, disjoint, items[:3], labels[:2])
    note(c, items)
    ends = sorted({e for x in items for e in (x.span.start, x.span.end)})
    queries = [x.span for x in c.rng.sample(items, 3)] + [Span(ends[0] - 1, ends[-1] + 1), Span(ends[0], ends[-1]),
                                                         items[-1].span, items[0].span]
    for _ in range(6):
        s = c.rng.choice(ends) + c.rng.choice([-1, 0, 0, 1])
        queries.append(Span(s, s + c.rng.choice([1, 2, 10, size])))
    order = c.rng.choice([items, items[::-1], gen.shuffled(c.rng, items)])
    check_index(c, build(c, order, False), items, queries, False)
    if disjoint:
        check_index(c, build(c, order, True), items, queries, True)
        victim = c.rng.choice(items).span
        bad = gen.shuffled(c.rng, items + [c.rng.choice(Kinds)(victim, c.rng.choice(labels))])
        c.count("rejected")
        c.raises(ValueError, lambda: build(c, bad, True), "overlapping items among many", victim)
