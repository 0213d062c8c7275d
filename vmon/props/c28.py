import itertools
import warnings
from collections import OrderedDict, deque

from immutablecollections import immutableset

from vistautils.collection_utils import get_only
from vistautils.iter_utils import drop, non_none, only, windowed
from vistautils.iterutils import tile_with_pairs
from vistautils.misc_utils import flatten_once_to_list

from vmon import gen
from vmon.engine import Property

PROP = Property(
    "C28",
    scale=2,
    rule="Sequences of unusual elements (None, falsy values, sentinels, objects raising on comparison, truth or "
    "hashing) are given as logging iterators, generators, failing iterators and various re-iterable "
    "collections to each helper; results are compared by identity with plain slices, and after every step "
    "the log of reads is compared with what was needed; small lengths and sizes are enumerated.",
    required=["drop", "drop_all", "drop_none", "drop_negative", "windows", "partial_windows", "window_too_large",
              "window_exact", "window_illegal", "tile", "non_none", "with_none", "falsy_kept", "only", "only_none",
              "only_many", "get_only", "get_only_none", "get_only_many", "get_only_message", "flatten",
              "flatten_nested", "iterator", "reiterable", "iterated_again", "interleaved", "partly_consumed",
              "infinite", "failing", "never_read", "weird_elements", "growing", "large"],
    assumptions=["helpers may read up to a window's size at once, and one element more to see whether there is one"],
    files=["vistautils/iter_utils.py", "vistautils/iterutils.py", "vistautils/collection_utils.py",
           "vistautils/misc_utils.py"],
)

warnings.simplefilter("ignore")


class Prickly:
    """Cannot be compared, hashed or tested for truth."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        raise AssertionError("elements were compared")

    __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__

    def __bool__(self):
        raise AssertionError("an element was tested for truth")

    def __hash__(self):
        raise AssertionError("an element was hashed")

    def __repr__(self):
        return f"prickly{self.n}"


class EqualsAll:
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None

    def __repr__(self):
        return "equals-all"


class EqualsNothing:
    def __eq__(self, other):
        return False

    def __repr__(self):
        return "equals-nothing"

    __hash__ = None


def element(rng, c):
    kind = rng.randint(0, 9)
    if kind < 3:
        return rng.choice([None, 0, False, "", (), 0.0, [], float("nan")])
    if kind < 5:
        c.count("weird_elements")
        return rng.choice([Prickly, lambda n: EqualsAll(), lambda n: EqualsNothing()])(rng.randint(0, 99))
    if kind == 5:
        return rng.choice([StopIteration(), StopIteration, NotImplemented, Ellipsis, object(), iter(()), type])
    if kind == 6:
        return gen.text(rng, 5)
    return rng.randint(0, 3)


def elements(rng, c, n=None):
    if n is None:
        n = rng.choice([0, 1, 2, 3, rng.randint(0, 12), rng.randint(0, 12), rng.randint(10, 40),
                        rng.choice([20, rng.randint(40, 400)])])
    ret = [element(rng, c) for _ in range(n)]
    if ret and rng.random() < 0.3:
        ret[rng.randrange(n)] = ret[rng.randrange(n)]
    return ret


class Source:
    """An iterator which logs how many elements were read from it."""

    def __init__(self, items, error=None):
        self.items, self.error = iter(items), error
        self.read, self.finished = 0, 0

    def __iter__(self):
        return self

    def __next__(self):
        try:
            ret = next(self.items)
        except StopIteration:
            if self.error is not None:
                error, self.error = self.error, None
                raise error
            self.finished += 1
            raise
        self.read += 1
        return ret


class Bag:
    """A minimal re-iterable: no length, no index."""

    def __init__(self, items):
        self.items, self.started = items, 0

    def __iter__(self):
        self.started += 1
        return iter(self.items)


class FalseBag(Bag):
    """Neither truth nor comparison tell anything about its content."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


class Indexed:
    """Iterable only through indices."""

    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


def reiterable(rng, items):
    kind = rng.randint(0, 6)
    if kind == 0:
        return list(items)
    if kind == 1:
        return tuple(items)
    if kind == 2:
        return deque(items)
    if kind == 3:
        return Indexed(list(items))
    if kind == 4:
        return dict(enumerate(items)).values()
    return (Bag if kind == 5 else FalseBag)(list(items))


def identical(a, b):
    """The same objects, in (tuples of) the same order."""
    return len(a) == len(b) and all(
        type(x) is tuple and type(y) is tuple and x is not y and identical(x, y) or x is y
        for x, y in zip(a, b))


def expect(c, actual, expected, message, *context):
    actual = list(actual)
    c.check(identical(actual, expected), message, actual, expected, *context)


def windows(items, size, partial):
    n = len(items)
    return [tuple(items[i:i + size]) for i in range(n if partial else max(0, n - size + 1))]


# every helper: (function of an iterable, model, elements needed for the first k results)

def helper(rng, c):
    kind = rng.choice(["drop", "windows", "partial_windows", "tile", "non_none"])
    if kind == "drop":
        k = rng.choice([0, 1, 2, rng.randint(0, 12), rng.randint(0, 50)])
        return kind, (lambda it: drop(it, k)), (lambda x: x[k:]), (lambda x, i: k + i), k
    if kind == "non_none":
        def needed(x, i):
            positions = [p for p, e in enumerate(x) if e is not None]
            return positions[i - 1] + 1 if i else 0

        return kind, non_none, (lambda x: [e for e in x if e is not None]), needed, None
    size = rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 45), rng.choice([5, rng.randint(40, 300)])])
    if kind == "tile":
        return kind, tile_with_pairs, (lambda x: windows(x, 2, False)), (lambda x, i: i + 1), 2
    partial = kind == "partial_windows"
    flag = {} if not partial and rng.random() < 0.5 else {"partial_windows": partial}
    return (kind, (lambda it: windowed(it, size, **flag)), (lambda x: windows(x, size, partial)),
            (lambda x, i: min(len(x), size - 1 + i)), size)


def census(c, kind, items, size, expected):
    c.count(kind)
    if kind == "drop":
        if not expected and items:
            c.count("drop_all")
        if size == 0:
            c.count("drop_none")
    elif kind == "non_none":
        if any(e is None for e in items):
            c.count("with_none")
        if any(e is x for e in expected for x in (0, "", False, ())):
            c.count("falsy_kept")
    else:
        if items and size > len(items):
            c.count("window_too_large")
        if items and size == len(items):
            c.count("window_exact")


@PROP.scenario(quick=100000)
def lazily_from_iterators(c):
    rng = c.rng
    items = elements(rng, c)
    kind, function, model, needed, size = helper(rng, c)
    expected = model(items)
    census(c, kind, items, size, expected)
    error = None
    if rng.random() < 0.2:
        error = rng.choice([ValueError("from the source"), KeyError("k"), RuntimeError("r")])
        c.count("failing")
    source = Source(items, error)
    as_generator = rng.random() < 0.4
    given = (e for e in source) if as_generator else source
    c.log(kind, len(items), size, error)
    result = function(given)
    c.eq(source.read, 0, "elements were read before anything was asked for")
    c.check(iter(result) is result, "given an iterator, the result is not one")
    c.count("iterator")
    until = rng.choice([0, 1, rng.randint(0, len(expected)), len(expected), len(expected)])
    until = min(until, len(expected))
    got = []
    for i in range(until):
        try:
            got.append(next(result))
        except StopIteration:
            c.fail("elements are missing", got, expected)
        except (ValueError, KeyError, RuntimeError) as e:
            # the failure may be due only if the source was exhausted by what was needed
            c.check(e is error and needed(items, i + 1) >= len(items) and kind == "partial_windows" or
                    kind == "partial_windows" and e is error and i + size > len(items),
                    "a failure of the source arrives too early", e, i)
            return
        c.check(source.read <= needed(items, i + 1), "more elements were read than needed",
                source.read, needed(items, i + 1), i)
        c.check(source.read >= needed(items, i + 1) or kind == "partial_windows",
                "results appear from nowhere", source.read, i)
        if kind != "partial_windows" or i + size <= len(items):
            c.eq(source.finished, 0, "the end was looked for before it was needed")
    expect(c, got, expected[:until], "wrong elements")
    if until == 0:
        c.count("never_read")
    if until < len(expected):
        c.count("partly_consumed")
        if kind not in ("partial_windows",) and error is None:
            # what was not read is still there for others
            expect(c, given, items[source.read:], "elements not needed were lost")
        return
    if error is not None:
        try:
            rest = list(result)
            c.fail("a failure of the source was swallowed", rest)
        except type(error) as e:
            c.check(e is error, "another failure than that of the source", e)
        return
    expect(c, result, [], "there are more elements than there should be")
    expect(c, result, [], "elements reappear after the end")
    c.eq(source.read, len(items), "the source was not read to the end")


@PROP.scenario(quick=8000)
def again_from_collections(c):
    rng = c.rng
    items = elements(rng, c)
    kind, function, model, _, size = helper(rng, c)
    if kind == "non_none":
        return c.trivial()  # is documented to make an iterator
    expected = model(items)
    census(c, kind, items, size, expected)
    collection = reiterable(rng, items)
    c.log(kind, type(collection).__name__, len(items), size)
    result = function(collection)
    if isinstance(collection, Bag):
        c.eq(collection.started, 0, "a collection was iterated before anything was asked for")
    c.count("reiterable")
    for _ in range(rng.randint(2, 3)):
        expect(c, result, expected, "wrong elements")
    c.count("iterated_again")
    # iterators over the result are independent of each other
    first, second = iter(result), iter(result)
    got_first, got_second = [], []
    for _ in range(rng.randint(0, 2 * len(expected))):
        if rng.random() < 0.5:
            got_first.extend(itertools.islice(first, 1))
        else:
            got_second.extend(itertools.islice(second, 1))
    got_first.extend(first)
    got_second.extend(second)
    expect(c, got_first, expected, "iterating twice at once gives wrong elements")
    expect(c, got_second, expected, "iterating twice at once gives wrong elements")
    c.count("interleaved")
    if type(collection) in (list, tuple, deque):
        c.check(identical(list(collection), items), "the collection was changed")
    if isinstance(collection, (list, deque)) and rng.random() < 0.5:
        more = elements(rng, c, 2)
        collection.extend(more)
        expect(c, result, model(items + more), "the result does not follow the collection")
        c.count("growing")


@PROP.scenario(quick=10000)
def infinite(c):
    rng = c.rng
    kind, function, model, needed, size = helper(rng, c)
    count = rng.randint(0, 30)
    start = rng.randint(-5, 5)
    source = Source(itertools.count(start))
    first = list(itertools.islice(function(source), count))
    items = list(range(start, start + needed(range(500), count) if kind != "partial_windows" else start + size + count))
    c.eq(first, model(items)[:count], "wrong elements of an infinite iterator")
    c.check(source.read <= len(items), "too much was read")
    c.log(kind, count, size)
    c.count("infinite")


@PROP.scenario(quick=8000)
def the_only_element(c):
    rng = c.rng
    function = rng.choice([only, get_only])
    prefix = function.__name__ + "_" if function is get_only else "only_"
    items = elements(rng, c, rng.choice([0, 1, 1, 2, 3, rng.randint(2, 20)]))
    kind = rng.randint(0, 2)
    error = None
    if kind < 2 and rng.random() < 0.2:
        error = rng.choice([ValueError, RuntimeError, KeyError, IndexError, LookupError, OSError, TypeError, AttributeError])("from the source")
    source = Source(items, error)
    given = source if kind == 0 else (e for e in source) if kind == 1 else reiterable(rng, items)
    c.log(function.__name__, type(given).__name__, len(items), error)
    if kind == 2:
        c.count("reiterable")
    for _ in range(2 if kind == 2 else 1):
        if error is not None and len(items) < 2:
            # never to be taken for the end
            try:
                function(given)
                swallowed = True
            except type(error) as e:
                swallowed = False
                c.check(e is error, "another failure than that of the source", e)
            c.check(not swallowed, "a failure of the source was swallowed")
            c.count("failing")
        elif len(items) == 1:
            c.check(function(given) is items[0], "not the only element")
            c.count(function.__name__)
        else:
            e = c.raises((ValueError, LookupError), lambda: function(given), "a collection without a single element was accepted")
            c.count(prefix + ("many" if items else "none"))
            if function is get_only and kind == 2 and items and isinstance(given, (list, tuple, deque)):
                for each in items[:2]:
                    c.check(repr(each) in str(e), "the elements are not reported", str(e))
                c.count("get_only_message")
        if kind < 2:
            c.check(source.read <= 2, "more than two elements were read", source.read)
    if kind == 2 and type(given) in (list, tuple, deque):
        c.check(identical(list(given), items), "the collection was changed")


@PROP.scenario(quick=1000)
def sets_and_mappings(c):
    """Collections which are not sequences."""
    rng = c.rng
    names = list(dict.fromkeys(gen.text(rng, 4) for _ in range(rng.choice([0, 1, 1, 2, 5]))))
    collection = rng.choice([dict.fromkeys, OrderedDict.fromkeys, immutableset, set, frozenset])(names)
    for function in (only, get_only):
        if len(names) == 1:
            c.eq(function(collection), names[0], "not the only element")
        else:
            c.raises((ValueError, LookupError), lambda: function(collection), "accepted without a single element")
    in_order = list(collection)
    k = rng.randint(1, 3)
    c.eq(list(drop(collection, k)), in_order[k:], "wrong elements dropped")
    c.eq(list(windowed(collection, k)), windows(in_order, k, False), "wrong windows")
    c.eq(list(windowed(collection, k, partial_windows=True)), windows(in_order, k, True), "wrong windows")
    c.eq(list(tile_with_pairs(collection)), windows(in_order, 2, False), "wrong pairs")
    c.eq(list(non_none(collection)), in_order, "elements left out")
    text = gen.text(rng, 8)
    c.eq(["".join(w) for w in windowed(text, k)], ["".join(w) for w in windows(text, k, False)], "wrong windows of a text")


@PROP.scenario(quick=5000)
def flattening(c):
    rng = c.rng
    parts = [elements(rng, c, rng.choice([0, 1, 2, rng.randint(0, 8)])) for _ in range(rng.choice([0, 1, 2, 5, 12]))]
    if rng.random() < 0.5:
        parts.append([[1, [2]], "text", ("t",), {}])
        c.count("flatten_nested")
        if rng.random() < 0.5:
            rng.shuffle(parts)
    expected = [e for part in parts for e in part]
    outer = []
    for part in parts:
        kind = rng.randint(0, 2)
        outer.append(reiterable(rng, part) if kind == 0 else iter(part) if kind == 1 else list(part))
    c.log("flatten", [len(p) for p in parts])
    actual = flatten_once_to_list(iter(outer) if rng.random() < 0.5 else outer)
    c.check(type(actual) is list, "not a list", actual)
    c.check(identical(actual, expected), "wrong elements", actual, expected)
    if len(parts) == 1 and isinstance(outer[0], list):
        c.check(actual is not outer[0], "the list returned is one of those given")
    c.count("flatten")


@PROP.scenario(quick=1000)
def illegal(c):
    rng = c.rng
    items = elements(rng, c)
    given = Source(items) if rng.random() < 0.5 else reiterable(rng, items)
    bad = -rng.choice([1, 2, rng.randint(1, 10 ** 9)])
    c.raises(ValueError, lambda: drop(given, bad), "a negative number to drop was accepted")
    c.count("drop_negative")
    size = rng.choice([0, bad])
    for flag in (False, True):
        c.raises(ValueError, lambda: windowed(given, size, partial_windows=flag), "an illegal window size was accepted")
    c.count("window_illegal")
    if isinstance(given, Source):
        c.eq(given.read, 0, "a rejected call read elements")
    c.log("illegal", bad, size)


SMALL = [(n, k) for n in range(0, 15) for k in range(0, 17)]


@PROP.scenario(quick=len(SMALL), thorough=len(SMALL), exhaustive=True)
def all_small_sizes(c):
    n, k = SMALL[c.i]
    items = [object() for _ in range(n)]
    for given in (items, tuple(items), Bag(items)):
        for make in (lambda x: x, iter):
            expect(c, drop(make(given), k), items[k:], "wrong elements", n, k)
            if k:
                expect(c, windowed(make(given), k), windows(items, k, False), "wrong windows", n, k)
                expect(c, windowed(make(given), k, partial_windows=True), windows(items, k, True),
                       "wrong partial windows", n, k)
            expect(c, tile_with_pairs(make(given)), windows(items, 2, False), "wrong pairs", n)
    c.log("small", n, k)


@PROP.scenario(quick=40, thorough=2000)
def large_sizes(c):
    """Thousands of elements, windows of up to thousands of elements."""
    n = c.rng.choice([200, 1000, 1024, 1500, 3000, 5000])
    k = c.rng.choice([1, 2, 70, 1000, 1001, 1400, n - 1, n, n + 1])
    items = list(range(n))
    c.count("large")
    c.log("large", n, k)
    for given in (items, Bag(items)):
        for make in (lambda x: x, iter):
            expect(c, drop(make(given), k), items[k:], "wrong elements", n, k)
            for partial in (False, True):
                count = n if partial else max(0, n - k + 1)
                seen = 0
                for i, window in enumerate(windowed(make(given), k, partial_windows=partial)):
                    seen += 1
                    c.check(len(window) == min(k, n - i) and window[0] == i and window[-1] == i + len(window) - 1
                            and (i % 50 or list(window) == items[i:i + k]), "wrong window", n, k, i)
                c.eq(seen, count, "number of windows", n, k, partial)
            expect(c, tile_with_pairs(make(given)), windows(items, 2, False), "wrong pairs", n)
            c.eq(list(non_none([None, *make(given), None])), items, "wrong elements", n)
    c.eq(flatten_once_to_list([items[:k], [], items[k:]]), items, "wrong elements of a flattened list", n, k)
