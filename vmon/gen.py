"""Workload generators shared by the properties."""
import datetime
import decimal
import fractions
import functools
import math
import string
import zlib


@functools.total_ordering
class Version:
    """A user-defined, totally ordered, hashable endpoint type."""

    def __init__(self, major, minor):
        self.major, self.minor = major, minor

    def __lt__(self, other):
        return (self.major, self.minor) < (other.major, other.minor)

    def __eq__(self, other):
        return isinstance(other, Version) and (self.major, self.minor) == (other.major, other.minor)

    def __hash__(self):
        return hash(("Version", self.major, self.minor))

    def __repr__(self):
        return f"v{self.major}.{self.minor}"


class Rank:
    """An endpoint type with no more than what is documented to be needed: < and a consistent ==."""

    def __init__(self, n):
        self.n = n

    def __lt__(self, other):
        if not isinstance(other, Rank):
            return NotImplemented
        return self.n < other.n

    def __eq__(self, other):
        if not isinstance(other, Rank):
            return NotImplemented
        return self.n == other.n

    def __hash__(self):
        return hash(("Rank", self.n))

    def __repr__(self):
        return f"rank {self.n}"


def _distinct(rng, make, n):
    """*make* gets a size bound, which grows when it cannot give enough distinct values."""
    seen = set()
    bound, tries = n, 0
    while len(seen) < n:
        seen.add(make(rng, bound))
        tries += 1
        if tries > 4 * n:
            bound, tries = 2 * bound + 1, 0
    return sorted(seen)


def _close_floats(start, n):
    ret = [start]
    while len(ret) < n:
        ret.append(math.nextafter(ret[-1], math.inf))
    return ret


class IntOfUser(int):
    """A number type derived by users."""


class StringOfUser(str):
    """A text type derived by users."""


def number_forms(v):
    return [v, float(v), fractions.Fraction(v), IntOfUser(v)] + (
        [bool(v)] if v in (0, 1) else [])


def string_forms(v):
    return [v, (v + "x")[:-1], StringOfUser(v)]


class Forms(list):
    """Values which are given out in another equal form on every access."""

    def __init__(self, values, forms):
        super().__init__(values)
        self.turn, self.forms = 0, forms

    def form(self, v):
        options = self.forms(v)
        self.turn = (self.turn * 7 + 3) % 1009
        return options[self.turn % len(options)]

    def __getitem__(self, key):
        ret = super().__getitem__(key)
        return Forms(ret, self.forms) if isinstance(key, slice) else self.form(ret)

    def __iter__(self):
        return (self.form(v) for v in super().__iter__())


# parts of texts which are mistaken for each other when altered on the way
ODD_PARTS = ["\\", "/", "\ufeff", "\t", "\n", "\r", "\0", " ", "  ", "e\u0301", "\u00e9", "\u212b", "\u00c5", "\u00df", "ss", "\u0130", "i",
             "I", "%", "..", ".", "\ufb01", "fi", "\x85", "\u2028", "\u00a0", "0", "00", "+0", "\uff10", "\U00010400", "$HOME", "~"]

# each family makes n distinct values of one totally ordered type, in ascending order
FAMILIES = {
    "small_int": lambda rng, n: _distinct(rng, lambda r, b: r.randint(-b, 2 * b), n),
    "adjacent_int": lambda rng, n: list(range(s := rng.randint(-3, 3), s + n)),
    "big_int": lambda rng, n: _distinct(rng, lambda r, b: r.randint(-(10 ** 30), 10 ** 30), n),
    "float": lambda rng, n: _distinct(
        rng,
        lambda r, b: r.choice([r.uniform(-2, 2), float(r.randint(-9, 9)), 5e-324 * r.randint(0, 3)]),
        n,
    ),
    "float_inf": lambda rng, n: (
        [float("-inf")] + _distinct(rng, lambda r, b: r.uniform(-5, 5), n - 2) + [float("inf")]
        if n >= 2 else [float("inf")][:n]
    ),
    "string": lambda rng, n: _distinct(
        rng, lambda r, b: "".join(r.choice("aAb\u00e9\U0001f600 0%s") for _ in range(r.randint(0, 3))), n
    ),
    "odd_string": lambda rng, n: _distinct(
        rng, lambda r, b: "".join(r.choice(ODD_PARTS) for _ in range(r.randint(0, 3))), n
    ),
    "bytes": lambda rng, n: _distinct(
        rng, lambda r, b: bytes(r.randint(0, 255) for _ in range(r.randint(0, 2))), n
    ),
    "tuple": lambda rng, n: _distinct(
        rng, lambda r, b: tuple(r.randint(0, 2 + b // 8) for _ in range(r.randint(0, 3))), n
    ),
    "date": lambda rng, n: _distinct(
        rng,
        lambda r, b: datetime.date(2000, 1, 1) + datetime.timedelta(r.randint(0, 99 + 10 * b)),
        n,
    ),
    "fraction": lambda rng, n: _distinct(
        rng, lambda r, b: fractions.Fraction(r.randint(-9 - b, 9 + b), r.randint(1, 7)), n
    ),
    "decimal": lambda rng, n: _distinct(
        rng, lambda r, b: decimal.Decimal(r.randint(-9 - 4 * b, 9 + 4 * b)) / 8, n
    ),
    "version": lambda rng, n: _distinct(
        rng, lambda r, b: Version(r.randint(0, 1 + b), r.randint(0, 4)), n
    ),
    "rank": lambda rng, n: _distinct(rng, lambda r, b: Rank(r.randint(-b, 2 * b)), n),
    # equal values which are not the same object or even type
    "number_forms": lambda rng, n: Forms(
        _distinct(rng, lambda r, b: r.randint(-b, 2 * b), n), number_forms),
    "string_forms": lambda rng, n: Forms(
        _distinct(rng, lambda r, b: "".join(r.choice("abc\u00e9") for _ in range(r.randint(0, 3 + b // 30))), n),
        string_forms),
    # values which are easily confused
    "close_int": lambda rng, n: list(range(
        s := rng.choice([2 ** 53, -(2 ** 53), 2 ** 31, 2 ** 63, 10 ** 22, -(2 ** 64), 256]) - rng.randint(0, n), s + n)),
    "close_float": lambda rng, n: _close_floats(rng.choice([1.0, -1.0, 0.1, 1e16, 1e300, -5e-324, 0.0]), n),
    "datetime": lambda rng, n: _distinct(
        rng,
        lambda r, b: datetime.datetime(2020, 2, 29, 23, 59, 59, 999990) + datetime.timedelta(
            days=r.choice([0, 0, 1]), microseconds=r.randint(0, 4 * b)),
        n,
    ),
    "long_string": lambda rng, n: _distinct(
        rng, lambda r, b: "common prefix " * 8 + "".join(r.choice("aAb\u00e9 z9") for _ in range(r.randint(0, 2 + b // 30))), n
    ),
    "mixed_number": lambda rng, n: _distinct(
        rng,
        lambda r, b: r.choice(
            [
                r.randint(-b, b),
                r.randint(-2 * b, 2 * b) / 2,
                fractions.Fraction(r.randint(-3 * b, 3 * b), 3),
            ]
        ),
        n,
    ),
}
FAMILY_NAMES = sorted(FAMILIES)


def values(rng, family, n):
    return FAMILIES[family](rng, n)


WEIRD_CHARS = (
    "\u00e9\u00df\u0130\u01c6\u0300\u200d\u202e\ufeff\u4e2d\U0001f600\U00010000\uffff\ue000"
    "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\u00a0\x7f\x01\t"
)


# texts which mean something elsewhere
TEXTS = ["0", "1", "123", "007", "-1", "1.5", "1e3", "null", "None", "true", "False", "~", "~/x", "..", ".", "/", "a/../b", "./a", "a//b",
         "$HOME", "${HOME}", "%s", "%(x)s", "%%", "%d", "{}", "{0}", "{x}", "{{}}", "&amp;", "&", "<a>", "\\n", "\\", "C:\\x",
         "# x", "a # b", "'x'", '"x"', "'", '"', " x ", "x  y", "[]", "[x]", "a,b", "a=b", "a:b", "key: value", "- a", "*", "?", "`x`",
         "UPPER", "MiXed", "!x", "@x", "(x)", "^x$", "\\1", "a|b", "...", "--", "-x", ";", "0x10", "1_000", "+1"]


def text(rng, max_len=40, *, newlines=True, extra="", weird=True):
    """Unicode text (no carriage returns or surrogates), often with unusual characters."""
    if rng.random() < 0.06:
        ret = rng.choice(TEXTS)
        if len(ret) <= max_len:
            return ret
    n = rng.choice([0, 1, 2, 3, rng.randint(0, max_len), rng.randint(0, max_len)])
    pools = [string.ascii_letters + string.digits, " .,;:-_/%#\"'<>&|{}[]()*!?@\\=+~`^$"]
    if weird:
        pools.append(WEIRD_CHARS)
    if newlines:
        pools.append("\n")
    if extra:
        pools.append(extra)
    pool_choice = rng.sample(pools, rng.randint(1, len(pools)))
    return "".join(rng.choice(rng.choice(pool_choice)) for _ in range(n))


def data(rng, max_len=200):
    kind = rng.randint(0, 5)
    if kind == 0:
        return b""
    if kind == 1:
        return text(rng).encode("utf-8")
    if kind == 2:
        return bytes([rng.randint(0, 255)]) * rng.randint(1, max_len)
    return bytes(rng.randint(0, 255) for _ in range(rng.randint(1, max_len)))


BIG_SIZES = [65_535, 65_536, 65_537, 100_000, 131_072, 300_000, 1 << 20, (1 << 20) + 1, 2_500_000]


def big_data(rng, size=None):
    """More than fits into the buffers of libraries; no part occurs twice."""
    return rng.randbytes(rng.choice(BIG_SIZES) if size is None else size)


def big_text(rng, size=None):
    """Like *big_data*; characters of all widths fall on every offset."""
    size = rng.choice(BIG_SIZES) if size is None else size
    parts, length = ["x" * rng.randint(0, 5)], 0
    while length < size:
        part = f"{len(parts)}" + rng.choice(["\n", "\u00e9", "\u4e2d", "\U0001f600", " ", "\n\n", "a\u0301"])
        parts.append(part * rng.choice([1, 1, 30]))
        length += len(parts[-1])
    return "".join(parts)[:size]


class TextOfUser(str):
    """Strings as users may derive them."""

    def __str__(self):
        return "converted"

    __repr__ = __str__


class BytesOfUser(bytes):
    pass


IDENT_START = string.ascii_letters + "_"


def identifier(rng, max_len=6):
    return rng.choice(IDENT_START) + "".join(
        rng.choice(IDENT_START + string.digits) for _ in range(rng.randint(0, max_len - 1))
    )


def shuffled(rng, items):
    items = list(items)
    rng.shuffle(items)
    return items


def predicate(rng, p=0.5):
    """A predicate depending on every part of its argument, true with probability *p*."""
    salt, limit = rng.random(), p * 2 ** 32
    return lambda x: zlib.crc32(repr((salt, x)).encode("utf-8", "surrogatepass")) < limit


def subset(rng, items, p=0.5):
    return [x for x in items if rng.random() < p]


ODD_NAMES = [
    "two  blanks", "  x", "x  ", "\tx", "x\t", "a\tb", "UPPER.TXT", "Mixed Case", "007", "1e3", "..x", "x..", "...", "~", "~root",
    "$HOME", "${HOME}", "%HOME%", "%s", "%", "{0}", "e\u0301", "\u00e9", "\u212b", "\ufb01", "\u0130", "\u00df", "\U0001f600",
    "\U0001f469\u200d\U0001f467", "#x", "'x'", '"x"', "a\\b", "[a]", "a*?", "-x", "a,b", "a;b", "a:b", "a=b", "a&b", "@x",
    "\u00a0x\u00a0", "\u202ex", "\ufeffx", "x.", "x. ", ".x", ".x.y", "None", "null", "True", "x\x7f", "x\x01", "\u3000x",
]


def odd_name(rng, *, lines=False, slashes=False, longest=240):
    """
    A name of an unusual kind which file systems and archives can hold;
    with line breaks only if *lines*, and of several components only if *slashes*.
    """
    kind = rng.randint(0, 9)
    if kind == 0:
        ret = rng.choice(["n", "\u00e9", "nm ", "N0", "\u4e2d", ".n"])
        ret = (ret * longest)[:rng.choice([99, 100, 101, 130, 155, 200, longest])]
        while len(ret.encode("utf-8")) > longest:
            ret = ret[:-1]
        ret += "" if ret[-1] != " " or rng.random() < 0.5 else "x"
    elif kind == 1 and lines:
        ret = rng.choice(["a\nb", "\nx", "x\n", "a\rb", "x\r", "\r\nx", "a\x85b", "a\u2028b", "\x0bx", "x\x0c"])
    elif kind in (2, 3) and slashes:
        # parts which mean nothing, or something else, are kept where names are no paths
        ret = "/".join(rng.choice(["a", "B", "e\u0301", "~", " ", "x  y", "..a", "1"]) for _ in range(rng.choice([2, 3, 12])))
    else:
        ret = rng.choice(ODD_NAMES)
    return ret
