import collections
import collections.abc
import enum
import functools
import importlib
import inspect
import logging.handlers
import os.path
import pkgutil
import types
import warnings
import xml.dom.minidom
from pathlib import Path

from attr import attrib, attrs

from immutablecollections import (
    ImmutableDict,
    ImmutableListMultiDict,
    ImmutableSet,
    ImmutableSetMultiDict,
)

import vistautils
from vistautils import attrutils, preconditions
from vistautils.class_utils import fully_qualified_name, fully_qualified_name_of_type
from vistautils.memory_amount import MemoryAmount, MemoryUnit
from vistautils.misc_utils import Scored, WithId, pathify, str_list_limited, strip_extension

from vmon import gen
from vmon.engine import Property
from vmon.fixture.outer.inner import things

PROP = Property(
    "C29",
    scale=5,
    rule="Every check and value type is called with random arguments of many kinds (falsy, huge, Unicode, "
    "objects with unusual comparison, truth and text forms, subclasses, abstract classes, tuples of classes) "
    "and judged by an independent model of what is legal; returned objects are compared by identity; all "
    "short memory strings over a small alphabet are enumerated; qualified names of all classes of several "
    "modules are resolved again.",
    required=["not_none_ok", "not_none_bad", "arg_ok", "arg_bad", "arg_message_args", "state_ok", "state_bad",
              "args_none_ok", "args_none_bad", "args_not_none_ok", "args_not_none_bad", "isinstance_ok",
              "isinstance_bad", "opt_none", "opt_ok", "opt_bad", "all_ok", "all_bad", "all_last_bad", "all_empty",
              "subclass_ok", "subclass_bad", "in_ok", "in_bad", "in_falsy", "falsy_accepted", "peculiar",
              "memory_ok", "memory_bad", "memory_zero", "memory_space", "memory_b", "memory_lower", "unit_bad",
              "amount_bad", "with_id_ok", "with_id_no_item", "with_id_empty", "with_id_not_text", "scored_ok",
              "scored_no_item", "scored_not_float", "list_short", "list_limited", "list_exact", "list_zero",
              "list_negative", "list_iterator", "extension", "no_extension", "several_extensions", "path_kept",
              "path_made", "class_name", "builtin_name", "nested_name", "module_name", "local_name",
              "instance_name", "attr_instance", "attr_instance_bad", "attr_optional", "attr_optional_bad",
              "attr_factory", "attr_immutable", "attr_opt_immutable", "attr_builder", "attr_not_immutable",
              "attr_immutable_bad", "non_empty"],
    files=["vistautils/preconditions.py", "vistautils/misc_utils.py", "vistautils/memory_amount.py",
           "vistautils/class_utils.py", "vistautils/attrutils.py"],
)

warnings.simplefilter("ignore")


class Equal:
    """Equal to everything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = None


class Unequal(Equal):
    def __eq__(self, other):
        return False

    def __ne__(self, other):
        return True

    __hash__ = None


class False_:
    def __bool__(self):
        return False


class Empty:
    def __len__(self):
        return 0


class True_:
    def __bool__(self):
        return True

    def __len__(self):
        return 0


class Numb(int):
    pass


class Text(str):
    pass


class Real(float):
    pass


class Base:
    def __repr__(self):
        return "a base %s {} \u2028"


class Derived(Base):
    pass


class Proxy:
    """Says to be of the class of what it wraps."""

    def __init__(self, wrapped):
        self.wrapped = wrapped

    @property
    def __class__(self):
        return type(self.wrapped)


class Color(enum.Enum):
    RED = 0
    BLUE = None


PECULIAR = [Equal, Unequal, False_, Empty, True_, Base, Derived, lambda: Numb(0), lambda: Numb(3), lambda: Text(""),
            lambda: Text("t"), lambda: Proxy(Base()), lambda: Proxy(3), lambda: Proxy("x"), lambda: Real(0), lambda: Real(1.5)]
FALSY = [0, False, 0.0, "", b"", (), [], {}, set(), frozenset(), range(0), 0j]
TRUTHY = [1, -1, True, 1.5, "x", "0", "None", b"0", (None,), [0], {0: 0}, {0}, range(1), Color.RED, Color.BLUE, int,
          type(None), len, Path("."), Ellipsis, NotImplemented, float("nan"), 10 ** 30]


def value(rng, c, none=0.15):
    if rng.random() < none:
        return None
    kind = rng.randint(0, 2)
    if kind == 0:
        return rng.choice(FALSY)
    if kind == 1:
        # truth values of NotImplemented are deprecated, but well-defined here
        return rng.choice([v for v in TRUTHY if v is not NotImplemented])
    c.count("peculiar")
    return rng.choice(PECULIAR)()


def falsy(x):
    return not x


def message(rng):
    return rng.choice(["", None, "a message", "100% sure", "50%", "%s of %d", "%", "100%%", "%(a)s", "é\n{}", "x" * 200, gen.identifier(rng)])


def rejects(c, types, function, msg, message_):
    e = c.raises(types, function, message_)
    if msg:
        c.check(msg in str(e), "the error does not have the given message", str(e), msg)
    return e


@PROP.scenario(quick=20000)
def presence(c):
    rng = c.rng
    msg = message(rng)
    kw = {} if msg is None and rng.random() < 0.5 else {"msg": msg}
    kind = rng.randint(0, 4)
    x = value(rng, c, 0.4)
    if kind == 0:
        if x is None:
            rejects(c, ValueError, lambda: preconditions.check_not_none(x, **kw), msg, "None was accepted")
            c.count("not_none_bad")
        else:
            c.check(preconditions.check_not_none(x, **kw) is x, "another object was returned", x)
            c.count("not_none_ok")
            if falsy(x):
                c.count("falsy_accepted")
    elif kind == 1:
        args = ()
        expected = msg
        if rng.random() < 0.5:
            args = tuple(rng.choice([1, "é", None, 2.5, "%s"]) for _ in range(rng.randint(1, 3)))
            kw = {"msg": "got " + " and ".join("%s" for _ in args), "msg_args": args}
            expected = "got " + " and ".join(str(a) for a in args)
        if falsy(x):
            rejects(c, ValueError, lambda: preconditions.check_arg(x, **kw), expected, "a false condition was accepted")
            c.count("arg_bad")
            if args:
                c.count("arg_message_args")
        else:
            preconditions.check_arg(x, **kw)
            c.count("arg_ok")
    elif kind == 2:
        if falsy(x):
            rejects(c, AssertionError, lambda: preconditions.check_state(x, **kw), msg, "a false condition was accepted")
            c.count("state_bad")
        else:
            preconditions.check_state(x, **kw)
            c.count("state_ok")
    else:
        n = rng.randint(0, 5)
        args = [value(rng, c, rng.choice([0, 0.2, 0.5, 1])) for _ in range(n)]
        if kind == 3 and rng.random() < 0.5:
            args = [None] * n
            if n and rng.random() < 0.5:
                args[rng.randrange(n)] = value(rng, c, 0)
        function = preconditions.check_args_are_none if kind == 3 else preconditions.check_args_not_none
        ok = all((a is None) == (kind == 3) for a in args)
        name = "args_none" if kind == 3 else "args_not_none"
        if ok:
            function(*args, **kw)
        else:
            rejects(c, ValueError, lambda: function(*args, **kw), msg, "wrong arguments were accepted")
        c.count(name + ("_ok" if ok else "_bad"))
    c.log("presence", kind, type(x).__name__, msg)


CLASSES = [int, str, float, bool, object, type(None), list, dict, tuple, Base, Derived, Equal, Numb, Text, type,
           collections.abc.Sized, collections.abc.Hashable, collections.abc.Iterable, enum.Enum, Color, Path,
           collections.abc.Mapping, bytes, False_]


def class_info(rng, depth=2):
    if depth and rng.random() < 0.3:
        return tuple(class_info(rng, depth - 1) for _ in range(rng.randint(0, 3)))
    return rng.choice(CLASSES)


@PROP.scenario(quick=20000)
def kinds(c):
    rng = c.rng
    info = class_info(rng)
    x = value(rng, c)
    kind = rng.randint(0, 3)
    c.log("kinds", kind, type(x).__name__, str(info))
    ok = isinstance(x, info)
    if kind == 0:
        if ok:
            c.check(preconditions.check_isinstance(x, info) is x, "another object was returned")
            c.count("isinstance_ok")
            if x is not None and falsy(x):
                c.count("falsy_accepted")
        else:
            e = c.raises(TypeError, lambda: preconditions.check_isinstance(x, info), "an object of a wrong type was accepted")
            c.check(type(x).__name__ in str(e) or x.__class__.__name__ in str(e), "the error does not tell the type", str(e))
            c.count("isinstance_bad")
    elif kind == 1:
        if x is None or ok:
            c.check(preconditions.check_opt_isinstance(x, info) is x, "another object was returned")
            c.count("opt_none" if x is None else "opt_ok")
        else:
            e = c.raises(TypeError, lambda: preconditions.check_opt_isinstance(x, info), "an object of a wrong type was accepted")
            c.check(type(x).__name__ in str(e) or x.__class__.__name__ in str(e), "the error does not tell the type", str(e))
            c.count("opt_bad")
    elif kind == 2:
        pool = [value(rng, c) for _ in range(12)]
        if rng.random() < 0.7:
            pool = [p for p in pool if isinstance(p, info)]
        items = [rng.choice(pool) for _ in range(rng.choice([0, 1, 3, 8]))] if pool else []
        if items and rng.random() < 0.4:
            items[-1] = x
        given = iter(items) if rng.random() < 0.3 else tuple(items) if rng.random() < 0.5 else items
        ok = all(isinstance(i, info) for i in items)
        if ok:
            preconditions.check_all_isinstance(given, info)
            c.count("all_ok" if items else "all_empty")
        else:
            c.raises(TypeError, lambda: preconditions.check_all_isinstance(given, info), "an item of a wrong type was accepted")
            c.count("all_bad")
            if all(isinstance(i, info) for i in items[:-1]):
                c.count("all_last_bad")
    else:
        cls = rng.choice(CLASSES)
        if issubclass(cls, info):
            c.check(preconditions.check_issubclass(cls, info) is cls, "another object was returned")
            c.count("subclass_ok")
        else:
            c.raises(TypeError, lambda: preconditions.check_issubclass(cls, info), "a class which is no subclass was accepted")
            c.count("subclass_bad")


@PROP.scenario(quick=8000)
def membership(c):
    rng = c.rng
    simple = [0, 1, False, True, "", "a", None, 2.5, (), ("a",), b"", Color.RED, float("nan")] + \
        [gen.text(rng, 3) for _ in range(3)]
    legal = [rng.choice(simple) for _ in range(rng.choice([0, 1, 3, 12, 20]))]
    collection = rng.choice([list, tuple, set, frozenset, dict.fromkeys, collections.deque, lambda x: range(len(x))])(legal)
    x = rng.choice(legal) if legal and rng.random() < 0.5 else rng.choice(simple)
    ok = any(x is v or x == v for v in collection)
    name = rng.choice([None, "", "color", "the %s {}"])
    kw = {} if name is None else {"item_name": name}
    c.log("in", repr(x), repr(collection), name)
    if ok:
        preconditions.check_in(x, collection, **kw)
        c.count("in_ok")
        if falsy(x):
            c.count("in_falsy")
    else:
        e = c.raises(ValueError, lambda: preconditions.check_in(x, collection, **kw), "a value not among those legal was accepted")
        c.check(str(x) in str(e), "the error does not tell the value", str(e))
        c.check((name or "") in str(e), "the error does not tell the name of the item", str(e))
        c.count("in_bad")


UNITS = {"K": MemoryUnit.KILOBYTES, "M": MemoryUnit.MEGABYTES, "G": MemoryUnit.GIGABYTES, "T": MemoryUnit.TERABYTES}


def memory_model(text):
    """(amount, unit), or None for an illegal one; written without regular expressions."""
    rest = text
    digits = ""
    while rest and rest[0] in "0123456789":
        digits, rest = digits + rest[0], rest[1:]
    if rest.startswith(" "):
        rest = rest[1:]
    if not digits or not rest or rest[0].upper() not in UNITS or rest[0] not in "kmgtKMGT" or rest[1:] not in ("", "b", "B"):
        return None
    return int(digits), UNITS[rest[0].upper()]


def judge_memory(c, text):
    expected = memory_model(text)
    if expected is None:
        c.raises((RuntimeError, ValueError), lambda: MemoryAmount.parse(text), "an illegal amount was accepted", text)
        c.count("memory_bad")
    elif expected[0] < 1:
        c.raises((RuntimeError, ValueError), lambda: MemoryAmount.parse(text), "an amount below one was accepted", text)
        c.count("memory_zero")
    else:
        actual = MemoryAmount.parse(text)
        c.same((actual.amount, actual.unit), expected, "wrong amount of memory", text)
        c.eq(actual, MemoryAmount(*expected), "not equal to the same amount", text)
        c.eq(hash(actual), hash(MemoryAmount(*expected)), "hash differs from the same amount", text)
        c.count("memory_ok")
        if " " in text:
            c.count("memory_space")
        if text[-1] in "bB":
            c.count("memory_b")
        if text.upper() != text:
            c.count("memory_lower")


MEMORY_ALPHABET = "01 kMGtBbx."
MEMORY_STRINGS = [""]
for _length in range(4):
    MEMORY_STRINGS += [s + a for s in MEMORY_STRINGS if len(s) == _length for a in MEMORY_ALPHABET]
_BLOCK = 100


@PROP.scenario(quick=-(-len(MEMORY_STRINGS) // _BLOCK), thorough=-(-len(MEMORY_STRINGS) // _BLOCK), exhaustive=True)
def short_memory_strings(c):
    for text in MEMORY_STRINGS[c.i * _BLOCK:(c.i + 1) * _BLOCK]:
        judge_memory(c, text)
    c.log("block", c.i)


@PROP.scenario(quick=6000)
def memory(c):
    rng = c.rng
    text = str(rng.choice([0, 1, 7, 42, 1000, rng.randint(1, 10 ** 20)]))
    text = rng.choice(["", "", "", "0", "00", "-", "+", " ", "1_", "."]) + text
    text += rng.choice(["", " ", " ", "  ", "\t", "_"]) + rng.choice(list("KMGTkmgt") + ["", "P", "B", "KK", "Ki", "kilo"])
    text += rng.choice(["", "", "B", "b", "BB", "ytes", "iB", " ", "\n", "/s", "Hz"])
    c.log("memory", text)
    judge_memory(c, text)
    unit = rng.choice(["K", "m", "g", "T", "", "B", "KB", "k ", "kilobytes", "\u212a", "P", "0", "KM", "é"])
    if unit.upper() in UNITS and len(unit) == 1 and unit in "KMGTkmgt":
        c.check(MemoryUnit.parse(unit) is UNITS[unit.upper()], "wrong unit", unit)
    else:
        c.raises(RuntimeError, lambda: MemoryUnit.parse(unit), "an illegal unit was accepted", unit)
        c.count("unit_bad")
    bad = rng.choice([0, -1, -rng.randint(1, 10 ** 9), 1.0, 2.5, "1", None, (1,)])
    c.raises((ValueError, TypeError), lambda: MemoryAmount(bad, MemoryUnit.GIGABYTES), "an illegal amount was accepted", bad)
    c.count("amount_bad")
    a, b = (MemoryAmount(rng.randint(1, 3), rng.choice(list(MemoryUnit))) for _ in range(2))
    c.eq(a == b, (a.amount, a.unit) == (b.amount, b.unit), "wrong equality", a, b)
    c.raises(AttributeError, lambda: setattr(a, "amount", 0), "an amount of memory can be changed")


@PROP.scenario(quick=10000)
def identified_and_scored(c):
    rng = c.rng
    item = value(rng, c)
    if rng.random() < 0.5:
        id_ = rng.choice(["x", " ", "0", Text("t"), gen.text(rng, 5), "", Text(""), None, 0, 5, b"x", ["x"], ("x",), Path("x")])
        c.log("id", repr(id_), type(item).__name__)
        if item is None or not isinstance(id_, str) or not id_:
            c.raises((ValueError, TypeError), lambda: WithId(id_, item), "an illegal identified item was accepted", id_)
            c.count("with_id_no_item" if item is None else "with_id_empty" if isinstance(id_, str) else "with_id_not_text")
        else:
            made = rng.choice([lambda: WithId(id_, item), lambda: WithId(id=id_, item=item)])()
            c.check(made.id is id_ and made.item is item, "not the parts given", made)
            c.raises(AttributeError, lambda: setattr(made, "id", ""), "an identified item can be changed")
            c.count("with_id_ok")
    else:
        score = rng.choice([0.0, -0.0, 1.5, -1e300, float("inf"), float("nan"), Real(2), 0, 1, True, None, "1.0", 1j, [1.0]])
        c.log("score", repr(score), type(item).__name__)
        if item is None or not isinstance(score, float):
            c.raises((ValueError, TypeError), lambda: Scored(item, score), "an illegal scored item was accepted", score)
            c.count("scored_no_item" if item is None else "scored_not_float")
        else:
            made = rng.choice([lambda: Scored(item, score), lambda: Scored(score=score, item=item)])()
            c.check(made.item is item and made.score is score, "not the parts given", made)
            c.raises(AttributeError, lambda: setattr(made, "score", 1.0), "a scored item can be changed")
            c.count("scored_ok")


@PROP.scenario(quick=10000)
def abbreviated_lists(c):
    rng = c.rng
    items = [value(rng, c) if rng.random() < 0.5 else gen.text(rng, 5) for _ in range(rng.choice([0, 1, 2, 5, 11, 30]))]
    limit = rng.choice([0, 1, 2, 10, max(0, len(items) - 1), len(items), len(items) + 1, 10 ** 9])
    kind = rng.choice(["list", "tuple", "iterator", "dict"])
    given = {"list": list, "tuple": tuple, "iterator": iter, "dict": lambda x: dict(enumerate(x)).values()}[kind](items)
    c.log("list", kind, len(items), limit)
    actual = str_list_limited(given, limit)
    if len(items) <= limit:
        c.eq(actual, str(items), "not the whole list")
        c.count("list_short")
        if len(items) == limit:
            c.count("list_exact")
    else:
        c.eq(actual, "[" + ", ".join(repr(i) for i in items[:limit]) + f" and {len(items) - limit} more]",
             "not the first items and the count of the others")
        c.count("list_limited" if limit else "list_zero")
    if kind == "iterator":
        c.count("list_iterator")
    if kind == "list":
        c.eq(len(given), len(items), "the list was changed")
    c.raises(ValueError, lambda: str_list_limited(items, -rng.randint(1, 99)), "a negative limit was accepted")
    c.count("list_negative")


@PROP.scenario(quick=8000)
def file_names(c):
    rng = c.rng
    stem = rng.choice(["a", "file", "x y", "é", "\U0001f600", gen.identifier(rng), "-", "%"])
    extensions = [rng.choice(["txt", "gz", "", "tar", "é", "x y", "1"]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    name = ".".join([stem] + extensions)
    c.log("name", name)
    c.eq(strip_extension(name), ".".join([stem] + extensions[:-1]), "wrong name without extension", name)
    c.count(["no_extension", "extension", "several_extensions"][min(2, len(extensions))])
    path = Path(rng.choice([name, "/" + name, "", ".", "a/../" + name]))
    c.check(pathify(path) is path, "a path was not returned unchanged")
    c.count("path_kept")
    text = rng.choice([name, Text(name), "a//" + name, "", "~/" + name, "a/./b/"])
    made = pathify(text)
    c.check(isinstance(made, Path), "not a path", made)
    c.eq(made, Path(text), "not the path given")
    c.count("path_made")


class Outer:
    class Inner:
        class Innermost(dict):
            pass

    class Other(int):
        pass


def resolve(name):
    """The object with a qualified name."""
    parts = name.split(".")
    for i in range(len(parts), 0, -1):
        try:
            here = importlib.import_module(".".join(parts[:i]))
        except ImportError:
            continue
        for part in parts[i:]:
            here = getattr(here, part)
        return here
    import builtins

    return functools.reduce(getattr, parts, builtins)


def own_classes(module):
    ret = []
    for _, cls in inspect.getmembers(module, inspect.isclass):
        ret.append(cls)
        ret += [inner for _, inner in inspect.getmembers(cls, inspect.isclass)
                if getattr(inner, "__qualname__", "").startswith(cls.__qualname__ + ".")]
    return ret


MODULES = [importlib.import_module("vistautils." + m.name) for m in pkgutil.iter_modules(vistautils.__path__)
           if m.name not in ("scripts",)] + [vistautils, collections, collections.abc, logging.handlers,
                                             xml.dom.minidom, things, os.path, types]
ALL_CLASSES = [Outer, Outer.Inner, Outer.Inner.Innermost, Outer.Other, Base, int, str, object, dict, type, BaseException,
               ValueError, StopIteration, range, Color]
for _module in MODULES:
    ALL_CLASSES += own_classes(_module)
ALL_CLASSES = list(dict.fromkeys(ALL_CLASSES))


def resolves(cls):
    """Whether the class is where its own attributes say."""
    try:
        here = importlib.import_module(cls.__module__)
        for part in cls.__qualname__.split("."):
            here = getattr(here, part)
        return here is cls
    except (ImportError, AttributeError):
        return False


CLASSES_TO_NAME = [cls for cls in ALL_CLASSES if isinstance(cls, type) and resolves(cls)]


@PROP.scenario(quick=len(CLASSES_TO_NAME), thorough=len(CLASSES_TO_NAME), exhaustive=True)
def class_names(c):
    cls = CLASSES_TO_NAME[c.i]
    name = fully_qualified_name(cls)
    c.log("class", name)
    c.check(resolve(name) is cls, "the name does not lead to the class", cls, name)
    if cls.__module__ == "builtins":
        c.eq(name, cls.__qualname__, "wrong name of a builtin")
        c.count("builtin_name")
    else:
        c.eq(name, cls.__module__ + "." + cls.__qualname__, "wrong name")
        c.count("nested_name" if "." in cls.__qualname__ else "class_name")


@PROP.scenario(quick=200)
def other_names(c):
    rng = c.rng
    module = rng.choice(MODULES)
    name = fully_qualified_name(module)
    c.eq(name, module.__name__, "wrong name of a module")
    c.check(importlib.import_module(name) is module, "the name does not lead to the module")
    c.count("module_name")
    made = types.ModuleType(rng.choice(["m", "a.b.c", ""]))
    c.eq(fully_qualified_name(made), made.__name__, "wrong name of a made-up module")

    class Local:
        class Nested:
            pass

    for cls in (Local, Local.Nested):
        c.eq(fully_qualified_name(cls), __name__ + ".other_names.<locals>." + cls.__qualname__.split("<locals>.")[1],
             "wrong name of a local class")
        c.eq(fully_qualified_name_of_type(cls()), fully_qualified_name(cls), "wrong name of the type of an object")
    c.count("local_name")
    x = value(rng, c)
    while type(x) is not x.__class__:
        x = value(rng, c)
    c.eq(fully_qualified_name_of_type(x),
         type(x).__qualname__ if type(x).__module__ == "builtins" else type(x).__module__ + "." + type(x).__qualname__,
         "wrong name of the type of an object")
    c.count("instance_name")
    odd = type("Odd", (), {"__module__": None})
    c.eq(fully_qualified_name(odd), "Odd", "wrong name of a class without module")
    for module_name in ("builtins2", "builtins.x", "_builtins", "__main__", "Builtins", "types"):
        made_class = type("Made", (), {"__module__": module_name})
        c.eq(fully_qualified_name(made_class), module_name + ".Made", "wrong name of a made-up class")
        c.eq(fully_qualified_name_of_type(made_class()), module_name + ".Made", "wrong name of its type")
    c.log("names", name, type(x).__name__)


def _pairs(rng):
    return [(rng.randint(0, 3), rng.randint(0, 3)) for _ in range(rng.randint(0, 5))]


IMMUTABLE = {
    ImmutableSet: (lambda r: [r.randint(0, 3) for _ in range(r.randint(0, 5))], lambda x: list(dict.fromkeys(x)), list),
    ImmutableDict: (lambda r: [(gen.identifier(r), r.randint(0, 3)) for _ in range(r.randint(0, 3))], dict, dict),
    ImmutableListMultiDict: (_pairs, lambda x: {k: tuple(w for j, w in x if j == k) for k, _ in x},
                             lambda m: {k: tuple(m[k]) for k in m.keys()}),
    ImmutableSetMultiDict: (_pairs, lambda x: {k: {w for j, w in x if j == k} for k, _ in x},
                            lambda m: {k: set(m[k]) for k in m.keys()}),
}


@PROP.scenario(quick=1500)
def attribute_helpers(c):
    rng = c.rng
    types_ = rng.choice([int, str, (int, str), Base, (list, type(None)), bool])
    x = value(rng, c)
    good = {int: 3, str: "s", (int, str): "s", Base: Base(), (list, type(None)): [], bool: True}[types_]
    default = rng.choice([None, good])
    fallback = {"default": default} if rng.random() < 0.5 else {}

    @attrs
    class Holder:
        one = attrutils.attrib_instance_of(types_)
        two = attrutils.attrib_opt_instance_of(types_, **fallback)
        three = attrib(validator=attrutils.opt_instance_of(types_), default=None)
        four = attrutils.attrib_factory(list)
        five = attrutils.attrib_factory(dict, kw_only=True)

    c.log("attributes", str(types_), type(x).__name__, fallback)
    ok = isinstance(x, types_)
    if ok:
        c.check(Holder(x).one is x, "not the value given")
        c.count("attr_instance")
    else:
        c.raises(TypeError, lambda: Holder(x), "a value of a wrong type was accepted")
        c.count("attr_instance_bad")
    for name in ("two", "three"):
        if ok or x is None:
            c.check(getattr(Holder(good, **({name: x, "two": None} if name != "two" else {name: x})), name) is x,
                    "not the value given")
            c.count("attr_optional")
        else:
            c.raises(TypeError, lambda: Holder(good, **({name: x, "two": None} if name != "two" else {name: x})),
                     "a value of a wrong type was accepted")
            c.count("attr_optional_bad")
    expected_default = fallback.get("default")
    c.check(Holder(good).two is expected_default, "wrong default")
    a, b = Holder(good, None), Holder(good, None)
    for name, kind in (("four", list), ("five", dict)):
        c.same(getattr(a, name), kind(), "wrong default of a factory")
        c.check(getattr(a, name) is not getattr(b, name), "objects share a default which can be changed")
    c.check(Holder(good, None, None, x).four is x, "not the value given in place of the factory's")
    c.count("attr_factory")

    type_ = rng.choice(sorted(IMMUTABLE, key=lambda t: t.__name__))
    make, model, view = IMMUTABLE[type_]

    @attrs
    class Immutable:
        one = attrutils.attrib_immutable(type_)
        two = attrutils.attrib_opt_immutable(type_)
        builder = attrutils.attrib_private_immutable_builder(type_)

    content, other = make(rng), make(rng)
    made = Immutable(list(content), rng.choice([list, iter, tuple])(other))
    for actual, given in ((made.one, content), (made.two, other)):
        c.check(isinstance(actual, type_), "not an immutable collection of the given type", actual)
        c.eq(view(actual), model(given), "not the content given", given)
    c.count("attr_immutable")
    for made in (Immutable(content), Immutable(content, None), Immutable(content, two=None)):
        c.check(isinstance(made.two, type_) and not len(made.two), "not an empty collection by default", made.two)
    bad = rng.choice([0, False, 0.0, 5, Empty(), False_(), object()])
    c.raises(Exception, lambda: Immutable(content, bad), "something which is no collection was accepted", bad)
    c.raises(Exception, lambda: Immutable(None), "None was accepted for a collection not optional")
    c.count("attr_immutable_bad")
    same = type_.of(list(content))
    c.eq(Immutable(same).one, same, "an immutable collection was changed")
    c.count("attr_opt_immutable")
    one, two = Immutable(content), Immutable(content)
    c.check(one.builder is not two.builder, "objects share a builder")
    if type_ is ImmutableSet:
        one.builder.add(1)
    else:
        one.builder.put(1, 2)
    c.eq(len(two.builder.build()), 0, "objects share a builder")
    c.check(isinstance(one.builder.build(), type_) and len(one.builder.build()) == 1, "wrong collection built")
    c.raises(TypeError, lambda: Immutable(content, other, builder=None), "the private builder can be given")
    c.count("attr_builder")

    bad = rng.choice([list, dict, set, frozenset, tuple, str, int])
    helper = rng.choice([attrutils.attrib_immutable, attrutils.attrib_opt_immutable,
                         attrutils.attrib_private_immutable_builder])
    c.raises(ValueError, lambda: helper(bad), "a type which is no immutable collection was accepted", bad)
    c.count("attr_not_immutable")
    sized = rng.choice(["", "a", [], [None], (), {}, {0: 0}, True_(), Empty()])
    c.eq(bool(attrutils.non_empty(None, None, sized)), len(sized) > 0, "wrong answer on being non-empty", sized)
    c.count("non_empty")
