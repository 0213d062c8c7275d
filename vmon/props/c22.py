import enum
import logging
import pathlib
import re
import warnings
from pathlib import Path

from vistautils.io_utils import CharSink
from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter

from vmon import gen, monitors, paramgen
from vmon.engine import Property
from vmon.fsutil import write

PROP = Property(
    "C22",
    rule="Random parameter trees with texts and names which look like YAML syntax, numbers of all magnitudes, "
    "nested lists, paths and shared values are written to files (also existing ones), sinks and text, loaded "
    "again with several loaders and compared including types and order; trees with an unsupported value "
    "anywhere have to be rejected.",
    required=["large", "file", "overwritten", "string_path", "sink", "text", "namespace", "path", "path_in_list",
              "rejected", "rejected_bytes", "shared", "special_float", "big_integer", "multi_line", "long_text",
              "empty_namespace", "empty_list", "odd_name", "long_name", "every_character", "derived_types",
              "faulty_file", "fault_reported", "tuple", "deep"],
    assumptions=["values are neither null nor dates",
                 "texts contain no reference syntax and no surrogates, '_includes' is no top-level name"],
    files=["vistautils/parameters.py"],
)

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

REFERENCE = re.compile(r"%([\w.\-]+)%")

LOOKALIKES = [
    "", " ", "null", "~", "Null", "NULL", "true", "True", "TRUE", "false", "yes", "No", "on", "OFF", "y", "n", "Y",
    "0", "-0", "+1", "1.0", ".5", "5.", "1e3", "1.0e+3", ".inf", "-.INF", ".nan", "0x1F", "0b1", "0o17", "017",
    "1_000", "1:30", "190:20:30.15", "2020-01-01", "2001-12-14t21:59:43.10-05:00", "=", "<<", "!", "!!str x",
    "&a", "*a", "- a", "-", "--", "---", "...", "? a", "?", ": a", ":", "a: b", "a:b", "a:", "# a", "a # b", "a#b",
    "[a]", "{a: b}", "]", "}", ",", "a, b", "'", "''", '"', '""', "'a'", '"a"', "it's", '\\', "\\n", "a\\", "|",
    "|-\n a", ">", "> a", "%", "%YAML 1.1", "% %", "%%", "100%", "@a", "`a`", "a\n", "\na", "a\n\nb", "a\n b", " a",
    "a ", "\t", "a\tb", "\ta", "a\t", "\n", "\n\n", " \n ", "a\r\nb", "\r", "a\x00b", "\x07", "\x1b[0m", "\x7f",
    "\x85", "a\x85b", "\u2028", "a\u2029b", "\ufeff", "\ufeffa", "\u00a0", "\u200b", "\uffff", "\U0010ffff", "é",
    "\U0001f600", "a" * 200, "word " * 60, "  two  spaces  ", "x\n" * 50, " " * 100, "a" * 77 + " b", "é " * 60,
    "- " * 50, "key: value\nother: 1\n", "null\n", "\"\n'", "<<: *x", "a" * 78 + "\n", "\n" + " " * 80 + "x",
    "_includes", "0 ", " 0", "1,000", "1e", "e1", "inf", "nan", "None", "0.", "-", "+", ".", "..", "+.5", "1__0",
]


class IntegerOfUser(int):
    def __str__(self):
        return "converted"

    __repr__ = __str__


class FloatOfUser(float):
    def __str__(self):
        return "converted"

    __repr__ = __str__


class Number(enum.IntEnum):
    ZERO = 0
    MANY = 12345


class Word(str, enum.Enum):
    EMPTY = ""
    YES = "yes"
    TWO = "two words"


class Flags(enum.IntFlag):
    A = 1
    B = 2


def derived(rng, model, c):
    """The same with some values (and names) of types derived from the built-in ones."""
    if isinstance(model, dict):
        return {(gen.TextOfUser(k) if rng.random() < 0.1 else k): derived(rng, v, c) for k, v in model.items()}
    if isinstance(model, (list, tuple)):
        return type(model)(derived(rng, v, c) for v in model)
    if isinstance(model, (bool, Path)) or rng.random() < 0.5:
        return model
    c.count("derived_types")
    return {str: gen.TextOfUser, int: IntegerOfUser, float: FloatOfUser}[type(model)](model)


def text(rng):
    kind = rng.randint(0, 5)
    if kind == 0:
        ret = rng.choice(LOOKALIKES)
    elif kind == 1:
        ret = rng.choice(LOOKALIKES) + rng.choice(LOOKALIKES)
    elif kind == 2:
        ret = gen.text(rng, 200, extra="\r\0")
    elif kind == 3:
        ret = "".join(rng.choice(" \n\tab:-#'\"") for _ in range(rng.randint(1, 150)))
    elif kind == 4:
        ret = " ".join(rng.choice(["a", "bc:", "- x", "#", "é", "\U0001f600", "word", "\n", "%", "'"])
                       for _ in range(rng.randint(1, 80)))
    else:
        ret = paramgen.string(rng)
    while REFERENCE.search(ret):
        ret = REFERENCE.sub("", ret)
    return ret


def name(rng):
    kind = rng.randint(0, 5)
    if kind < 3:
        return paramgen.name(rng)
    if kind == 3:
        ret = rng.choice(LOOKALIKES)
    elif kind == 4:
        ret = gen.text(rng, 10)
    else:
        ret = rng.choice(["k" * 130, "long key " * 20, "a: b " * 30, "x\n" * 70])
    ret = ret.replace(".", "")
    return ret if ret and ret != "_includes" else "n"


class Maker:
    def __init__(self, c):
        self.c, self.rng = c, c.rng
        self.made = []

    def scalar(self):
        rng, c = self.rng, self.c
        kind = rng.randint(0, 9)
        if kind < 5:
            ret = text(rng)
            if "\n" in ret:
                c.count("multi_line")
            if len(ret) > 78:
                c.count("long_text")
            return ret
        if kind < 7:
            ret = paramgen.integer(rng)
            if abs(ret) > 2 ** 64:
                c.count("big_integer")
            return ret
        if kind < 9:
            ret = paramgen.floating(rng)
            if ret in (float("inf"), -float("inf")):
                c.count("special_float")
            return ret
        return rng.random() < 0.5

    def listing(self, depth=2):
        rng = self.rng
        n = rng.choice([0, 1, 2, rng.randint(0, 5)])
        if not n:
            self.c.count("empty_list")
        ret = []
        for _ in range(n):
            kind = rng.randint(0, 9)
            if kind == 0 and depth:
                ret.append(self.listing(depth - 1))
            elif kind == 1 and depth:
                ret.append({name(rng): self.scalar() for _ in range(rng.randint(0, 2))})
            elif kind == 2:
                self.c.count("path_in_list")
                ret.append(self.path())
            else:
                ret.append(self.scalar())
        if rng.random() < 0.15:
            self.c.count("tuple")
            return tuple(ret)
        return ret

    def path(self):
        self.c.count("path")
        ret = self.rng.choice([
            Path("/a/b c"), Path("relative/x.txt"), Path("."), Path("/"), pathlib.PurePosixPath("null"),
            Path("2020-01-01"), Path("é/\U0001f600"), Path("1"), Path("a: b"), Path("true"),
        ])
        return ret if isinstance(ret, Path) else Path(str(ret))

    def value(self, _rng=None, _lists=True):
        rng = self.rng
        if self.made and rng.random() < 0.1:
            self.c.count("shared")
            return rng.choice(self.made)
        kind = rng.randint(0, 9)
        if kind < 7:
            ret = self.scalar()
        elif kind < 9:
            ret = self.listing()
        else:
            ret = self.path()
        self.made.append(ret)
        return ret

    def tree(self, depth=3, width=5):
        rng = self.rng
        ret = {}
        for _ in range(rng.choice([0, 1, 2, rng.randint(1, width)])):
            key = name(rng)
            if len(key) > 128:
                self.c.count("long_name")
            if not key.isidentifier():
                self.c.count("odd_name")
            ret[key] = self.tree(depth - 1, width) if depth and rng.random() < 0.3 else self.value()
        if not ret:
            self.c.count("empty_namespace")
        return ret


def as_loaded(model):
    if isinstance(model, dict):
        return {k: as_loaded(v) for k, v in model.items()}
    if isinstance(model, (list, tuple)):
        return [as_loaded(v) for v in model]
    return str(model) if isinstance(model, Path) else model


def strictly_ordered(c, actual, expected, what):
    c.same(actual, expected, what)
    c.check(paramgen.ordered(actual) == paramgen.ordered(expected), what + ": order", actual, expected)


def loader(rng):
    return YAMLParametersLoader(interpolate_environmental_variables=rng.random() < 0.5)


@PROP.scenario(quick=3500)
def round_trips(c):
    rng = c.rng
    model = Maker(c).tree()
    params = Parameters.from_mapping(model)
    expected = as_loaded(model)
    prefix = ()
    spaces = [(p, v) for p, v in paramgen.paths(model) if isinstance(v, dict)]
    if spaces and rng.random() < 0.2:
        prefix, model = rng.choice(spaces)
        c.count("namespace")
        params, expected = params.namespace(".".join(prefix)), as_loaded(model)
        if "_includes" in model:
            return
    kind = rng.choice(["file", "string_path", "sink", "sink_to_string", "text"])
    c.log(kind, model)
    c.count({"sink_to_string": "sink"}.get(kind, kind))
    writer = YAMLParametersWriter()
    file = c.dir / rng.choice(["out.params", "some file.yaml", "é"])
    if kind in ("file", "string_path", "sink") and rng.random() < 0.3:
        c.count("overwritten")
        write(file, "previous: " + "x" * rng.choice([1, 10000]) + "\n")
    if kind == "file":
        writer.write(params, file)
    elif kind == "string_path":
        writer.write(params, str(file))
    elif kind == "sink":
        writer.write(params, CharSink.to_file(file))
    if kind in ("file", "string_path", "sink"):
        loaded = loader(rng).load(file)
        again = loader(rng).load_string(file.read_text(encoding="utf-8"))
        c.check(loaded == again, "the file's text loads differently")
    elif kind == "sink_to_string":
        sink = CharSink.to_string()
        writer.write(params, sink)
        loaded = loader(rng).load_string(sink.last_string_written)
    else:
        loaded = loader(rng).load_string(str(params))
    strictly_ordered(c, dict(loaded.as_nested_dicts()), expected, "loaded")
    strictly_ordered(c, dict(params.as_nested_dicts()), model, "writing changed the parameters")
    c.eq(tuple(params.namespace_prefix), prefix, "path of written parameters")
    if not any(isinstance(v, Path) for _, v in paramgen.leaves(model)) and expected == model and not prefix:
        c.check(loaded == params, "loaded parameters are unequal")
    # what was loaded can be written again
    strictly_ordered(
        c, dict(loader(rng).load_string(str(loaded)).as_nested_dicts()), expected, "written and loaded twice"
    )


class Unsupported:
    pass


@PROP.scenario(quick=600)
def rejections(c):
    rng = c.rng
    model = Maker(c).tree(depth=2)
    bad = rng.choice([b"", b"bytes", bytearray(b"x"), {1, 2}, frozenset(), object(), Unsupported(), 1j,
                      lambda: 1, Unsupported, iter([1]), None])
    nothing = bad is None
    if isinstance(bad, (bytes, bytearray)):
        c.count("rejected_bytes")
    for _ in range(rng.randint(0, 2)):
        bad = rng.choice([[bad], [1, bad, "x"], [[bad]], [{"a": bad}], {"x": {"y": bad}}])
    spots = [model] + [v for _, v in paramgen.paths(model) if isinstance(v, dict)]
    rng.choice(spots)[name(rng)] = bad
    params = Parameters.from_mapping(model)
    c.log("unsupported", type(bad).__name__, bad if isinstance(bad, (list, dict)) else "")
    if nothing:
        # whether it is supported is left open, but it must not get lost
        c.count("nothing_as_value")
        sink = CharSink.to_string()
        try:
            YAMLParametersWriter().write(params, sink)
        except Exception:  # pylint:disable=broad-except
            return
        again = YAMLParametersLoader(interpolate_environmental_variables=False).load_string(sink.last_string_written)
        c.check(paramgen.ordered(dict(again.as_nested_dicts())) == paramgen.ordered(dict(params.as_nested_dicts())),
                "null was altered", again.as_nested_dicts(), params.as_nested_dicts())
        return
    c.count("rejected")
    c.raises(Exception, lambda: YAMLParametersWriter().write(params, CharSink.to_string()), "unsupported", bad)
    c.raises(Exception, lambda: YAMLParametersWriter().write(params, c.dir / "x"), "unsupported", bad)
    c.raises(Exception, lambda: str(params), "unsupported", bad)


@PROP.scenario(quick=128, exhaustive=True)
def every_character(c):
    """Each character of the basic plane, alone and within text."""
    start = c.i * 512
    characters = [chr(x) for x in range(start, start + 512) if not 0xD800 <= x <= 0xDFFF]
    if not characters:
        c.trivial()
        return
    c.log("characters", hex(start))
    c.count("every_character", len(characters))
    model = {}
    for x in characters:
        model[f"c{ord(x)}"] = [x, "a" + x, x + "a", f"a {x} b", x * 3]
        model[f"k{ord(x)}"] = f"{x}: {x}"
    loaded = YAMLParametersLoader().load_string(str(Parameters.from_mapping(model)))
    strictly_ordered(c, dict(loaded.as_nested_dicts()), model, "characters")
    file = c.dir / "characters.params"
    keys = {f"{x}name" if x != "." else "name": 1 for x in characters}
    keys.update({f"na{x}me": 1 for x in characters if x != "."})
    YAMLParametersWriter().write(Parameters.from_mapping(keys), file)
    strictly_ordered(c, dict(YAMLParametersLoader().load(file).as_nested_dicts()), keys, "names")


@PROP.scenario(quick=400)
def derived_types(c):
    """Values of types derived from text and numbers are written as the text and numbers they are."""
    rng = c.rng
    model = Maker(c).tree(depth=2)
    expected = as_loaded(model)
    given = derived(rng, model, c)
    for key, value, meant in [("n", Number.MANY, 12345), ("z", Number.ZERO, 0), ("w", Word.YES, "yes"), ("e", Word.EMPTY, ""),
                              ("t", Word.TWO, "two words"), ("f", Flags.A | Flags.B, 3)]:
        if rng.random() < 0.4:
            listed = rng.random() < 0.3
            given["derived " + key], expected["derived " + key] = ([value], [meant]) if listed else (value, meant)
            c.count("derived_types")
    c.log("derived types", expected)
    params = Parameters.from_mapping(given)
    file = c.dir / "derived.params"
    if rng.random() < 0.5:
        YAMLParametersWriter().write(params, file)
        loaded = loader(rng).load(file)
    else:
        loaded = loader(rng).load_string(str(params))
    strictly_ordered(c, dict(loaded.as_nested_dicts()), expected, "loaded")


@PROP.scenario(quick=100)
def failing_file_operations(c):
    """If writing failed, this is reported."""
    model = Maker(c).tree()
    params = Parameters.from_mapping(model)
    expected = as_loaded(model)
    file = c.dir / "out.params"
    target = c.rng.choice([file, str(file), CharSink.to_file(file)])
    if c.rng.random() < 0.5:
        write(file, "previous: 1\n")
    c.count("faulty_file")
    monitors.never_silent(
        c, lambda: YAMLParametersWriter().write(params, target),
        lambda _: strictly_ordered(c, dict(loader(c.rng).load(file).as_nested_dicts()), expected, "loaded"))


@PROP.scenario(quick=400)
def deep_trees(c):
    """Texts which need quotes, escapes or several lines, up to eighty levels deep."""
    rng = c.rng
    maker = Maker(c)
    depth = rng.choice([10, 18, 19, 20, 21, 25, 40, 80])
    model = {name(rng): maker.value() for _ in range(2)}
    model["deep text"] = rng.choice(["word ", "\x07 a", "\x85 b ", "\u2028c", "'x' ", "- a\n", "\t "]) * rng.randint(1, 40)
    for level in range(depth):
        if rng.random() < 0.2:
            listed = [model]
            for _ in range(rng.randint(0, 2)):
                listed.insert(rng.randint(0, len(listed)), maker.scalar())
            model = {"in a list": listed}
        else:
            model = {rng.choice(["n", "name", name(rng)]): model}
            if rng.random() < 0.2:
                model[f"beside {level}"] = maker.value()
    model.pop("_includes", None)
    params = Parameters.from_mapping(model)
    c.count("deep")
    c.log("depth", depth, model)
    loaded = loader(rng).load_string(str(params))
    strictly_ordered(c, dict(loaded.as_nested_dicts()), as_loaded(model), "loaded")


@PROP.scenario(quick=30, thorough=600)
def large_trees(c):
    """Hundreds of names, dozens of levels, long lists and texts."""
    rng = c.rng
    maker = Maker(c)
    model = paramgen.large(rng, lambda: maker.value())
    if rng.random() < 0.5:
        model["list"] = [maker.value(None, False) for _ in range(rng.choice([100, 1000]))]
    if rng.random() < 0.5:
        model["text"] = rng.choice(["word ", "x", "a: b\n", "  lines\n", "\u4e2d"]) * rng.choice([50, 5000])
    params = Parameters.from_mapping(model)
    c.count("large")
    c.log("large", len(list(paramgen.paths(model))))
    if rng.random() < 0.5:
        YAMLParametersWriter().write(params, c.dir / "large.params")
        loaded = loader(rng).load(c.dir / "large.params")
    else:
        loaded = loader(rng).load_string(str(params))
    strictly_ordered(c, dict(loaded.as_nested_dicts()), as_loaded(model), "loaded")
