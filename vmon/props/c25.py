import logging
import os
import pickle
import warnings
from pathlib import Path

from vistautils.io_utils import file_lines_to_set
from vistautils.parameters import ParameterError, Parameters, YAMLParametersLoader, YAMLParametersWriter

from vmon import gen, monitors, paramgen
from vmon.engine import Property
from vmon.fsutil import snapshot, write

PROP = Property(
    "C25",
    scale=3,
    rule="Path lists (in files and given directly), path maps and line sets with random Unicode entries, "
    "comments, blank lines, surrounding white space and unusual line separators are written and read back "
    "with and without a base directory, and compared with what was written; maps with one malformed line, "
    "missing files and parameters of wrong kinds have to be rejected; random objects are pickled.",
    required=["list_file", "list_direct", "comment", "indented_comment", "blank", "white_blank", "stripped",
              "odd_separator", "no_final_newline", "absolute_entry", "relative_entry", "based", "unbased",
              "hash_inside", "duplicate_entry", "empty_list", "map", "empty_map", "map_based", "malformed",
              "too_few", "too_many", "blank_map_line", "lines", "duplicate_line", "white_line", "no_lines",
              "pickle", "missing_file", "directory", "wrong_kind", "missing_parameter", "namespaced",
              "log_name", "many", "rewritten",
              "unreadable", "fault_reported"],
    assumptions=["files are UTF-8 without carriage returns; no map has a key twice",
                 "entries of lists given directly have no surrounding white space"],
    files=["vistautils/parameters.py", "vistautils/io_utils.py"],
)

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

ODD = "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"  # break lines for str.splitlines only


def field(rng, c, first=True):
    """A text without surrounding white space, newlines, tabs or NUL characters."""
    while True:
        kind = rng.randint(0, 6)
        if kind == 0:
            ret = "a" + rng.choice(ODD) + "b"
        elif kind == 1:
            ret = "/".join(gen.text(rng, 6, newlines=False) for _ in range(rng.randint(1, 4)))
        elif kind == 2:
            ret = rng.choice(["a" + " " * rng.randint(2, 12) + "b", "a#b", "x # y", "../up", "./a//b/", "a b  c", "-", "%", "~", "'q'", '"', "a\\n", ".",
                              "a,b", "\ufeffbom", "é", "e\u0301", "[x]", "{y: z}", "*", "$HOME", "%HOME%", "a=b"])
            if rng.random() < 0.3:
                ret = gen.odd_name(rng, slashes=True)
        elif kind == 3:
            ret = "/" + gen.text(rng, 10, newlines=False)
        else:
            ret = gen.identifier(rng) + rng.choice(["", ".txt", "/x", "/y.z"])
        ret = ret.replace("\t", " ").replace("\n", " ").replace("\r", " ").replace("\0", " ").strip()
        if not ret or (first and ret.startswith("#")):
            continue
        if any(o in ret for o in ODD):
            c.count("odd_separator")
        if "#" in ret:
            c.count("hash_inside")
        return ret


def size(rng, c):
    n = rng.choice([0, 1, 2, 3, rng.randint(2, 12), rng.randint(2, 12), rng.randint(20, 60)])
    if n >= 20:
        c.count("many")
    return n


def white(rng):
    return "".join(rng.choice("  \t") for _ in range(rng.randint(0, 3)))


def file_name(rng):
    return rng.choice(["list.txt", "the list", "é.tab", "#x", "%", "dir/sub/file.lst", "a.b.c", gen.odd_name(rng)])


def parameters(c, value, *, name=None):
    """Parameters with the given value somewhere, and the name of that parameter."""
    rng = c.rng
    name = name or rng.choice(["paths", "p", "a", "x-y"])
    kind = rng.randint(0, 3)
    if kind == 0:
        c.count("namespaced")
        full = "outer.inner." + name
        data = {"outer": {"inner": {name: value}, name: "wrong"}, name: ["wrong"]}
    elif kind == 1:
        c.count("namespaced")
        return Parameters.from_mapping({"ns": {name: value}, name: "wrong"}).namespace("ns"), name
    else:
        full, data = name, {name: value, "other": 1}
    if kind == 2 and "%" not in str(value):
        file = write(str(c.dir / "load" / "params"), "")
        YAMLParametersWriter().write(Parameters.from_mapping(data), Path(file))
        return YAMLParametersLoader(interpolate_environmental_variables=False).load(file), full
    return Parameters.from_mapping(data), full


def base(c):
    rng = c.rng
    if rng.random() < 0.4:
        c.count("unbased")
        return None
    c.count("based")
    return Path(rng.choice(["/hello/world", "relative/base", str(c.dir), ".", "..", "/", "with space/é"]))


def resolved(c, base_, entry):
    c.count("absolute_entry" if entry.startswith("/") else "relative_entry")
    if base_ is None:
        return Path(entry)
    return Path(os.path.join(str(base_), entry))


def keywords(c, base_):
    ret = {}
    if base_ is not None or c.rng.random() < 0.3:
        ret["resolve_relative_to"] = base_
    if c.rng.random() < 0.4:
        c.count("log_name")
        ret["log_name"] = c.rng.choice(["documents", "", "100% of %s"])
    return ret


@PROP.scenario(quick=2500)
def path_list_file(c):
    rng = c.rng
    entries = [field(rng, c) for _ in range(size(rng, c))]
    if entries and rng.random() < 0.2:
        entries.insert(rng.randint(0, len(entries)), rng.choice(entries))
        c.count("duplicate_entry")
    if not entries:
        c.count("empty_list")
    lines = []
    for entry in entries:
        while rng.random() < 0.3:
            kind = rng.randint(0, 3)
            if kind == 0:
                c.count("comment")
                lines.append("#" + gen.text(rng, 10, newlines=False).replace("\n", ""))
            elif kind == 1:
                c.count("indented_comment")
                lines.append(" " + white(rng) + "# " + entry)
            elif kind == 2:
                c.count("blank")
                lines.append("")
            else:
                c.count("white_blank")
                lines.append(" " + white(rng))
        if rng.random() < 0.25:
            c.count("stripped")
            lines.append(white(rng) + entry + white(rng) + " ")
        else:
            lines.append(entry)
    content = "\n".join(lines)
    if lines and rng.random() < 0.7:
        content += "\n"
    elif lines:
        c.count("no_final_newline")
    content = content.replace("\r", "")
    file = write(str(c.dir / "files" / file_name(rng)), content)
    base_ = base(c)
    expected = tuple(resolved(c, base_, e) for e in entries)
    params, name = parameters(c, file)
    before = snapshot(c.dir)
    c.log("content", content, "base", base_)
    for _ in range(2):
        actual = params.path_list_from_file(name, **keywords(c, base_))
        c.check(all(isinstance(p, Path) for p in actual), "not all elements are paths", actual)
        c.eq(list(actual), list(expected), "not the paths listed", content)
    c.eq(snapshot(c.dir), before, "the file system was changed")
    c.count("list_file")


@PROP.scenario(quick=1500)
def path_list_direct(c):
    rng = c.rng
    entries = [field(rng, c, first=False) for _ in range(size(rng, c))]
    if not entries:
        c.count("empty_list")
    base_ = base(c)
    given = list(entries)
    params, name = parameters(c, given)
    c.log("entries", entries, "base", base_)
    actual = params.path_list_from_file(name, **keywords(c, base_))
    c.check(all(isinstance(p, Path) for p in actual), "not all elements are paths", actual)
    c.eq(list(actual), [resolved(c, base_, e) for e in entries], "not the paths given")
    c.eq(given, entries, "the given list was changed")
    c.count("list_direct")


@PROP.scenario(quick=2500)
def path_map(c):
    rng = c.rng
    entries = {}
    for _ in range(size(rng, c)):
        key = field(rng, c, first=False)
        entries.setdefault(key, field(rng, c, first=False))
    if not entries:
        c.count("empty_map")
    lines = [f"{k}\t{v}" for k, v in entries.items()]
    content = "".join(line + "\n" for line in lines)
    if lines and rng.random() < 0.3:
        content = content[:-1]
        c.count("no_final_newline")
    file = write(str(c.dir / "files" / file_name(rng)), content)
    base_ = base(c)
    params, name = parameters(c, file)
    c.log("content", content, "base", base_)
    actual = params.path_map_from_file(name, **keywords(c, base_))
    c.check(all(isinstance(p, Path) for p in actual.values()), "not all values are paths", actual)
    c.eq(list(actual.items()), [(k, resolved(c, base_, v)) for k, v in entries.items()], "not the pairs listed")
    for key, value in entries.items():
        c.eq(actual[key], resolved(c, base_, value), "wrong path for a key", key)
    c.count("map")
    if base_ is not None:
        c.count("map_based")
    if rng.random() < 0.5:
        bad = rng.choice(["too_few", "too_many", "blank_map_line"])
        c.count(bad)
        c.count("malformed")
        line = {"too_few": field(rng, c), "blank_map_line": "",
                "too_many": "\t".join(field(rng, c) for _ in range(rng.randint(2, 4))) + rng.choice(
                    ["\tx", "\t", "\t\t", "\t \t ", "\t\u00a0"])}[bad]
        lines.insert(rng.randint(0, len(lines)), line)
        write(file, "".join(line + "\n" for line in lines))
        c.log("malformed", lines)
        opened = monitors.open_descriptors()
        c.raises((IOError, ParameterError),
                 lambda: params.path_map_from_file(name, **keywords(c, base_)),
                 "a malformed line was accepted")
        c.eq(len(monitors.open_descriptors()), len(opened), "the map file was left open")


@PROP.scenario(quick=2500)
def line_set(c):
    rng = c.rng
    pool = [gen.text(rng, 12, newlines=False).replace("\n", "").replace("\r", "") for _ in range(rng.randint(1, 8))]
    pool += rng.sample([" ", "\t", "  x", "x  ", "#c", "a\x0bb", "\u2028", "\x85", "a\u2028b", "\x1c", "\x0c", "0",
                        "\ufeff", "é", "e\u0301", "A", "a"], 4)
    lines = [rng.choice(pool) for _ in range(size(rng, c))]
    while rng.random() < 0.4:
        lines.insert(rng.randint(0, len(lines)), "")
    content = "".join(line + "\n" for line in lines)
    if lines and rng.random() < 0.3:
        content = content[:-1]
        c.count("no_final_newline")
    if content.startswith("\ufeff"):
        content = "x\n" + content
        lines.insert(0, "x")
    expected = list(dict.fromkeys(line for line in lines if line))
    if len(expected) < len([line for line in lines if line]):
        c.count("duplicate_line")
    if not expected:
        c.count("no_lines")
    if any(not line.strip() for line in expected):
        c.count("white_line")
    if any(o in line for line in expected for o in ODD):
        c.count("odd_separator")
    file = Path(write(str(c.dir / "files" / file_name(rng)), content))
    c.log("content", content)
    actual = file_lines_to_set(file)
    c.same(list(actual), expected, "not the distinct lines in order")
    c.eq(len(actual), len(expected), "wrong number of lines")
    for line in pool:
        c.eq(line in actual, line in expected, "wrong membership", line)
    c.check("" not in actual, "an empty line is included")
    c.count("lines")


@PROP.scenario(quick=300)
def rewritten(c):
    """Files which change between two readings, without that being visible in their size and times."""
    rng = c.rng
    file = str(c.dir / "files" / file_name(rng))
    letters = "abcdefgh"
    params, name = parameters(c, file)
    kind = rng.choice(["list", "map", "lines", "pickle"])
    for _ in range(rng.randint(2, 4)):
        entries = rng.sample(letters, 3)
        if kind == "map":
            content = "".join(f"{e}\t{e}x\n" for e in entries)
        elif kind == "pickle":
            content = pickle.dumps(entries)
        else:
            content = "".join(e + "\n" for e in entries)
        write(file, content)
        os.utime(file, ns=(10 ** 18, 10 ** 18))
        c.log("rewritten", kind, content)
        if kind == "lines":
            c.eq(list(file_lines_to_set(Path(file))), entries, "not the lines which are there now")
        elif kind == "map":
            c.eq(dict(params.path_map_from_file(name)), {e: Path(e + "x") for e in entries}, "not the map which is there now")
        elif kind == "pickle":
            c.eq(params.pickled_object_from_file(name), entries, "not the object which is there now")
        else:
            c.eq([str(p) for p in params.path_list_from_file(name)], entries, "not the list which is there now")
    c.count("rewritten")


class Node:
    """An object with references to others, possibly to itself."""

    def __init__(self, value):
        self.value, self.me = value, self

    def __eq__(self, other):
        return isinstance(other, Node) and self.value == other.value

    __hash__ = None


def an_object(rng, depth=3):
    kind = rng.randint(0, 11 if depth else 6)
    if kind < 3:
        return rng.choice([None, True, False, 0, -1, 10 ** 30, 1.5, "", b"", (), ..., Path("a/b")])
    if kind < 5:
        return gen.text(rng) if kind == 3 else gen.data(rng)
    if kind == 5:
        return list.copy(gen.values(rng, rng.choice(sorted(gen.FAMILIES)), 3))
    if kind == 6:
        return frozenset(gen.text(rng, 4) for _ in range(3))
    if kind == 7:
        return Parameters.from_mapping(paramgen.tree(rng, depth=2))
    if kind == 8:
        return Node(an_object(rng, depth - 1))
    if kind == 9:
        return {gen.text(rng, 4): an_object(rng, depth - 1) for _ in range(rng.randint(0, 3))}
    return (list if kind == 10 else tuple)(an_object(rng, depth - 1) for _ in range(rng.randint(0, 4)))


@PROP.scenario(quick=1500)
def pickled(c):
    rng = c.rng
    obj = an_object(rng)
    file = write(str(c.dir / "files" / file_name(rng)), pickle.dumps(obj, protocol=rng.randint(0, 5)))
    params, name = parameters(c, file)
    c.log("object", obj)
    opened = monitors.open_descriptors()
    for _ in range(2):
        c.same(params.pickled_object_from_file(name), obj, "not the pickled object")
    c.eq(len(monitors.open_descriptors()), len(opened), "the file was left open")
    if isinstance(obj, Node):
        loaded = params.pickled_object_from_file(name)
        c.check(loaded.me is loaded, "a reference within the object changed")
    c.count("pickle")
    if rng.random() < 0.2:
        write(file, pickle.dumps(obj)[:-1])
        c.raises(Exception, lambda: params.pickled_object_from_file(name), "a truncated pickle was accepted")


@PROP.scenario(quick=1500)
def rejected(c):
    rng = c.rng
    accessor = rng.choice(["path_list_from_file", "path_map_from_file", "pickled_object_from_file"])
    kind = rng.choice(["missing_file", "directory", "wrong_kind", "missing_parameter"])
    if kind == "missing_file":
        value = str(c.dir / rng.choice(["nowhere", "no/where", "é"]))
    elif kind == "directory":
        value = str(c.dir)
    elif kind == "wrong_kind":
        value = rng.choice([1, True, 2.5, {"a": "b"}] + ([["a"]] if accessor != "path_list_from_file" else []))
    else:
        value = "x"
    params, name = parameters(c, value)
    if kind == "missing_parameter":
        name += "_missing"
    c.log(accessor, value)
    before = snapshot(c.dir)
    c.raises(ParameterError, lambda: getattr(params, accessor)(name), f"{kind} was accepted")
    c.eq(snapshot(c.dir), before, "the file system was changed")
    c.count(kind)


@PROP.scenario(quick=150)
def failing_file_operations(c):
    """A file which cannot be read completely is an error."""
    rng = c.rng
    kind = rng.choice(["path_list_from_file", "path_map_from_file", "pickled_object_from_file", "lines"])
    entries = list(dict.fromkeys(field(rng, c) for _ in range(rng.choice([0, 1, 5, 3000]))))
    file = Path(c.dir / "file")
    if kind == "path_map_from_file":
        write(str(file), "".join(f"{e}\t{e}x\n" for e in entries))
        want = {e: Path(e + "x") for e in entries}
    elif kind == "pickled_object_from_file":
        want = entries
        write(str(file), pickle.dumps(want))
    else:
        write(str(file), "".join(f"{e}\n" for e in entries))
        want = [Path(e) for e in entries] if kind == "path_list_from_file" else entries
    params = Parameters.from_mapping({"a": str(file)})
    c.log(kind, len(entries))
    c.count("unreadable")

    def run():
        if kind == "lines":
            return list(file_lines_to_set(file))
        return getattr(params, kind)("a")

    monitors.never_silent(c, run, lambda got: c.eq(type(want)(got), want, "what was read without an error"), 5)
