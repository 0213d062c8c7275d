import collections
import io
import tarfile

from vistautils.key_value import (
    KeyValueLinearSource, KeyValueSink, KeyValueSource, byte_key_value_linear_source_from_params,
    byte_key_value_sink_from_params, byte_key_value_source_from_params,
    char_key_value_linear_source_from_params, char_key_value_sink_from_params,
    char_key_value_source_from_params,
)
from vistautils.parameters import ParameterError, Parameters

from vmon import gen, monitors
from vmon.engine import Property
from vmon.fsutil import make_tgz, snapshot, write

PROP = Property(
    "C14",
    scale=7,
    rule="Every kind of source over random mappings, random stacks of interpreting sources around them "
    "(whose functions record their calls), user-defined sources with missing and falsy values, random "
    "tar files with all kinds of members, name filters and key functions, and sources and sinks made "
    "from random parameters; each compared with a dictionary through all access paths.",
    required=["zip text", "zip bytes", "path mapping", "map text", "map bytes", "user-defined",
              "interpreted", "interpreted_twice", "linear_interpreted", "filtered", "absent",
              "default", "not_interpreted_for_absent", "tar", "tar_text", "tar_not_regular",
              "tar_name_filter", "tar_key_function", "tar_key_filter", "tar_skipped_key",
              "params source", "params sink", "params wrong type", "params default type",
              "params eval_context", "params import", "reentered", "outside", "missing_file",
              "tar_large_member", "tar_many_members", "tar_odd_regular", "filter_with_memory",
              "error_in_block", "error_seen_by_wrapped", "forgotten_context",
              "faulty_source", "fault_reported"],
    assumptions=[
        "keys are single lines",
    ],
    files=["vistautils/key_value.py"],
)


def names(rng, n):
    ret = {}
    while len(ret) < n:
        text = gen.text(rng, 8, newlines=False).replace("\t", "").strip()
        if rng.random() < 0.3:
            text = gen.odd_name(rng, slashes=True).replace("\t", "").strip()
        k = text if rng.random() < 0.4 else f"k{rng.randint(0, 999)}"
        if k != "__keys":
            ret[k] = None
    return list(ret)


def texts(rng):
    return {k: gen.text(rng, 80) for k in names(rng, rng.choice([0, 1, 2, 4, 9]))}


def in_bytes(mapping):
    return {k: v if isinstance(v, bytes) else v.encode("utf-8") for k, v in mapping.items()}


class UserSource(KeyValueSource):
    """What users may write themselves; its values may be missing or falsy."""

    def __init__(self, mapping):
        self.mapping = mapping
        self.entered = self.left = 0
        self.left_with = None
        self.swallows = False

    def __getitem__(self, item):
        return self.mapping[item]

    def get(self, key, _default=None):
        return self.mapping.get(key, _default)

    def keys(self):
        return self.mapping.keys()

    def __enter__(self):
        self.entered += 1
        return self

    def __exit__(self, *args):
        self.left += 1
        self.left_with = args
        return self.swallows


class UserLinearSource(KeyValueLinearSource):
    left_with = None
    swallows = False

    def __init__(self, pairs):
        self.pairs = pairs

    def items(self, key_filter=lambda x: True):
        return ((k, v) for k, v in self.pairs if key_filter(k))

    def __exit__(self, *args):
        self.left_with = args
        return self.swallows


def write_files(c, mapping):
    paths = {}
    for i, (k, v) in enumerate(mapping.items()):
        paths[k] = c.dir / f"file{i}"
        if c.rng.random() < 0.2:
            paths[k] = c.dir / f"files{i}" / (gen.odd_name(c.rng).strip().replace("\t", "") or "x")
        write(str(paths[k]), v)
    return paths


def write_map(c, mapping, name="files.map"):
    paths = write_files(c, mapping)
    write(str(c.dir / name), "".join(f"{k}\t{p}\n" for k, p in paths.items()))
    return c.dir / name


def write_zip(c, mapping, name="store.zip"):
    if c.rng.random() < 0.2:
        name = gen.odd_name(c.rng, lines=True)
    with KeyValueSink.zip_bytes_sink(c.dir / name) as out:
        for k, v in mapping.items():
            out[k] = v if isinstance(v, bytes) else v.encode("utf-8")
    return c.dir / name


KINDS = ["zip text", "zip bytes", "path mapping", "map text", "map bytes", "user-defined"]


def make(c, kind):
    """A source and the mapping it stands for."""
    mapping = texts(c.rng)
    if kind == "zip text":
        return KeyValueSource.zip_character_source(write_zip(c, mapping)), mapping
    if kind == "zip bytes":
        return KeyValueSource.zip_bytes_source(write_zip(c, mapping)), in_bytes(mapping)
    if kind == "path mapping":
        return KeyValueSource.from_path_mapping(write_files(c, mapping)), mapping
    if kind == "map text":
        return KeyValueSource.from_doc_id_to_file_map(write_map(c, mapping)), mapping
    if kind == "map bytes":
        return KeyValueSource.binary_from_doc_id_to_file_map(write_map(c, mapping)), in_bytes(mapping)
    mapping = {k: c.rng.choice([None, "", 0, False, [], v]) for k, v in mapping.items()}
    return UserSource(mapping), mapping


def check_source(c, source, want, what, same):
    """*same* compares values."""
    c.eq(len(list(source.keys())), len(want), f"number of keys: {what}")
    c.eq(set(source.keys()), set(want), f"keys: {what}")
    got = list(source.items())
    c.eq(len(got), len(want), f"number of items: {what}", [k for k, _ in got])
    same(dict(got), want, f"items: {what}")
    for p in (0.0, 0.5, 1.0):
        accepted = set(gen.subset(c.rng, list(want), p))
        asked = []

        def accept(k):
            asked.append(k)  # pylint:disable=cell-var-from-loop
            return k in accepted  # pylint:disable=cell-var-from-loop
        got = list(source.items(key_filter=accept) if c.rng.random() < 0.5 else source.items(accept))
        c.count("filtered")
        c.eq(len(got), len(accepted), f"number of filtered items: {what}")
        same(dict(got), {k: want[k] for k in accepted}, f"filtered items: {what}")
        c.check(set(asked) <= set(want), f"the filter is asked about keys: {what}", asked)
    if c.rng.random() < 0.3:
        # a filter with a memory
        c.count("filter_with_memory")
        seen = set()

        def first_time(k):
            new = k not in seen
            seen.add(k)
            return new
        same(dict(source.items(first_time)), want, f"items filtered by one accepting each key once: {what}")
        c.eq(list(source.items(first_time)), [], f"items filtered again: {what}")
    for k, v in want.items():
        same(source[k], v, f"lookup: {what}")
        same(source.get(k), v, f"get: {what}")
        same(source.get(k, "default"), v, f"get with default: {what}")
    for k in ("absent key", "another", "k1000"):
        c.count("absent")
        c.raises(KeyError, lambda: source[k], f"absent key: {what}", k)
        c.check(source.get(k) is None, f"no default: {what}", k)
        default = c.rng.choice([0, "", b"", "x", object(), []])
        c.count("default")
        c.check(source.get(k, default) is default, f"default: {what}", k)


@PROP.scenario(quick=900)
def random_access(c):
    kind = KINDS[c.i % len(KINDS)]
    source, want = make(c, kind)
    c.log("source", kind, want)
    c.count(kind)
    calls = []
    layers = c.rng.choice([0, 1, 1, 2, 3])
    base = source
    for layer in range(layers):
        c.count("interpreted" if layer == 0 else "interpreted_twice")

        mode = c.rng.choice(["pair", "none", "falsy"])

        def interpret(k, v, mode=mode, layer=layer):
            calls.append((layer, k, v))
            if mode == "none" and len(k) % 2:
                return None
            if mode == "falsy" and len(k) % 2:
                return ""
            return (layer, k, v)

        def expected(k, v, mode=mode, layer=layer):
            if mode == "none" and len(k) % 2:
                return None
            if mode == "falsy" and len(k) % 2:
                return ""
            return (layer, k, v)

        source = KeyValueSource.interpret_values(source, interpret)
        want = {k: expected(k, v) for k, v in want.items()}
    for round_ in range(c.rng.choice([1, 2])):
        if round_:
            c.count("reentered")
        with source as entered:
            c.check(entered is source, "entering gives the source")
            if isinstance(base, UserSource):
                c.eq(base.entered, round_ + 1, "times the wrapped source was entered")
            check_source(c, entered, want, f"{kind} with {layers} interpretations", c.same)
            if layers:
                calls.clear()
                for k in ("absent key", "another"):
                    entered.get(k)
                    entered.get(k, 5)
                    c.raises(KeyError, lambda: entered[k], "absent key")
                c.eq(calls, [], "interpretations of absent keys")
                c.count("not_interpreted_for_absent")
                list(entered.items(lambda k: False))
                c.eq(calls, [], "interpretations of keys which were filtered")
                if want:
                    k = c.rng.choice(sorted(want))
                    calls.clear()
                    c.same(entered[k], want[k], "interpreted value")
                    c.eq([x[1] for x in calls if x[0] == 0], [k], "interpretations for one lookup")
        if isinstance(base, UserSource):
            c.eq(base.left, round_ + 1, "times the wrapped source was left")
    if layers and want:
        # errors of interpretations are visible
        def fail(_k, _v):
            raise ZeroDivisionError()
        broken = KeyValueSource.interpret_values(base, fail)
        k = c.rng.choice(sorted(want))
        with broken as entered:
            c.raises(ZeroDivisionError, lambda: entered[k], "failing interpretation")
            c.raises(ZeroDivisionError, lambda: entered.get(k, 1), "failing interpretation")
            c.raises(ZeroDivisionError, lambda: list(entered.items()), "failing interpretation")


class Boom(Exception):
    pass


@PROP.scenario(quick=150)
def errors_in_blocks(c):
    """An error in the caller's block is seen by the caller, and by the wrapped source."""
    kind = c.rng.choice(KINDS + ["tar", "tar text", "user-defined", "user-defined linear"])
    linear_kind = kind in ("tar", "tar text", "user-defined linear")
    if kind in ("tar", "tar text"):
        make_tgz(c.dir / "x.tgz", [("a", b"1"), ("b", b"2")])
        source = (KeyValueLinearSource.byte_linear_source_from_tar_gz if kind == "tar" else
                  KeyValueLinearSource.str_linear_source_from_tar_gz)(c.dir / "x.tgz")
    elif kind == "user-defined linear":
        source = UserLinearSource([("a", 1)])
    else:
        source, _ = make(c, kind)
    base = source
    layers = c.rng.choice([0, 1, 2])
    for _ in range(layers):
        source = (KeyValueLinearSource if linear_kind or c.rng.random() < 0.3 else KeyValueSource
                  ).interpret_values(source, lambda k, v: (k, v))
        linear_kind |= not isinstance(source, KeyValueSource)
    c.log("errors", kind, layers)
    c.count("error_in_block")
    error = c.rng.choice([Boom, KeyError, OSError, ValueError, StopIteration, GeneratorExit])("boom")

    def use():
        with source as entered:
            if c.rng.random() < 0.5:
                list(entered.items())
            raise error
    try:
        use()
        c.fail("the error in the block was hidden", kind, layers)
    except (Boom, KeyError, OSError, ValueError, StopIteration, GeneratorExit) as e:
        c.check(e is error, "the error of the block", e)
    if isinstance(base, (UserSource, UserLinearSource)):
        c.count("error_seen_by_wrapped")
        c.check(base.left_with[0] is type(error) and base.left_with[1] is error
                and base.left_with[2] is not None, "the error the wrapped source sees", base.left_with)
        base.swallows = True
        try:
            use()
        except BaseException as e:  # pylint:disable=broad-except
            c.fail("the wrapped source wants this error to be ignored", kind, layers, e)
        base.swallows = False
    with source as entered:
        list(entered.items())
    if isinstance(base, (UserSource, UserLinearSource)):
        c.eq(base.left_with, (None, None, None), "no error")


@PROP.scenario(quick=100)
def missing_files(c):
    """Keys which are listed, but whose file is gone: an error, never an absence."""
    mapping = texts(c.rng) or {"k": "v"}
    kind = c.rng.choice(["path mapping", "map text", "map bytes"])
    paths = write_files(c, mapping)
    if kind == "path mapping":
        source, want = KeyValueSource.from_path_mapping(paths), mapping
    else:
        write(str(c.dir / "files.map"), "".join(f"{k}\t{p}\n" for k, p in paths.items()))
        source = (KeyValueSource.from_doc_id_to_file_map if kind == "map text" else
                  KeyValueSource.binary_from_doc_id_to_file_map)(c.dir / "files.map")
        want = mapping if kind == "map text" else in_bytes(mapping)
    gone = set(gen.subset(c.rng, sorted(want)) or list(want)[:1])
    for k in gone:
        paths[k].unlink()
        if c.rng.random() < 0.3:
            paths[k].mkdir()
    c.log("missing", kind, sorted(gone))
    c.count("missing_file")
    if c.rng.random() < 0.5:
        source = KeyValueSource.interpret_values(source, lambda k, v: v)
    with source as entered:
        c.eq(set(entered.keys()), set(want), "keys")
        for k in want:
            if k in gone:
                c.raises(OSError, lambda: entered[k], "value of a missing file", k)
                c.raises(OSError, lambda: entered.get(k), "value of a missing file", k)
                c.raises(OSError, lambda: entered.get(k, "a default"), "value of a missing file", k)
            else:
                c.same(entered[k], want[k], "value")
                c.same(entered.get(k, "a default"), want[k], "value")
        c.same(dict(entered.items(lambda k: k not in gone)),
               {k: v for k, v in want.items() if k not in gone}, "items of the other files")
        c.raises(OSError, lambda: list(entered.items()), "items, one of which is missing")


@PROP.scenario(quick=12, thorough=150)
def big_tars(c):
    """Large members, many members."""
    if c.i % 2:
        content = {f"m{i}": gen.big_data(c.rng) for i in range(c.rng.randint(1, 3))}
        content["last"] = b"last"
        c.count("tar_large_member")
    else:
        n = c.rng.choice([200, 1500])
        content = {f"d{i % 5}/m{i}": b"%d" % i * c.rng.choice([0, 1, 200]) for i in range(n)}
        c.count("tar_many_members")
    path = c.dir / "x.tgz"
    make_tgz(path, content.items())
    c.log("tar", [(k, len(v)) for k, v in content.items()][:10])
    with KeyValueLinearSource.byte_linear_source_from_tar_gz(path) as source:
        got = list(source.items())
        c.eq(sorted(k for k, _ in got), sorted(content), "keys")
        c.same(dict(got), content, "items of a big tar")
        accept = gen.predicate(c.rng)
        c.same(dict(source.items(accept)), {k: v for k, v in content.items() if accept(k)}, "filtered")
    texts_ = {k: gen.big_text(c.rng, 70_000) if i < 2 else f"{i}\u00e9" for i, k in enumerate(content)}
    make_tgz(path, [(k, v.encode("utf-8")) for k, v in texts_.items()])
    with KeyValueLinearSource.str_linear_source_from_tar_gz(path) as source:
        c.same(dict(source.items()), texts_, "texts of a big tar")


@PROP.scenario(quick=300)
def linear(c):
    """Sources which can be iterated only, including random access ones seen as such."""
    kind = c.rng.choice(KINDS + ["pairs"] * 3)
    if kind == "pairs":
        pairs = list(texts(c.rng).items())
        pairs += [c.rng.choice(pairs) for _ in range(c.rng.randint(0, 2)) if pairs]
        source = UserLinearSource(pairs)
    else:
        source, mapping = make(c, kind)
        pairs = None
    c.log("linear", kind, pairs)
    c.count("linear_interpreted")
    calls = []

    def interpret(k, v):
        calls.append(k)
        return [k, v]

    wrapped = KeyValueLinearSource.interpret_values(source, interpret)
    with wrapped as entered:
        for _ in range(2):
            for p in (1.0, 0.5, 0.0):
                calls.clear()
                if pairs is None:
                    accepted = set(gen.subset(c.rng, list(mapping), p))
                    want = {k: [k, mapping[k]] for k in accepted}
                    got = list(entered.items(lambda k: k in accepted))
                    c.eq(len(got), len(want), "number of pairs")
                    c.same(dict(got), want, "pairs")
                else:
                    accepted = set(gen.subset(c.rng, [k for k, _ in pairs], p))
                    want = [(k, [k, v]) for k, v in pairs if k in accepted]
                    c.same(list(entered.items(lambda k: k in accepted)), want, "pairs in order")
                c.check(set(calls) <= accepted, "interpretations of filtered keys", calls)
        iterator = entered.items()
        calls.clear()
        first = next(iterator, None)
        c.check(len(calls) <= 1, "interprets no more than asked for", calls)
        c.check((first is None) == (not (pairs if pairs is not None else mapping)), "first pair")


def member(rng, name):
    """(TarInfo, content, regular)"""
    info = tarfile.TarInfo(name)
    info.mtime = 1_600_000_000
    kind = rng.choice(["file"] * 6 + ["odd", "dir", "link", "hardlink", "fifo", "device"])
    if kind == "file":
        return info, gen.text(rng, 60).encode("utf-8") * rng.choice([1, 1, 1, 500]), True
    if kind == "odd":
        # files of the oldest format and contiguous ones are regular, too
        info.type = rng.choice([tarfile.AREGTYPE, tarfile.CONTTYPE])
        return info, gen.text(rng, 60).encode("utf-8"), True
    info.type = {"dir": tarfile.DIRTYPE, "link": tarfile.SYMTYPE, "hardlink": tarfile.LNKTYPE,
                 "fifo": tarfile.FIFOTYPE, "device": tarfile.CHRTYPE}[kind]
    if kind in ("link", "hardlink"):
        info.linkname = "d/0"
    return info, None, False


@PROP.scenario(quick=400)
def tars(c):
    path = c.dir / c.rng.choice(["x.tgz", "x.tar.gz", "x", gen.odd_name(c.rng, lines=True)])
    members = []
    for i in range(c.rng.choice([0, 1, 3, 8, 15])):
        kind = c.rng.randint(0, 5)
        name = (f"d/{i}" if kind < 2 else f"{i}.txt" if kind == 2 else "d/e/" + "n" * 120 + str(i)
                if kind == 3 else f"é{i} %s" if kind == 4 else "d/again")
        if c.rng.random() < 0.3:
            c.count("tar_odd_name")
            name = c.rng.choice([f".{i}", f"./{i}", f"../{i}", f"/abs/{i}", f"a//{i}", f"a/../{i}",
                                 f" {i} ", f"a\\{i}", f"{i}.", f"~/{i}", f"__keys", f"A{i}", f"a/./{i}",
                                 f"{i}\t", f"{i}:x", "\u212b", "A\u030a", "\u00c5"])
        elif c.rng.random() < 0.3:
            c.count("tar_odd_name")
            name = gen.odd_name(c.rng, lines=True, slashes=True)
        members.append(member(c.rng, name))
    with tarfile.open(path, c.rng.choice(["w:gz", "w:gz", "w", "w:bz2"]),
                      format=c.rng.choice([tarfile.PAX_FORMAT, tarfile.GNU_FORMAT])) as out:
        for info, content, _ in members:
            if content is None:
                out.addfile(info)
            else:
                info.size = len(content)
                out.addfile(info, io.BytesIO(content))
    c.count("tar")
    c.log("tar", [m[0].name for m in members])
    c.count("tar_odd_regular", sum(m[0].type in (tarfile.AREGTYPE, tarfile.CONTTYPE) for m in members))
    c.count("tar_not_regular", sum(not m[2] for m in members))
    regular = [(m[0].name, m[1]) for m in members if m[2]]
    arguments = {}
    accepted = lambda name: True
    if c.rng.random() < 0.5:
        accepted = gen.predicate(c.rng, 0.6)
        asked = []

        def name_filter(name):
            asked.append(name)
            return accepted(name)
        arguments["name_filter"] = name_filter
        c.count("tar_name_filter")
    key_of = lambda name: name
    if c.rng.random() < 0.5:
        c.count("tar_key_function")
        prefix = c.rng.choice(["", "p/"])

        def key_of(name):
            if name.endswith("3"):
                return None
            if name.endswith(("1", "7")):
                return ""
            return prefix + name.upper()
        arguments["key_function"] = key_of
    want = [(key_of(n), v) for n, v in regular if accepted(n) and key_of(n) is not None]
    if len(want) < len([n for n, _ in regular if accepted(n)]):
        c.count("tar_skipped_key")
    is_text = c.rng.random() < 0.5
    if is_text:
        c.count("tar_text")
        source = KeyValueLinearSource.str_linear_source_from_tar_gz(path, **arguments)
        want = [(k, v.decode("utf-8")) for k, v in want]
    else:
        source = KeyValueLinearSource.byte_linear_source_from_tar_gz(path, **arguments)
    c.count("outside")
    c.raises(Exception, lambda: list(source.items()), "use before entering")

    def compare(got, expected, message):
        c.check(all(type(v) is (str if is_text else bytes) for _, v in got), "type of values")
        c.eq(collections.Counter(got), collections.Counter(expected), message)

    for _ in range(c.rng.choice([1, 2])):
        with source as entered:
            compare(list(entered.items()), want, "items of tar source")
            wanted = gen.predicate(c.rng)
            c.count("tar_key_filter")
            compare(list(entered.items(wanted)), [(k, v) for k, v in want if wanted(k)], "filtered items")
            # two iterations at once
            a, b, got_a, got_b = entered.items(), entered.items(), [], []
            todo = [(a, got_a), (b, got_b)]
            while todo:
                j = c.rng.randrange(len(todo))
                try:
                    todo[j][1].append(next(todo[j][0]))
                except StopIteration:
                    del todo[j]
            compare(got_a, want, "first of two iterations")
            compare(got_b, want, "second of two iterations")
    if "name_filter" in arguments:
        c.check(set(asked) <= {m[0].name for m in members}, "filter is asked about names", asked)
    # interpretation on top
    wrapped = KeyValueLinearSource.interpret_values(source, lambda k, v: (k, len(v)))
    with wrapped as entered:
        c.eq(collections.Counter(entered.items()), collections.Counter((k, (k, len(v))) for k, v in want),
             "interpreted tar")
        wanted = gen.predicate(c.rng)
        c.eq(collections.Counter(entered.items(key_filter=wanted)),
             collections.Counter((k, (k, len(v))) for k, v in want if wanted(k)), "interpreted tar, filtered")


@PROP.scenario(quick=40)
def tars_of_other_encodings(c):
    path = c.dir / "x.tgz"
    content = [("a", b"text"), ("b", b"\xff\xfe\xfd"), ("c", b"more")]
    make_tgz(path, content)
    c.log("tar")
    with KeyValueLinearSource.byte_linear_source_from_tar_gz(path) as source:
        c.eq(sorted(source.items()), content, "items")
    with KeyValueLinearSource.str_linear_source_from_tar_gz(path) as source:
        c.raises(UnicodeDecodeError, lambda: list(source.items()), "not UTF-8")
        c.eq(list(source.items(lambda k: k == "c")), [("c", "more")], "filtered items")


# ------------------------------------------------------------------ from parameters

class Factory:
    """Given in contexts, by name."""

    made_with = []

    @staticmethod
    def from_parameters(params):
        Factory.made_with.append(params)
        return UserSource({"from": "class"})


def make_user_source(params):
    Factory.made_with.append(params)
    return UserSource({"from": "function"})


def make_user_linear_source(params):
    Factory.made_with.append(params)
    return UserLinearSource([("from", "function")])


def make_nonsense(_params):
    return "neither source nor sink"


class UserSink(KeyValueSink):
    def __init__(self):
        self.got = {}

    def put(self, key, value):
        self.got[key] = value

    def __enter__(self):
        return self

    def __exit__(self, *_args):
        pass


def make_user_sink(params):
    Factory.made_with.append(params)
    return UserSink()


FACTORIES = {
    (True, True): char_key_value_source_from_params,
    (True, False): char_key_value_linear_source_from_params,
    (False, True): byte_key_value_source_from_params,
    (False, False): byte_key_value_linear_source_from_params,
}


@PROP.scenario(quick=500)
def sources_from_parameters(c):
    is_text, random_access_ = c.rng.random() < 0.5, c.rng.random() < 0.5
    factory = FACTORIES[is_text, random_access_]
    mapping = texts(c.rng)
    kind = c.rng.choice(["zip", "file-map", "default", "context", "context class", "import", "overridden",
                         "wrong", "unknown", "missing file", "linear"])
    namespace = c.rng.choice(["input", "in", "my_input"])
    arguments = {} if namespace == "input" and c.rng.random() < 0.7 else {"input_namespace": namespace}
    content = {}
    Factory.made_with = []
    context = None
    if not is_text and c.rng.random() < 0.6:
        # bytes need not be the encoding of any text
        mapping = {k: gen.data(c.rng) for k in mapping}
        c.count("params raw bytes")
    want = mapping if is_text else in_bytes(mapping)
    if kind in ("zip", "file-map", "default"):
        content["path"] = str((write_zip if kind == "zip" else write_map)(c, mapping))
        if kind != "default":
            content["type"] = kind
        else:
            c.count("params default type")
        if c.rng.random() < 0.5:
            context = {"zip": make_nonsense, "unrelated": 1}
    elif kind == "context":
        c.count("params eval_context")
        content["type"] = "mine"
        context = {"mine": make_user_source}
        want = {"from": "function"}
    elif kind == "context class":
        c.count("params eval_context")
        content["type"] = "Mine"
        context = {"Mine": Factory}
        want = {"from": "class"}
    elif kind == "overridden":
        c.count("params eval_context")
        content["type"] = "KeyValueSource"
        context = {"KeyValueSource": make_user_source}
        want = {"from": "function"}
    elif kind == "import":
        c.count("params import")
        content["type"] = "vmon.props.c14.make_user_source"
        content["import"] = ["vmon.props.c14"]
        want = {"from": "function"}
    elif kind == "wrong":
        content["type"] = "make_nonsense"
        context = {"make_nonsense": make_nonsense}
    elif kind == "linear":
        content["type"] = "lin"
        context = {"lin": make_user_linear_source}
        want = {"from": "function"}
    elif kind == "unknown":
        content["type"] = c.rng.choice(["no_such_thing", "no.such.module.thing", "1 +", "zipp"])
    else:
        content["path"] = str(c.dir / "missing")
        if c.rng.random() < 0.7:
            content["type"] = c.rng.choice(["zip", "file-map"])
    content["more"] = c.i
    params = Parameters.from_mapping({namespace: content, "other": {"path": "nonsense", "type": "zip"}})
    before = dict(context) if context is not None else None
    if context is not None:
        arguments["eval_context"] = context
    c.log("params", is_text, random_access_, kind, content.get("type"))
    c.count("params source")
    tree = snapshot(c.dir)
    failing = kind in ("wrong", "unknown", "missing file") or (kind == "linear" and random_access_)
    if failing:
        c.count("params wrong type")
        c.raises(ParameterError, lambda: factory(params, **arguments), "impossible source", kind,
                 content)
    else:
        source = factory(params, **arguments)
        c.check(isinstance(source, KeyValueSource if kind != "linear" else KeyValueLinearSource),
                "kind of source", source)
        with source as entered:
            if kind == "linear":
                c.eq(list(entered.items()), [("from", "function")], "items")
            else:
                check_source(c, entered, want, f"from parameters: {kind}", c.same)
        if Factory.made_with:
            c.eq(len(Factory.made_with), 1, "factory calls")
            given = Factory.made_with[0]
            c.eq(given.as_nested_dicts(), content, "parameters given to the factory")
            c.eq(given.namespace_prefix, (namespace,), "namespace prefix given to the factory")
    if kind in ("context", "context class"):
        # what was known in one call is not known in another
        c.raises(ParameterError, lambda: factory(params, input_namespace=namespace),
                 "a context which was given to an earlier call only", kind)
        c.count("forgotten_context")
    if context is not None:
        c.eq(set(context) - {"__builtins__"}, set(before), "context of the caller")
        c.check(all(context[k] is before[k] for k in before), "context of the caller")
    c.same(snapshot(c.dir), tree, "files")


@PROP.scenario(quick=400)
def sinks_from_parameters(c):
    is_text = c.rng.random() < 0.5
    factory = char_key_value_sink_from_params if is_text else byte_key_value_sink_from_params
    kind = c.rng.choice(["zip", "file-map", "directory", "default", "context", "import", "wrong",
                         "unknown", "missing"])
    namespace = c.rng.choice(["output", "out"])
    arguments = {} if namespace == "output" and c.rng.random() < 0.7 else {"output_namespace": namespace}
    content = {}
    Factory.made_with = []
    path = c.dir / "target"
    if kind == "zip":
        content = {"type": "zip", "path": str(path)}
        if c.rng.random() < 0.5:
            content["path"] = str(c.dir / "new" / "dir" / "target")
    elif kind in ("file-map", "directory", "default"):
        path.mkdir()
        content["path"] = str(path)
        if kind != "default":
            content["type"] = kind
        else:
            c.count("params default type")
    elif kind == "context":
        c.count("params eval_context")
        content["type"] = "mine"
        arguments["eval_context"] = {"mine": make_user_sink}
    elif kind == "import":
        c.count("params import")
        content["type"] = "vmon.props.c14.make_user_sink"
        content["import"] = ["vmon.props.c14"]
    elif kind == "wrong":
        content["type"] = "mine"
        arguments["eval_context"] = {"mine": c.rng.choice([make_nonsense, make_user_source])}
    elif kind == "unknown":
        content["type"] = "no_such_thing"
    else:
        content["path"] = str(c.dir / "missing directory")
    content["x"] = 1
    params = Parameters.from_mapping({namespace: content})
    c.count("params sink")
    c.log("sink", is_text, kind, arguments)
    if kind in ("wrong", "unknown", "missing"):
        c.count("params wrong type")
        c.raises(ParameterError, lambda: factory(params, **arguments), "impossible sink", kind)
        c.eq(snapshot(c.dir), {}, "files")
        return
    sink = factory(params, **arguments)
    c.check(isinstance(sink, KeyValueSink), "kind of sink", sink)
    want = texts(c.rng)
    if not is_text:
        want = in_bytes(want) if c.rng.random() < 0.4 else {k: gen.data(c.rng) for k in want}
    want = {k.replace("/", ""): v for k, v in want.items() if k and k.strip("/. ") == k}
    with sink as out:
        for k, v in want.items():
            out.put(k, v)
    if kind in ("context", "import"):
        c.same(sink.got, want, "values put into a user's sink")
        c.eq(len(Factory.made_with), 1, "factory calls")
        c.eq(Factory.made_with[0].as_nested_dicts(), content, "parameters given to the factory")
        if kind == "context":
            c.raises(ParameterError, lambda: factory(params, output_namespace=namespace),
                     "a context which was given to an earlier call only")
        return
    if kind == "zip":
        source = (KeyValueSource.zip_character_source if is_text else KeyValueSource.zip_bytes_source)(
            type(path)(content["path"]))
    else:
        source = (KeyValueSource.from_doc_id_to_file_map if is_text else
                  KeyValueSource.binary_from_doc_id_to_file_map)(path / "_index")
    with source as entered:
        c.same(dict(entered.items()), want, "values put")
    # and the value type is the requested one
    if kind != "zip":
        other = c.dir / "other"
        other.mkdir()
        sink = factory(Parameters.from_mapping({namespace: dict(content, path=str(other))}), **arguments)
        with sink as out:
            c.raises(Exception, lambda: out.put("k", b"bytes" if is_text else "text"),
                     "put of the other type")


@PROP.scenario(quick=150)
def failing_file_operations(c):
    """Errors of the operating system are reported, or what is found is right all the same."""
    kind = c.rng.choice(KINDS[:-1] + ["tar", "tar"])
    if kind == "tar":
        want = {f"d/{i}": v * 50 for i, v in enumerate(in_bytes(texts(c.rng)).values())}
        make_tgz(c.dir / "x.tgz", want.items())

        def run():
            with KeyValueLinearSource.byte_linear_source_from_tar_gz(c.dir / "x.tgz") as source:
                return list(source.items())
        expected = list(want.items())
    else:
        source, want = make(c, kind)
        with source:
            expected = dict(source.items())
        c.same(expected, want, "items")
        if c.rng.random() < 0.3:
            source = KeyValueSource.interpret_values(source, lambda _k, v: v)

        def run():
            with source:
                way = c.rng.choice(["items", "lookup", "default"])
                if way == "items":
                    return dict(source.items())
                c.eq(set(source.keys()), set(want), "keys read without an error")
                return {k: source[k] if way == "lookup" else source.get(k, None) for k in want}
    c.log("source", kind, want)
    c.count("faulty_source")
    monitors.never_silent(c, run, lambda got: c.same(got, expected, "what was read without an error"), 6)
