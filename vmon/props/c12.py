import hashlib
import json
import warnings
from zipfile import ZipFile

from immutablecollections import immutableset
from vistautils.key_value import KeyValueSink, KeyValueSource

from vmon import gen, monitors
from vmon.engine import Property
from vmon.fsutil import make_zip, read

PROP = Property(
    "C12",
    scale=4,
    rule="Random histories of sink sessions (overwriting, appending, re-using the sink object, ending by "
    "an error of the caller, with duplicate, missing and ill-typed puts, with failing file name "
    "functions, text and bytes, custom file names and key lists) on one zip file, run against a "
    "dictionary as the model; after every session the file is examined through fresh and re-used "
    "sources of both value types and as a raw archive.",
    required=["unlistable", "unencodable", "odd_key", "duplicate_of_other_name", "listed_without_file", "overwrite", "append", "reuse", "put", "duplicate_in_session", "duplicate_across_sessions",
              "missing_value", "ill_typed_value", "missing_key", "failing_name", "caller_fails",
              "reserved_name", "outside", "no_key_list", "custom_key_list", "custom_names", "empty_store", "default",
              "absent", "filtered", "failing_key_list", "big_value", "many_keys", "long_keys", "derived_type",
              "free_name", "incomplete_key_list", "callers_keys",
              "faulty_session", "faulty_source", "fault_reported"],
    assumptions=[
        "file name functions are injective",
        "values of binary sources which are read as text are UTF-8",
    ],
    files=["vistautils/key_value.py"],
)

NAMES = {
    "default": None,
    "identity": lambda k: k,
    "folder": lambda k: "some/folder/" + k,
    "suffix": lambda k: k + ".txt",
    "hash": lambda k: hashlib.sha1(k.encode("utf-8", "surrogatepass")).hexdigest(),
    "nested": lambda k: "/".join(f"{b:02x}" for b in k.encode("utf-8")) + "/f",
    "reversed": lambda k: "x" + k[::-1],
}


def json_keys_out(zip_file, keys):
    zip_file.writestr("meta/keys.json", json.dumps(sorted(keys)).encode("utf-8"))


def json_keys_in(zip_file):
    try:
        return set(json.loads(zip_file.read("meta/keys.json").decode("utf-8")))
    except KeyError:
        return None


LISTS = {
    "default": (None, None, "__keys"),
    "json": (json_keys_in, json_keys_out, "meta/keys.json"),
    "none": (lambda _zip: None, lambda _zip, _keys: None, None),
}


def key(rng):
    kind = rng.randint(0, 9)
    if kind == 0:
        return rng.choice(["a", "b", "A", " ", " a", "a ", "0", "None", "__key", "keys", "a/b", "a/",
                           "../a", "/a", ".", "a\\b", "", "\r", "\x85", "%s", "\t", "a.txt", "b.txt.txt", "_keys", "__keys2"])
    if kind == 1:
        return "".join(rng.choice("ab/.") for _ in range(rng.randint(1, 5)))
    if kind == 2:
        return "k" * rng.randint(50, 200)
    if kind in (3, 4):
        return gen.odd_name(rng, slashes=True)
    text = gen.text(rng, 12, newlines=False)
    return text if text != "__keys" else f"key {rng.randint(0, 99)}"


def value(rng, kind, big):
    if big and rng.random() < 0.1:
        return gen.big_text(rng) if kind == "text" else gen.big_data(rng)
    if rng.random() < 0.1:
        return gen.TextOfUser(gen.text(rng, 60)) if kind == "text" else gen.BytesOfUser(gen.data(rng))
    if kind == "text":
        ret = gen.text(rng, 60, extra="\r")
        return ret * rng.choice([1, 1, 2000]) if big else ret
    ret = gen.data(rng)
    return ret * rng.choice([1, 1, 2000]) if big else ret


def as_bytes(x):
    return x.encode("utf-8") if isinstance(x, str) else bytes(x)


class Boom(Exception):
    pass


class FickleName:
    """A file name function which fails now and then."""

    def __init__(self, function):
        self.function = function or (lambda k: k)
        self.fail = False
        self.reserved = False

    def __call__(self, k):
        if self.reserved:
            return "__keys"
        if self.fail:
            raise Boom()
        return self.function(k)


def sink_arguments(name, key_list):
    ret = {}
    if name is not None:
        ret["filename_function"] = name
    keys_in, keys_out, _ = LISTS[key_list]
    if keys_in:
        ret["keys_in_function"], ret["keys_out_function"] = keys_in, keys_out
    return ret


def source_arguments(name, key_list):
    ret = {}
    if name is not None:
        ret["filename_function"] = name
    if LISTS[key_list][0]:
        ret["keys_function"] = LISTS[key_list][0]
    return ret


def examine(c, source, expected, kind, absent, listed=True):
    """*expected*: key to bytes, of a source which is in use."""
    want = {k: (v.decode("utf-8") if kind == "text" else v) for k, v in expected.items()}
    if listed:
        keys = source.keys()
        c.check(keys is not None, "keys are known")
        c.eq(len(list(keys)), len(want), "number of keys", list(keys), list(want))
        c.eq(set(keys), set(want), "keys")
        got = list(source.items())
        c.eq(len(got), len(want), "number of items", want)
        c.same(dict(got), want, "items")
        some = set(gen.subset(c.rng, list(want)))
        got = list(source.items(lambda k: k in some))
        c.count("filtered")
        c.eq(len(got), len(some), "number of filtered items")
        c.same(dict(got), {k: want[k] for k in some}, "filtered items")
        if not want:
            c.count("empty_store")
    else:
        c.check(source.keys() is None, "keys are not known", source.keys())
    for k in gen.shuffled(c.rng, want)[:12]:
        c.same(source[k], want[k], "value", k)
        c.same(source.get(k), want[k], "value by get", k)
        c.same(source.get(k, "a default"), want[k], "value by get with default", k)
    for k in absent:
        c.count("absent")
        c.raises(KeyError, lambda: source[k], "absent key", k)
        c.check(source.get(k) is None, "no default", k)
        default = c.rng.choice(["a default", b"", "", 0, object()])
        c.count("default")
        c.check(source.get(k, default) is default, "default", k)
    c.raises(Exception, lambda: source[None], "missing key")


@PROP.scenario(quick=3000)
def histories(c):
    warnings.simplefilter("ignore")  # the key list is written anew by every session
    name_kind = c.rng.choice(sorted(NAMES))
    list_kind = c.rng.choice(["default", "default", "json", "none"])
    name = NAMES[name_kind]
    effective_name = name or (lambda k: k)
    c.log("store", name_kind, list_kind)
    if name_kind != "default":
        c.count("custom_names")
    if list_kind == "json":
        c.count("custom_key_list")
    path = c.dir / c.rng.choice(["s.zip", "store", "a b%s.zip", gen.odd_name(c.rng, lines=True)])
    pool = list({key(c.rng): None for _ in range(c.rng.randint(1, 12))})
    if list_kind == "json":
        pool = [k for k in pool if effective_name(k) != "meta/keys.json"]
    if list_kind == "default":
        pool = [k for k in pool if effective_name(k) != "__keys"] or ["k"]
    elif c.rng.random() < 0.3:
        # a name like any other if the keys are listed elsewhere
        c.count("free_name")
        pool.append("__keys")
    reserved = {LISTS[list_kind][2]} - {None}
    store = {}
    old_sinks = []
    reused = {kind: getattr(KeyValueSource, method)(path, **source_arguments(name, list_kind))
              for kind, method in (("text", "zip_character_source"), ("bytes", "zip_bytes_source"))}
    exists = False
    for _ in range(c.rng.randint(1, 6)):
        if old_sinks and c.rng.random() < 0.35:
            sink, kind, overwrite, fickle = c.rng.choice(old_sinks)
            c.count("reuse")
        else:
            kind = c.rng.choice(["text", "bytes"])
            overwrite = c.rng.random() < 0.35
            method = KeyValueSink.zip_character_sink if kind == "text" else KeyValueSink.zip_bytes_sink
            fickle = FickleName(name) if name is not None or c.rng.random() < 0.5 else None
            arguments = sink_arguments(fickle, list_kind)
            if not overwrite or c.rng.random() < 0.5:
                arguments["overwrite"] = overwrite
            else:
                overwrite = True
            sink = method(path, **arguments)
            old_sinks.append((sink, kind, overwrite, fickle))
            if c.rng.random() < 0.3:
                c.count("outside")
                before = read(path) if exists else None
                c.raises(Exception, lambda: sink.put("early", value(c.rng, kind, False)),
                         "put before entering")
                c.eq(read(path) if path.exists() else None, before, "zip file after rejected put")
        c.log("session", kind, overwrite)
        c.count("overwrite" if overwrite else "append")
        if overwrite:
            store.clear()
        exists = True
        here = set()
        caller_fails = c.rng.random() < 0.2
        try:
            with sink as entered:
                c.check(entered is sink, "entering gives the sink")
                for _ in range(c.rng.choice([0, 1, 2, 5, 10])):
                    one_put(c, sink, kind, store, here, pool, list_kind, fickle)
                if caller_fails:
                    c.count("caller_fails")
                    raise Boom()
            c.check(not caller_fails, "errors of the caller are not hidden")
        except Boom:
            c.check(caller_fails, "a failure nobody caused")
        if c.rng.random() < 0.3:
            c.count("outside")
            c.raises(Exception, lambda: sink.put("late", value(c.rng, kind, False)),
                     "put after leaving")
        # --- what did it leave?
        content = {k: as_bytes(v) for k, v in store.items()}
        absent = [k for k in pool if k not in content][:3] + ["no such key", "early", "late"]
        is_text = True
        try:
            for v in content.values():
                v.decode("utf-8")
        except UnicodeDecodeError:
            is_text = False
        for read_kind in ["bytes"] + (["text"] if is_text else []):
            if c.rng.random() < 0.4:
                source = reused[read_kind]
            elif read_kind == "text":
                source = KeyValueSource.zip_character_source(path, **source_arguments(name, list_kind))
            else:
                source = KeyValueSource.zip_bytes_source(path, **source_arguments(name, list_kind))
            if c.rng.random() < 0.2:
                c.count("outside")
                for use in (source.keys, lambda: source["k"], lambda: source.get("k"),
                            lambda: list(source.items())):
                    c.raises(Exception, use, "use of a source before entering")
            with source as entered:
                c.check(entered is source, "entering gives the source")
                examine(c, entered, content, read_kind, absent, listed=list_kind != "none")
            if c.rng.random() < 0.2:
                c.count("outside")
                for use in (source.keys, lambda: source["k"], lambda: source.get("k"),
                            lambda: list(source.items())):
                    c.raises(Exception, use, "use of a source after leaving")
        with ZipFile(path) as archive:
            c.check(archive.testzip() is None, "archive is intact")
            names = set(archive.namelist())
            c.eq(names, {effective_name(k) for k in content} | reserved, "entries of the archive")
            data = [n for n in archive.namelist() if n not in reserved]
            c.eq(len(data), len(content), "number of entries of the archive")
    c.count(f"sessions_ending_with_{min(len(store), 10)}_keys")


def one_put(c, sink, kind, store, here, pool, list_kind, fickle):
    what = c.rng.choice(["put"] * 5 + ["reserved_name", "setitem", "duplicate", "unlistable", "missing_value", "ill_typed_value",
                                       "missing_key", "failing_name"])
    k = c.rng.choice(pool)
    v = value(c.rng, kind, c.rng.random() < 0.1)
    if what == "duplicate" and store:
        k = c.rng.choice(sorted(store))
        what = "put"
    if list_kind == "none" and k in store and k not in here:
        return  # cannot be known to be a duplicate
    if what in ("put", "setitem", "duplicate"):
        def do():
            if what == "setitem":
                sink[k] = v
            else:
                sink.put(k, v)
        if k in store:
            c.count("duplicate_in_session" if k in here else "duplicate_across_sessions")
            c.log("duplicate", k)
            c.raises((ValueError, RuntimeError), do, "duplicate put", k)
        else:
            c.log(what, k, v)
            c.count("put")
            if len(v) >= 65_535:
                c.count("big_value")
            if type(v) in (gen.TextOfUser, gen.BytesOfUser):
                c.count("derived_type")
            do()
            store[k] = as_bytes(v)
            here.add(k)
        return
    c.log(what, k)
    if what == "reserved_name":
        # it would be replaced by the key list on leaving
        if fickle is not None and list_kind == "default" and k not in store:
            c.count(what)
            fickle.reserved = True
            try:
                c.raises(ValueError, lambda: sink.put(k, v), "put whose file is the key list", k)
            finally:
                fickle.reserved = False
        elif fickle is None and list_kind == "default":
            c.count(what)
            c.raises(ValueError, lambda: sink.put("__keys", v), "put of the name of the key list")
    elif what == "unlistable":
        # the list of keys or the archive could not hold it as it is
        i = c.rng.randint(0, len(k))
        odd = k[:i] + c.rng.choice("\n\0\ud800\udc80") + k[i:]
        try:
            filename = odd if fickle is None else fickle.function(odd)
            filename.encode("utf-8")
        except UnicodeEncodeError:
            filename = "\0"  # neither can be in an archive
        if "\0" not in filename and (not any(x in odd for x in "\n\ud800\udc80") or list_kind != "default"):
            if odd not in store and list_kind != "none":
                c.count("odd_key")
                sink.put(odd, v)
                store[odd] = as_bytes(v)
                here.add(odd)
            return
        c.count(what)
        c.count("unencodable", any(x in odd for x in "\ud800\udc80") and filename != "\0")
        c.raises(ValueError, lambda: sink.put(odd, v), "put of a key which the store would alter", odd)
    elif what == "missing_value":
        c.count(what)
        c.raises(Exception, lambda: sink.put(k, None), "put of a missing value", k)
    elif what == "missing_key":
        c.count(what)
        c.raises(Exception, lambda: sink.put(None, v), "put without a key")
    elif what == "ill_typed_value":
        c.count(what)
        bad = c.rng.choice([0, 1, 2.5, [v], (v,), {"a": v}, True, False, object(), []])
        c.raises(Exception, lambda: sink.put(k, bad), "put of an ill-typed value", k, bad)
    elif what == "failing_name":
        if k in store or fickle is None:
            return
        fickle.fail = True
        c.count(what)
        try:
            c.raises(Boom, lambda: sink.put(k, v), "put whose file name function fails", k)
        finally:
            fickle.fail = False


@PROP.scenario(quick=6, thorough=100)
def many_keys(c):
    """Stores of thousands of mappings, appended to."""
    warnings.simplefilter("ignore")
    path = c.dir / "s.zip"
    n = c.rng.choice([1000, 1500, 3000])
    keys = gen.shuffled(c.rng, (f"{i}{c.rng.choice(['', ' ', 'x' * 50, chr(233)])}k" for i in range(n)))
    if c.i % 4 == 0:
        # few, but long ones
        c.count("long_keys")
        n = c.rng.choice([50, 150])
        keys = [f"{i}" + c.rng.choice(["y", "/z", "\u3042"]) * c.rng.choice([100, 10_000, 20_000]) for i in range(n)]
    want = {}
    c.log("store", n)
    for part in (keys[: n // 2], keys[n // 2:]):
        with KeyValueSink.zip_character_sink(path, overwrite=not want) as sink:
            for i, k in enumerate(part):
                c.count("many_keys")
                want[k] = f"value of {k}"
                sink[k] = want[k]
                if i % 100 == 0:
                    other = c.rng.choice(sorted(want)[:50] + [k])
                    c.raises((ValueError, RuntimeError), lambda: sink.put(other, "again"), "duplicate put", other)
    with KeyValueSource.zip_character_source(path) as source:
        keys = list(source.keys())
        c.eq(len(keys), n, "number of keys")
        c.same(dict(source.items()), want, "items")
        c.eq(set(keys), set(want), "keys")
        accept = gen.predicate(c.rng)
        c.same(dict(source.items(accept)), {k: v for k, v in want.items() if accept(k)}, "filtered items")
        for k in c.rng.sample(sorted(want), 50):
            c.same(source[k], want[k], "value", k)
            c.raises(KeyError, lambda: source[k + "?"], "absent key", k)


@PROP.scenario(quick=300)
def archives_without_key_list(c):
    """Zip files which did not come from a sink."""
    warnings.simplefilter("ignore")
    path = c.dir / "plain.zip"
    content = {}
    for _ in range(c.rng.randint(0, 8)):
        k = key(c.rng)
        content[k] = gen.text(c.rng).encode("utf-8") if c.rng.random() < 0.7 else gen.data(c.rng)
    make_zip(path, content.items())
    c.count("no_key_list")
    c.log("archive", content)
    text_only = {}
    for k, v in content.items():
        try:
            v.decode("utf-8")
            text_only[k] = v
        except UnicodeDecodeError:
            pass
    with KeyValueSource.zip_bytes_source(path) as source:
        examine(c, source, content, "bytes", ["absent"], listed=False)
    with KeyValueSource.zip_character_source(path) as source:
        examine(c, source, text_only, "text", ["absent"], listed=False)
        for k in content.keys() - text_only.keys():
            c.raises(UnicodeDecodeError, lambda: source[k], "value which is not text", k)
    # what is appended is known
    new = {}
    with KeyValueSink.zip_bytes_sink(path, overwrite=False) as sink:
        for _ in range(c.rng.randint(0, 4)):
            k = "new " + key(c.rng)
            if k not in new and k not in content:
                new[k] = gen.data(c.rng)
                sink.put(k, new[k])
    with KeyValueSource.zip_bytes_source(path) as source:
        examine(c, source, new, "bytes", ["absent"])
        for k, v in content.items():
            c.same(source[k], v, "value of an unlisted key")


@PROP.scenario(quick=100)
def failing_key_lists(c):
    """A session whose key list cannot be read or written fails visibly."""
    path = c.dir / "s.zip"
    with KeyValueSink.zip_bytes_sink(path) as sink:
        sink["a"] = b"1"

    def boom(*_):
        raise Boom()

    c.count("failing_key_list")
    c.log("key list", c.i % 3)
    if c.i % 3 == 0:
        sink = KeyValueSink.zip_bytes_sink(path, overwrite=False, keys_in_function=boom,
                                           keys_out_function=boom)
        c.raises(Boom, sink.__enter__, "session whose key list cannot be read")
    elif c.i % 3 == 1:
        source = KeyValueSource.zip_bytes_source(path, keys_function=boom)
        c.raises(Boom, source.__enter__, "source whose key list cannot be read")
        c.raises(Exception, source.keys, "use of a source which could not be entered")
    else:
        def session():
            with KeyValueSink.zip_bytes_sink(path, overwrite=False, keys_in_function=json_keys_in,
                                             keys_out_function=boom) as out:
                out["b"] = b"2"
        c.raises(Boom, session, "session whose key list cannot be written")
    with KeyValueSource.zip_bytes_source(path) as source:
        c.same(source["a"], b"1", "value put before")
        c.eq(set(source.keys()), {"a"}, "keys listed before")


@PROP.scenario(quick=150)
def keys_of_the_caller(c):
    """The keys may be kept elsewhere, e.g. in memory; what the caller keeps remains as it is."""
    rng = c.rng
    path = c.dir / "s.zip"
    form = rng.choice([set, set, frozenset, lambda keys: dict.fromkeys(keys).keys(), immutableset])
    kept = {"keys": None}
    model = {}
    c.log("keys of the caller", getattr(form, "__name__", "?"))
    c.count("callers_keys")

    def keys_in(_zip):
        return kept["keys"]

    def keys_out(_zip, keys):
        kept["keys"] = form(list(keys))

    arguments = {"keys_in_function": keys_in, "keys_out_function": keys_out}
    for _ in range(rng.randint(2, 4)):
        before, held = None if kept["keys"] is None else set(kept["keys"]), kept["keys"]
        with KeyValueSink.zip_bytes_sink(path, overwrite=False, **arguments) as sink:
            for _ in range(rng.randint(0, 3)):
                k = key(rng)
                if k in model:
                    c.raises(ValueError, lambda: sink.put(k, b"again"), "a key was put twice")
                else:
                    model[k] = gen.data(rng)
                    sink.put(k, model[k])
            c.eq(None if held is None else set(held), before, "the caller's set of keys was changed")
        c.eq(set(kept["keys"]), set(model), "the keys handed over")
        with KeyValueSource.zip_bytes_source(path, keys_function=keys_in) as source:
            examine(c, source, model, "bytes", ["absent?"])
        c.eq(set(kept["keys"]), set(model), "the caller's keys were changed by a source")


@PROP.scenario(quick=10)
def incomplete_key_lists(c):
    """Keys which can be read, but not written, make no sense."""
    path = c.dir / "s.zip"
    c.log("incomplete")
    c.count("incomplete_key_list")
    for maker in (KeyValueSink.zip_bytes_sink, KeyValueSink.zip_character_sink):
        c.raises(ValueError, lambda: maker(path, keys_in_function=json_keys_in, keys_out_function=None),
                 "sink which reads a key list, but writes none")
    c.check(not path.exists(), "no file")


@PROP.scenario(quick=100)
def names_which_change(c):
    """The keys listed count, whatever the files of later sessions are named."""
    warnings.simplefilter("ignore")
    path = c.dir / "s.zip"
    keys = list({key(c.rng): None for _ in range(c.rng.randint(2, 8))})
    first = {k: value(c.rng, "bytes", False) for k in keys if c.rng.random() < 0.6}
    names = [lambda k: "one/" + k, lambda k: "two/" + k, lambda k: "three" + k[::-1]]
    with KeyValueSink.zip_bytes_sink(path, filename_function=names[0]) as sink:
        for k, v in first.items():
            sink.put(k, v)
    c.log("first", list(first))
    stored = [first]
    for name in names[1:]:
        more = {}
        with KeyValueSink.zip_bytes_sink(path, filename_function=name, overwrite=False) as sink:
            for k in gen.shuffled(c.rng, keys):
                if any(k in part for part in stored):
                    c.count("duplicate_of_other_name")
                    c.raises((ValueError, RuntimeError), lambda: sink.put(k, b"again"),
                             "put of a key listed already, whose file has another name", k)
                elif c.rng.random() < 0.5:
                    more[k] = value(c.rng, "bytes", False)
                    sink.put(k, more[k])
        stored.append(more)
        c.log("more", list(more))
        for part, part_name in zip(stored, names):
            with KeyValueSource.zip_bytes_source(path, filename_function=part_name) as source:
                c.eq(set(source.keys()), {k for x in stored for k in x}, "keys listed")
                for k, v in part.items():
                    c.same(source[k], as_bytes(v), "value", k)
                for k in keys:
                    if k not in part:
                        # listed perhaps, but there is no such file
                        c.count("listed_without_file")
                        default = object()
                        c.check(source.get(k, default) is default, "the default for a key without file", k)
                        c.check(source.get(k) is None, "nothing for a key without file", k)
                        c.raises(KeyError, lambda: source[k], "lookup of a key without file", k)


@PROP.scenario(quick=60)
def several_readers(c):
    """Sources over one file, used alternately, do not disturb each other."""
    path = c.dir / "s.zip"
    n = c.rng.randint(1, 60)
    want = {f"k{i}": gen.text(c.rng, 200) for i in range(n)}
    with KeyValueSink.zip_character_sink(path) as sink:
        for k in gen.shuffled(c.rng, want):
            sink[k] = want[k]
    c.log("store", n)
    with KeyValueSource.zip_character_source(path) as a, KeyValueSource.zip_bytes_source(path) as b:
        its = [(iter(a.items()), str), (iter(b.items()), bytes), (iter(a.items()), str)]
        seen = [{} for _ in its]
        running = [0, 1, 2]
        while running:
            j = c.rng.choice(running)
            try:
                k, v = next(its[j][0])
            except StopIteration:
                running.remove(j)
                continue
            c.check(k not in seen[j], "a key given twice", k)
            seen[j][k] = v
            other = c.rng.choice(sorted(want))
            c.same(a[other], want[other], "lookup during iteration")
        for (_, kind), got in zip(its, seen):
            c.same(got, {k: v if kind is str else v.encode("utf-8") for k, v in want.items()},
                   "items of alternating readers")


@PROP.scenario(quick=120)
def failing_file_operations(c):
    """Errors of the operating system are reported, or what is stored and found is right all the same."""
    warnings.simplefilter("ignore")
    path, kind = c.dir / "s.zip", c.rng.choice(["text", "bytes"])
    maker = KeyValueSink.zip_character_sink if kind == "text" else KeyValueSink.zip_bytes_sink
    keys = list({key(c.rng): None for _ in range(c.rng.randint(0, 8))})
    want = {k: value(c.rng, kind, c.rng.random() < 0.05) for k in keys}
    c.log("store", want)
    appends = c.rng.random() < 0.5

    def write_all():
        if appends:
            with monitors.untracked():
                with maker(path) as sink:
                    for k in keys[::2]:
                        sink.put(k, want[k])
        with maker(path, overwrite=not appends) as sink:
            for k in keys[1::2] if appends else keys:
                sink.put(k, want[k])

    def verify(_):
        with KeyValueSource.zip_bytes_source(path) as source:
            examine(c, source, {k: as_bytes(v) for k, v in want.items()}, "bytes", ["absent"])

    c.count("faulty_session")
    # Python's ZipFile takes an archive it cannot read for a new one
    monitors.never_silent(c, write_all, verify, kinds=("write",) if appends else ("open", "read", "write"))

    plain = {k: as_bytes(v).decode("utf-8") if kind == "text" else as_bytes(v) for k, v in want.items()}

    def read_all():
        source = (KeyValueSource.zip_character_source if kind == "text" else KeyValueSource.zip_bytes_source)(path)
        with source:
            way = c.rng.choice(["items", "keys", "lookup", "default", "absent"])
            if way == "items":
                return dict(source.items())
            if way == "keys":
                return {k: plain[k] for k in source.keys()}
            if way == "absent":
                c.eq(source.get("absent", 7), 7, "the default")
                return {k: v for k, v in plain.items() if source.get(k) == v}
            return {k: source[k] if way == "lookup" else source.get(k, None) for k in plain}

    c.count("faulty_source")
    monitors.never_silent(c, read_all, lambda got: c.same(got, plain, "what was read without an error"), 5)
