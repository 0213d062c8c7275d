import os
from pathlib import Path

from vistautils.io_utils import (
    CharSink, CharSource, read_doc_id_to_file_map, write_doc_id_to_file_map,
)
from vistautils.key_value import (
    KeyValueSource, byte_key_value_sink_from_params, char_key_value_sink_from_params,
)
from vistautils.parameters import Parameters

from vmon import gen, monitors
from vmon.engine import Property
from vmon.fsutil import snapshot, write

PROP = Property(
    "C13",
    scale=3,
    rule="Random sessions of directory-backed sinks (text and binary, keys with sub-directories, repeated "
    "puts, rejected puts, ending by errors, several sessions and sinks), compared with a dictionary "
    "through a snapshot of the whole tree, the index read in every way, and sources over it. Random "
    "document maps written, compared line by line, read back and corrupted.",
    required=["char_session", "byte_session", "unlistable_sink", "odd_sink", "repeated_put", "rejected_put", "sub_directory",
              "caller_fails", "not_empty", "not_empty_hidden", "reopened", "map_round_trip",
              "relative_path", "malformed", "path_mapping", "changed_file", "absent", "default",
              "outside_untouched", "empty_session", "reserved_name", "parent_after_link", "big_value",
              "many_keys", "unlistable", "unencodable", "unlistable_entry", "strange_relative", "unlistable_directory",
              "faulty_session", "faulty_source", "faulty_map", "fault_reported"],
    assumptions=[
        "keys are relative paths without '..', no two of which name the same file",
        "line breaks in texts are newlines",
    ],
    files=["vistautils/key_value.py", "vistautils/io_utils.py"],
)


class Boom(Exception):
    pass


def component(rng):
    if rng.random() < 0.15:
        ret = gen.odd_name(rng)
        if ret == ret.strip() and "\t" not in ret:
            return ret
    while True:
        ret = "".join(x for x in gen.text(rng, 8, newlines=False) if x not in "/\t\x00\x0b\x0c\x1c\x1d\x1e")
        ret = ret.strip()
        if rng.random() < 0.5 or not ret:
            ret = rng.choice(["a", "b", "c", "d1", "a.txt", "A", "%s", "x y", "é", ".hidden", "index",
                              "_idx", "_index2", "_indexed", "_index.txt", "_Index", "__index", "x_index",
                              "~", "~root", "~x", "$HOME", "${HOME}", "%HOME%", "-", "a*", "[b]"])
        if ret not in (".", "..", "_index") and len(ret.encode("utf-8")) < 100:
            return ret


def key(rng):
    components = [component(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    if len(components) > 1 and rng.random() < 0.15:
        # only the index at the top is reserved
        components[rng.randint(1, len(components) - 1)] = "_index"
    return "/".join(components)


def altered(rng, k):
    """Something like *k* which would not come back as it is from a map."""
    odd = rng.choice(["\t", "\n", "\r", " ", "\r\n", "\u2003", "\x0b", "\x1c"])
    if odd[0] in "\t\r\n" and rng.random() < 0.5:
        i = rng.randint(0, len(k))
        return k[:i] + odd + k[i:]
    return rng.choice([odd + k, k + odd])


def clashes(k, store):
    """Whether *k* would need a file to be a directory, or the reverse."""
    return any(k != x and (k.startswith(x + "/") or x.startswith(k + "/")) for x in store)


def tree_for(store):
    ret = {}
    for k, v in store.items():
        ret[k] = ("file", v.encode("utf-8") if isinstance(v, str) else v)
        parent = os.path.dirname(k)
        while parent:
            ret[parent] = ("dir",)
            parent = os.path.dirname(parent)
    return ret


def examine(c, directory, store, is_text):
    """Everything that can be seen of a finished session."""
    tree = snapshot(directory)
    index = tree.pop("_index", None)
    c.check(index is not None and index[0] == "file", "there is an index", index)
    rejected = {k for k in tree if k not in tree_for(store) and tree[k] == ("dir",)}
    # a rejected put may have created directories, but no file
    for k in rejected:
        c.check(k in examine.maybe_created, "unexpected directory", k)
        del tree[k]
    c.same(tree, tree_for(store), "content of the directory")
    want_lines = sorted(f"{k}\t{directory / k}" for k in store)
    got = index[1].decode("utf-8").split("\n")
    c.eq(got.pop(), "", "the index ends with a line break")
    c.eq(sorted(got), want_lines, "lines of the index")
    c.eq([x.split("\t")[0] for x in got], sorted(store), "identifiers of the index")
    index_file = directory / "_index"
    read = read_doc_id_to_file_map(CharSource.from_file(index_file))
    c.eq({k: str(v) for k, v in read.items()}, {k: str(directory / k) for k in store}, "index")
    maker = KeyValueSource.from_doc_id_to_file_map if is_text else \
        KeyValueSource.binary_from_doc_id_to_file_map
    argument = c.rng.choice([index_file, str(index_file), CharSource.from_file(index_file)])
    with maker(argument) as source:
        c.eq(set(source.keys()), set(store), "keys of a source over the index")
        c.same(dict(source.items()), store, "items of a source over the index")


@PROP.scenario(quick=1500)
def sessions(c):
    is_text = c.rng.random() < 0.5
    c.count("char_session" if is_text else "byte_session")
    outside = c.dir / "outside"
    write(str(outside / "f"), "untouched")
    directory = c.dir / c.rng.choice(["out", "a b/out", "out.d/é"])
    directory.mkdir(parents=True)
    maker = char_key_value_sink_from_params if is_text else byte_key_value_sink_from_params
    namespace = {"path": str(directory)}
    if c.rng.random() < 0.5:
        namespace["type"] = c.rng.choice(["file-map", "directory"])
    sink = maker(Parameters.from_mapping({"output": namespace}))
    c.log("sink", is_text, namespace.get("type"))
    for session in range(c.rng.choice([1, 1, 2])):
        store = {}
        examine.maybe_created = set()
        pool = [key(c.rng) for _ in range(c.rng.randint(1, 8))]
        fails = c.rng.random() < 0.2
        try:
            with sink as entered:
                c.check(entered is sink, "entering gives the sink")
                for _ in range(c.rng.choice([0, 1, 3, 8, 14])):
                    k = c.rng.choice(pool)
                    v = (gen.text(c.rng, 200) if is_text else gen.data(c.rng)) * c.rng.choice([1, 1, 99])
                    if c.rng.random() < 0.01:
                        c.count("big_value")
                        v = gen.big_text(c.rng) if is_text else gen.big_data(c.rng)
                    if "/" in k:
                        c.count("sub_directory")
                    if c.rng.random() < 0.03:
                        c.count("reserved_name")
                        c.raises(ValueError, lambda: sink.put("_index", v), "put of the name of the index")
                        continue
                    if c.rng.random() < 0.03:
                        # what a map cannot hold
                        odd = altered(c.rng, k)
                        if c.rng.random() < 0.3:
                            i = c.rng.randint(0, len(k))
                            odd = k[:i] + c.rng.choice("\udc80\udcff") + k[i:]  # a file name, but not UTF-8
                            c.count("unencodable")
                        c.count("unlistable")
                        c.log("unlistable", odd)
                        there = snapshot(directory)
                        c.raises(ValueError, lambda: sink.put(odd, v), "put of a key the index would alter", odd)
                        c.same(snapshot(directory), there, "tree after a rejected put")
                        continue
                    if clashes(k, store) or c.rng.random() < 0.05:
                        if not clashes(k, store):
                            v = c.rng.choice([None, 7, b"bytes" if is_text else "text"])
                            if k in store:
                                continue  # may or may not lose the old value
                        c.count("rejected_put")
                        c.log("rejected", k)
                        c.raises(Exception, lambda: sink.put(k, v), "put which cannot work", k)
                        if not clashes(k, store) and (directory / k).is_file():
                            (directory / k).unlink()  # a failed write leaves an empty file
                        parent = os.path.dirname(k)
                        while parent:
                            examine.maybe_created.add(parent)
                            parent = os.path.dirname(parent)
                        continue
                    if (directory / k).is_dir():
                        continue  # left by a rejected put
                    if k in store:
                        c.count("repeated_put")
                    c.log("put", k, v)
                    if c.rng.random() < 0.5:
                        sink.put(k, v)
                    else:
                        sink[k] = v
                    store[k] = v
                if fails:
                    c.count("caller_fails")
                    raise Boom()
            c.check(not fails, "errors of the caller are not hidden")
        except Boom:
            c.check(fails, "a failure nobody caused")
        if not store:
            c.count("empty_session")
        examine(c, directory, store, is_text)
        before = snapshot(c.dir)
        # again: it is not empty now
        c.count("not_empty")
        again = sink if c.rng.random() < 0.5 else maker(Parameters.from_mapping({"output": namespace}))
        c.raises(Exception, again.__enter__, "opening a sink on a directory with content")
        c.same(snapshot(c.dir), before, "tree after a rejected opening")
        for k, v in list(snapshot(directory).items())[::-1]:
            if v[0] == "file":
                (directory / k).unlink()
        for k in sorted(snapshot(directory), reverse=True):
            (directory / k).rmdir()
        c.count("reopened", session)
    c.same(snapshot(outside), {"f": ("file", b"untouched")}, "other files")
    c.count("outside_untouched")


examine.maybe_created = set()


@PROP.scenario(quick=150)
def unlistable_sinks(c):
    """Sinks on directories whose own names a map cannot hold: nothing can be put."""
    is_text = c.rng.random() < 0.5
    name = c.rng.choice(["tab\there", "new\nline", "return\rhere", "\t", "a\t/b", "undecodable\udc80", " blank/ out", "out "])
    unlistable = "blank" not in name and name != "out "
    directory = c.dir / name
    (directory / "sub").mkdir(parents=True)
    within = c.rng.random() < 0.3
    if within:
        os.chdir(directory)
        directory = directory / "sub"
    else:
        (directory / "sub").rmdir()
    maker = char_key_value_sink_from_params if is_text else byte_key_value_sink_from_params
    c.log("sink", name, within)
    try:
        sink = maker(Parameters.from_mapping({"output": {"path": "sub" if within else str(directory)}}))
        store = {}
        with sink:
            for _ in range(c.rng.randint(1, 4)):
                k = key(c.rng)
                v = gen.text(c.rng, 20) if is_text else gen.data(c.rng)
                if unlistable:
                    c.count("unlistable_sink")
                    c.raises(ValueError, lambda: sink.put(k, v), "put in a directory a map cannot hold", k)
                    c.same(snapshot(directory), {}, "tree after a rejected put")
                elif not clashes(k, store):
                    c.count("odd_sink")
                    sink.put(k, v)
                    store[k] = v
        examine.maybe_created = set()
        examine(c, directory, store, is_text)
    finally:
        os.chdir("/")


@PROP.scenario(quick=6, thorough=60)
def many_keys(c):
    directory = c.dir / "out"
    directory.mkdir()
    n = c.rng.choice([300, 1200])
    c.log("many", n)
    sink = byte_key_value_sink_from_params(Parameters.from_mapping({"output": {"path": str(directory)}}))
    store = {}
    with sink:
        for i in gen.shuffled(c.rng, range(n)):
            c.count("many_keys")
            k = f"d{i % 7}/k{i}" if c.rng.random() < 0.5 else f"k{i}"
            store[k] = f"value {k}".encode("utf-8")
            sink[k] = store[k]
            if i % 50 == 0:
                store[k] = b"again"
                sink[k] = store[k]
    examine.maybe_created = set()
    examine(c, directory, store, False)


@PROP.scenario(quick=150)
def directories_with_content(c):
    directory = c.dir / "out"
    directory.mkdir()
    kind = c.rng.choice(["file", "hidden", "empty_dir", "tree", "link", "dangling"])
    target = c.dir / "target"
    write(str(target / "precious"), "precious")
    if kind == "file":
        write(str(directory / key(c.rng)), gen.data(c.rng))
    elif kind == "hidden":
        c.count("not_empty_hidden")
        write(str(directory / ".hidden"), b"")
    elif kind == "empty_dir":
        (directory / "d").mkdir()
    elif kind == "tree":
        for i in range(5):
            write(str(directory / f"d{i}" / key(c.rng)), gen.data(c.rng))
    elif kind == "link":
        (directory / "link").symlink_to(target)
    else:
        (directory / "link").symlink_to(c.dir / "nothing")
    before = snapshot(c.dir)
    c.log("content", kind, before)
    for maker in (char_key_value_sink_from_params, byte_key_value_sink_from_params):
        sink = maker(Parameters.from_mapping({"output": {"path": str(directory)}}))
        c.same(snapshot(c.dir), before, "tree after creating a sink")
        c.raises(Exception, sink.__enter__, "opening a sink on a directory with content", kind)
        c.same(snapshot(c.dir), before, "tree after a rejected opening", kind)


def identifier(rng):
    while True:
        ret = gen.text(rng, 10, newlines=False).replace("\t", " ").strip()
        if ret:
            return ret


@PROP.scenario(quick=400)
def document_maps(c):
    relative = c.rng.random() < 0.4
    os.chdir(c.dir)
    mapping = {}
    for _ in range(c.rng.choice([0, 1, 2, 5, 20])):
        path = Path(*[component(c.rng) for _ in range(c.rng.randint(1, 3))])
        if c.rng.random() < 0.2:
            # not the same as the path without these components: links exist
            path = Path(*[c.rng.choice(["..", component(c.rng), "l"]) for _ in range(c.rng.randint(1, 4))],
                        component(c.rng))
        if relative and c.rng.random() < 0.5:
            c.count("relative_path")
        else:
            path = c.dir / path
        mapping[identifier(c.rng)] = path
    mapping = {k: mapping[k] for k in gen.shuffled(c.rng, mapping)}
    want = {k: (v if v.is_absolute() else c.dir / v) for k, v in mapping.items()}
    c.log("map", mapping)
    string_sink = CharSink.to_string()
    write_doc_id_to_file_map(mapping, string_sink)
    text = string_sink.last_string_written
    c.eq(text, "".join(f"{k}\t{want[k]}\n" for k in sorted(want)), "written map")
    file = c.dir / "the.map"
    write_doc_id_to_file_map(mapping, CharSink.to_file(file))
    os.chdir("/")
    for source in (CharSource.from_string(text), CharSource.from_file(file),
                   CharSource.from_string(text[:-1])):
        got = read_doc_id_to_file_map(source)
        c.count("map_round_trip")
        c.same(dict(got), want, "map read back")
        c.eq(list(got), sorted(want), "order of identifiers")
        c.check(all(isinstance(v, Path) and v.is_absolute() for v in got.values()), "absolute paths")
    # paths are taken as they are written, also by those who write maps by hand
    by_hand = {identifier(c.rng): str(Path(*[component(c.rng) for _ in range(c.rng.randint(1, 3))]))
               for _ in range(c.rng.choice([0, 1, 4]))}
    if c.rng.random() < 0.3:
        by_hand["spread"] = c.rng.choice(["~/x", "$HOME/x", "a/../b", "../a", "../../x/y", "%a%", "file:x"])
    by_hand_text = "".join(f"{k}\t{v}\n" for k, v in by_hand.items())
    c.log("by hand", by_hand)
    if by_hand:
        c.count("map_by_hand")
    for source in (CharSource.from_string(by_hand_text), CharSource.from_string(by_hand_text[:-1])):
        got = read_doc_id_to_file_map(source)
        c.same(dict(got), {k: Path(v) for k, v in by_hand.items()}, "map written by hand")
    # entries which would not come back as they are
    if c.rng.random() < 0.5:
        c.count("unlistable_entry")
        odd = dict(mapping)
        if c.rng.random() < 0.5:
            odd[altered(c.rng, identifier(c.rng))] = Path("/x")
        else:
            name = altered(c.rng, component(c.rng))
            odd["odd"] = c.dir / (name if name != name.rstrip() or "\t" in name or "\n" in name or "\r" in name
                                  else name + " ")
        odd = {k: odd[k] for k in gen.shuffled(c.rng, odd)}
        c.log("odd", odd)
        before = file.read_bytes()
        c.raises(ValueError, lambda: write_doc_id_to_file_map(odd, CharSink.to_file(file)),
                 "map with an entry which it would alter", odd)
        c.same(file.read_bytes(), before, "the map written before")
    # relative paths stand for absolute ones, wherever that is
    if c.rng.random() < 0.5:
        strange = c.rng.choice(["tab\there", "new\nline", "return\rhere", "plain", " blank", "blank "])
        directory = c.dir / "strange" / strange
        directory.mkdir(parents=True)
        name = c.rng.choice([" x", "\u00a0x", "x", "d/ x", "x y"])
        os.chdir(directory)
        c.log("from", strange, name)
        try:
            string_sink = CharSink.to_string()
            if strange in ("plain", " blank", "blank "):
                c.count("strange_relative")
                write_doc_id_to_file_map({"id": Path(name)}, string_sink)
                c.eq(string_sink.last_string_written, f"id\t{directory / name}\n", "written map")
                got = read_doc_id_to_file_map(CharSource.from_string(string_sink.last_string_written))
                c.same(dict(got), {"id": directory / name}, "map read back")
            else:
                c.count("unlistable_directory")
                before = file.read_bytes()
                c.raises(ValueError, lambda: write_doc_id_to_file_map({"id": Path(name)}, CharSink.to_file(file)),
                         "map with a relative path it would alter", strange)
                c.same(file.read_bytes(), before, "the map written before")
        finally:
            os.chdir("/")
    # corrupted
    lines = text.split("\n")[:-1]
    bad = c.rng.choice(["no tab here", "a\tb\tc", "x\t/y\t", "\t\t", "a b"])
    lines.insert(c.rng.randint(0, len(lines)), bad)
    c.count("malformed")
    for ending in ("", "\n"):
        broken = "\n".join(lines) + ending
        c.raises(Exception, lambda: read_doc_id_to_file_map(CharSource.from_string(broken)),
                 "malformed map", bad)
        write(str(file), broken)
        for maker in (KeyValueSource.from_doc_id_to_file_map,
                      KeyValueSource.binary_from_doc_id_to_file_map):
            c.raises(Exception, lambda: maker(file), "source over a malformed map", bad)


@PROP.scenario(quick=300)
def path_mapping_sources(c):
    contents, paths = {}, {}
    os.chdir(c.dir)
    for i in range(c.rng.choice([0, 1, 2, 5, 12])):
        k = identifier(c.rng)
        path = c.dir / f"f{i}"
        if contents and c.rng.random() < 0.15:  # two keys, one file
            other = c.rng.choice(sorted(contents))
            paths[k], contents[k] = paths[other], contents[other]
            continue
        contents[k] = gen.text(c.rng, 100)
        write(str(path), contents[k])
        paths[k] = Path(path.name) if c.rng.random() < 0.2 else path
        if c.rng.random() < 0.15:
            # the parent of the target of a link
            c.count("parent_after_link")
            write(str(c.dir / f"f{i}"), "the wrong file")
            (c.dir / "deep" / "er").mkdir(parents=True, exist_ok=True)
            if not (c.dir / "link").is_symlink():
                (c.dir / "link").symlink_to(c.dir / "deep" / "er")
            write(str(c.dir / "deep" / f"f{i}"), contents[k])
            paths[k] = Path("link") / ".." / f"f{i}"
            if c.rng.random() < 0.7:
                paths[k] = c.dir / paths[k]
    c.log("mapping", paths)
    sink = CharSink.to_string()
    write_doc_id_to_file_map(paths, sink)
    map_text = sink.last_string_written
    sources = {
        "mapping": KeyValueSource.from_path_mapping(dict(paths)),
        "map": KeyValueSource.from_doc_id_to_file_map(CharSource.from_string(map_text)),
        "binary map": KeyValueSource.binary_from_doc_id_to_file_map(CharSource.from_string(map_text)),
    }
    for _ in range(2):
        for name, source in sources.items():
            c.count("path_mapping")
            binary = name.startswith("binary")
            want = {k: v.encode("utf-8") if binary else v for k, v in contents.items()}
            with source as entered:
                c.eq(set(entered.keys()), set(want), f"keys ({name})")
                c.eq(len(list(entered.keys())), len(want), f"number of keys ({name})")
                c.same(dict(entered.items()), want, f"items ({name})")
                for k in want:
                    c.same(entered[k], want[k], f"value ({name})", k)
                    c.same(entered.get(k), want[k], f"value by get ({name})", k)
                    c.same(entered.get(k, 7), want[k], f"value by get with default ({name})", k)
                for absent in ("no such key", "", str(c.dir), "f0\t"):
                    if absent in want:
                        continue
                    c.count("absent")
                    c.raises(KeyError, lambda: entered[absent], f"absent key ({name})", absent)
                    c.check(entered.get(absent) is None, "no default", absent)
                    default = c.rng.choice(["", 0, b"x", "d", object()])
                    c.count("default")
                    c.check(entered.get(absent, default) is default, f"default ({name})", absent)
        # files change
        for k in gen.subset(c.rng, sorted(contents)):
            c.count("changed_file")
            text = gen.text(c.rng, 100)
            path = paths[k] if paths[k].is_absolute() else c.dir / paths[k]
            write(str(path), text)
            for other in contents:
                if (c.dir / paths[other]).samefile(c.dir / paths[k]):
                    contents[other] = text
    # a file which is gone is an error, not an absence
    if contents:
        k = c.rng.choice(sorted(contents))
        (c.dir / paths[k]).unlink()
        for source in sources.values():
            with source as entered:
                c.raises(OSError, lambda: entered[k], "missing file", k)
                c.raises(OSError, lambda: entered.get(k, 1), "missing file, with default", k)
                c.raises(OSError, lambda: entered.get(k), "missing file, with default", k)
                c.raises(OSError, lambda: dict(entered.items()), "missing file, all items", k)


@PROP.scenario(quick=120)
def failing_file_operations(c):
    """Errors of the operating system are reported, or what is stored and found is right all the same."""
    is_text = c.rng.random() < 0.5
    maker = char_key_value_sink_from_params if is_text else byte_key_value_sink_from_params
    want = {}
    for _ in range(c.rng.randint(0, 6)):
        k = key(c.rng)
        if not clashes(k, want):
            want[k] = gen.text(c.rng, 200) if is_text else gen.data(c.rng)
    c.log("store", want)
    directories = []

    def write_all():
        with monitors.untracked():
            directory = c.dir / f"out{len(directories)}"
            directory.mkdir()
            directories.append(directory)
        with maker(Parameters.from_mapping({"output": {"path": str(directory)}})) as sink:
            for k, v in want.items():
                sink.put(k, v)
        return directory

    c.count("faulty_session")
    examine.maybe_created = set()
    monitors.never_silent(c, write_all, lambda directory: examine(c, directory, want, is_text))
    index = directories[-1] / "_index"

    def read_all():
        source = (KeyValueSource.from_doc_id_to_file_map if is_text
                  else KeyValueSource.binary_from_doc_id_to_file_map)(index)
        with source:
            way = c.rng.choice(["items", "lookup", "default"])
            if way == "items":
                return dict(source.items())
            c.eq(set(source.keys()), set(want), "keys read without an error")
            return {k: source[k] if way == "lookup" else source.get(k, None) for k in want}

    c.count("faulty_source")
    monitors.never_silent(c, read_all, lambda got: c.same(got, want, "what was read without an error"), 5)

    files = {f"id {i}": c.dir / f"file{i}" for i in range(c.rng.randint(0, 6))}

    def write_map():
        with monitors.untracked():
            (c.dir / "the.map").unlink(missing_ok=True)
        write_doc_id_to_file_map(files, CharSink.to_file(c.dir / "the.map"))

    def verify_map(_):
        c.eq(dict(read_doc_id_to_file_map(CharSource.from_file(c.dir / "the.map"))), files, "map")

    c.count("faulty_map")
    monitors.never_silent(c, write_map, verify_map)
