import collections
import random

from vistautils.key_value import KeyValueSink, KeyValueSource
from vistautils.parameters import Parameters
from vistautils.scripts import join_key_value_stores, split_key_value_store

from vmon import gen, monitors, process
from vmon.engine import Property
from vmon.fsutil import read, snapshot, write

PROP = Property(
    "C15",
    scale=2,
    rule="Random stores (zip and document map, in random key orders, with empty values and unusual keys) "
    "are split evenly and explicitly and joined again by the real scripts; an accounting monitor compares "
    "the multisets of mappings before and after, also between repetitions, key orders, seeds and "
    "processes with other hash seeds.",
    required=["even_split", "more_slices_than_keys", "empty_store", "seeded", "repeated",
              "other_key_order", "other_seed", "other_process", "explicit_split", "unknown_key", "left_over",
              "not_exhaustive", "not_exhaustive_in_namespace", "shared_key", "blank_lines", "join",
              "join_duplicate", "split_and_joined", "bad_parameters", "same_duplicate", "older_slices",
              "older_output", "many_mappings", "many_slices", "big_value",
              "join_duplicate_directory", "seeds_differ",
              "faulty_even", "faulty_explicit", "faulty_join", "fault_reported"],
    assumptions=["keys are non-empty single lines other than '__keys' (in document maps, without white space at their ends)"],
    files=["vistautils/scripts/split_key_value_store.py", "vistautils/scripts/join_key_value_stores.py",
           "vistautils/key_value.py"],
)


def key(rng):
    if rng.random() < 0.05:
        return rng.choice([f"w{rng.randint(0, 3)} ", f"w{rng.randint(0, 3)}", f" w{rng.randint(0, 3)}"])
    if rng.random() < 0.1:
        return gen.odd_name(rng, slashes=True)
    text = gen.text(rng, 10, newlines=False).replace("\t", " ").strip()
    if not text or rng.random() < 0.6 or text == "__keys":
        return f"key{rng.randint(0, 300)}"
    return text


def mappings(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 7, 20, rng.randint(4, 60)]) if n is None else n
    ret = {}
    while len(ret) < n:
        ret[key(rng)] = gen.data(rng) if rng.random() < 0.9 else b""
    if ret and rng.random() < 0.02:
        ret[rng.choice(sorted(ret))] = gen.big_data(rng)
    return ret


def write_zip(path, content):
    with KeyValueSink.zip_bytes_sink(path) as out:
        for k, v in content.items():
            out[k] = v
    # the order of the key list shall be the one we want
    from zipfile import ZipFile  # pylint:disable=import-outside-toplevel
    path.unlink()
    with ZipFile(path, "w") as out:
        for k, v in content.items():
            out.writestr(k, v)
        out.writestr("__keys", "\n".join(content).encode("utf-8"))
    return path


def write_zip_kept(path, content):
    """As a sink leaves it."""
    with KeyValueSink.zip_bytes_sink(path) as out:
        for k, v in content.items():
            out[k] = v


def write_map(directory, content):
    lines = []
    for i, (k, v) in enumerate(content.items()):
        file = directory / f"file{i}"
        write(str(file), v)
        lines.append(f"{k}\t{file}\n")
    write(str(directory / "_map"), "".join(lines))
    return directory / "_map"


def read_zip(c, path):
    with KeyValueSource.zip_bytes_source(path) as source:
        got = list(source.items())
    ret = dict(got)
    c.eq(len(got), len(ret), "keys listed twice")
    return ret


def make_input(c, content, name="input"):
    directory = c.dir / name
    directory.mkdir()
    if c.rng.random() < 0.7 or any(k != k.strip() or "\t" in k for k in content):
        return {"type": "zip", "path": str(write_zip(directory / "in.zip", content))}
    ret = {"path": str(write_map(directory, content))}
    if c.rng.random() < 0.5:
        ret["type"] = "file-map"
    return ret


def split(c, source, slices, seed, name, run=None, fresh=True):
    """Returns the slices."""
    out = c.dir / name
    content = {"input": source, "output_dir": str(out), "num_slices": slices}
    if seed is not None:
        content["random_seed"] = seed
    if run is None:
        random.seed(c.rng.random())  # the state of the world must not matter
        split_key_value_store.main(Parameters.from_mapping(content))
    else:
        run(content)
    c.count("even_split")
    listed = read(str(out / "_slices.txt")).decode("utf-8").split("\n")
    c.eq(len(listed), slices, "number of listed slices")
    files = {k for k in snapshot(out) if k != "_slices.txt"}
    if fresh:
        c.eq({str(out / f) for f in files}, set(listed), "slices which exist and slices which are listed")
    return [read_zip(c, out.__class__(p)) for p in listed]


def sizes_differ_by_at_most_one(c, slices):
    sizes = [len(s) for s in slices]
    c.check(max(sizes) - min(sizes) <= 1, "sizes of slices", sizes)


def union(c, slices, what):
    total = collections.Counter(k for s in slices for k in s)
    c.check(all(n == 1 for n in total.values()), f"mappings in several {what}",
            [k for k, n in total.items() if n > 1])
    return {k: v for s in slices for k, v in s.items()}


@PROP.scenario(quick=300)
def even_splits(c):
    content = mappings(c.rng)
    source = make_input(c, content)
    n = c.rng.choice([1, 2, 3, 5, len(content) or 1, len(content) + 2])
    seed = c.rng.choice([None, None, 1, 2, 42, 10 ** 9])
    c.log("split", content, n, seed)
    if any(len(v) >= 65_535 for v in content.values()):
        c.count("big_value")
    if not content:
        c.count("empty_store")
    if n > len(content):
        c.count("more_slices_than_keys")
    before = snapshot(c.dir)
    slices = split(c, source, n, seed, "out")
    sizes_differ_by_at_most_one(c, slices)
    c.same(union(c, slices, "slices"), content, "union of the slices")
    c.same({k: v for k, v in snapshot(c.dir).items() if not k.startswith("out")}, before, "input files")
    c.count("repeated")
    c.same(split(c, source, n, seed, "again"), slices, "slices of the same split")
    c.count("other_key_order")
    items = gen.shuffled(c.rng, content.items())
    c.same(split(c, make_input(c, dict(items), "reordered"), n, seed, "reordered_out"), slices,
           "slices of the same store with another order of keys")
    if seed is not None:
        c.count("seeded")
    c.count("other_seed")
    others = split(c, source, n, c.rng.choice([3, 4, 77]), "other")
    sizes_differ_by_at_most_one(c, others)
    c.same(union(c, others, "slices"), content, "union of the slices for another seed")
    # and back together
    join(c, [c.dir / "out" / "_slices.txt"], content)
    c.count("split_and_joined")
    if c.rng.random() < 0.3:
        # other mappings into a directory with the slices of an earlier run
        c.count("older_slices")
        other = mappings(c.rng)
        more = make_input(c, other, "more")
        n = c.rng.choice([1, n, n + 1])
        newer = split(c, more, n, seed, "out", fresh=False)
        c.log("again", other, n)
        sizes_differ_by_at_most_one(c, newer)
        c.same(union(c, newer, "slices"), other, "union of newer slices in the place of older ones")


@PROP.scenario(quick=6, thorough=60)
def large_splits(c):
    """Thousands of mappings, many slices."""
    n = c.rng.choice([1001, 1500, 3000])
    content = {f"k{i}{c.rng.choice('ab ')}.": b"%d" % i for i in gen.shuffled(c.rng, range(n))}
    source = make_input(c, content)
    slices = [c.rng.choice([64, 100, 130]), 3][c.i % 2]
    seed = c.rng.choice([None, 1, 99])
    c.log("large", n, slices, seed)
    c.count("many_mappings")
    if slices > 3:
        c.count("many_slices")
    got = split(c, source, slices, seed, "out")
    sizes_differ_by_at_most_one(c, got)
    c.same(union(c, got, "slices"), content, "union of the slices")
    c.same(split(c, source, slices, seed, "again"), got, "slices of the same split")
    # a seed is there to shuffle
    if slices > 1:
        c.count("seeds_differ")
        first, second = (split(c, source, slices, s, f"seed{s}") for s in c.rng.sample(range(1, 50), 2))
        c.check(first != second, "different seeds shuffle differently")
        in_order = split(c, source, slices, None, "in order")
        c.check(first != in_order, "a seed shuffles")
    out = c.dir / "joined"
    join_key_value_stores.main(Parameters.from_mapping(
        {"input_store_list_file": str(c.dir / "out" / "_slices.txt"),
         "output": {"type": "zip", "path": str(out)}}))
    c.same(read_zip(c, out), content, "joined store")
    # explicitly
    keys = gen.shuffled(c.rng, content)
    parts = {"a": keys[: n // 3], "b": keys[n // 3:]}
    namespace = {}
    for name, part in parts.items():
        write(str(c.dir / f"{name}.keys"), "\n".join(part) + "\n")
        namespace[name] = {"keys_file": str(c.dir / f"{name}.keys"),
                           "output_file": str(c.dir / f"{name}.zip")}
    split_key_value_store.main(Parameters.from_mapping({"input": source, "explicit_split": namespace}))
    for name, part in parts.items():
        c.same(read_zip(c, c.dir / f"{name}.zip"), {k: content[k] for k in part}, "explicit split", name)


def join(c, lists, want, **more):
    list_file = lists[0]
    out = c.dir / "joined"
    if c.rng.random() < 0.5 and all(k.startswith("key") and k.isalnum() for k in want):
        out.mkdir()
        namespace = {"path": str(out)}
    else:
        namespace = {"type": "zip", "path": str(out)}
        if c.rng.random() < 0.2 and not out.exists():
            c.count("older_output")
            write_zip_kept(out, mappings(c.rng, 4))
    join_key_value_stores.main(Parameters.from_mapping(
        {"input_store_list_file": str(list_file), "output": namespace, **more}))
    c.count("join")
    if "type" in namespace:
        got = read_zip(c, out)
    else:
        with KeyValueSource.binary_from_doc_id_to_file_map(out / "_index") as source:
            got = dict(source.items())
    c.same(got, want, "joined store")


SPLIT = "vistautils.scripts.split_key_value_store"


@PROP.scenario(quick=6, thorough=60)
def splits_in_other_processes(c):
    content = mappings(c.rng, c.rng.choice([10, 40]))
    source = {"type": "zip", "path": str(write_zip(c.dir / "in.zip", content))}
    n = c.rng.choice([2, 3, 7])
    seed = c.rng.choice([None, 5])
    here = split(c, source, n, seed, "here")
    for hash_seed in (c.rng.randint(1, 10 ** 6), c.rng.randint(1, 10 ** 6)):
        c.count("other_process")
        c.log("process", hash_seed)
        there = split(c, source, n, seed, f"there{hash_seed}",
                      lambda params: process.run_main(c, SPLIT, params, hash_seed))
        c.same(there, here, "slices made by a process with another hash seed")
    joined = {"input_store_list_file": str(c.dir / "here" / "_slices.txt"),
              "output": {"type": "zip", "path": str(c.dir / "joined.zip")}}
    process.run_main(c, "vistautils.scripts.join_key_value_stores", joined, 77)
    c.same(read_zip(c, c.dir / "joined.zip"), content, "joined in another process")


@PROP.scenario(quick=400)
def explicit_splits(c):
    content = mappings(c.rng)
    source = make_input(c, content)
    pool = list(content)
    parts = {}
    for i in range(c.rng.choice([1, 1, 2, 3])):
        parts[f"part{i}" if c.rng.random() < 0.7 else gen.odd_name(c.rng, longest=200).replace(".", "_") + f"{i}"] = gen.subset(c.rng, pool)
    how = c.rng.choice(["exhaustive", "exhaustive", "as it is", "unknown"])
    if how == "exhaustive":
        missing = [k for k in pool if not any(k in p for p in parts.values())]
        for k in missing:
            parts[c.rng.choice(sorted(parts))].append(k)
    elif how == "unknown":
        c.count("unknown_key")
        part = parts[c.rng.choice(sorted(parts))]
        part.insert(c.rng.randint(0, len(part)), "no such key " + str(c.i))
    if any(k in p and k in q for k in pool for n, p in parts.items() for m, q in parts.items() if n < m):
        c.count("shared_key")
    left_over = set(content) - {k for p in parts.values() for k in p}
    flag = c.rng.choice([None, None, True, False])
    inside = c.rng.random() < 0.5
    split_namespace = {}
    for name, keys in parts.items():
        lines = gen.shuffled(c.rng, keys)
        if c.rng.random() < 0.4:
            c.count("blank_lines")
            lines.insert(c.rng.randint(0, len(lines)), "")
            if keys:
                lines.append(c.rng.choice(keys))
        write(str(c.dir / f"{name}.keys"), "\n".join(lines) + c.rng.choice(["", "\n"]))
        split_namespace[name] = {"keys_file": str(c.dir / f"{name}.keys"),
                                 "output_file": str(c.dir / "out" / f"{name}.zip")}
    params = {"input": source, "explicit_split": split_namespace}
    if flag is not None:
        (split_namespace if inside else params)["must_be_exhaustive"] = flag
    c.log("explicit", content, parts, flag, inside)
    exhaustive = flag is not False
    if c.rng.random() < 0.3:
        # from an earlier run
        c.count("older_output")
        (c.dir / "out").mkdir(exist_ok=True)
        for name in gen.subset(c.rng, sorted(parts)):
            write_zip_kept(c.dir / "out" / f"{name}.zip", mappings(c.rng))
    inputs = {k: v for k, v in snapshot(c.dir).items() if not k.startswith("out")}

    def run():
        split_key_value_store.main(Parameters.from_mapping(params))

    if how == "unknown":
        c.raises(Exception, run, "split with an unknown key")
    elif left_over and exhaustive:
        c.count("left_over")
        c.raises(Exception, run, "split which is not exhaustive", left_over)
    else:
        if left_over:
            c.count("not_exhaustive_in_namespace" if inside else "not_exhaustive")
        run()
        c.count("explicit_split")
        for name, keys in parts.items():
            c.same(read_zip(c, c.dir / "out" / f"{name}.zip"), {k: content[k] for k in keys},
                   "explicit split", name)
        c.eq({k for k in snapshot(c.dir) if k.startswith("out/")}, {f"out/{n}.zip" for n in parts},
             "files written")
    c.same({k: v for k, v in snapshot(c.dir).items() if not k.startswith("out")}, inputs, "input files")


@PROP.scenario(quick=300)
def joins(c):
    n = c.rng.choice([0, 1, 2, 4])
    stores, want, seen_twice = [], {}, False
    plain = c.rng.random() < 0.4  # keys which can be those of directory stores
    for i in range(n):
        content = mappings(c.rng, c.rng.choice([0, 1, 3, 8]))
        if plain:
            content = {k: v for k, v in content.items() if k.startswith("key") and k.isalnum()}
        if c.rng.random() < 0.7:
            content = {k: v for k, v in content.items() if k not in want}
        elif want and c.rng.random() < 0.5:
            k = c.rng.choice(sorted(want))
            content[k] = want[k]
            c.count("same_duplicate")
        seen_twice |= any(k in want for k in content)
        want.update(content)
        path = c.dir / c.rng.choice([f"s{i}.zip", f"s{i}", f"{i}" + gen.odd_name(c.rng)])
        if str(path) != str(path).strip():
            path = c.dir / f"s{i}.zip"  # lines of lists are stripped
        write_zip(path, content)
        stores.append(path)
    if n and c.rng.random() < 0.1 and want:
        stores.append(stores[0])
        seen_twice |= bool(read_zip(c, stores[0]))
    c.log("stores", stores, seen_twice)
    list_file = c.dir / "list"
    lines = [str(s) for s in stores]
    if c.rng.random() < 0.5:
        lines.insert(0, "# a comment")
        lines.append("")
    write(str(list_file), "\n".join(lines))
    before = snapshot(c.dir)
    if seen_twice:
        c.count("join_duplicate")
        c.raises(Exception, lambda: join(c, [list_file], want), "join of stores sharing keys")
        if plain and not (c.dir / "joined").is_file():
            c.count("join_duplicate_directory")
    else:
        join(c, [list_file], want)
    c.same({k: v for k, v in snapshot(c.dir).items() if not k.startswith("joined")}, before,
           "input files")


@PROP.scenario(quick=60)
def bad_parameters(c):
    content = mappings(c.rng, 3)
    source = {"type": "zip", "path": str(write_zip(c.dir / "in.zip", content))}
    good = {"input": source, "output_dir": str(c.dir / "out"), "num_slices": 2}
    explicit = {"part": {"keys_file": str(c.dir / "keys"), "output_file": str(c.dir / "part.zip")}}
    write(str(c.dir / "keys"), "\n".join(content))
    bad = dict(good)
    kind = ["both", "neither", "zero", "negative", "text", "missing input", "no output", "missing keys",
            "zero seed", "no input"][c.i % 10]
    if kind == "both":
        bad["explicit_split"] = explicit
    elif kind == "neither":
        del bad["num_slices"]
    elif kind == "zero":
        bad["num_slices"] = 0
    elif kind == "negative":
        bad["num_slices"] = -1
    elif kind == "text":
        bad["num_slices"] = "two"
    elif kind == "missing input":
        bad["input"] = {"type": "zip", "path": str(c.dir / "nothing.zip")}
    elif kind == "no output":
        del bad["output_dir"]
    elif kind == "missing keys":
        bad = {"input": source, "explicit_split": {"part": {
            "keys_file": str(c.dir / "nothing"), "output_file": str(c.dir / "part.zip")}}}
    elif kind == "zero seed":
        bad["random_seed"] = -3
    elif kind == "no input":
        del bad["input"]
    c.log(kind)
    c.count("bad_parameters")
    before = {k: v for k, v in snapshot(c.dir).items()}
    c.raises(Exception, lambda: split_key_value_store.main(Parameters.from_mapping(bad)),
             "impossible split", kind)
    after = snapshot(c.dir)
    c.same({k: after.get(k) for k in before}, before, "files which were there")


@PROP.scenario(quick=60)
def failing_file_operations(c):
    """Errors of the operating system are reported, or the outputs are right all the same."""
    content = mappings(c.rng, c.rng.choice([0, 1, 5, 20]))
    source = make_input(c, content)
    kind = c.rng.choice(["even", "explicit", "join"])
    c.log(kind, content)
    c.count("faulty_" + kind)
    if kind == "even":
        n = c.rng.choice([1, 2, 5])
        out = c.dir / "out"
        params = {"input": source, "output_dir": str(out), "num_slices": n}

        def verify(_):
            listed = read(str(out / "_slices.txt")).decode("utf-8").split("\n")
            c.eq(len(listed), n, "number of listed slices")
            slices = [read_zip(c, out.__class__(p)) for p in listed]
            sizes_differ_by_at_most_one(c, slices)
            c.same(union(c, slices, "slices"), content, "union of the slices")
        main = split_key_value_store.main
    elif kind == "explicit":
        parts = {"a": list(content)[::2], "b": list(content)[1::2]}
        namespace = {}
        for name, keys in parts.items():
            write(str(c.dir / f"{name}.keys"), "\n".join(keys))
            namespace[name] = {"keys_file": str(c.dir / f"{name}.keys"), "output_file": str(c.dir / f"{name}.zip")}
        params = {"input": source, "explicit_split": namespace}

        def verify(_):
            for name, keys in parts.items():
                c.same(read_zip(c, c.dir / f"{name}.zip"), {k: content[k] for k in keys}, "explicit split", name)
        main = split_key_value_store.main
    else:
        halves = [list(content)[::2], list(content)[1::2]]
        lines = []
        for i, keys in enumerate(halves):
            lines.append(str(write_zip(c.dir / f"{i}.zip", {k: content[k] for k in keys})) + "\n")
        write(str(c.dir / "list"), "".join(lines))
        params = {"input_store_list_file": str(c.dir / "list"),
                  "output": {"type": "zip", "path": str(c.dir / "joined")}}

        def verify(_):
            c.same(read_zip(c, c.dir / "joined"), content, "joined store")
        main = join_key_value_stores.main
    monitors.never_silent(c, lambda: main(Parameters.from_mapping(params)), verify)
