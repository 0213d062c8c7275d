import contextlib
import io
import json
import os
import random
import sys
import tarfile
import warnings
from pathlib import Path
from zipfile import ZipFile

from vistautils.key_value import KeyValueSink, KeyValueSource
from vistautils.parameters import ParameterError, Parameters
from vistautils.scripts import (
    directory_to_key_value_store, downsample_key_value_store, tar_gz_to_zip, text_at_offsets,
)

from vmon import gen, monitors, process
from vmon.engine import Property
from vmon.fsutil import make_tgz, snapshot, write
from vmon.props.c15 import make_input, mappings, read_zip, write_zip

PROP = Property(
    "C16",
    scale=3,
    rule="The real scripts run in scratch directories on random stores, directories, tar files (all member "
    "kinds, formats and compressions, hostile names, large files and cut-offs) and texts with random "
    "offsets; an accounting monitor compares mappings before and after, the full directory tree is "
    "compared with what may have been written, and standard output is captured.",
    required=["downsample", "all_kept", "some_kept", "repeated", "other_seed", "other_process",
              "directory", "strip_extension", "sub_directory", "clash", "tar", "streamed", "unpacked",
              "omitted", "kept_at_cutoff", "large_kept", "replaced", "hostile_name", "not_regular",
              "tar_name", "text", "astral", "bad_parameters", "out_of_bounds", "older_output",
              "many_mappings", "odd_file_name", "odd_member_name", "many_files", "many_members", "big_member", "odd_regular", "updated_member", "same_file",
              "default_cutoff", "command",
              "faulty_downsample", "faulty_directory", "faulty_tar", "faulty_offsets", "fault_reported"],
    assumptions=["keys are non-empty single lines", "file names can be decoded"],
    files=["vistautils/scripts/downsample_key_value_store.py",
           "vistautils/scripts/directory_to_key_value_store.py",
           "vistautils/scripts/tar_gz_to_zip.py", "vistautils/scripts/text_at_offsets.py"],
)

DOWNSAMPLE = "vistautils.scripts.downsample_key_value_store"


def downsample(c, source, n, seed, name, run=None):
    out = c.dir / "out" / name
    params = {"input": source, "num_to_sample": n, "output_zip_path": str(out)}
    if seed is not None:
        params["random_seed"] = seed
    if run is None:
        random.seed(c.rng.random())  # the state of the world must not matter
        downsample_key_value_store.main(Parameters.from_mapping(params))
    else:
        run(params)
    c.count("downsample")
    return read_zip(c, out)


def check_sample(c, sample, content, n):
    c.eq(len(sample), min(n, len(content)), "number of mappings kept")
    c.same(sample, {k: content.get(k) for k in sample}, "mappings kept")
    c.count("all_kept" if n >= len(content) else "some_kept")


@PROP.scenario(quick=400)
def downsampling(c):
    content = mappings(c.rng)
    source = make_input(c, content)
    n = c.rng.choice([1, 2, 5, len(content) or 1, len(content) + 1, 1000])
    seed = c.rng.choice([None, 0, 1, 42, -1])
    c.log("downsample", content, n, seed)
    before = snapshot(c.dir)
    sample = downsample(c, source, n, seed, "a")
    check_sample(c, sample, content, n)
    c.count("repeated")
    if c.rng.random() < 0.3:
        # from an earlier run
        c.count("older_output")
        with KeyValueSink.zip_bytes_sink(c.dir / "out" / "b") as older:
            for k, v in mappings(c.rng).items():
                older[k] = v
    again = downsample(c, source, n, seed, "b")
    c.same(again, sample, "the same sample again")
    if seed in (None, 0):
        c.same(downsample(c, source, n, 0 if seed is None else None, "c"), sample, "default seed")
    tree = snapshot(c.dir)
    c.same({k: v for k, v in tree.items() if k.split("/")[0] != "out"}, before, "input files")
    # samples are random
    if c.rng.random() < 0.2:
        content = mappings(c.rng, 20)
        source = {"type": "zip", "path": str(write_zip(c.dir / "more.zip", content))}
        seen = set()
        for other in range(10):
            c.count("other_seed")
            sample = downsample(c, source, 10, other, f"seed{other}")
            check_sample(c, sample, content, 10)
            seen.add(frozenset(sample))
        c.check(len(seen) > 1, "samples depend on the seed")


@PROP.scenario(quick=9, thorough=90)
def large_inputs(c):
    """Thousands of mappings, files and members; large values."""
    warnings.simplefilter("ignore")
    n = c.rng.choice([1001, 1500, 2500])
    content = {f"k{i}": b"%d" % i for i in gen.shuffled(c.rng, range(n))}
    for k in c.rng.sample(sorted(content), 2):
        content[k] = gen.big_data(c.rng)
    kind = ["mappings", "files", "members"][c.i % 3]
    c.log("large", kind, n)
    c.count("many_" + kind)
    if kind == "mappings":
        source = {"type": "zip", "path": str(write_zip(c.dir / "in.zip", content))}
        size = c.rng.choice([10, 999, n - 1, n, n + 1])
        sample = downsample(c, source, size, 3, "a")
        check_sample(c, sample, content, size)
        c.same(downsample(c, source, size, 3, "b"), sample, "the same sample again")
    elif kind == "files":
        for i, (k, v) in enumerate(content.items()):
            write(str(c.dir / "in" / f"d{i % 9}" / k), v)
        out = c.dir / "out.zip"
        directory_to_key_value_store.main(Parameters.from_mapping(
            {"input_directory": str(c.dir / "in"), "output": {"type": "zip", "path": str(out)}}))
        c.same(read_zip(c, out), content, "store")
    else:
        make_tgz(c.dir / "in.tgz", content.items())
        cutoff = 70_000
        omit = c.rng.random() < 0.5
        arguments = [c.dir / "in.tgz"] + c.rng.choice([[], ["--dont-stream"]])
        if omit:
            arguments += ["--omit-large-files", "--large-file-cutoff", repr(cutoff / 1e9)]
        run_command(tar_gz_to_zip, arguments)
        want = {k: v for k, v in content.items() if not omit or len(v) <= cutoff}
        with ZipFile(c.dir / "in.zip") as archive:
            c.eq(len(archive.namelist()), len(want), "number of entries")
            c.same({k: archive.read(k) for k in archive.namelist()}, want, "content of the zip file")


@PROP.scenario(quick=2, thorough=8)
def default_cutoff(c):
    """Without a cut-off, files of more than two gigabytes are large."""
    gb = 10 ** 9
    with open(c.dir / "x.tar", "wb") as out:
        sizes = {"small": 5, "large": c.rng.choice([2 * gb + 2 ** 30 // 5, 2 * gb + 150_000_000, 7 * gb]), "last": 3}
        if c.tier == "thorough" and c.i == 0:
            sizes["kept"] = 19 * gb // 10
        for name, size in sizes.items():
            info = tarfile.TarInfo(name)
            info.size = size
            out.write(info.tobuf(tarfile.GNU_FORMAT))
            out.seek(-(-size // 512) * 512, 1)  # the file is sparse
        out.write(b"\0" * 10240)
    c.log("default", sizes)
    c.count("default_cutoff")
    arguments = [c.dir / "x.tar", "--omit-large-files"] + c.rng.choice([[], ["--dont-stream"]])
    if "kept" in sizes:
        arguments.append("--dont-stream")
    printed = run_command(tar_gz_to_zip, arguments)
    del sizes["large"]
    with ZipFile(c.dir / "x.zip") as archive:
        c.eq({x.filename: x.file_size for x in archive.infolist()}, sizes, "files not larger than the default")
    c.check("large" in printed, "the omitted file is reported")


COMMANDS = ["tar_gz_to_zip", "text_at_offsets", "directory_to_key_value_store", "downsample_key_value_store",
            "join_key_value_stores", "split_key_value_store"]


@PROP.scenario(quick=2, thorough=20)
def commands(c):
    """The scripts are run the way users run them."""
    name = COMMANDS[c.i % len(COMMANDS)]
    content = mappings(c.rng, 5)
    for name in COMMANDS:
        work = c.dir / name
        work.mkdir()
        params = None
        zip_file = write_zip(work / "in.zip", content)
        if name == "tar_gz_to_zip":
            make_tgz(work / "x.tgz", content.items())
            arguments, output = [work / "x.tgz"], work / "x.zip"
        elif name == "text_at_offsets":
            write(str(work / "text"), "some text")
            arguments, output = [work / "text", 2, 7], None
        elif name == "directory_to_key_value_store":
            for i, v in enumerate(content.values()):
                write(str(work / "in" / f"f{i}"), v)
            output = work / "out.zip"
            params = {"input_directory": str(work / "in"), "output": {"type": "zip", "path": str(output)}}
        elif name == "downsample_key_value_store":
            output = work / "out.zip"
            params = {"input": {"type": "zip", "path": str(zip_file)}, "num_to_sample": 100,
                      "output_zip_path": str(output)}
        elif name == "join_key_value_stores":
            output = work / "out.zip"
            write(str(work / "list"), f"{zip_file}\n")
            params = {"input_store_list_file": str(work / "list"), "output": {"type": "zip", "path": str(output)}}
        else:
            output = work / "out" / "0.zip"
            params = {"input": {"type": "zip", "path": str(zip_file)}, "num_slices": 1,
                      "output_dir": str(work / "out")}
        if params is not None:
            write(str(work / "params"), json.dumps(params, ensure_ascii=False))
            arguments = [work / "params"]
        done = process.run_as_main(f"vistautils.scripts.{name}", arguments, cwd=work)
        c.log("command", name)
        c.count("command")
        c.eq(done.returncode, 0, f"status of {name}", done.stdout[-1000:])
        if name == "text_at_offsets":
            c.eq(done.stdout, b"me te\n", "text printed")
            continue
        if name == "tar_gz_to_zip":
            with ZipFile(output) as archive:
                got = {n: archive.read(n) for n in archive.namelist()}
        else:
            got = read_zip(c, output)
        want = content
        if name == "directory_to_key_value_store":
            want = {f"f{i}": v for i, v in enumerate(content.values())}
        c.same(got, want, f"result of {name}")


@PROP.scenario(quick=4, thorough=40)
def downsampling_in_other_processes(c):
    content = mappings(c.rng, 30)
    source = {"type": "zip", "path": str(write_zip(c.dir / "in.zip", content))}
    seed = c.rng.choice([None, 3])
    here = downsample(c, source, 7, seed, "here")
    for hash_seed in (c.rng.randint(1, 10 ** 6), c.rng.randint(1, 10 ** 6)):
        c.count("other_process")
        c.log("process", hash_seed)
        there = downsample(c, source, 7, seed, f"there{hash_seed}",
                           lambda params: process.run_main(c, DOWNSAMPLE, params, hash_seed))
        c.same(there, here, "sample drawn by a process with another hash seed")


@PROP.scenario(quick=50)
def bad_parameters(c):
    content = mappings(c.rng, 3)
    source = {"type": "zip", "path": str(write_zip(c.dir / "in.zip", content))}
    good = {"input": source, "num_to_sample": 2, "output_zip_path": str(c.dir / "out.zip")}
    kind = ["zero", "negative", "text", "missing", "no output", "seed", "input", "key function",
            "no directory", "missing directory"][c.i % 10]
    bad = dict(good)
    if kind == "zero":
        bad["num_to_sample"] = 0
    elif kind == "negative":
        bad["num_to_sample"] = -2
    elif kind == "text":
        bad["num_to_sample"] = "many"
    elif kind == "missing":
        del bad["num_to_sample"]
    elif kind == "no output":
        del bad["output_zip_path"]
    elif kind == "seed":
        bad["random_seed"] = "text"
    elif kind == "input":
        bad["input"] = {"type": "zip", "path": str(c.dir / "missing.zip")}
    main = downsample_key_value_store.main
    if kind in ("key function", "no directory", "missing directory"):
        main = directory_to_key_value_store.main
        bad = {"output": {"type": "zip", "path": str(c.dir / "out.zip")}}
        if kind == "key function":
            bad["key_function"] = "no_such_function"
            bad["input_directory"] = str(c.dir)
        elif kind == "missing directory":
            bad["input_directory"] = str(c.dir / "missing")
    c.log(kind)
    c.count("bad_parameters")
    before = snapshot(c.dir)
    c.raises(ParameterError, lambda: main(Parameters.from_mapping(bad)), "impossible request", kind)
    c.same({k: snapshot(c.dir).get(k) for k in before}, before, "files which were there")


def stem(name):
    """The name without its extension, if it has one."""
    base, dot, extension = name.rpartition(".")
    return base if dot and extension and base.strip(".") else name


@PROP.scenario(quick=500)
def directories(c):
    source = c.dir / "in"
    source.mkdir()
    want, clash, open_end, links = {}, False, None, []
    strip = c.rng.random() < 0.5
    nested = c.rng.random() < 0.3
    for i in range(c.rng.choice([0, 1, 2, 5, 10])):
        name = c.rng.choice([f"f{i}", f"f{i}.txt", f"f{i}.tar.gz", f".f{i}", f".f{i}.x", f"a b{i}.é",
                             f"f{i % 3}.doc", f"%s{i}.txt", f"UP{i}.TXT", f"{i}. x", f"{i}.", f"{i}..",
                             f"{i}..b", f"..{i}.b", f"{i}.txt.txt", f"{i}.txt.", f"{i}. "])
        if c.rng.random() < 0.3:
            c.count("odd_file_name")
            name = gen.odd_name(c.rng)
            if name == "..x":
                name += ".x"  # whether ".x" is an extension of "." is left open
        content = gen.data(c.rng)
        parent = source
        if nested:
            parent = source / c.rng.choice([".", "d", "d/e", "d.x", "~d", "Two  Blanks", "e\u0301d", ".h", "[ab]*"])
            if parent != source:
                c.count("sub_directory")
        if (parent / name).exists():
            continue
        k = stem(name) if strip else name
        if name.endswith(".") and strip:
            # whether a final dot is an extension is left open
            if open_end or k in want or k[:-1] in want:
                continue
            open_end = k
        elif open_end and k == open_end[:-1]:
            continue
        if c.rng.random() < 0.15:
            c.count("link_to_file")
            (c.dir / "elsewhere").mkdir(exist_ok=True)
            write(str(c.dir / "elsewhere" / f"target{i}"), content)
            parent.mkdir(parents=True, exist_ok=True)
            (parent / name).symlink_to(c.dir / "elsewhere" / f"target{i}")
        elif c.rng.random() < 0.15 and links:
            # one of the files before, under another name
            c.count("same_file")
            target, content = c.rng.choice(links)
            parent.mkdir(parents=True, exist_ok=True)
            if c.rng.random() < 0.5:
                os.link(target, parent / name)
            else:
                (parent / name).symlink_to(target)
        else:
            write(str(parent / name), content)
            links.append((parent / name, content))
        clash |= k in want
        want[k] = content
    if c.rng.random() < 0.2:
        (source / "empty").mkdir(exist_ok=True)
    params = {"input_directory": str(source)}
    if strip:
        params["key_function"] = "strip_one_extension"
        c.count("strip_extension")
    elif c.rng.random() < 0.5:
        params["key_function"] = "identity"
    zip_output = c.rng.random() < 0.7 or clash or any(k != k.strip() or "\t" in k for k in want)
    out = c.dir / "out"
    if zip_output:
        params["output"] = {"type": "zip", "path": str(out)}
    else:
        out.mkdir()
        params["output"] = {"type": "file-map", "path": str(out)}
    c.log("directory", want, strip, zip_output)
    c.count("directory")
    before = snapshot(source)
    if clash:
        c.count("clash")
        c.raises(Exception, lambda: directory_to_key_value_store.main(Parameters.from_mapping(params)),
                 "files which would get the same key")
    else:
        directory_to_key_value_store.main(Parameters.from_mapping(params))
        if zip_output:
            got = read_zip(c, out)
        else:
            with KeyValueSource.binary_from_doc_id_to_file_map(out / "_index") as stored:
                got = dict(stored.items())
        if open_end and open_end[:-1] in got:
            want[open_end[:-1]] = want.pop(open_end)
        c.same(got, want, "store")
    c.same(snapshot(source), before, "input directory")
    c.eq({k for k in snapshot(c.dir) if k.split("/")[0] not in ("in", "out", "elsewhere")}, set(), "other files")


def run_command(module, arguments):
    out = io.StringIO()
    saved = sys.argv
    sys.argv = ["prog"] + [str(a) for a in arguments]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            module.main()
    finally:
        sys.argv = saved
    return out.getvalue()


HOSTILE = ["./a", "../escaped", "../../../../escaped", "d/../../escaped2", "/etc/vmon-escaped",
           "x/./y", "x//y", "-rf", "~/x", "C:\\x", " ", "unpacked", "x.zip", "caf\u00e9",
           "n" * 180, "d/" * 60 + "deep"]


@PROP.scenario(quick=400)
def tar_files(c):
    warnings.simplefilter("ignore")
    base = c.rng.choice(["corpus", "a.tar.b", "tar", "x.tgz.y", "v1.2", "a b", "x.zip", "x.tgz", "x.tar", "x.tar.gz", ".tar.tgz"])
    extension, mode = c.rng.choice([(".tar", "w"), (".tgz", "w:gz"), (".tar.gz", "w:gz"),
                                    ("", "w:gz"), (".tar.bz2", "w:bz2"), (".TAR", "w")])
    work = c.dir / "work"
    work.mkdir()
    tar = work / (base + extension)
    c.count("tar_name")
    output = work / (base + (extension if extension not in (".tar", ".tgz", ".tar.gz") else "") + ".zip")
    if extension == "" and base.endswith((".tar", ".tgz", ".tar.gz")):
        return
    cutoff = c.rng.choice([100, 1000, 5000])
    want, large = {}, set()
    names = []
    for i in range(c.rng.choice([0, 1, 3, 8])):
        name = c.rng.choice([f"f{i}", f"d/f{i}", f"d/e/f{i}.txt"] * 3 + HOSTILE)
        if c.rng.random() < 0.3:
            c.count("odd_member_name")
            name = gen.odd_name(c.rng, lines=True, slashes=True)
        if name not in names:
            names.append(name)
    with tarfile.open(tar, mode, format=c.rng.choice([tarfile.PAX_FORMAT, tarfile.GNU_FORMAT])) as out:
        for name in names:
            if name in HOSTILE:
                c.count("hostile_name")
            info = tarfile.TarInfo(name)
            info.mtime = c.rng.choice([0, 1, 1_600_000_000, 315532800, 4_000_000_000])
            info.mode = c.rng.choice([0o644, 0o600, 0o755, 0o400])
            if c.rng.random() < 0.25:
                c.count("not_regular")
                info.type = c.rng.choice([tarfile.DIRTYPE, tarfile.SYMTYPE, tarfile.FIFOTYPE,
                                          tarfile.CHRTYPE, tarfile.LNKTYPE])
                info.linkname = c.rng.choice(["f0", "/etc/passwd", "../escaped"])
                if info.type == tarfile.DIRTYPE:
                    info.mode = 0o755
                out.addfile(info)
                continue
            size = c.rng.choice([0, 1, cutoff - 1, cutoff, cutoff + 1, 20_000, 7])
            content = gen.data(c.rng) * size
            content = (content + b"\0" * size)[:size]
            if c.rng.random() < 0.01:
                c.count("big_member")
                content = gen.big_data(c.rng)
                size = len(content)
            info.size = len(content)
            out.addfile(info, io.BytesIO(content))
            want[name] = content
            if size > cutoff:
                large.add(name)
            if c.rng.random() < 0.25:
                # old and contiguous files are regular, too
                c.count("odd_regular")
                info = tarfile.TarInfo(f"odd{len(want)}")
                info.type = c.rng.choice([tarfile.AREGTYPE, tarfile.CONTTYPE])
                info.size = 3
                out.addfile(info, io.BytesIO(b"odd"))
                want[info.name] = b"odd"
        updated = [n for n in want if n not in large and c.rng.random() < 0.1]
        for name in updated:
            c.count("updated_member")
            info = tarfile.TarInfo(name)
            want[name] = c.rng.choice([b"", b"new", gen.data(c.rng)[:cutoff], want[name][::-1]])
            info.size = len(want[name])
            out.addfile(info, io.BytesIO(want[name]))
    if c.rng.random() < 0.3:
        c.count("replaced")
        if c.rng.random() < 0.5:
            write(str(output), b"an older file")
        else:
            # from an earlier run with another content
            with ZipFile(output, "w") as older:
                for name in c.rng.sample(["old", "f0", "f1", "d/f0", "__keys"], c.rng.randint(1, 4)):
                    older.writestr(name, "older content")
    arguments = [tar]
    if c.rng.random() < 0.5:
        arguments.append("--dont-stream")
        c.count("unpacked")
    else:
        c.count("streamed")
    omit = c.rng.random() < 0.5
    if omit:
        arguments += ["--omit-large-files"]
    if omit or c.rng.random() < 0.5:
        arguments += ["--large-file-cutoff", repr(cutoff / 1e9)]
    if omit:
        c.count("omitted", len(large))
        c.count("kept_at_cutoff", sum(len(v) == cutoff for v in want.values()))
        want = {k: v for k, v in want.items() if k not in large}
    elif large:
        c.count("large_kept")
    c.rng.shuffle(arguments[1:])
    c.log("tar", tar.name, names, [str(a) for a in arguments[1:]])
    c.count("tar")
    work_before = snapshot(work)
    os.chdir(c.rng.choice([work, "/", c.dir]))
    before = snapshot(c.dir)
    tmp_before = snapshot(os.environ["TMPDIR"])
    stdout = run_command(tar_gz_to_zip, arguments)
    after = snapshot(work)
    made = after.pop(output.name, None)
    work_before.pop(output.name, None)
    c.check(made is not None and made[0] == "file", "the zip file", output, sorted(after))
    c.same(after, work_before, "other files in the directory")
    everything = snapshot(c.dir)
    name = f"work/{output.name}"
    everything.pop(name, None)
    before.pop(name, None)
    c.same(everything, before, "files anywhere else")
    c.same(snapshot(os.environ["TMPDIR"]), tmp_before, "temporary files")
    with ZipFile(output) as archive:
        c.eq(len(set(archive.namelist())), len(want), "number of names", archive.namelist(), list(want))
        c.check(len(archive.namelist()) <= len(want) + len(updated), "number of entries",
                archive.namelist(), list(want))
        c.same({n: archive.read(n) for n in archive.namelist()}, want, "content of the zip file")
        c.check(archive.testzip() is None, "archive is intact")
    for k in (large if omit else ()):
        c.check(k in stdout, "omitted files are reported", k, stdout)


@PROP.scenario(quick=600)
def texts_at_offsets(c):
    text = gen.text(c.rng, 60, extra="\r") * c.rng.choice([1, 1, 200])
    text += c.rng.choice(["", "\n", "\U0001f600", "e\u0301"])
    if not text:
        text = "x"
    if c.i % 100 == 50:
        # larger than any buffer
        c.count("large text")
        text = (text * (1 + 1_100_000 // len(text))) + "end"
    if any(ord(x) > 0xffff for x in text):
        c.count("astral")
    file = Path(write(str(c.dir / "text"), text))
    start = c.rng.randrange(len(text))
    end = c.rng.choice([start + 1, len(text), c.rng.randint(start + 1, len(text))])
    c.log("text", text[:300], len(text), start, end)
    c.count("text")
    got = run_command(text_at_offsets, [file, start, end])
    c.eq(got, text[start:end] + "\n", "text printed", start, end)
    c.same(snapshot(c.dir), {"text": ("file", text.encode("utf-8"))}, "files")
    if c.rng.random() < 0.2:
        # whatever is printed, the user gets to know
        c.count("out_of_bounds")
        bad = c.rng.choice([(len(text), len(text) + 1), (0, len(text) + 1), (start, start), (-1, 1),
                            (-len(text), len(text)), (len(text), len(text) + 9), (-2, -1)])
        got = run_command(text_at_offsets, [file, *bad])
        c.check("out-of-bounds" in got, "illegal offsets are reported", bad, len(text), got)


@PROP.scenario(quick=60)
def failing_file_operations(c):
    """Errors of the operating system are reported, or the outputs are right all the same."""
    warnings.simplefilter("ignore")
    content = {f"f{i}": gen.data(c.rng) * c.rng.choice([1, 500]) for i in range(c.rng.choice([0, 1, 5]))}
    kind = c.rng.choice(["downsample", "directory", "tar", "offsets"])
    out = c.dir / "out"
    c.log(kind, content)
    c.count("faulty_" + kind)
    if kind == "downsample":
        source = make_input(c, content)
        params = {"input": source, "num_to_sample": 3, "output_zip_path": str(out)}

        def run():
            downsample_key_value_store.main(Parameters.from_mapping(params))

        def verify(_):
            check_sample(c, read_zip(c, out), content, 3)
    elif kind == "directory":
        (c.dir / "in").mkdir()
        for k, v in content.items():
            write(str(c.dir / "in" / k), v)

        def run():
            directory_to_key_value_store.main(Parameters.from_mapping(
                {"input_directory": str(c.dir / "in"), "output": {"type": "zip", "path": str(out)}}))

        def verify(_):
            c.same(read_zip(c, out), content, "store")
    elif kind == "tar":
        make_tgz(c.dir / "x.tgz", content.items())
        arguments = [c.dir / "x.tgz"] + c.rng.choice([[], ["--dont-stream"]])

        def run():
            run_command(tar_gz_to_zip, arguments)

        def verify(_):
            with ZipFile(c.dir / "x.zip") as archive:
                c.same({n: archive.read(n) for n in archive.namelist()}, content, "content of the zip file")
    else:
        write(str(c.dir / "text"), "some text\n" * 900)

        def run():
            return run_command(text_at_offsets, [c.dir / "text", 7000, 7009])

        def verify(printed):
            c.eq(printed, "some text\n", "text printed")
    monitors.never_silent(c, run, verify)
