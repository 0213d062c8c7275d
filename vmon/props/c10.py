import copy
import gzip
import io
import os
import re
import tarfile
import warnings
from pathlib import Path
from zipfile import ZipFile

from vistautils.io_utils import ByteSink, ByteSource, CharSink, CharSource

from vmon import gen, monitors
from vmon.engine import Property
from vmon.fsutil import make_gz, make_tgz, make_zip, snapshot, write

PROP = Property(
    "C10",
    scale=5,
    rule="Random texts and byte strings (empty, with only newlines, without final newline, all kinds of "
    "Unicode line breaks, astral characters, larger than buffers) written through every sink at once, "
    "in pieces or by writelines, rewritten, several entries per zip; then read through every matching "
    "source in every way, repeatedly and by interleaved readers. The directory is compared with the "
    "files expected.",
    required=["corrected", "described", "missing_entry", "char_source:string", "char_source:file", "char_source:gzip", "char_source:tgz",
              "char_source:zip", "char_source:open_zip", "char_source:bytes", "byte_source:file",
              "byte_source:zip", "byte_source:open_zip", "encoding", "empty", "buffer", "nowhere",
              "rewrite", "parents", "several_entries", "large", "sized_read", "big_text", "big_data",
              "several_gzip_members", "tar_name_encoding", "many_entries", "shrunk", "through_link",
              "link_in_tar", "outdated_in_tar", "sparse", "not_encodable", 
              "odd_name", "odd_member", "faulty_sink", "faulty_source", "fault_reported"],
    assumptions=[
        "line breaks of texts are newlines (carriage returns are translated by Python's text files)",
        "emptiness of gzipped text is not asked for encodings which begin with a byte order mark",
    ],
    files=["vistautils/io_utils.py"],
)


def lines_of(text):
    ret = text.split("\n")
    if ret[-1] == "":
        ret.pop()
    return ret


def pieces(rng, x, size):
    at = 0
    while at < len(x):
        n = rng.randint(1, size)
        yield x[at:at + n]
        at += n


def check_char_source(c, kind, source, text, *, emptiness=True):
    c.count("char_source:" + kind)
    c.check(isinstance(source, CharSource), "a CharSource", source)
    todo = ["read_all", "readlines", "is_empty", "open", "partial", "interleaved", "by_line", "describe"]
    for what in gen.shuffled(c.rng, todo + c.rng.sample(todo, 2)):
        if what == "read_all":
            c.same(source.read_all(), text, f"read_all ({kind})")
        elif what == "readlines":
            c.same(source.readlines(), lines_of(text), f"readlines ({kind})", text)
        elif what == "is_empty" and emptiness:
            c.eq(source.is_empty(), text == "", f"is_empty ({kind})", text)
        elif what == "open":
            with source.open() as inp:
                got = list(inp)
            c.same("".join(got), text, f"iterated lines ({kind})")
            c.eq([x.rstrip("\n") for x in got], lines_of(text), f"iterated lines ({kind})")
        elif what == "describe":
            # looking at a source or copying it is no way of changing it
            c.count("described")
            repr(source), str(source), hash(source), source == copy.copy(source)
            if c.rng.random() < 0.3:
                source = copy.copy(source)
        elif what == "by_line":
            with source.open() as inp:
                got = inp.readline()
                c.same(got, text[:text.index("\n") + 1] if "\n" in text else text, f"first line ({kind})")
                k = c.rng.choice([0, 1, 3])
                more = inp.read(k)
                c.same(more, text[len(got):][:k], f"after the first line ({kind})")
                c.same(got + more + "".join(inp.readlines()), text, f"other lines ({kind})")
        elif what == "partial":
            n = c.rng.choice([0, 1, 2, 5, len(text), len(text) + 1, 9000])
            with source.open() as inp:
                first = inp.read(n)
                c.same(first, text[:n], f"prefix ({kind})", n)
                c.same(first + inp.read(), text, f"rest ({kind})", n)
                c.same(inp.read(), "", f"after the end ({kind})")
        elif what == "interleaved":
            with source.open() as a:
                x = a.read(3)
                with source.open() as b:
                    y = b.read(2)
                    x += a.read()
                y_rest = source.read_all()[2:]
            c.same(x, text, f"interleaved readers ({kind})")
            c.same(y + y_rest, text, f"interleaved readers ({kind})")


def check_byte_source(c, kind, source, data):
    c.count("byte_source:" + kind)
    c.check(isinstance(source, ByteSource), "a ByteSource", source)
    for _ in range(2):
        if c.rng.random() < 0.5:
            repr(source), str(source), hash(source), source == copy.copy(source)
        c.same(source.read(), data, f"read ({kind})")
        n = c.rng.choice([0, 1, 3, len(data) // 2, len(data), len(data) + 5])
        c.count("sized_read")
        c.same(source.read(n), data[:n], f"read({n}) ({kind})")
        c.same(source.read(size=-1), data, f"read(-1) ({kind})")
        with source.open() as a:
            x = a.read(n)
            with source.open() as b:
                c.same(b.read(), data, f"second reader ({kind})")
            c.same(x + a.read(), data, f"incremental ({kind})", n)
    if hasattr(source, "is_empty"):
        c.eq(source.is_empty(), data == b"", f"is_empty ({kind})")
    # as text, whatever it is
    c.same(CharSource.from_byte_source(source, encoding="latin-1").read_all(),
           data.decode("latin-1").replace("\r\n", "\n").replace("\r", "\n"), f"decoded ({kind})")


def write_text(c, sink, text):
    way = c.rng.choice(["write", "pieces", "writelines", "print", "closed", "corrected"])
    c.log("write text", way, len(text))
    if way == "write":
        sink.write(text)
        return
    if way == "closed":
        c.count("closed without with")
        out = sink.open()
        out.write(text)
        out.close()
        out.close()
        return
    with sink.open() as out:
        if way == "pieces":
            for piece in pieces(c.rng, text, c.rng.choice([1, 7, 5000])):
                out.write(piece)
                if c.rng.random() < 0.05:
                    out.flush()
        elif way == "writelines":
            out.writelines(text.splitlines(True))
        elif way == "corrected" and out.seekable():
            # a placeholder, which is filled in at the end
            spans = [m.span() for m in re.finditer("[ -~]+", text)] or [(0, 0)]
            start, end = c.rng.choice(spans)
            out.write(text[:start])
            place = out.tell()
            out.write("?" * (end - start) + text[end:])
            c.count("corrected")
            out.seek(place)
            out.write(text[start:end])
        else:
            print(text, end="", file=out)


def write_data(c, sink, data):
    way = c.rng.choice(["write", "pieces", "writelines", "closed", "corrected"])
    c.log("write data", way, len(data))
    if way == "write":
        sink.write(data)
        return
    if way == "closed":
        c.count("closed without with")
        out = sink.open()
        out.write(data)
        out.close()
        return
    with sink.open() as out:
        if way == "pieces":
            for piece in pieces(c.rng, data, c.rng.choice([1, 7, 5000])):
                out.write(piece)
        elif way == "corrected" and out.seekable():
            end = c.rng.randint(0, min(len(data), 50))
            out.write(b"?" * end + data[end:])
            c.count("corrected")
            out.seek(0)
            out.write(data[:end])
        else:
            out.writelines(list(pieces(c.rng, data, 50)))


def random_text(c):
    kind = c.rng.randint(0, 9)
    if kind == 0:
        ret = ""
    elif kind == 1:
        ret = "\n" * c.rng.randint(1, 4)
    elif kind == 2:
        ret = gen.text(c.rng) + "\n"
    elif kind == 3:
        c.count("large")
        ret = gen.text(c.rng, 60) * c.rng.choice([200, 1500])
    else:
        ret = "\n".join(gen.text(c.rng, newlines=False) for _ in range(c.rng.randint(1, 5)))
    if c.rng.random() < 0.15:
        # characters which might be taken for padding or markers
        ret = c.rng.choice(["\0", "\ufeff", "\x1a", " ", "\0\0"]).join(
            [ret[:1], ret[1:], ""][:c.rng.randint(1, 3)])
    if not ret:
        c.count("empty")
    return ret


def random_data(c):
    ret = gen.data(c.rng)
    if c.rng.random() < 0.1:
        c.count("large")
        ret *= 700
    if c.rng.random() < 0.1:
        ret = bytes(c.rng.choice(b"\r\n\x00\xff") for _ in range(c.rng.randint(1, 20)))
    return ret


@PROP.scenario(quick=500)
def text_files(c):
    text = random_text(c)
    c.log("text", text)
    parents = c.rng.choice([(), ("a",), ("a", "b c", "\u00e9")] * 5 + [tuple("abc" * 20)])
    if parents:
        c.count("parents")
    path = c.dir.joinpath(*parents, c.rng.choice(["x", "x.txt", "\u4e2d", "a b"]))
    if c.rng.random() < 0.4:
        c.count("odd_name")
        path = c.dir.joinpath(*parents, gen.odd_name(c.rng, lines=True, slashes=True))
        c.log("path", path)
    sink = CharSink.to_file(c.rng.choice([path, str(path)]))
    if c.rng.random() < 0.5:
        c.count("rewrite")
        sink.write(random_text(c))
    write_text(c, sink, text)
    c.eq(path.read_bytes(), text.encode("utf-8"), "file content")
    c.eq({k: v for k, v in snapshot(c.dir).items() if v[0] != "dir"},
         {str(path.relative_to(c.dir)): ("file", text.encode("utf-8"))}, "files written")
    check_char_source(c, "file", CharSource.from_file(c.rng.choice([path, str(path)])), text)
    source = ByteSource.from_file(path)
    check_byte_source(c, "file", source, text.encode("utf-8"))
    c.count("encoding")
    check_char_source(c, "bytes", CharSource.from_byte_source(source), text)
    # an existing source sees what is written later
    later = random_text(c)
    another = CharSource.from_file(path)
    write_text(c, sink, later)
    c.same(another.read_all(), later, "later content")


@PROP.scenario(quick=500)
def strings_and_buffers(c):
    text = random_text(c)
    c.log("text", text)
    check_char_source(c, "string", CharSource.from_string(text), text)
    check_char_source(c, "string", CharSource.from_nowhere(), "")
    sink = CharSink.to_string()
    c.check(sink.last_string_written is None, "nothing was written yet", sink.last_string_written)
    if c.rng.random() < 0.5:
        c.count("rewrite")
        write_text(c, sink, random_text(c))
    write_text(c, sink, text)
    c.same(sink.last_string_written, text, "last_string_written")
    sink_of_text = sink
    check_char_source(c, "string", CharSource.from_string(sink.last_string_written), text)
    data = random_data(c)
    c.log("data", data)
    c.count("buffer")
    sink = ByteSink.to_buffer()
    other = ByteSink.to_buffer()
    c.check(sink.last_bytes_written is None, "nothing was written yet", sink.last_bytes_written)
    write_data(c, other, b"other")
    if c.rng.random() < 0.5:
        c.count("rewrite")
        write_data(c, sink, random_data(c))
    write_data(c, sink, data)
    c.same(sink.last_bytes_written, data, "last_bytes_written")
    c.same(other.last_bytes_written, b"other", "another sink")
    c.count("nowhere")
    nowhere = CharSink.to_nowhere()
    before = snapshot(c.dir)
    odd = c.rng.choice(["\ud800", "\r\n\r", "\0", "\udcff\n" * 3])
    nowhere.write(odd)
    odd = "x" + odd + c.rng.choice(["", "a\rb", "\r\n", "\n\r"])
    check_char_source(c, "string", CharSource.from_string(odd), odd)
    with sink_of_text.open() as out:
        out.write(odd)
    c.same(sink_of_text.last_string_written, odd, "last_string_written")
    for _ in range(3):
        write_text(c, nowhere, text)
    with nowhere.open() as out:
        out.write(text)
        out.flush()
        out.close()
    c.eq(snapshot(c.dir), before, "nothing is left by a discarding sink")


ENCODINGS = ["utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-32-be", "latin-1", "cp1252", "ascii",
             "shift_jis", "cp437", "koi8-r", "gb18030"]


def encodable(text, encoding):
    return text.encode(encoding, "ignore").decode(encoding)


@PROP.scenario(quick=500)
def archives_of_text(c):
    encoding = c.rng.choice(["utf-8"] + ENCODINGS)
    text = encodable(random_text(c), encoding)
    if text.startswith("\ufeff"):
        text = text.lstrip("\ufeff")
    data = text.encode(encoding)
    c.log("text", encoding, text)
    has_mark = data != "".join(text).encode(encoding.replace("utf-8-sig", "utf-8")) or encoding in (
        "utf-16", "utf-32")
    gz = c.dir / c.rng.choice(["x.gz", "x.gz", "x", "X.GZ", gen.odd_name(c.rng, lines=True)])
    make_gz(gz, data)
    source = CharSource.from_gzipped_file(gz, encoding=encoding)
    check_char_source(c, "gzip", source, text, emptiness=not (has_mark and text == ""))
    if encoding == "utf-8":
        check_char_source(c, "gzip", CharSource.from_gzipped_file(gz), text)
    names = c.rng.sample(["a", "dir/b", "dir/sub/c.txt", "\u00e9", "a b"], 3)
    if c.rng.random() < 0.5:
        c.count("odd_member")
        names[0] = gen.odd_name(c.rng, lines=True, slashes=True)
        if c.rng.random() < 0.2:
            names[1] = c.rng.choice(["./x1", "../x1", "/x1", "a/../x1", "a//x1", names[0] + " ", " " + names[0]])
    contents = {n: random_text(c) for n in names}
    wanted = c.rng.choice(names)
    members = [("dir", None), ("dir/sub", None)] + [
        (n, data if n == wanted else t.encode("utf-8")) for n, t in contents.items()
    ]
    tgz = c.dir / c.rng.choice(["x.tgz", "x.tgz", "x.tar.gz", "x1", gen.odd_name(c.rng, lines=True) + "1"])
    make_tgz(tgz, members)
    if encoding in ("utf-8", "ascii", "latin-1", "cp1252", "koi8-r") and wanted.isascii() and all(
        n.isascii() for n in names
    ):
        check_char_source(c, "tgz", CharSource.from_file_in_tgz(tgz, wanted, encoding=encoding), text)
    missing = c.rng.choice(["missing", "dir/c.txt", "b", "", names[0] + "x", names[0][:-1], names[0] + "/x"])
    if missing.rstrip("/") not in contents:  # a final slash is no part of the name of a member
        c.count("missing_entry")
        reads = c.rng.choice([CharSource.read_all, CharSource.is_empty, CharSource.readlines])
        c.raises(Exception, lambda: reads(CharSource.from_file_in_tgz(tgz, missing)), "missing member",
                 missing, names)
    if encoding == "utf-8":
        for n in names:
            check_char_source(c, "tgz", CharSource.from_file_in_tgz(tgz, n),
                              text if n == wanted else contents[n])
    plain = c.dir / "plain"
    write(plain, data)
    c.count("encoding")
    check_char_source(
        c, "bytes", CharSource.from_byte_source(ByteSource.from_file(plain), encoding=encoding), text,
        emptiness=True,
    )


@PROP.scenario(quick=500)
def entries_of_zip_files(c):
    warnings.simplefilter("ignore")
    zip_path = c.dir / c.rng.choice(["x.zip", "y", gen.odd_name(c.rng, lines=True)])
    names = c.rng.sample(["a", "dir/b", "dir/sub/c.txt", "\u00e9", "a b", "__keys", "A"],
                         c.rng.randint(1, 5))
    if c.rng.random() < 0.6:
        c.count("odd_member")
        names += list({gen.odd_name(c.rng, lines=True, slashes=True) for _ in range(3)} - set(names))
        if c.rng.random() < 0.2:
            names += ["./x1", "../x1", "/x1", "a/../x1", "a//x1"]
    contents = {}
    if c.rng.random() < 0.3:
        contents["before"] = b"something"
        make_zip(zip_path, contents.items())
    for name in names:
        as_text = c.rng.random() < 0.5
        data = random_text(c).encode("utf-8") if as_text else random_data(c)
        sink = ByteSink.file_in_zip(zip_path, name)
        if c.rng.random() < 0.1:
            c.count("rewrite")
            write_data(c, sink, random_data(c))
        write_data(c, sink, data)
        contents[name] = data
    c.log("entries", {k: len(v) for k, v in contents.items()})
    if len(contents) > 1:
        c.count("several_entries")
    c.eq(set(snapshot(c.dir)), {zip_path.name}, "files written")

    def check_all(zip_file, suffix):
        for name, data in contents.items():
            check_byte_source(c, suffix, ByteSource.from_file_in_zip(zip_file, name), data)
            try:
                text = data.decode("utf-8")
            except UnicodeDecodeError:
                continue
            text = text.replace("\r\n", "\n").replace("\r", "\n")
            check_char_source(c, suffix, CharSource.from_file_in_zip(zip_file, name), text)

    check_all(zip_path, "zip")
    with ZipFile(zip_path) as opened:
        check_all(opened, "open_zip")
        c.eq(set(opened.namelist()), set(contents), "entries")
        name = c.rng.choice(list(contents))
        missing = c.rng.choice(["missing", "b", "", name + "x", name[:-1], name + "/", name.swapcase()])
        if missing not in contents:
            c.count("missing_entry")
            for zip_file in (zip_path, opened):
                c.raises(Exception, lambda: ByteSource.from_file_in_zip(zip_file, missing).read(),
                         "missing entry", missing, names)
                c.raises(Exception, lambda: CharSource.from_file_in_zip(zip_file, missing).is_empty(),
                         "missing entry", missing, names)


def make_gz_members(c, path, data):
    """A gzip file which is the concatenation of several ones, as made by appending."""
    cuts = sorted(c.rng.randint(0, len(data)) for _ in range(c.rng.randint(1, 3)))
    with open(path, "wb") as out:
        for a, b in zip([0] + cuts, cuts + [len(data)]):
            out.write(gzip.compress(data[a:b], compresslevel=c.rng.choice([0, 1, 9])))


@PROP.scenario(quick=40)
def tars_in_other_encodings(c):
    """The encoding given for a file in a tar file is also that of its name."""
    encoding = c.rng.choice(["latin-1", "cp1252", "utf-8", "koi8-r"])
    text = encodable(random_text(c), encoding)
    name = encodable("d/" + gen.text(c.rng, 6, newlines=False).replace("/", "").replace("\0", "").strip() + "\u00e9\u0436x",
                     encoding)
    tgz = c.dir / "x.tgz"
    with tarfile.open(tgz, "w:gz", format=tarfile.GNU_FORMAT, encoding=encoding) as out:
        info = tarfile.TarInfo(name)
        data = text.encode(encoding)
        info.size = len(data)
        out.addfile(info, io.BytesIO(data))
    c.log("tar", encoding, name, text)
    c.count("tar_name_encoding")
    check_char_source(c, "tgz", CharSource.from_file_in_tgz(tgz, name, encoding=encoding), text)


@PROP.scenario(quick=40)
def links_in_tars(c):
    """A link within a tar file is read as what it leads to; a later version replaces an earlier one."""
    text = c.rng.choice(["", random_text(c)])
    data = text.encode("utf-8")
    tgz = c.dir / "x.tgz"
    target, link, way = c.rng.choice([("a", "b", "a"), ("d/a", "d/b", "a"), ("d/a", "e/b", "../d/a")])
    kind = c.rng.choice([tarfile.SYMTYPE, tarfile.LNKTYPE])
    info = tarfile.TarInfo(link)
    info.type = kind
    info.linkname = target if kind == tarfile.LNKTYPE else way
    members = [("other", b"other")]
    if c.rng.random() < 0.3:
        c.count("outdated_in_tar")
        members.append((target, random_text(c).encode("utf-8")))
    members += [(target, data), ("other2", b""), (info, None)]
    make_tgz(tgz, members)
    c.log("tar", target, link, kind, text)
    c.count("link_in_tar")
    check_char_source(c, "tgz", CharSource.from_file_in_tgz(tgz, target), text)
    check_char_source(c, "tgz", CharSource.from_file_in_tgz(tgz, link), text)


@PROP.scenario(quick=20)
def unusual_files(c):
    """Files which do not tell by their size or blocks whether there is something in them."""
    path = c.dir / "sparse"
    size = c.rng.choice([0, 1, 5000, 70_000])
    with open(path, "wb") as out:
        out.truncate(size)
    c.log("sparse", size)
    c.count("sparse")
    check_char_source(c, "file", CharSource.from_file(path), "\0" * size)
    check_byte_source(c, "file", ByteSource.from_file(path), b"\0" * size)
    for name in ("/proc/version", "/proc/filesystems", "/proc/self/cmdline"):
        try:
            data = Path(name).read_bytes()
            text = data.decode("utf-8")
        except (OSError, UnicodeError):
            continue
        if "\r" in text:
            continue
        c.log("system file", name)
        check_char_source(c, "file", CharSource.from_file(name), text)
        check_byte_source(c, "file", ByteSource.from_file(Path(name)), data)


@PROP.scenario(quick=60)
def text_which_cannot_be_encoded(c):
    """Text with lone surrogates has no encoding: it is rejected rather than written altered."""
    text = random_text(c)
    at = c.rng.randint(0, len(text))
    text = text[:at] + c.rng.choice(["\ud800", "\udcff", "\udfff\ud801"]) + text[at:]
    c.log("text", text)
    c.count("not_encodable")
    path = c.dir / "x"
    c.raises(ValueError, lambda: CharSink.to_file(path).write(text), "text which cannot be encoded", text)
    if path.exists():
        c.check(path.read_bytes() in [text[:n].encode("utf-8", "ignore") for n in range(at + 1)],
                "nothing but the text before", path.read_bytes(), text)

    def incrementally():
        with CharSink.to_file(path).open() as out:
            for piece in pieces(c.rng, text, 9):
                out.write(piece)

    c.raises(ValueError, incrementally, "text which cannot be encoded, in pieces", text)
    sink = CharSink.to_string()
    write_text(c, sink, text)
    c.same(sink.last_string_written, text, "a string can have it")
    check_char_source(c, "string", CharSource.from_string(text), text)


@PROP.scenario(quick=60)
def gzip_of_several_members(c):
    text = random_text(c)
    gz = c.dir / "x.gz"
    data = text.encode("utf-8")
    make_gz_members(c, gz, data)
    c.log("gzip", text)
    c.count("several_gzip_members")
    check_char_source(c, "gzip", CharSource.from_gzipped_file(gz), text)


@PROP.scenario(quick=9, thorough=150)
def big_contents(c):
    """Contents larger than all buffers, characters across their boundaries, in all sources and sinks."""
    warnings.simplefilter("ignore")
    text = gen.big_text(c.rng)
    data = gen.big_data(c.rng)
    c.log("big", len(text), len(data))
    c.count("big_text")
    c.count("big_data")
    path = c.dir / "d" / "f"
    sink = CharSink.to_file(path)
    if c.rng.random() < 0.5:
        sink.write("x" * 3_000_000)
        c.count("shrunk")
    write_text(c, sink, text)
    encoded = text.encode("utf-8")
    c.same(path.read_bytes(), encoded, "file content")
    check_char_source(c, "file", CharSource.from_file(path), text)
    check_byte_source(c, "file", ByteSource.from_file(path), encoded)
    check_char_source(c, "bytes", CharSource.from_byte_source(ByteSource.from_file(path)), text)
    string = CharSink.to_string()
    write_text(c, string, text)
    c.same(string.last_string_written, text, "string written")
    check_char_source(c, "string", CharSource.from_string(text), text)
    gz = c.dir / "x.gz"
    (make_gz_members if c.rng.random() < 0.5 else lambda _c, p, d: make_gz(p, d))(c, gz, encoded)
    check_char_source(c, "gzip", CharSource.from_gzipped_file(gz), text)
    make_tgz(c.dir / "x.tgz", [("a", data), ("b", encoded), ("c", b"c")])
    check_char_source(c, "tgz", CharSource.from_file_in_tgz(c.dir / "x.tgz", "b"), text)
    binary = c.dir / "binary"
    out = ByteSink.to_file(binary)
    if c.rng.random() < 0.5:
        out.write(b"x" * 3_000_000)
    write_data(c, out, data)
    check_byte_source(c, "file", ByteSource.from_file(binary), data)
    buffer = ByteSink.to_buffer()
    write_data(c, buffer, data)
    c.same(buffer.last_bytes_written, data, "bytes written")
    zip_path = c.dir / "x.zip"
    for name, content in (("data", data), ("text", encoded)):
        write_data(c, ByteSink.file_in_zip(zip_path, name), content)
    check_byte_source(c, "zip", ByteSource.from_file_in_zip(zip_path, "data"), data)
    check_char_source(c, "zip", CharSource.from_file_in_zip(zip_path, "text"), text)
    with ZipFile(zip_path) as opened:
        check_byte_source(c, "open_zip", ByteSource.from_file_in_zip(opened, "data"), data)
        check_char_source(c, "open_zip", CharSource.from_file_in_zip(opened, "text"), text)


@PROP.scenario(quick=4, thorough=40)
def many_entries(c):
    """Many sources which are open at once, and many entries."""
    warnings.simplefilter("ignore")
    n = c.rng.choice([100, 400])
    contents = {f"d{i % 3}/e{i}": b"entry %d" % i for i in range(n)}
    zip_path = c.dir / "x.zip"
    c.log("entries", n)
    for name, content in contents.items():
        ByteSink.file_in_zip(zip_path, name).write(content)
    c.count("many_entries", n)
    with ZipFile(zip_path) as opened:
        c.same({k: opened.read(k) for k in opened.namelist()}, contents, "entries")
        readers = {k: ByteSource.from_file_in_zip(opened, k).open() for k in contents}
        for k in gen.shuffled(c.rng, readers):
            c.same(readers[k].read(), contents[k], "one of many open entries", k)
            readers[k].close()
    for k in c.rng.sample(sorted(contents), 20):
        c.same(CharSource.from_file_in_zip(zip_path, k).read_all(), contents[k].decode("ascii"), "entry", k)
    lines = [f"{i}{c.rng.choice(['', ' ', chr(0x2028), chr(0x85)])}" for i in range(20_000)]
    CharSink.to_file(c.dir / "lines").write("\n".join(lines))
    c.same(CharSource.from_file(c.dir / "lines").readlines(), lines, "many lines")


@PROP.scenario(quick=60)
def linked_files(c):
    """Writing to a link writes the file it leads to, as for any program."""
    target = c.dir / "t" / "target"
    target.parent.mkdir()
    link = c.dir / "link"
    old = random_data(c)
    if c.rng.random() < 0.6:
        write(target, old)
    link.symlink_to(c.rng.choice([target, Path("t") / "target"]))
    c.count("through_link")
    c.log("link", target.exists())
    if c.rng.random() < 0.5:
        text = random_text(c)
        CharSink.to_file(link).write(text)
        data = text.encode("utf-8")
        check_char_source(c, "file", CharSource.from_file(link), text)
    else:
        data = random_data(c)
        ByteSink.to_file(link).write(data)
    c.check(link.is_symlink(), "the link is still there")
    c.same(target.read_bytes(), data, "what the link leads to")
    check_byte_source(c, "file", ByteSource.from_file(link), data)


@PROP.scenario(quick=300)
def binary_files(c):
    data = random_data(c)
    parents = c.rng.choice([(), ("p",), ("p", "q")])
    path = c.dir.joinpath(*parents, "f")
    if c.rng.random() < 0.4:
        c.count("odd_name")
        path = c.dir.joinpath(*parents, gen.odd_name(c.rng, lines=True, slashes=True))
        c.log("path", path)
    if parents:
        c.count("parents")
    c.log("data", data, parents)
    sink = ByteSink.to_file(path)
    if c.rng.random() < 0.5:
        c.count("rewrite")
        write_data(c, sink, random_data(c))
    write_data(c, sink, data)
    c.eq({k: v for k, v in snapshot(c.dir).items() if v[0] != "dir"},
         {str(path.relative_to(c.dir)): ("file", data)}, "files written")
    check_byte_source(c, "file", ByteSource.from_file(path), data)
    name = c.rng.choice(["x", gen.odd_name(c.rng, lines=True)])
    relative = Path(c.rng.choice(["relative", "~", "-", "Two  Blanks", "relative/..", "./relative"])) / f"{c.i}" / name
    flat = gen.odd_name(c.rng, lines=True, longest=200) + f"{c.i}"
    # relative paths work as well; the worker's current directory is below its scratch directory
    ByteSink.to_file(relative).write(data)
    c.same(ByteSource.from_file(relative).read(), data, "relative path")
    c.same(relative.read_bytes(), data, "file at a relative path")
    CharSink.to_file(flat).write("x")
    c.check(flat in os.listdir("."), "a file of this name", flat)
    c.same(CharSource.from_file(flat).read_all(), "x", "name without directory")
    Path(flat).unlink()
    relative.unlink()


@PROP.scenario(quick=150)
def failing_file_operations(c):
    """Errors of the operating system are reported, or what is read and written is right all the same."""
    warnings.simplefilter("ignore")
    text = random_text(c).replace("\ufeff", "")
    data = text.encode("utf-8")
    c.log("text", len(text))
    path, gz, zipped, tgz = c.dir / "x", c.dir / "x.gz", c.dir / "x.zip", c.dir / "x.tgz"
    if c.rng.random() < 0.4:
        out = c.dir / "out"
        kind = c.rng.choice(["chars", "bytes in zip"])
        chosen = list(pieces(c.rng, text, 5000))
        if kind == "chars":
            def run():
                sink = CharSink.to_file(out)
                if c.rng.random() < 0.5:
                    sink.write(text)
                else:
                    with sink.open() as stream:
                        for piece in chosen:
                            stream.write(piece)

            def verify(_):
                c.eq(out.read_bytes(), data, "what was written without an error")
        else:
            def run():
                with monitors.untracked():
                    out.unlink(missing_ok=True)
                ByteSink.file_in_zip(out, "a").write(data)
                with ByteSink.file_in_zip(out, "b").open() as stream:
                    for piece in chosen:
                        stream.write(piece.encode("utf-8"))

            def verify(_):
                with ZipFile(out) as archive:
                    c.eq({n: archive.read(n) for n in archive.namelist()}, {"a": data, "b": data},
                         "what was written without an error")
        c.count("faulty_sink")
        # Python's ZipFile takes an archive it cannot read for a new one
        monitors.never_silent(c, run, verify, kinds=("open", "read", "write") if kind == "chars" else ("write",))
        return
    write(path, data)
    make_gz(gz, data)
    make_zip(zipped, [("a", b"other"), ("k", data)])
    make_tgz(tgz, [("a", b"other"), ("k", data)])
    sources = [
        CharSource.from_file(path), CharSource.from_gzipped_file(gz), CharSource.from_file_in_zip(zipped, "k"),
        CharSource.from_file_in_tgz(tgz, "k"), CharSource.from_byte_source(ByteSource.from_file(path)),
        CharSource.from_byte_source(ByteSource.from_file_in_zip(zipped, "k")),
    ]
    byte_sources = [ByteSource.from_file(path), ByteSource.from_file_in_zip(zipped, "k")]
    c.count("faulty_source")
    for _ in range(3):
        if c.rng.random() < 0.3:
            source = c.rng.choice(byte_sources)
            run, want = c.rng.choice([(source.read, data), (lambda: source.read(7), data[:7])])
        else:
            source = c.rng.choice(sources)

            def in_block():
                with source.open() as stream:
                    return "".join(stream)

            run, want = c.rng.choice([(source.read_all, text), (source.readlines, lines_of(text)),
                                      (source.is_empty, not text), (in_block, text)])
        monitors.never_silent(c, run, lambda got: c.same(got, want, "what was read without an error"))
