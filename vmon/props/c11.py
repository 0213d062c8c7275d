import contextlib
import io
import os
import pickle
import shutil
import sys
import tarfile
import warnings
from pathlib import Path
from zipfile import ZipFile

from vistautils.checkpoints import Checkpoints
from vistautils.io_utils import (
    ByteSink, ByteSource, CharSink, CharSource, file_lines_to_set, read_doc_id_to_file_map,
    write_doc_id_to_file_map,
)
from vistautils.key_value import (
    KeyValueLinearSource, KeyValueSink, KeyValueSource, byte_key_value_source_from_params,
    char_key_value_sink_from_params, char_key_value_source_from_params,
)
from vistautils.logging_utils import configure_logging_from
from vistautils.parameters import Parameters, YAMLParametersLoader, YAMLParametersWriter
from vistautils.scripts import (
    directory_to_key_value_store, downsample_key_value_store, join_key_value_stores,
    split_key_value_store, tar_gz_to_zip, text_at_offsets,
)

from vmon import gen, monitors
from vmon.engine import Property
from vmon.fsutil import make_gz, make_tgz, make_zip, read, write

PROP = Property(
    "C11",
    scale=2,
    rule="A catalogue of operations on sources, sinks, stores, parameters and tools, on good, missing, "
    "corrupt and wrongly encoded input and with failing callbacks and callers, each run without "
    "faults and then with a fault of the operating system injected at every single opening, read and "
    "write (once, and from then on), plus random sessions with several stores at once. Every file "
    "opened is kept alive by the monitor, so that only closing it explicitly counts; descriptors of "
    "the process are compared as well.",
    required=["files_opened", "fault_injected", "completed", "failed", "archive_left_open",
              "open_until_closed", "session"],
    assumptions=["closing a file descriptor does not fail by itself",
                 "generators which the caller abandons are closed by the caller"],
    files=["vistautils/io_utils.py", "vistautils/key_value.py", "vistautils/parameters.py"],
)


class Boom(Exception):
    """Raised by callbacks and callers."""


def boom(*_args, **_kwargs):
    raise Boom()


class Env:
    """Input files (shared by all runs of a case) and a fresh output directory (for each run)."""

    def __init__(self, root):
        self.root = Path(root)
        d = self.root / "in"
        d.mkdir()
        self.text = Path(write(str(d / "text"), "one\ntwo \u00e9\n" + "more\n" * 5000))
        self.not_utf8 = Path(write(str(d / "not_utf8"), b"abc\n\xff\xfe\n" + b"x" * 9000))
        self.missing = d / "missing"
        self.directory = d / "dir"
        self.directory.mkdir()
        self.gz = d / "x.gz"
        make_gz(self.gz, read(self.text))
        self.gz_not_utf8 = d / "bad.gz"
        make_gz(self.gz_not_utf8, read(self.not_utf8))
        self.gz_cut = Path(write(str(d / "cut.gz"), read(self.gz)[:-12]))
        self.gz_rubbish = Path(write(str(d / "rubbish.gz"), b"this is not gzip"))
        members = [("d", None), ("d/a.txt", b"abc\n"), ("d/b.txt", read(self.text)),
                   ("d/bad", read(self.not_utf8))]
        self.tgz = d / "x.tgz"
        make_tgz(self.tgz, members)
        self.tgz_cut = Path(write(str(d / "cut.tgz"), read(self.tgz)[:-30]))
        self.tgz_rubbish = Path(write(str(d / "rubbish.tgz"), b"\x1f\x8b rubbish" * 100))
        self.tgz_empty = d / "empty.tgz"
        make_tgz(self.tgz_empty, [])
        self.tgz_no_file = d / "nofile.tgz"
        make_tgz(self.tgz_no_file, [("d", None)])
        self.zip_empty = d / "empty.zip"
        make_zip(self.zip_empty, [("__keys", b"")])
        self.tar = d / "x.tar"
        make_tgz(self.tar, members, mode="w")
        files = [("k1", b"one"), ("d/k2", read(self.text)), ("k3", b"")]
        self.zip = d / "x.zip"
        make_zip(self.zip, files + [("__keys", b"k1\nd/k2\nk3")])
        self.zip_no_keys = d / "nokeys.zip"
        make_zip(self.zip_no_keys, files)
        self.zip_bad_keys = d / "badkeys.zip"
        make_zip(self.zip_bad_keys, files + [("__keys", b"\xff\xfe\xfd")])
        self.zip_not_utf8 = d / "notutf8.zip"
        make_zip(self.zip_not_utf8, [("k1", b"\xff\xff"), ("__keys", b"k1")])
        self.zip_wrong_key = d / "wrongkey.zip"
        make_zip(self.zip_wrong_key, [("k1", b"x"), ("__keys", b"k1\nabsent")])
        self.zip_rubbish = Path(write(str(d / "rubbish.zip"), b"PK this is no zip file"))
        broken = bytearray(read(self.zip))
        at = broken.index(b"one")
        broken[at:at + 3] = b"eno"
        self.zip_bad_crc = Path(write(str(d / "crc.zip"), bytes(broken)))
        self.map = Path(write(str(d / "map"), f"a\t{self.text}\nb\t{self.not_utf8}\n"))
        self.map_bad = Path(write(str(d / "badmap"), "a b c\nx\ty\tz\n"))
        self.map_dangling = Path(write(str(d / "dangling"), f"a\t{self.missing}\n"))
        self.list = Path(write(str(d / "list"), f"{self.zip}\n#x\n\n{self.zip_no_keys}\n"))
        self.zips = Path(write(str(d / "zips"), f"{self.zip}\n"))
        self.zips_twice = Path(write(str(d / "zips2"), f"{self.zip}\n{self.zip}\n"))
        self.keys = Path(write(str(d / "keys"), "k1\nd/k2\nk3\n"))
        self.keys_absent = Path(write(str(d / "keys2"), "k1\nabsent\n"))
        self.params = Path(write(str(d / "p.params"), "_includes: [q.params]\na: '%b%'\nc: [1, 2]\n"))
        write(str(d / "q.params"), "b: x\nn:\n  m: 1\n")
        self.params_bad = Path(write(str(d / "bad.params"), "a: [1\nb: {"))
        self.params_bad_include = Path(write(str(d / "bi.params"), "_includes: [bad.params]\na: 1\n"))
        self.params_missing_include = Path(write(str(d / "mi.params"), "_includes: [nope]\na: 1\n"))
        self.params_list = Path(write(str(d / "l.params"), "- 1\n- 2\n"))
        self.params_undefined = Path(write(str(d / "u.params"), "a: '%nope%'\n"))
        self.pickle = Path(write(str(d / "pickle"), pickle.dumps({"a": [1, 2]})))
        self.log_config = Path(write(
            str(d / "log.cfg"),
            "[loggers]\nkeys=root\n[handlers]\nkeys=h\n[formatters]\nkeys=\n[logger_root]\n"
            "level=ERROR\nhandlers=h\n[handler_h]\nclass=NullHandler\nargs=()\n"))
        self.out = None
        self.count = 0

    def renew(self):
        if self.out is not None:
            shutil.rmtree(self.out)
        self.count += 1
        self.out = self.root / f"out{self.count}"
        self.out.mkdir()

    def copy_of(self, path):
        target = self.out / ("copy-" + path.name)
        with monitors.untracked():
            shutil.copy(path, target)
        return target


OPS = {}


def op(function):
    OPS[function.__name__] = function
    return function


# ---------------------------------------------------------------- ways to use things

def use_char_source(source):
    def run(e, how):
        if how == "read_all":
            source(e).read_all()
        elif how == "readlines":
            source(e).readlines()
        elif how == "is_empty":
            source(e).is_empty()
        elif how == "partly":
            with source(e).open() as inp:
                inp.read(1)
        elif how == "close":
            inp = source(e).open()
            inp.close()
            inp.close()
        elif how == "close after failure":
            inp = source(e).open()
            try:
                for _ in inp:
                    pass
            finally:
                inp.close()
        elif how == "caller fails":
            with source(e).open() as inp:
                inp.readline()
                boom()
    return ["read_all", "readlines", "is_empty", "partly", "close", "close after failure",
            "caller fails"], run


def use_byte_source(source):
    def run(e, how):
        if how == "read":
            source(e).read()
        elif how == "read 2":
            source(e).read(2)
        elif how == "partly":
            with source(e).open() as inp:
                inp.read(1)
        elif how == "close":
            inp = source(e).open()
            inp.close()
            inp.close()
        elif how == "caller fails":
            with source(e).open() as inp:
                inp.read(1)
                boom()
        elif how == "as text":
            CharSource.from_byte_source(source(e)).read_all()
        elif how == "as text in an unknown encoding":
            CharSource.from_byte_source(source(e), encoding="no-such-encoding").read_all()
    return ["read", "read 2", "partly", "close", "caller fails", "as text",
            "as text in an unknown encoding"], run


def use_char_sink(sink):
    def run(e, how):
        if how == "write":
            sink(e).write("some text\n" * 2000)
        elif how == "write wrong type":
            sink(e).write(b"bytes")
        elif how == "write surrogate":
            sink(e).write("\ud800")
        elif how == "pieces":
            with sink(e).open() as out:
                for _ in range(3):
                    out.write("x" * 7000)
        elif how == "caller fails":
            with sink(e).open() as out:
                out.write("x")
                boom()
        elif how == "close":
            out = sink(e).open()
            out.write("y")
            out.close()
    return ["write", "write wrong type", "write surrogate", "pieces", "caller fails", "close"], run


def use_byte_sink(sink):
    def run(e, how):
        if how == "write":
            sink(e).write(bytes(range(256)) * 60)
        elif how == "write wrong type":
            sink(e).write("text")
        elif how == "pieces":
            with sink(e).open() as out:
                for _ in range(3):
                    out.write(b"x" * 7000)
        elif how == "caller fails":
            with sink(e).open() as out:
                out.write(b"x")
                boom()
        elif how == "close":
            out = sink(e).open()
            out.write(b"y")
            out.close()
    return ["write", "write wrong type", "pieces", "caller fails", "close"], run


def use_store(source):
    """Key-value sources with random access."""
    def run(e, how):
        with source(e) as s:
            if how == "items":
                dict(s.items())
            elif how == "first item":
                items = s.items()
                next(items)
                items.close()
            elif how == "keys":
                list(s.keys() or ())
            elif how == "get":
                for k in ["k1", "d/k2", "a", "absent"]:
                    s.get(k, None)
            elif how == "lookup":
                for k in ["k1", "a", "absent"]:
                    s[k]
            elif how == "caller fails":
                for _ in s.items():
                    boom()
            elif how == "caller fails at once":
                boom()
            elif how == "filter fails":
                for _ in s.items(boom):
                    pass
            elif how == "interpretation fails":
                dict(KeyValueSource.interpret_values(s, boom).items())
            elif how == "nothing":
                pass
    return ["items", "first item", "keys", "get", "lookup", "caller fails", "filter fails",
            "interpretation fails", "nothing"], run


def use_linear(source):
    def run(e, how):
        with source(e) as s:
            if how == "items":
                dict(s.items())
            elif how == "first item":
                items = s.items()
                next(items)
                items.close()
            elif how == "some items, then leave":
                items = s.items()
                next(items)
            elif how == "caller fails":
                for _ in s.items():
                    boom()
            elif how == "caller fails at once":
                boom()
            elif how == "filter fails":
                for _ in s.items(boom):
                    pass
            elif how == "interpretation fails":
                dict(KeyValueLinearSource.interpret_values(s, boom).items())
    return ["items", "first item", "some items, then leave", "caller fails", "caller fails at once",
            "filter fails", "interpretation fails"], run


def use_store_sink(sink, *, text):
    values = ["v", "\u00e9" * 6000, ""] if text else [b"v", bytes(6000), b""]

    def run(e, how):
        with sink(e) as s:
            s.put("n1", values[0])
            if how == "put":
                s["n2"] = values[1]
                s.put("n3", values[2])
            elif how == "caller fails":
                boom()
            elif how == "put twice":
                s.put("n1", values[1])
            elif how == "put nothing":
                s.put("n2", None)
            elif how == "put wrong":
                s.put("n2", 17)
            elif how == "put without key":
                s.put(None, values[0])
    return ["put", "caller fails", "put twice", "put nothing", "put wrong", "put without key"], run


def group(name, kind, **targets):
    for target, function in targets.items():
        hows, run = kind(function)
        for how in hows:
            OPS[f"{name} {target}: {how}"] = lambda e, run=run, how=how: run(e, how)


group(
    "char source", use_char_source,
    file=lambda e: CharSource.from_file(e.text),
    missing_file=lambda e: CharSource.from_file(e.missing),
    directory=lambda e: CharSource.from_file(e.directory),
    not_utf8=lambda e: CharSource.from_file(e.not_utf8),
    gz=lambda e: CharSource.from_gzipped_file(e.gz),
    gz_missing=lambda e: CharSource.from_gzipped_file(e.missing),
    gz_not_utf8=lambda e: CharSource.from_gzipped_file(e.gz_not_utf8),
    gz_cut=lambda e: CharSource.from_gzipped_file(e.gz_cut),
    gz_rubbish=lambda e: CharSource.from_gzipped_file(e.gz_rubbish),
    gz_unknown_encoding=lambda e: CharSource.from_gzipped_file(e.gz, "no-such-encoding"),
    tgz=lambda e: CharSource.from_file_in_tgz(e.tgz, "d/b.txt"),
    tgz_missing=lambda e: CharSource.from_file_in_tgz(e.missing, "d/b.txt"),
    tgz_missing_entry=lambda e: CharSource.from_file_in_tgz(e.tgz, "nope"),
    tgz_directory=lambda e: CharSource.from_file_in_tgz(e.tgz, "d"),
    tgz_not_utf8=lambda e: CharSource.from_file_in_tgz(e.tgz, "d/bad"),
    tgz_unknown_encoding=lambda e: CharSource.from_file_in_tgz(e.tgz, "d/b.txt", "no-such-encoding"),
    tgz_cut=lambda e: CharSource.from_file_in_tgz(e.tgz_cut, "d/b.txt"),
    tgz_rubbish=lambda e: CharSource.from_file_in_tgz(e.tgz_rubbish, "d/b.txt"),
    zip=lambda e: CharSource.from_file_in_zip(e.zip, "d/k2"),
    zip_missing=lambda e: CharSource.from_file_in_zip(e.missing, "k1"),
    zip_missing_entry=lambda e: CharSource.from_file_in_zip(e.zip, "nope"),
    zip_not_utf8=lambda e: CharSource.from_file_in_zip(e.zip_not_utf8, "k1"),
    zip_rubbish=lambda e: CharSource.from_file_in_zip(e.zip_rubbish, "k1"),
    zip_bad_crc=lambda e: CharSource.from_file_in_zip(e.zip_bad_crc, "k1"),
    bytes_unknown_encoding=lambda e: CharSource.from_byte_source(
        ByteSource.from_file_in_zip(e.zip, "k1"), encoding="no-such-encoding"),
)
group(
    "byte source", use_byte_source,
    file=lambda e: ByteSource.from_file(e.text),
    missing_file=lambda e: ByteSource.from_file(e.missing),
    zip=lambda e: ByteSource.from_file_in_zip(e.zip, "d/k2"),
    zip_missing_entry=lambda e: ByteSource.from_file_in_zip(e.zip, "nope"),
    zip_rubbish=lambda e: ByteSource.from_file_in_zip(e.zip_rubbish, "k1"),
    zip_bad_crc=lambda e: ByteSource.from_file_in_zip(e.zip_bad_crc, "k1"),
)
group(
    "char sink", use_char_sink,
    file=lambda e: CharSink.to_file(e.out / "a" / "b"),
    directory=lambda e: CharSink.to_file(e.out),
    string=lambda e: CharSink.to_string(),
)
group(
    "byte sink", use_byte_sink,
    file=lambda e: ByteSink.to_file(e.out / "a" / "b"),
    new_zip=lambda e: ByteSink.file_in_zip(e.out / "new.zip", "x"),
    old_zip=lambda e: ByteSink.file_in_zip(e.copy_of(e.zip), "x"),
    no_zip=lambda e: ByteSink.file_in_zip(e.copy_of(e.zip_rubbish), "x"),
    zip_in_missing_directory=lambda e: ByteSink.file_in_zip(e.out / "no" / "x.zip", "x"),
)
group(
    "store", use_store,
    zip_text=lambda e: KeyValueSource.zip_character_source(e.zip),
    zip_bytes=lambda e: KeyValueSource.zip_bytes_source(e.zip),
    zip_missing=lambda e: KeyValueSource.zip_bytes_source(e.missing),
    zip_no_keys=lambda e: KeyValueSource.zip_bytes_source(e.zip_no_keys),
    zip_bad_keys=lambda e: KeyValueSource.zip_bytes_source(e.zip_bad_keys),
    zip_keys_function_fails=lambda e: KeyValueSource.zip_bytes_source(e.zip, keys_function=boom),
    zip_filename_function_fails=lambda e: KeyValueSource.zip_bytes_source(
        e.zip, filename_function=boom),
    zip_not_utf8=lambda e: KeyValueSource.zip_character_source(e.zip_not_utf8),
    zip_wrong_key=lambda e: KeyValueSource.zip_character_source(e.zip_wrong_key),
    zip_rubbish=lambda e: KeyValueSource.zip_character_source(e.zip_rubbish),
    zip_bad_crc=lambda e: KeyValueSource.zip_bytes_source(e.zip_bad_crc),
    interpreted=lambda e: KeyValueSource.interpret_values(
        KeyValueSource.zip_bytes_source(e.zip), lambda k, v: (k, v)),
    interpreted_missing=lambda e: KeyValueSource.interpret_values(
        KeyValueSource.zip_bytes_source(e.missing), lambda k, v: (k, v)),
    path_mapping=lambda e: KeyValueSource.from_path_mapping({"a": e.text, "b": e.missing}),
    doc_map=lambda e: KeyValueSource.from_doc_id_to_file_map(e.map),
    doc_map_bytes=lambda e: KeyValueSource.binary_from_doc_id_to_file_map(e.map),
    doc_map_bad=lambda e: KeyValueSource.from_doc_id_to_file_map(e.map_bad),
    doc_map_missing=lambda e: KeyValueSource.from_doc_id_to_file_map(e.missing),
    doc_map_dangling=lambda e: KeyValueSource.from_doc_id_to_file_map(e.map_dangling),
    from_params_zip=lambda e: char_key_value_source_from_params(
        Parameters.from_mapping({"input": {"type": "zip", "path": str(e.zip)}})),
    from_params_map=lambda e: byte_key_value_source_from_params(
        Parameters.from_mapping({"input": {"path": str(e.map)}})),
)
group(
    "linear", use_linear,
    tgz_bytes=lambda e: KeyValueLinearSource.byte_linear_source_from_tar_gz(e.tgz),
    tgz_text=lambda e: KeyValueLinearSource.str_linear_source_from_tar_gz(e.tgz),
    tgz_missing=lambda e: KeyValueLinearSource.byte_linear_source_from_tar_gz(e.missing),
    tgz_cut=lambda e: KeyValueLinearSource.byte_linear_source_from_tar_gz(e.tgz_cut),
    tgz_rubbish=lambda e: KeyValueLinearSource.byte_linear_source_from_tar_gz(e.tgz_rubbish),
    tgz_empty=lambda e: KeyValueLinearSource.byte_linear_source_from_tar_gz(e.tgz_empty),
    tgz_no_file=lambda e: KeyValueLinearSource.str_linear_source_from_tar_gz(e.tgz_no_file),
    zip_empty=lambda e: KeyValueLinearSource.interpret_values(
        KeyValueSource.zip_bytes_source(e.zip_empty), lambda k, v: v),
    tgz_key_function_fails=lambda e: KeyValueLinearSource.byte_linear_source_from_tar_gz(
        e.tgz, key_function=boom),
    tgz_name_filter_fails=lambda e: KeyValueLinearSource.byte_linear_source_from_tar_gz(
        e.tgz, name_filter=boom),
    zip=lambda e: KeyValueLinearSource.interpret_values(
        KeyValueSource.zip_bytes_source(e.zip), lambda k, v: v),
)
group(
    "text store sink", lambda f: use_store_sink(f, text=True),
    zip=lambda e: KeyValueSink.zip_character_sink(e.out / "x.zip"),
    zip_append=lambda e: KeyValueSink.zip_character_sink(e.copy_of(e.zip), overwrite=False),
    zip_append_bad_keys=lambda e: KeyValueSink.zip_character_sink(
        e.copy_of(e.zip_bad_keys), overwrite=False),
    zip_append_rubbish=lambda e: KeyValueSink.zip_character_sink(
        e.copy_of(e.zip_rubbish), overwrite=False),
    zip_in_missing_directory=lambda e: KeyValueSink.zip_character_sink(e.out / "no" / "x.zip"),
    zip_filename_function_fails=lambda e: KeyValueSink.zip_character_sink(
        e.out / "x.zip", filename_function=boom),
    zip_keys_in_fails=lambda e: KeyValueSink.zip_character_sink(
        e.out / "x.zip", keys_in_function=boom),
    zip_keys_out_fails=lambda e: KeyValueSink.zip_character_sink(
        e.out / "x.zip", keys_out_function=boom),
    from_params=lambda e: char_key_value_sink_from_params(
        Parameters.from_mapping({"output": {"type": "zip", "path": str(e.out / "q" / "x.zip")}})),
    directory=lambda e: char_key_value_sink_from_params(
        Parameters.from_mapping({"output": {"type": "file-map", "path": str(e.out)}})),
    full_directory=lambda e: char_key_value_sink_from_params(
        Parameters.from_mapping({"output": {"type": "file-map", "path": str(e.root / "in")}})),
)
group(
    "byte store sink", lambda f: use_store_sink(f, text=False),
    zip=lambda e: KeyValueSink.zip_bytes_sink(e.out / "x.zip"),
    zip_append=lambda e: KeyValueSink.zip_bytes_sink(e.copy_of(e.zip), overwrite=False),
)


# ---------------------------------------------------------------- other operations

@op
def lines_to_set(e):
    file_lines_to_set(e.text)


@op
def lines_to_set_not_utf8(e):
    file_lines_to_set(e.not_utf8)


@op
def read_map(e):
    read_doc_id_to_file_map(CharSource.from_file(e.map))


@op
def read_bad_map(e):
    read_doc_id_to_file_map(CharSource.from_file(e.map_bad))


@op
def write_map(e):
    write_doc_id_to_file_map({"a": e.text, "b": e.map}, CharSink.to_file(e.out / "map"))


@op
def write_bad_map(e):
    write_doc_id_to_file_map({"a": e.text, "b": None}, CharSink.to_file(e.out / "map"))


@op
def write_unencodable_map(e):
    """UTF-8 cannot hold a lone surrogate, which is what Python makes of a badly named file."""
    write_doc_id_to_file_map(
        {"a": e.text, "b": Path(e.root, "\udcff"), "c": e.map}, CharSink.to_file(e.out / "map"))


@op
def write_unencodable_id(e):
    write_doc_id_to_file_map({"a": e.text, "b\ud800": e.map}, CharSink.to_file(e.out / "map"))


def loading(name):
    def run(e):
        YAMLParametersLoader().load(getattr(e, name))
    OPS[f"load {name}"] = run
    OPS[f"load from source {name}"] = lambda e: YAMLParametersLoader().load(
        CharSource.from_file(getattr(e, name)))


for _name in ["params", "params_bad", "params_bad_include", "params_missing_include", "params_list",
              "params_undefined", "missing", "not_utf8", "directory"]:
    loading(_name)


@op
def write_params(e):
    YAMLParametersWriter().write(Parameters.from_mapping({"a": {"b": [1, "x"]}}), e.out / "x.params")


@op
def write_unsupported_params(e):
    YAMLParametersWriter().write(
        Parameters.from_mapping({"a": {"b": object()}}), CharSink.to_file(e.out / "x.params"))


def param_op(method, *names):
    for name in names:
        OPS[f"params {method} {name}"] = lambda e, n=name: getattr(
            Parameters.from_mapping({"p": str(getattr(e, n))}), method)("p")


param_op("path_list_from_file", "list", "missing", "not_utf8", "directory")
param_op("path_map_from_file", "map", "map_bad", "missing", "not_utf8")
param_op("pickled_object_from_file", "pickle", "text", "missing")


@op
def logging_config(e):
    configure_logging_from(
        Parameters.from_mapping({"logging": {"config_file": str(e.log_config)}}))


@op
def checkpoints(e):
    store = Checkpoints.from_directory(e.out / "cp")
    store.set("a")
    "a" in store  # pylint:disable=pointless-statement
    store.reset_all()


def script(name, main, make):
    def run(e):
        with contextlib.redirect_stdout(io.StringIO()):
            main(Parameters.from_mapping(make(e)))
    OPS["script " + name] = run


script("split", split_key_value_store.main, lambda e: {
    "input": {"type": "zip", "path": str(e.zip)}, "num_slices": 2, "output_dir": str(e.out)})
script("split bad crc", split_key_value_store.main, lambda e: {
    "input": {"type": "zip", "path": str(e.zip_bad_crc)}, "num_slices": 2, "output_dir": str(e.out)})
script("explicit split", split_key_value_store.main, lambda e: {
    "input": {"type": "zip", "path": str(e.zip)},
    "explicit_split": {"x": {"keys_file": str(e.keys), "output_file": str(e.out / "x.zip")}}})
script("explicit split with absent key", split_key_value_store.main, lambda e: {
    "input": {"type": "zip", "path": str(e.zip)},
    "explicit_split": {"x": {"keys_file": str(e.keys_absent), "output_file": str(e.out / "x.zip")}}})
script("join", join_key_value_stores.main, lambda e: {
    "input_store_list_file": str(e.zips), "output": {"type": "zip", "path": str(e.out / "j.zip")}})
script("join twice", join_key_value_stores.main, lambda e: {
    "input_store_list_file": str(e.zips_twice),
    "output": {"type": "zip", "path": str(e.out / "j.zip")}})
script("downsample", downsample_key_value_store.main, lambda e: {
    "input": {"type": "zip", "path": str(e.zip)}, "num_to_sample": 2,
    "output_zip_path": str(e.out / "d.zip")})
script("directory to store", directory_to_key_value_store.main, lambda e: {
    "input_directory": str(e.directory.parent),
    "output": {"type": "zip", "path": str(e.out / "s.zip")}})


def command(name, main, make):
    def run(e):
        saved = sys.argv
        sys.argv = ["prog"] + [str(a) for a in make(e)]
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                main()
        finally:
            sys.argv = saved
    OPS["command " + name] = run


command("tar to zip", tar_gz_to_zip.main, lambda e: [e.copy_of(e.tgz)])
command("tar to zip unpacked", tar_gz_to_zip.main, lambda e: [e.copy_of(e.tar), "--dont-stream"])
command("cut tar to zip", tar_gz_to_zip.main, lambda e: [e.copy_of(e.tgz_cut)])
command("text at offsets", text_at_offsets.main, lambda e: [e.text, 2, 9])
command("text at offsets not utf8", text_at_offsets.main, lambda e: [e.not_utf8, 2, 9])

NAMES = sorted(OPS)


def execute(c, name, e, faults):
    """Runs one operation and checks that no file remains open."""
    e.renew()
    before = monitors.open_descriptors()
    with monitors.track_files(faults) as files:
        outcome = "completed"
        try:
            OPS[name](e)
        except Exception as error:  # pylint:disable=broad-except
            outcome = type(error).__name__
            error.__traceback__ = None
        c.count("completed" if outcome == "completed" else "failed")
        left = files.still_open()
        if faults.injected:
            c.count("fault_injected", len(faults.injected))
        try:
            c.check(not left, f"files left open by {name}", [os.path.basename(x) for x in left],
                    outcome, faults.injected[:3])
            after = monitors.open_descriptors()
            c.eq(sorted(v for k, v in after.items() if before.get(k) != v), [],
                 f"descriptors left open by {name}", outcome, faults.injected[:3])
        finally:
            files.close_all()
    return outcome


@PROP.scenario(quick=len(NAMES), exhaustive=True)
def every_operation_with_faults(c):
    warnings.simplefilter("ignore")
    name = NAMES[c.i]
    e = Env(c.dir)
    plain = monitors.Faults()
    outcome = execute(c, name, e, plain)
    c.log("operation", name, outcome, plain.seen)
    positions = range(1, plain.seen + 1)
    if len(positions) > 60:
        positions = sorted(set(range(1, 30)) | set(c.rng.sample(positions, 20))
                           | set(positions[-10:]))
    for n in positions:
        for persistent in (False, True):
            got = execute(c, name, e, monitors.Faults(n, persistent))
            c.log("fault", n, persistent, got)


# ---------------------------------------------------------------- files handed to the caller

@PROP.scenario(quick=60)
def handed_out_files(c):
    """They are usable until closed, and closing them closes everything."""
    warnings.simplefilter("ignore")
    e = Env(c.dir)
    e.renew()
    text = e.text.read_text(encoding="utf-8")
    sources = {
        "file": CharSource.from_file(e.text),
        "gz": CharSource.from_gzipped_file(e.gz),
        "tgz": CharSource.from_file_in_tgz(e.tgz, "d/b.txt"),
        "zip": CharSource.from_file_in_zip(e.zip, "d/k2"),
        "wrapped": CharSource.from_byte_source(ByteSource.from_file(e.text)),
        "byte file": ByteSource.from_file(e.text),
        "byte zip": ByteSource.from_file_in_zip(e.zip, "d/k2"),
    }
    with monitors.track_files() as files:
        handles = []
        for name in c.rng.sample(sorted(sources), c.rng.randint(1, len(sources))):
            handles.append((name, sources[name].open()))
        c.log("opened", [n for n, _ in handles])
        reading = []
        for name, handle in handles:
            expected = text if not name.startswith("byte") else text.encode("utf-8")
            reading.append((name, handle, expected))
        while reading:
            j = c.rng.randrange(len(reading))
            name, handle, expected = reading[j]
            if c.rng.random() < 0.5:
                n = c.rng.choice([1, 10, 8000])
                got = handle.read(n)
                c.count("open_until_closed")
                c.check(got == expected[:n], "open files can be read", name)
                reading[j] = (name, handle, expected[n:])
                if not got:
                    handle.close()
                    del reading[j]
            elif c.rng.random() < 0.3:
                if c.rng.random() < 0.5:
                    handle.close()
                else:
                    with handle:
                        pass
                del reading[j]
                c.raises(ValueError, lambda: handle.read(1), "reading a closed file", name)
        c.eq(files.still_open(), [], "files open after all were closed",
             [n for n, _ in handles])


@PROP.scenario(quick=60)
def archives_of_the_caller(c):
    warnings.simplefilter("ignore")
    e = Env(c.dir)
    text = e.text.read_text(encoding="utf-8")
    with monitors.track_files() as files:
        path = c.rng.choice([e.zip, e.zip_bad_crc])
        with ZipFile(path) as archive:
            for _ in range(c.rng.randint(1, 8)):
                kind = c.rng.choice(["text", "bytes", "missing", "fails", "bad", "open"])
                c.log(kind)
                char = CharSource.from_file_in_zip(archive, "d/k2")
                byte = ByteSource.from_file_in_zip(archive, "d/k2")
                with contextlib.suppress(KeyError, Boom):
                    if kind == "text":
                        c.check(char.read_all() == text and not char.is_empty(), "text")
                    elif kind == "bytes":
                        c.check(byte.read() == text.encode("utf-8"), "data")
                    elif kind == "missing":
                        ByteSource.from_file_in_zip(archive, "nope").read()
                    elif kind == "fails":
                        with char.open() as inp:
                            inp.read(1)
                            boom()
                    elif kind == "bad":
                        with contextlib.suppress(Exception):
                            ByteSource.from_file_in_zip(archive, "k1").read()
                    else:
                        handle = byte.open()
                        handle.read(3)
                        handle.close()
                c.count("archive_left_open")
                c.check(archive.fp is not None, "archive of the caller was closed", kind)
                c.eq(len(files.still_open()), 1, "open files", kind, files.still_open())
                c.check(archive.read("d/k2") == text.encode("utf-8"), "archive is usable", kind)
        c.eq(files.still_open(), [], "files left open")


@PROP.scenario(quick=120)
def sessions(c):
    """Several operations at once, nested in each other, some failing at random."""
    warnings.simplefilter("ignore")
    e = Env(c.dir)
    e.renew()
    faults = monitors.Faults(c.rng.randint(1, 60) if c.rng.random() < 0.6 else None,
                             c.rng.random() < 0.3)
    stores = [
        lambda: KeyValueSource.zip_bytes_source(e.zip),
        lambda: KeyValueSource.zip_character_source(e.zip),
        lambda: KeyValueSource.interpret_values(KeyValueSource.zip_bytes_source(e.zip), fickle),
        lambda: KeyValueSource.binary_from_doc_id_to_file_map(e.map),
        lambda: KeyValueLinearSource.byte_linear_source_from_tar_gz(e.tgz, name_filter=fickle_filter),
        lambda: KeyValueLinearSource.str_linear_source_from_tar_gz(e.tgz),
    ]
    sinks = [
        lambda j: KeyValueSink.zip_bytes_sink(e.out / f"{j}.zip"),
        lambda j: KeyValueSink.zip_character_sink(e.out / f"{j}.zip", filename_function=fickle_name),
    ]

    def fickle(_k, v):
        if c.rng.random() < 0.1:
            boom()
        return v

    def fickle_filter(_name):
        if c.rng.random() < 0.1:
            boom()
        return c.rng.random() < 0.8

    def fickle_name(key):
        if c.rng.random() < 0.1:
            boom()
        return "f/" + key

    with monitors.track_files(faults) as files:
        outcome = "completed"
        try:
            with contextlib.ExitStack() as stack:
                inputs = [stack.enter_context(c.rng.choice(stores)())
                          for _ in range(c.rng.randint(1, 3))]
                outputs = [stack.enter_context(c.rng.choice(sinks)(j))
                           for j in range(c.rng.randint(1, 2))]
                iterators = [iter(x.items()) for x in inputs]
                written = 0
                while iterators:
                    it = c.rng.choice(iterators)
                    try:
                        key, value = next(it)
                    except StopIteration:
                        iterators.remove(it)
                        continue
                    written += 1
                    c.rng.choice(outputs).put(f"{key}-{written}", value)
                    if c.rng.random() < 0.02:
                        boom()
        except Exception as error:  # pylint:disable=broad-except
            outcome = type(error).__name__
            error.__traceback__ = None
        c.log("session", outcome, faults.injected[:2], c.rng.random())
        c.count("session")
        c.check(not files.still_open(), "files left open by a session", files.still_open(),
                outcome, faults.injected[:3])
        files.close_all()


del gen, tarfile
