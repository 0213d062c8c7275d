"""Files, archives and snapshots of directory trees for the workloads."""
import gzip
import io
import os
import stat
import tarfile
import zipfile


def snapshot(root):
    """{relative path: ('dir',) | ('file', content) | ('link', target)} of a whole tree."""
    ret = {}
    root = str(root)
    for directory, subdirs, files in os.walk(root):
        for name in subdirs + files:
            path = os.path.join(directory, name)
            ret[os.path.relpath(path, root)] = describe(path)
    return ret


def describe(path):
    mode = os.lstat(path).st_mode
    if stat.S_ISLNK(mode):
        return ("link", os.readlink(path))
    if stat.S_ISDIR(mode):
        return ("dir",)
    with open(path, "rb") as inp:
        return ("file", inp.read())


def make_tgz(path, members, *, mode="w:gz"):
    """
    *members*: (name, content) for files, (name, None) for directories, or (TarInfo, content).
    """
    with tarfile.open(path, mode) as tar:
        for name, content in members:
            if isinstance(name, tarfile.TarInfo):
                info = name
            else:
                info = tarfile.TarInfo(name)
                info.mtime = 1_600_000_000
                if content is None:
                    info.type = tarfile.DIRTYPE
                    info.mode = 0o755
            if content is not None:
                info.size = len(content)
                tar.addfile(info, io.BytesIO(content))
            else:
                tar.addfile(info)


def make_zip(path, members):
    with zipfile.ZipFile(path, "w") as out:
        for name, content in members:
            out.writestr(name, content)


def make_gz(path, content):
    with gzip.open(path, "wb") as out:
        out.write(content)


def write(path, content):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as out:
        out.write(content if isinstance(content, bytes) else content.encode("utf-8"))
    return path


def read(path):
    with open(path, "rb") as inp:
        return inp.read()
