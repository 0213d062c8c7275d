"""
Instrumentation which watches the process while the real code runs.

* containment: an audit hook (PEP 578) which sees every file system change before it happens and
  refuses those outside of the scratch directory. It records what it refused, so that swallowing
  the refusal does not hide it.
* leak sanitizer: keeps every file object opened during a section alive, together with the buffers,
  decoders and archives around it, so that a file which was never closed stays visibly open rather
  than being closed by the garbage collector.
* reach: which lines of the code under test were executed (``sys.monitoring``).
"""
import builtins
import bz2
import collections
import contextlib
import errno
import gzip
import io
import os
import sys
import tarfile
import zipfile

_ROOT = None
_escapes = []
_counts = collections.Counter()
_lines = collections.defaultdict(set)
_repo = None
_refusals = None  # faults to be injected into changes of the file system
_trusted = 0  # >0 while the harness itself does something special


class Containment(BaseException):
    """An effect which would have left the scratch directory."""


def begin_case():
    del _escapes[:]
    _counts.clear()


def end_case():
    return list(_escapes)


def take_counts():
    ret = collections.Counter(_counts)
    _counts.clear()
    return ret


# ---------------------------------------------------------------- containment

_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _resolve(path, dir_fd=-1, *, follow=True):
    if isinstance(path, int):
        return os.readlink(f"/proc/self/fd/{path}")
    path = os.fsdecode(path)
    if dir_fd is not None and dir_fd != -1 and not os.path.isabs(path):
        path = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), path)
    path = os.path.abspath(path)
    if follow:
        return os.path.realpath(path)
    return os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))


def _inside(resolved):
    return resolved == _ROOT or resolved.startswith(_ROOT + os.sep)


def _require_inside(event, path, dir_fd=-1, *, follow=True):
    try:
        resolved = _resolve(path, dir_fd, follow=follow)
    except (OSError, ValueError):
        return  # not something the operating system could act on either
    if _inside(resolved):
        _counts["fs:" + event] += 1
        if _refusals is not None and not event.startswith("shutil."):
            _refusals.tick("change", f"{event} {resolved}")
        return
    if event == "open" and resolved.startswith("/dev/"):
        return
    if event == "os.mkdir" and os.path.isdir(resolved):
        return  # "create if missing" on something which exists has no effect
    _escapes.append(f"{event} {resolved}")
    raise Containment(f"{event} {resolved}")


def _hook(event, args):
    if event == "open":
        path, _mode, flags = args
        if isinstance(path, int) or not isinstance(flags, int):
            return
        if flags & _WRITE_FLAGS:
            _require_inside(event, path)
        else:
            _counts["fs:read"] += 1
        return
    if not (event.startswith("os.") or event.startswith("shutil.") or event == "subprocess.Popen"):
        return
    if event in ("os.remove", "os.rmdir"):
        _require_inside(event, args[0], args[1], follow=False)
    elif event == "os.mkdir":
        _require_inside(event, args[0], args[2])
    elif event == "os.rename":
        _require_inside(event, args[0], args[2], follow=False)
        _require_inside(event, args[1], args[3], follow=False)
    elif event == "os.link":
        _require_inside(event, args[1], args[3], follow=False)
    elif event == "os.symlink":
        _require_inside(event, args[1], args[2], follow=False)
    elif event in ("os.truncate", "os.setxattr", "os.removexattr"):
        _require_inside(event, args[0])
    elif event == "os.chmod":
        _require_inside(event, args[0], args[2])
    elif event == "os.chown":
        _require_inside(event, args[0], args[3])
    elif event == "os.utime":
        _require_inside(event, args[0], args[3])
    elif event == "shutil.rmtree":
        _require_inside(event, args[0], args[1] if len(args) > 1 else None, follow=False)
    elif event in ("shutil.move", "shutil.chown"):
        _require_inside(event, args[0], follow=False)
    elif event in ("os.system", "os.kill", "os.killpg", "os.exec", "os.posix_spawn",
                   "os.fork", "os.forkpty", "subprocess.Popen"):
        if not _trusted:
            _escapes.append(event)
            raise Containment(event)


def confine(root):
    """From now on this process can change files below *root* only."""
    global _ROOT
    _ROOT = os.path.realpath(root)
    os.environ["VMON_ROOT"] = _ROOT
    sys.addaudithook(_hook)


def install(root, repo):
    global _repo
    _repo = os.path.realpath(repo)
    confine(root)
    _keep_holders_alive()
    _install_reach()


@contextlib.contextmanager
def trusted():
    """The harness itself starts or ends processes here."""
    global _trusted
    _trusted += 1
    try:
        yield
    finally:
        _trusted -= 1


# ---------------------------------------------------------------- leak sanitizer

_tracking = None
_real_open = io.open
_RealText = io.TextIOWrapper


class _KeptText(io.TextIOWrapper):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        if _tracking is not None:
            _tracking.keep(self)


_HOLDERS = (zipfile.ZipFile, zipfile.ZipExtFile, gzip.GzipFile, tarfile.TarFile)


def _keep_holders_alive():
    """None of the objects holding a file may be finalised unnoticed."""
    for cls in _HOLDERS:
        def init(self, *args, _real=cls.__init__, **kwargs):
            if _tracking is not None:
                _tracking.keep(self)
            _real(self, *args, **kwargs)
        cls.__init__ = init


class InjectedFault(OSError):
    """An error of the operating system, made up by the harness."""


class InjectedPermissionFault(InjectedFault, PermissionError):
    pass


class Faults:
    """Lets the n-th operation on files fail, once or from then on."""

    def __init__(self, fail_at=None, persistent=False, kinds=("open", "read", "write"), code=None):
        self.fail_at = fail_at
        self.code = code
        self.persistent = persistent
        self.kinds = kinds
        self.seen = 0
        self.injected = []

    def tick(self, kind, name):
        if kind not in self.kinds:
            return
        self.seen += 1
        if self.fail_at is None:
            return
        if self.seen == self.fail_at or (self.persistent and self.seen > self.fail_at):
            self.injected.append(f"{kind} of {name}")
            code = self.code or (errno.EACCES if kind == "change" else errno.EIO)
            denied = code in (errno.EACCES, errno.EPERM)
            raise (InjectedPermissionFault if denied else InjectedFault)(
                code, f"injected fault at step {self.seen}: {kind}"
            )


@contextlib.contextmanager
def refusing(faults):
    """
    Lets changes of the file system (creating, removing, opening for writing...) fail, whatever way they
    are made, just before they happen.
    """
    global _refusals
    _refusals = faults
    try:
        yield faults
    finally:
        _refusals = None


class _WatchedRaw(io.FileIO):
    """A file every access to which is seen (and can be made to fail)."""

    faults = None

    def readinto(self, b):
        self._tick("read")
        return super().readinto(b)

    def read(self, *args):
        self._tick("read")
        return super().read(*args)

    def readall(self):
        self._tick("read")
        return super().readall()

    def write(self, b):
        self._tick("write")
        return super().write(b)

    def _tick(self, kind):
        _counts["raw_" + kind] += 1
        if self.faults is not None:
            self.faults.tick(kind, self.name)


def _tracking_open(
    file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None
):
    if _tracking is None or "U" in mode:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "")
    if _tracking.faults is not None:
        _tracking.faults.tick("open", file)
    # the real one checks the arguments for us
    if binary and (encoding is not None or errors is not None or newline is not None):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = _WatchedRaw(file, raw_mode, closefd, opener)
    raw.faults = _tracking.faults
    _counts["files_opened"] += 1
    _tracking.opened.append((file, raw))
    try:
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in raw_mode:
            buffer = io.BufferedRandom(raw, size)
        elif raw_mode[0] in "wax":
            buffer = io.BufferedWriter(raw, size)
        else:
            buffer = io.BufferedReader(raw, size)
        _tracking.keep(buffer)
        if binary:
            return buffer
        text = _RealText(buffer, encoding, errors, newline, buffering == 1)
        _tracking.keep(text)
        text.mode = mode
        return text
    except BaseException:
        raw.close()  # as the real one does
        raise


class Files:
    """The files opened in a section, kept alive so that nothing but close() closes them."""

    def __init__(self, faults=None):
        self.opened = []
        self.kept = []
        self.faults = faults

    def keep(self, holder):
        self.kept.append(holder)

    def still_open(self):
        return [str(name) for name, f in self.opened if not f.closed]

    def close_all(self):
        for _, f in self.opened:
            with contextlib.suppress(Exception):
                f.close()
        del self.opened[:]
        del self.kept[:]


@contextlib.contextmanager
def track_files(faults=None):
    """Watch all files opened through Python's file objects (also by zipfile, gzip, tarfile...)."""
    global _tracking
    if _tracking is not None:
        raise RuntimeError("nested tracking")
    files = Files(faults)
    saved = builtins.open, io.open, tarfile.bltn_open, bz2._builtin_open
    _tracking = files
    builtins.open = io.open = tarfile.bltn_open = bz2._builtin_open = _tracking_open
    io.TextIOWrapper = _KeptText
    try:
        yield files
    finally:
        builtins.open, io.open, tarfile.bltn_open, bz2._builtin_open = saved
        io.TextIOWrapper = _RealText
        _tracking = None


@contextlib.contextmanager
def untracked():
    """The harness itself uses files here."""
    global _tracking
    saved, _tracking = _tracking, None
    try:
        yield
    finally:
        _tracking = saved


def open_descriptors():
    ret = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue  # the one of listdir itself
        ret[fd] = target
    return ret


# ---------------------------------------------------------------- reach

def _install_reach():
    mon = sys.monitoring
    prefix = os.path.join(_repo, "vistautils") + os.sep

    def on_line(code, line):
        if code.co_filename.startswith(prefix):
            _lines[code.co_filename[len(_repo) + 1:]].add(line)
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, "vmon")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def lines_reached():
    return dict(_lines)


def _body_lines(path):
    """Lines within function bodies (module level ones ran at import, before monitoring)."""
    with open(path, encoding="utf-8") as inp:
        module = compile(inp.read(), path, "exec")
    ret = set()

    def walk(code, is_function):
        if is_function:
            ret.update(l for _, _, l in code.co_lines() if l and l != code.co_firstlineno)
        for const in code.co_consts:
            if hasattr(const, "co_code"):
                walk(const, bool(const.co_flags & 0x2))  # CO_NEWLOCALS: functions, not classes

    walk(module, False)
    return ret


def describe_reach(lines, files, repo):
    ret = {}
    for file in files:
        path = os.path.join(repo, file)
        if os.path.exists(path):
            body = _body_lines(path)
            hit = len(lines.get(file, set()) & body)
            ret[file] = f"{hit} of {len(body)} lines in functions"
    return ret


def unreached(lines, file, repo):
    return sorted(_body_lines(os.path.join(repo, file)) - lines.get(file, set()))


def never_silent(c, run, verify, rounds=3, again=True, kinds=("open", "read", "write")):
    """
    Calls *run* several times with a fault injected at a random operation on files: if it does not fail then,
    its effect must be right (*verify* gets its result). Then, without faults, it has to work again.
    """
    plain = Faults(kinds=kinds)
    with track_files(plain) as files:
        result = run()
        files.close_all()
    verify(result)
    for _ in range(rounds if plain.seen else 0):
        faults = Faults(c.rng.randint(1, plain.seen), c.rng.random() < 0.3, kinds,
                        c.rng.choice([errno.EIO, errno.EACCES, errno.ENOSPC, errno.EINVAL, errno.EMFILE]))
        error = result = None
        with track_files(faults) as files:
            try:
                result = run()
            except Exception as e:  # pylint:disable=broad-except
                error = e
                e.__traceback__ = None
            files.close_all()
        c.log("fault", faults.injected[:2], type(error).__name__)
        if not faults.injected:
            c.check(error is None, "failed without reason", error)
        if error is not None:
            c.count("fault_reported")
            del error
            continue
        if faults.injected:
            c.count("fault_survived")
        verify(result)
    if again:
        verify(run())
