import errno
import logging
import os
import shutil
import warnings
from pathlib import Path

from vistautils.parameters import ParameterError, Parameters

from vmon import monitors, paramgen
from vmon.engine import Property
from vmon.fsutil import snapshot, write

PROP = Property(
    "C23",
    scale=2,
    rule="Histories of file system accessors on random directory trees with files, full and empty "
    "directories, links to files, directories, outside and nowhere, link loops and pipes, for absolute and "
    "relative paths with '.', '..', links and missing parents; a snapshot of the complete scratch tree before "
    "and after every call is compared with a model of the accessor.",
    required=["creatable_directory", "creatable_empty_directory", "creatable_file", "existing_file",
              "existing_directory", "created", "created_parents", "delete", "delete_nested", "delete_kept_links",
              "delete_empty", "delete_through_link", "not_empty", "wrong_kind", "missing", "below_file",
              "absent_optional", "absent_required", "dangling_link", "link_loop", "relative", "wrong_type",
              "hidden_content", "pipe", "delete_file", "here", "empty_path", "again",
              "refused_deletion", "refused_creation"],
    assumptions=["nobody else changes anything"],
    files=["vistautils/parameters.py", "vistautils/io_utils.py"],
)

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

NAMES = ["a", "b", "c", "some dir", "é", "x.txt", ".hidden", "~", ".DS_Store", "$VMON_NAME",
         "__pycache__", "Thumbs.db", "*", "a b", "%41", "desktop.ini", ".gitkeep", "a~", "C:", "x\\y", "~root",
         "${VMON_NAME}"]


def furnish(rng, directory, world, depth=3):
    """Fills a directory at random; all links stay within the case's directory."""
    names = NAMES if rng.random() < 0.7 else NAMES[3:]
    for name in rng.sample(names, rng.choice([0, 1, 1, 2, 3, 4, 5])):
        path = os.path.join(directory, name)
        kind = rng.randint(0, 11)
        if kind < 3:
            write(path, rng.choice(["", "content", "precious data"]))
        elif kind < 8 and depth:
            os.mkdir(path)
            if rng.random() < 0.75:
                furnish(rng, path, world, depth - 1)
        elif kind == 8:
            os.symlink(rng.choice(["../outside", "outside", "../outside/keep.txt", "."]), path)
        elif kind == 9:
            os.symlink(os.path.join(os.path.dirname(world), "outside", rng.choice(["", "keep", "keep.txt", "new"])), path)
        elif kind == 10:
            os.symlink(rng.choice(["nowhere", "no/where", os.path.join(world, "gone")]), path)
        elif rng.random() < 0.5:
            os.symlink(name, path)  # a loop
        else:
            os.mkfifo(path)


def anywhere(rng, world):
    """A path below *world* or, through links, beside it."""
    here = world
    parts = []
    for _ in range(rng.randint(1, 5)):
        kind = rng.random()
        try:
            entries = sorted(os.listdir(here))
        except OSError:
            entries = []
        if os.path.islink(here) and rng.random() < 0.3:
            part = ".."  # not where the link is
        elif kind < 0.7 and entries:
            part = rng.choice(entries)
        elif kind < 0.9:
            part = rng.choice(NAMES + ["new", "newer"])
        elif kind < 0.95:
            part = "."
        elif len(parts) > 1:
            part = ".."
        else:
            part = rng.choice(NAMES)
        parts.append(part)
        here = os.path.join(here, part)
        if rng.random() < 0.15:
            break
    return here


class Model:
    """What an accessor has to do, given the state of the file system."""

    def __init__(self, accessor, value, delete):
        self.accessor, self.delete = accessor, delete
        self.target = os.path.realpath(value)
        self.error = None
        self.create = []
        self.remove_below = None
        self.loop = False
        for path in (value, self.target):
            try:
                os.stat(path)
            except OSError as e:
                self.loop = self.loop or e.errno == errno.ELOOP
        getattr(self, accessor)()

    def missing(self, path):
        """The missing directories up to path; sets the error if that is impossible."""
        ret = []
        while not os.path.isdir(path):
            if os.path.lexists(path):
                self.error = (ParameterError, OSError)
                return []
            ret.append(path)
            path = os.path.dirname(path)
        return ret

    def creatable_directory(self):
        self.create = self.missing(self.target)

    def creatable_file(self):
        self.create = self.missing(os.path.dirname(self.target))

    def creatable_empty_directory(self):
        if os.path.isdir(self.target):
            if os.listdir(self.target):
                if self.delete:
                    self.remove_below = self.target
                else:
                    self.error = ParameterError
        elif os.path.lexists(self.target):
            self.error = ParameterError
        else:
            self.create = self.missing(self.target)

    def existing_file(self):
        if not os.path.isfile(self.target):
            self.error = ParameterError

    def existing_directory(self):
        if not os.path.isdir(self.target):
            self.error = ParameterError

    def after(self, before, root):
        ret = dict(before)
        if self.remove_below:
            prefix = os.path.relpath(self.remove_below, root) + os.sep
            ret = {k: v for k, v in ret.items() if not k.startswith(prefix)}
        for path in self.create:
            ret[os.path.relpath(path, root)] = ("dir",)
        return ret


def tree(root):
    ret = {}
    for directory, subdirs, files in os.walk(root):
        for name in subdirs + files:
            path = os.path.join(directory, name)
            if os.path.exists(path) and not os.path.isdir(path) and not os.path.isfile(path):
                ret[os.path.relpath(path, root)] = ("pipe",)
    if ret:
        # snapshot() would read from pipes
        return _tree_with_pipes(root, ret)
    return snapshot(root)


def _tree_with_pipes(root, pipes):
    from vmon.fsutil import describe

    ret = {}
    for directory, subdirs, files in os.walk(root):
        for name in subdirs + files:
            path = os.path.join(directory, name)
            relative = os.path.relpath(path, root)
            ret[relative] = ("pipe",) if relative in pipes and not os.path.islink(path) else describe(path)
    return ret


ACCESSORS = ["creatable_directory", "creatable_empty_directory", "creatable_file", "existing_file",
             "existing_directory"]


def observe(c, model, value, before):
    """Coverage of interesting situations."""
    target = model.target
    if model.create:
        c.count("created")
        if len(model.create) > 1:
            c.count("created_parents")
    if model.remove_below:
        c.count("delete")
        prefix = os.path.relpath(target, str(c.dir)) + os.sep
        inside = {k: v for k, v in before.items() if k.startswith(prefix)}
        if any(v == ("dir",) for v in inside.values()):
            c.count("delete_nested")
        if any(v[0] == "link" for v in inside.values()):
            c.count("delete_kept_links")
        if os.path.islink(value):
            c.count("delete_through_link")
        if all(k[len(prefix):].startswith(".") for k in inside):
            c.count("hidden_content")
    if model.accessor == "creatable_empty_directory":
        if model.delete and os.path.isdir(target) and not os.listdir(target):
            c.count("delete_empty")
        if model.delete and os.path.isfile(target):
            c.count("delete_file")
        if model.error and os.path.isdir(target):
            c.count("not_empty")
    if model.error:
        if os.path.lexists(target):
            c.count("wrong_kind")
            if os.path.exists(target) and not os.path.isfile(target) and not os.path.isdir(target):
                c.count("pipe")
        else:
            c.count("missing")
            parent = os.path.dirname(target)
            while not os.path.lexists(parent):
                parent = os.path.dirname(parent)
            if os.path.isfile(parent):
                c.count("below_file")
    if os.path.islink(value) and not os.path.exists(value):
        c.count("dangling_link")


def refused(c, model, call, steps, before):
    """The operating system refuses one of the necessary changes."""
    root = str(c.dir)
    faults = monitors.Faults(c.rng.randint(1, steps), c.rng.random() < 0.5, ("change",),
                             c.rng.choice([errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EPERM, errno.EBUSY]))
    c.log("refused", faults.fail_at, faults.persistent)
    with monitors.refusing(faults):
        try:
            found, error = call(), None
        except Exception as e:  # pylint:disable=broad-except
            found, error = None, e
    c.count("refused_deletion" if model.remove_below else "refused_creation", bool(faults.injected))
    now, after = tree(root), model.after(before, root)
    if error is None:
        # there may be a way around what was refused, but the promise is kept
        c.eq(str(found), model.target, "result in spite of a refusal", faults.injected)
        c.eq(now, after, "effects in spite of a refusal", faults.injected)
    else:
        c.check(bool(faults.injected), "failed without reason", error)
        for path, what in now.items():
            c.check(path in before and before[path] == what or path in after and after[path] == what,
                    "something else was changed by a failing accessor", path)
        top = os.path.relpath(model.remove_below, root) if model.remove_below else None
        for path in before:
            c.check(path in now or path in (top,) or path not in after,
                    "something else was removed by a failing accessor", path)


@PROP.scenario(quick=2500)
def histories(c):
    rng = c.rng
    os.environ["VMON_NAME"] = rng.choice(["a", "b", "x.txt"])
    root = str(c.dir)
    world, outside = os.path.join(root, "world"), os.path.join(root, "outside")
    os.mkdir(world)
    os.mkdir(outside)
    write(os.path.join(outside, "keep.txt"), "keep this")
    write(os.path.join(outside, "keep", "this too"), "and this")
    furnish(rng, world, world)
    for _ in range(rng.randint(3, 8)):
        accessor = rng.choice(ACCESSORS)
        optional = rng.random() < 0.4
        delete = None
        if accessor == "creatable_empty_directory":
            delete = rng.choice([None, False, True])
        value = anywhere(rng, world)
        given = value
        if rng.random() < 0.35:
            c.count("relative")
            inside = [d for d, _, _ in os.walk(world)]
            here = os.path.realpath(rng.choice(inside))
            os.chdir(here)
            given = os.path.relpath(value, here) if rng.random() < 0.5 else anywhere(rng, here)[len(here) + 1:]
            value = os.path.join(here, given)
        else:
            os.chdir(root)
        if rng.random() < 0.1:
            given += "/"
            value += "/"
        target = os.path.realpath(value)
        if not target.startswith(root + os.sep) or os.path.realpath(os.getcwd()).startswith(target):
            continue  # we do not ask for changes there
        if "\n" in given:
            continue
        model = Model(accessor, value, bool(delete))
        name = rng.choice(["p", "paths.p", "paths.deep.p"])
        if rng.random() < 0.2:
            name = ".".join(rng.choice([[], ["paths"], ["paths", "deep"]]) + [paramgen.name(rng)])
        if name in ("z", "paths", "paths.other", "paths.deep"):
            name = "p"
        params = Parameters.from_key_value_pairs([(name, given), ("paths.other", "x"), ("z", 1)])
        before = tree(root)
        c.count(accessor)
        observe(c, model, value.rstrip("/"), before)
        function = getattr(params, ("optional_" if optional else "") + accessor)
        kwargs = {} if delete is None else {"delete": delete}
        c.log(("optional_" if optional else "") + accessor, os.path.relpath(value, root), kwargs)
        if model.loop:
            c.count("link_loop")
        if model.loop and not accessor.startswith("existing"):
            try:
                function(name, **kwargs)
            except Exception:  # pylint:disable=broad-except
                c.eq(tree(root), before, "a failing accessor changed something", accessor)
            continue
        steps = len(model.create) + (
            sum(k.startswith(os.path.relpath(model.remove_below, root) + os.sep) for k in before)
            if model.remove_below else 0)
        if steps and not model.error and rng.random() < 0.15:
            refused(c, model, lambda: function(name, **kwargs), steps, before)
            continue
        if model.error:
            c.raises(model.error, lambda: function(name, **kwargs), accessor, given)
            c.eq(tree(root), before, "a failing accessor changed something", accessor)
        else:
            found = function(name, **kwargs)
            c.check(isinstance(found, Path), "is not a Path", found)
            c.eq(str(found), model.target, f"result of {accessor}", given)
            c.eq(tree(root), model.after(before, root), f"effects of {accessor}", given, kwargs)
            if accessor.startswith("creatable"):
                if accessor == "creatable_file":
                    if not found.is_dir() and not os.path.lexists(found):
                        found.write_text("written", encoding="utf-8")
                elif rng.random() < 0.5 and not (found / "new.txt").exists():
                    (found / "new.txt").write_text("written", encoding="utf-8")


@PROP.scenario(quick=500)
def absent(c):
    rng = c.rng
    root = str(c.dir)
    os.mkdir(os.path.join(root, "world"))
    furnish(rng, os.path.join(root, "world"), os.path.join(root, "world"))
    os.chdir(os.path.join(root, "world"))
    model = paramgen.tree(rng, depth=2, plain=True)
    missing = ".".join(paramgen.absent_path(rng, model))
    wrong = rng.choice([0, 1, 1.5, True, False, [], ["a"], {"x": "a"}])
    params = Parameters.from_mapping({**model, "wrong": wrong})
    before = tree(root)
    c.log("absent", missing, wrong)
    for accessor in ACCESSORS:
        for kwargs in [{}, {"delete": True}] if accessor == "creatable_empty_directory" else [{}]:
            c.count("absent_optional")
            c.check(
                getattr(params, "optional_" + accessor)(missing, **kwargs) is None, "something for nothing", missing
            )
            c.count("absent_required")
            c.raises(ParameterError, lambda: getattr(params, accessor)(missing, **kwargs), "absent", missing)
            c.count("wrong_type")
            c.raises(ParameterError, lambda: getattr(params, accessor)("wrong", **kwargs), "wrong type", wrong)
            c.raises(
                ParameterError, lambda: getattr(params, "optional_" + accessor)("wrong", **kwargs), "wrong type"
            )
    c.eq(tree(root), before, "asking for absent parameters changed something")


@PROP.scenario(quick=300)
def here(c):
    """The current directory, in particular as a path which is empty but given."""
    rng = c.rng
    root = os.path.realpath(str(c.dir))
    world = os.path.join(root, "world")
    os.mkdir(world)
    furnish(rng, world, world)
    inside = rng.choice([d for d, _, _ in os.walk(world)])
    if rng.random() < 0.3:
        inside = os.path.join(inside, "quite new")
        os.mkdir(inside)
    os.chdir(inside)
    given = rng.choice(["", "", ".", "./", "./."])
    params = Parameters.from_key_value_pairs([("p", given), ("z", 1)])
    for accessor in rng.sample(ACCESSORS, len(ACCESSORS)):
        before = tree(root)
        model = Model(accessor, inside, False)
        function = getattr(params, rng.choice(["", "optional_"]) + accessor)
        c.log("here", accessor, given)
        c.count("here")
        if not given:
            c.count("empty_path")
        if model.error:
            c.raises(model.error, lambda: function("p"), accessor, given)
        else:
            c.eq(str(function("p")), model.target, f"result of {accessor}", given)
        c.eq(tree(root), before, f"effects of {accessor}", given)
    os.chdir(root)


@PROP.scenario(quick=300)
def again(c):
    """The same parameters are asked again after what they name was removed, filled or became something else."""
    rng = c.rng
    root = os.path.realpath(str(c.dir))
    here = [os.path.join(root, d) for d in ("one", "two")]
    for d in here:
        os.mkdir(d)
    relative = rng.random() < 0.5
    given = rng.choice(["p", "q/p", "q/r/p"])
    params = Parameters.from_mapping({"p": given if relative else os.path.join(here[0], given)})
    for _ in range(rng.randint(3, 8)):
        base = rng.choice(here) if relative else here[0]
        os.chdir(base)
        path = os.path.join(base, given)
        change = rng.choice(["remove", "remove", "top", "file", "fill", "nothing"])
        if change == "remove" and os.path.isdir(path):
            shutil.rmtree(path)
        elif change == "remove" and os.path.lexists(path):
            os.unlink(path)
        elif change == "top":
            for entry in os.listdir(base):
                entry = os.path.join(base, entry)
                (shutil.rmtree if os.path.isdir(entry) else os.unlink)(entry)
        elif change == "file" and not os.path.lexists(path):
            write(path, "a file")
        elif change == "fill" and os.path.isdir(path):
            write(os.path.join(path, "filled"), "x")
        accessor = rng.choice(ACCESSORS)
        delete = accessor == "creatable_empty_directory" and rng.random() < 0.5
        model = Model(accessor, path, delete)
        before = tree(root)
        function = getattr(params, rng.choice(["", "optional_"]) + accessor)
        kwargs = {"delete": True} if delete else {}
        c.log("again", os.path.basename(base), change, accessor, kwargs)
        c.count("again")
        if model.error:
            c.raises(model.error, lambda: function("p", **kwargs), accessor, given)
            c.eq(tree(root), before, "a failing accessor changed something", accessor)
        else:
            c.eq(str(function("p", **kwargs)), model.target, f"result of {accessor}", given)
            c.eq(tree(root), model.after(before, root), f"effects of {accessor}", given, kwargs)
    os.chdir(root)
