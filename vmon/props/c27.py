import errno
import os
import signal
import sys
from pathlib import Path

from vistautils.checkpoints import Checkpoints

from vmon import gen, monitors
from vmon.engine import Property
from vmon.fsutil import snapshot, write

PROP = Property(
    "C27",
    scale=6,
    rule="Random histories of setting, asking and resetting through several stores on one or more directories "
    "(given as paths, texts, relative, through links, not existing yet), in this process and in forked "
    "processes which are killed between or within operations (before the k-th file system operation), "
    "compared with sets of names; everything outside the directories is compared by snapshots.",
    required=["set", "set_again", "ask_present", "ask_absent", "ask_after_reset", "reset", "reset_empty",
              "set_after_reset", "second_store", "reopened", "store_before_reset", "link", "relative", "as_text",
              "new_parents", "existing_directory", "odd_name", "similar_name", "long_name", "other_process",
              "killed", "killed_within", "killed_within_reset", "refused_set", "refused_reset", "not_text", "many", "standing_clock", "several_directories", "space", "reset_spaces"],
    assumptions=["names are legal file names, with slashes only if the directories exist", "nobody else changes the directory",
                 "no two processes use a directory at the same time"],
    files=["vistautils/checkpoints.py"],
)

ODD = [".hidden", "...", "~", "a b", " a", "a ", "\n", "*", "?", "[a]", "é", "e\u0301", "\U0001f600", "%s", "-rf",
       "#", "\\", "\ufeff", "\x7f", "checkpoints", "$HOME", "a\tb", "CON", "nul", "a:b", '"', "'", "\u2028", "a.tmp"]


def name(rng, c):
    kind = rng.randint(0, 9)
    if kind < 4:
        return rng.choice(["a", "b", "done", "task-1", "task-10", "task_1"])
    if kind < 6:
        c.count("similar_name")
        return rng.choice(["A", "a.", "a.a", "aa", "ab", "Done", "done.txt", "task-1.0", "task"])
    if kind < 8:
        c.count("odd_name")
        return rng.choice(ODD) if rng.random() < 0.5 else gen.odd_name(rng, lines=True)
    if kind == 8:
        c.count("long_name")
        return rng.choice("ab") * rng.choice([254, 255])
    text = gen.text(rng, 20).replace("/", "").replace("\0", "")
    return text if text not in ("", ".", "..") else "x"


def spelled(c, directory):
    """The same directory given in some way."""
    rng = c.rng
    kind = rng.randint(0, 4)
    if kind == 0:
        c.count("as_text")
        return str(directory) + rng.choice(["", "/", "//", "/."])
    if kind == 1:
        c.count("relative")
        ret = os.path.relpath(directory)
        return ret if rng.random() < 0.5 else Path(ret)
    if kind == 2 and os.path.isdir(directory):
        c.count("link")
        link = c.dir / f"link{len(os.listdir(c.dir))}"
        os.symlink(directory, link)
        return link if rng.random() < 0.5 else str(link)
    return Path(directory)


class World:
    """Directories with what is set in them."""

    def __init__(self, c):
        self.c = c
        write(str(c.dir / "outside" / "a"), "precious")
        write(str(c.dir / "checks-a"), "beside")
        self.directories = [c.dir / rng_dir for rng_dir in c.rng.sample(
            ["checks", "checks2", "deep/er/checks", "é x", "outside/store", ".checks"], c.rng.choice([1, 1, 2, 3]))]
        if len(self.directories) > 1:
            c.count("several_directories")
        self.model = {d: set() for d in self.directories}
        self.stores = []
        self.was_reset = set()
        self.ever = {d: {"a", "never"} for d in self.directories}
        # as on a file system with coarse times, or after the clock was set
        self.standing_clock = c.rng.random() < 0.3

    def open(self, directory):
        c = self.c
        existed = os.path.isdir(directory)
        if existed:
            c.count("existing_directory")
            if self.model[directory]:
                c.count("reopened")
        elif not os.path.isdir(directory.parent):
            c.count("new_parents")
        if any(d == directory for d, _ in self.stores):
            c.count("second_store")
        store = Checkpoints.from_directory(spelled(c, directory))
        c.check(isinstance(store, Checkpoints), "not a checkpoint store", store)
        c.check(os.path.isdir(directory), "the directory was not created")
        self.stores.append((directory, store))
        return store

    def pick(self):
        if not self.stores or self.c.rng.random() < 0.15:
            directory = self.c.rng.choice(self.directories)
            return directory, self.open(directory)
        return self.c.rng.choice(self.stores)

    def outside(self):
        inside = tuple(os.path.relpath(d, self.c.dir) for d in self.directories)
        parents = {str(p) for i in inside for p in Path(i).parents}
        return {k: v for k, v in snapshot(self.c.dir).items()
                if k not in parents and not k.startswith("link")
                and not any(k == i or k.startswith(i + os.sep) for i in inside)}

    def verify(self, message):
        """Every store gives the answers of the model."""
        for directory, store in self.stores:
            for nothing in ("", ".", ".."):
                # not what anyone could have set
                self.c.eq(nothing in store, False, message, nothing)
            for each in sorted(self.ever[directory]):
                self.c.eq(each in store, each in self.model[directory], message, each)

    def step(self, operations=("set", "set", "set", "ask", "ask", "reset")):
        c, rng = self.c, self.c.rng
        if self.standing_clock:
            c.count("standing_clock")
            for directory in self.directories:
                if os.path.isdir(directory):
                    os.utime(directory, ns=(10 ** 18, 10 ** 18))
        directory, store = self.pick()
        operation = rng.choice(operations)
        model = self.model[directory]
        if operation == "reset":
            if rng.random() < 0.4:
                return
            c.count("reset" if model else "reset_empty")
            if len([d for d, _ in self.stores if d == directory]) > 1:
                c.count("store_before_reset")
            c.log("reset", directory.name)
            store.reset_all()
            model.clear()
            self.was_reset.add(directory)
            return
        each = rng.choice(sorted(self.ever[directory])) if rng.random() < 0.4 else name(rng, c)
        self.ever[directory].add(each)
        if operation == "set":
            if each in model:
                c.count("set_again")
            elif directory in self.was_reset:
                c.count("set_after_reset")
            c.log("set", directory.name, each)
            store.set(each)
            model.add(each)
        else:
            answer = each in store
            c.log("ask", directory.name, each, answer)
            c.eq(answer, each in model, "wrong answer", each)
            c.check(isinstance(answer, bool), "not a truth value", answer)
            c.count("ask_present" if answer else "ask_after_reset" if directory in self.was_reset else "ask_absent")


@PROP.scenario(quick=500)
def histories(c):
    world = World(c)
    outside = world.outside()
    n = c.rng.choice([5, 10, 20, 40])
    if n == 40:
        c.count("many")
    for _ in range(n):
        world.step()
        if c.rng.random() < 0.2:
            world.verify("stores disagree with what was set")
    for directory in world.directories:
        world.open(directory)
    world.verify("finally, stores disagree with what was set")
    c.eq(world.outside(), outside, "something outside the directories was changed")


@PROP.scenario(quick=150)
def directories_within(c):
    """Names with slashes can be used once there are the directories they name; those are no checkpoints."""
    rng = c.rng
    world = World(c)
    outside = world.outside()
    spaces = {}
    for _ in range(rng.randint(5, 25)):
        directory, store = world.pick()
        model = world.model[directory]
        operation = rng.choice(["set", "set", "ask", "space", "reset"])
        if operation == "space":
            space = rng.choice(["s", "t/u", "t", "task"])
            if not any((space + "/").startswith(n + "/") for n in model):
                os.makedirs(directory / space, exist_ok=True)
                known = spaces.setdefault(directory, set())
                known.update(["/".join(space.split("/")[:i + 1]) for i in range(len(space.split("/")))])
                c.log("directory", directory.name, space)
                c.count("space")
        elif operation == "reset" and rng.random() < 0.5:
            c.log("reset", directory.name)
            c.count("reset_spaces" if any("/" in n for n in model) else "reset")
            store.reset_all()
            model.clear()
            spaces.pop(directory, None)
            c.check(os.path.isdir(directory), "the directory is gone")
            c.eq(os.listdir(directory), [], "a reset left something")
        elif operation != "reset":
            known = spaces.get(directory, ())
            each = rng.choice(["a", "b"] + [s + "/a" for s in known] + [s + "/.b" for s in known])
            world.ever[directory].add(each)
            if operation == "set":
                store.set(each)
                model.add(each)
                c.log("set", directory.name, each)
        world.ever[directory] |= {s for s in spaces.get(directory, ())}
        world.verify("stores disagree with what was set")
    c.eq(world.outside(), outside, "something outside the directories was changed")


NOT_TEXT = [None, 0, 1, 1.5, b"a", ("a",), ["a"], {"a"}, Path("a"), True, object()]


@PROP.scenario(quick=200)
def not_text(c):
    rng = c.rng
    world = World(c)
    for _ in range(3):
        world.step(("set",))
    before = snapshot(c.dir)
    for bad in rng.sample(NOT_TEXT, 4):
        directory, store = rng.choice(world.stores)
        c.log("bad name", bad)
        c.raises((TypeError, ValueError), lambda: store.set(bad), "a non-text name was set")
        c.raises((TypeError, ValueError), lambda: bad in store, "a non-text name was looked up")
        c.eq(snapshot(c.dir), before, "a rejected name changed something")
        c.count("not_text")
    world.verify("rejected names changed the answers")


def forked(work):
    """Runs work() in a forked process; returns how it ended."""
    with monitors.trusted():
        pid = os.fork()
        if not pid:
            status = 99
            try:
                work()
                status = 0
            finally:
                os._exit(status)
        return os.waitpid(pid, 0)[1]


def kill_self():
    with monitors.trusted():
        os.kill(os.getpid(), signal.SIGKILL)


@PROP.scenario(quick=200)
def processes(c):
    """Processes one after the other, each killed after some operations or ending orderly."""
    rng = c.rng
    world = World(c)
    outside = world.outside()
    for _ in range(rng.randint(1, 4)):
        killed = rng.random() < 0.6
        plan = []  # the operations of the child, decided here so that the model knows of them
        for _ in range(rng.randint(1, 8)):
            directory = rng.choice(world.directories)
            if rng.random() < 0.15:
                plan.append((directory, "reset", None))
                world.model[directory].clear()
            else:
                each = name(rng, c)
                plan.append((directory, "set", each))
                world.model[directory].add(each)
                world.ever[directory].add(each)

        def work():
            stores = {}
            for directory, operation, each in plan:
                if directory not in stores:
                    stores[directory] = Checkpoints.from_directory(directory)
                if operation == "set":
                    stores[directory].set(each)
                else:
                    stores[directory].reset_all()
            if killed:
                kill_self()

        c.log("process", [(d.name, o, e) for d, o, e in plan], killed)
        status = forked(work)
        c.eq(status, signal.SIGKILL if killed else 0, "the other process failed")
        c.count("killed" if killed else "other_process")
        if rng.random() < 0.7:
            world.verify("stores open in the meantime do not see what another process did")
        for directory in world.directories:
            world.open(directory)
        world.verify("later stores do not see what an earlier process did")
        for _ in range(rng.randint(0, 5)):
            world.step()
    c.eq(world.outside(), outside, "something outside the directories was changed")


@PROP.scenario(quick=300)
def refused(c):
    """The operating system refuses a change which is necessary."""
    rng = c.rng
    world = World(c)
    for directory in world.directories:
        world.open(directory)
    for _ in range(rng.randint(0, 8)):
        world.step(("set", "set", "reset"))
    outside = world.outside()
    directory, store = rng.choice(world.stores)
    before = set(world.model[directory])
    operation = rng.choice(["set", "set", "reset"])
    each = name(rng, c)
    world.ever[directory].add(each)
    faults = monitors.Faults(rng.randint(1, 2 if operation == "set" else 2 + len(before)), rng.random() < 0.6,
                             ("change",), rng.choice([errno.EACCES, errno.EROFS, errno.ENOSPC, errno.EPERM]))
    c.log("refused", operation, each, faults.fail_at, faults.persistent, sorted(before))
    error = None
    with monitors.refusing(faults):
        try:
            if operation == "set":
                store.set(each)
            else:
                store.reset_all()
        except Exception as e:  # pylint:disable=broad-except
            error = e
    c.count("refused_" + operation, bool(faults.injected))
    c.check(error is None or faults.injected, "failed without reason", error)
    if os.path.isdir(directory):
        found = {e for e in world.ever[directory] if e in store}
        c.eq({e for e in world.ever[directory] if e in Checkpoints.from_directory(directory)}, found,
             "the stores disagree after a refusal")
    else:
        found = set()
        c.check(operation == "reset" and error is not None, "the directory is gone")
        world.open(directory)
    if operation == "set":
        c.check(before <= found <= before | {each}, "other checkpoints than the one being set changed", found, before)
        c.check(error is not None or each in found, "the checkpoint was silently not set", faults.injected)
    else:
        c.check(found <= before, "a reset set checkpoints", found, before)
        c.check(error is not None or not found, "the reset silently left checkpoints", found, faults.injected)
    world.model[directory].clear()
    world.model[directory].update(found)
    world.verify("stores disagree after a refusal")
    c.eq(world.outside(), outside, "something outside the directories was changed")
    for _ in range(5):
        world.step()
    world.verify("stores are not usable after a refusal")


@PROP.scenario(quick=300)
def killed_within(c):
    """A process is killed right before its k-th file system operation."""
    rng = c.rng
    world = World(c)
    for directory in world.directories:
        world.open(directory)
    for _ in range(rng.randint(0, 8)):
        world.step(("set", "set", "reset"))
    outside = world.outside()
    directory, store = rng.choice(world.stores)
    before = set(world.model[directory])
    operation = rng.choice(["set", "set", "reset", "open"])
    each = name(rng, c)
    world.ever[directory].add(each)
    k = rng.randint(1, 3 + (len(before) if operation == "reset" else 0))

    def work():
        seen = [0]

        def hook(event, _args):
            if event == "open" or event.startswith(("os.", "shutil.")):
                seen[0] += 1
                if seen[0] == k:
                    os.kill(os.getpid(), signal.SIGKILL)

        with monitors.trusted():
            sys.addaudithook(hook)
            if operation == "set":
                store.set(each)
            elif operation == "reset":
                store.reset_all()
            else:
                Checkpoints.from_directory(directory)

    c.log("killed within", operation, each, k, sorted(before))
    status = forked(work)
    c.check(status in (0, signal.SIGKILL), "the process failed by itself", status)
    if status:
        c.count("killed_within")
        if operation == "reset":
            c.count("killed_within_reset")
    world.open(directory)
    model = world.model[directory]
    found = {e for e in world.ever[directory] if e in world.stores[-1][1]}
    if operation == "set":
        c.check(before <= found <= before | {each}, "other checkpoints than the one being set changed", found, before)
        if not status:
            c.check(each in found, "the checkpoint was not set")
    elif operation == "reset":
        c.check(found <= before, "a reset set checkpoints", found, before)
        if not status:
            c.eq(found, set(), "the reset did not remove all checkpoints")
    else:
        c.eq(found, before, "opening changed checkpoints")
    c.eq(world.outside(), outside, "something outside the directories was changed")
    if rng.random() < 0.5:
        world.stores[-1][1].reset_all()
        model.clear()
    else:
        model.clear()
        model.update(found)
    world.verify("after the kill, stores disagree")
    for _ in range(5):
        world.step()
    world.verify("stores are not usable after a kill")
