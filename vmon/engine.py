"""
Drives the scenarios of one property against the real code, under monitors, and decides.

A *scenario* is a function taking a :class:`Case`: it generates a workload from ``case.rng`` (which
is determined by seed, property, scenario and case number, so every case can be replayed alone),
runs it against the code under test and feeds what it observes to an oracle through ``case.check``
and friends.  Every case is one evaluation.  Verdicts are three-valued: violation, held on what was
observed, or inconclusive (too few events were observed, or the machine could not run the workload).
"""
import collections
import errno
import hashlib
import json
import locale
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

from vmon import monitors

VERIF = Path(__file__).resolve().parent.parent
REPLAYS = VERIF / "replays"
EVIDENCE = VERIF / "evidence"
KNOWN_FINDINGS = VERIF / "known_findings.json"

CPU_LIMIT_PER_CASE = 60  # seconds of CPU; cases typically need milliseconds
STALL_LIMIT = 240  # seconds of wall time without finishing a case: inconclusive
MAX_TRACE = 60


class Violated(Exception):
    """The oracle refuted the property."""


class Inconclusive(Exception):
    """The environment, not the code under test, kept us from deciding."""


class Hang(BaseException):
    pass


def short(x, limit=300):
    try:
        s = repr(x)
    except Exception as e:  # pylint:disable=broad-except
        s = f"<unprintable {type(x).__name__}: {type(e).__name__}>"
    return s if len(s) <= limit else s[: limit - 20] + f"...<{len(s)} chars>"


ODD_DIRECTORIES = [
    "Dir With  Blanks", "~", "~root/x", "$HOME", "${HOME}", "50% off", "{0}", "e\u0301", "\u00e9", "\ufb01\u212b", "\U0001f600", " lead",
    "trail /x", "a.b.c", ".hidden", "#hash", "it's", '"q"', "back\\slash", "UPPER", "x" * 120, "[ab]*?", "-dash", "a,b;c",
    "a&b", "a:b", "x.zip", "x.tar.gz", "..x", "x..", "a=b", "\u0130", "0", "\u00a0/x", "@x", "!x", "<x>", "|", "`x`",
]


# with characters which files listing paths cannot hold; only for properties where there are none
BROKEN_DIRECTORIES = ["tab\there", "new\nline", "\n", "return\rhere", "\r\nx", "\x0b", "x\x85", "\u2028", "\x1b[0m", "\x7f", "undecodable\udc80"]
LINKED_DIRECTORIES = {"C09", "C10", "C11", "C12", "C14", "C16", "C19", "C21", "C22", "C24", "C25"}
ANY_DIRECTORIES = {"C10", "C12", "C22", "C23", "C24", "C27"}


class Case:
    """One execution: its randomness, scratch directory, event trace and oracle."""

    def __init__(self, prop, scenario, index, seed, tier, scratch):
        self.prop = prop
        self.scenario = scenario
        self.i = index
        self.seed = seed
        self.tier = tier
        self.rng = random.Random(f"{seed}/{prop}/{scenario}/{index}")
        self._scratch = scratch
        self._base = self._dir = None
        self.trace = []
        self._hash = hashlib.blake2b(digest_size=8)
        self.events = collections.Counter()
        self.checks = 0
        self.is_trivial = False

    # --- workload helpers

    @property
    def dir(self) -> Path:
        if self._dir is None:
            self._base = self._dir = Path(tempfile.mkdtemp(prefix=f"case{self.i}-", dir=self._scratch))
            own = random.Random(f"{self.seed}/{self.prop}/{self.scenario}/{self.i}/dir")
            if own.random() < 0.3:
                # whatever lies in it has a path which only the unaltered one leads to
                odd = ODD_DIRECTORIES
                if self.prop in ANY_DIRECTORIES and own.random() < 0.15:
                    odd = BROKEN_DIRECTORIES
                self._dir = self._base / own.choice(odd)
                self._dir.mkdir(parents=True)
                if self.prop in LINKED_DIRECTORIES and own.random() < 0.15:
                    # the same as without these components for nobody who follows links
                    link = self._base / "link"
                    link.symlink_to(self._dir)
                    self._dir = link / ".." / self._dir.name
        return self._dir

    def log(self, event, *details):
        """Record an event (an operation and what it observed) in this case's history."""
        self.events[event] += 1
        text = event + "(" + ", ".join(short(d, 200) for d in details) + ")"
        self._hash.update(text.encode("utf-8", "surrogatepass"))
        if len(self.trace) < MAX_TRACE:
            self.trace.append(text)

    def count(self, event, n=1):
        self.events[event] += n

    def trivial(self):
        """Mark this case as not counting as non-trivial."""
        self.is_trivial = True

    @property
    def signature(self):
        return self._hash.digest()

    # --- oracle helpers

    def fail(self, message, *context):
        raise Violated(message + "".join("; " + short(c, 400) for c in context))

    def check(self, condition, message, *context):
        self.checks += 1
        if not condition:
            self.fail(message, *context)

    def eq(self, actual, expected, message, *context):
        self.checks += 1
        same = type(actual) is type(expected) if isinstance(expected, bool) else True
        if not (same and actual == expected):
            self.fail(f"{message}: got {short(actual)}, expected {short(expected)}", *context)

    def same(self, actual, expected, message, *context):
        """Equal including types, recursively through lists, tuples and dictionaries."""
        self.checks += 1
        if not strictly_equal(actual, expected):
            self.fail(f"{message}: got {short(actual)}, expected {short(expected)}", *context)

    def raises(self, types, function, message, *context):
        """The call has to raise one of the given exceptions (and not just any)."""
        self.checks += 1
        try:
            ret = function()
        except types as e:
            return e
        except Exception as e:  # pylint:disable=broad-except
            raise Violated(
                f"{message}: raised {type(e).__name__}: {short(str(e))} rather than {types}"
                + "".join("; " + short(c) for c in context)
            ) from e
        return self.fail(f"{message}: got {short(ret)} rather than {types}", *context)


def strictly_equal(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(strictly_equal, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(strictly_equal(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b


class Scenario:
    def __init__(self, function, quick, thorough, exhaustive):
        self.function = function
        self.name = function.__name__
        self.quick = quick
        self.thorough = thorough
        self.exhaustive = exhaustive

    def cases(self, tier):
        return self.quick if tier == "quick" else self.thorough


class Property:
    """What a module in ``vmon.props`` declares."""

    def __init__(self, id_, rule, required=(), assumptions=(), files=(), scale=1):
        self.id = id_
        self.rule = rule
        #: events without which a run has observed too little to decide
        self.required = tuple(required)
        self.assumptions = list(assumptions)
        self.files = tuple(files)
        #: by which the number of cases of all scenarios is multiplied, if they are not exhaustive
        self.scale = scale
        self.scenarios = []

    def scenario(self, quick, thorough=None, exhaustive=False):
        """*thorough* defaults to 40 times as many cases; exhaustive ones are the same always."""

        def register(function):
            scale = 1 if exhaustive else self.scale
            self.scenarios.append(
                Scenario(
                    function,
                    int(quick * scale),
                    quick if exhaustive else int((thorough or quick * 40) * scale),
                    exhaustive,
                )
            )
            return function

        return register


def _is_environmental(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if isinstance(e, MemoryError):
            return True
        if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EDQUOT, errno.ENFILE):
            return True
        e = e.__cause__ or e.__context__
    return False


def run_case(prop, scenario, index, seed, tier, scratch):
    """Returns (case, None) if the property held, or (case, message) otherwise."""
    case = Case(prop.id, scenario.name, index, seed, tier, scratch)
    # nothing may depend on the user's locale (the file system's encoding stays UTF-8)
    ascii_locale = random.Random(f"{seed}/{prop.id}/{scenario.name}/{index}/locale").random() < 0.2
    try:
        locale.setlocale(locale.LC_CTYPE, "C" if ascii_locale else "C.UTF-8")
        case.count("under an ASCII locale", ascii_locale)
    except locale.Error:
        pass
    monitors.begin_case()
    message = None

    def on_alarm(_signum, _frame):
        raise Hang()

    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT_PER_CASE)
    cwd = os.getcwd()
    try:
        scenario.function(case)
    except Violated as e:
        message = str(e)
        if e.__cause__ is not None:
            message += "\n" + "".join(traceback.format_exception(e.__cause__)[-12:])
    except Inconclusive:
        raise
    except Hang:
        message = f"did not finish within {CPU_LIMIT_PER_CASE} s of CPU time"
    except monitors.Containment as e:
        message = f"effect outside of the scratch directory: {e}"
    except Exception as e:  # pylint:disable=broad-except
        if _is_environmental(e):
            raise Inconclusive(repr(e)) from e
        message = "unexpected exception:\n" + traceback.format_exc(limit=-14)
    except SystemExit as e:
        message = f"unexpected exit of the program: {e!r}\n" + traceback.format_exc(limit=-14)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        os.chdir(cwd)
    escaped = monitors.end_case()
    if escaped and message is None:
        message = f"effect outside of the scratch directory: {escaped}"
    if case._base is not None:  # pylint:disable=protected-access
        shutil.rmtree(case._base, ignore_errors=True)  # pylint:disable=protected-access
    case.events.update(monitors.take_counts())
    return case, message


def enter_scratch(scratch, repo):
    """Confine this (worker) process: from now on it can change files below *scratch* only."""
    work = os.path.join(scratch, "cwd")
    os.makedirs(work, exist_ok=True)
    tmp = os.path.join(scratch, "tmp")
    os.makedirs(tmp, exist_ok=True)
    os.chdir(work)
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    home = os.path.join(scratch, "home")
    os.makedirs(home, exist_ok=True)
    os.environ["HOME"] = home
    monitors.install(scratch, repo)


def _worker(prop, tier, seed, number, workers, scratch, repo, deadline, stop_file, known):
    enter_scratch(scratch, repo)
    # more or less equal progress through all scenarios, so that none starves if time runs out
    todo = []
    for order, scenario in enumerate(prop.scenarios):
        n = scenario.cases(tier)
        for i in range(number, n, workers):
            todo.append(((i + 0.5) / n if not scenario.exhaustive else 0.0, order, i))
    todo.sort()
    res = {
        "evals": collections.Counter(),
        "planned": len(todo),
        "checks": 0,
        "events": collections.Counter(),
        "signatures": collections.defaultdict(set),
        "trivial": 0,
        "samples": {},
        "violations": [],
        "known": [],
        "lines": None,
        "inconclusive": None,
    }
    beat = os.path.join(scratch, "heartbeat")
    last_beat = 0.0
    for _, order, i in todo:
        now = time.monotonic()
        if now > deadline or os.path.exists(stop_file):
            break
        if now - last_beat > 1:
            with open(beat, "w") as out:
                out.write(f"{prop.scenarios[order].name} {i}")
            last_beat = now
        scenario = prop.scenarios[order]
        try:
            case, message = run_case(prop, scenario, i, seed, tier, scratch)
        except Inconclusive as e:
            res["inconclusive"] = f"{scenario.name} case {i}: {e}"
            break
        res["evals"][scenario.name] += 1
        res["checks"] += case.checks
        res["events"].update(case.events)
        if case.is_trivial or not case.checks:
            res["trivial"] += 1
        else:
            res["signatures"][scenario.name].add(case.signature)
        if number == 0 and len(res["samples"].setdefault(scenario.name, [])) < 1 and case.trace:
            res["samples"][scenario.name].append(
                {"scenario": scenario.name, "case": i, "events": case.trace[:14]}
            )
        if message is not None:
            v = {
                "property": prop.id,
                "scenario": scenario.name,
                "case": i,
                "seed": seed,
                "tier": tier,
                "message": message,
                "history": case.trace,
            }
            listed = [k for k in known if known_matches(k, v)]
            if listed:
                res["known"].append((listed[0]["what"], scenario.name, i))
                continue
            res["violations"].append(v)
            with open(stop_file, "w"):
                pass
            break
    res["lines"] = monitors.lines_reached()
    with open(os.path.join(scratch, "result.pickle"), "wb") as out:
        pickle.dump(res, out)


def known_matches(known, violation):
    return (
        known["property"] == violation["property"]
        and known["scenario"] == violation["scenario"]
        and known["mechanism"] in violation["message"]
    )


def load_known(prop_id):
    data = json.loads(KNOWN_FINDINGS.read_text())
    return [k for k in data["findings"] if k["property"] == prop_id]


def run_property(prop, tier, seed, repo):
    """Runs all scenarios; prints the verdict; returns the exit status."""
    started = time.monotonic()
    if tier == "quick":
        budget = int(os.environ.get("VMON_QUICK_BUDGET", "500"))
    else:
        budget = int(os.environ.get("VMON_BUDGET", "600"))
    deadline = started + budget
    workers = int(os.environ.get("VMON_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    root = os.path.realpath(tempfile.mkdtemp(prefix="vmon-"))
    known = load_known(prop.id)
    stop_file = os.path.join(root, "stop")
    status = 2
    try:
        pids = {}
        sys.stdout.flush()
        sys.stderr.flush()
        for n in range(workers):
            scratch = os.path.join(root, f"w{n}")
            os.mkdir(scratch)
            pid = os.fork()
            if pid == 0:
                code = 70
                try:
                    devnull = os.open(os.devnull, os.O_RDWR)
                    os.dup2(devnull, 0)
                    log = os.open(
                        os.path.join(scratch, "output"), os.O_WRONLY | os.O_CREAT, 0o600
                    )
                    os.dup2(log, 1)
                    os.dup2(log, 2)
                    # the worker's own flag file must lie where it is allowed to write
                    _worker(
                        prop, tier, seed, n, workers, scratch, repo, deadline,
                        os.path.join(scratch, "stop"), known,
                    )
                    code = 0
                except BaseException:  # pylint:disable=broad-except
                    traceback.print_exc()
                finally:
                    try:
                        sys.stdout.flush()
                        sys.stderr.flush()
                    finally:
                        os._exit(code)
            pids[pid] = scratch
        trouble = _wait_for(pids, stop_file)
        status = _conclude(prop, tier, seed, repo, workers, root, started, trouble)
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
        shutil.rmtree(root, ignore_errors=True)
    return status


def _wait_for(pids, _stop_file):
    """Waits for the workers; returns descriptions of those which did not end properly."""
    trouble = []
    running = dict(pids)
    started = time.time()
    while running:
        pid, wait_status = os.waitpid(-1, os.WNOHANG)
        if pid in running:
            scratch = running.pop(pid)
            code = os.waitstatus_to_exitcode(wait_status)
            if code != 0:
                output = Path(scratch, "output")
                tail = output.read_text(errors="replace")[-3000:] if output.exists() else ""
                trouble.append(f"worker ended with {code}:\n{tail}")
            if os.path.exists(os.path.join(scratch, "stop")):
                # someone found a violation: the others need not continue
                for other in running.values():
                    Path(other, "stop").touch()
            continue
        now = time.time()
        for other_pid, scratch in list(running.items()):
            beat = os.path.join(scratch, "heartbeat")
            last = os.path.getmtime(beat) if os.path.exists(beat) else started
            if now - last > STALL_LIMIT:
                what = Path(beat).read_text() if os.path.exists(beat) else "start"
                trouble.append(f"worker stalled (wall clock) near: {what}")
                os.kill(other_pid, signal.SIGKILL)
                os.waitpid(other_pid, 0)
                del running[other_pid]
        time.sleep(0.02)
    return trouble


def _conclude(prop, tier, seed, repo, workers, root, started, trouble):
    results = []
    for n in range(workers):
        file = Path(root, f"w{n}", "result.pickle")
        if file.exists():
            results.append(pickle.loads(file.read_bytes()))
    evals = collections.Counter()
    events = collections.Counter()
    signatures = collections.defaultdict(set)
    samples, violations, known_hits = [], [], []
    lines = collections.defaultdict(set)
    checks = trivial = planned = 0
    for r in results:
        evals.update(r["evals"])
        events.update(r["events"])
        for name, sigs in r["signatures"].items():
            signatures[name] |= sigs
        for group in r["samples"].values():
            samples.extend(group)
        violations.extend(r["violations"])
        known_hits.extend(r["known"])
        checks += r["checks"]
        trivial += r["trivial"]
        planned += r["planned"]
        for file, numbers in r["lines"].items():
            lines[file] |= numbers
        if r["inconclusive"]:
            trouble.append("inconclusive: " + r["inconclusive"])
    if os.environ.get("VMON_DUMP_LINES"):  # for tools/mutate.py
        Path(os.environ["VMON_DUMP_LINES"]).write_text(
            json.dumps({file: sorted(numbers) for file, numbers in lines.items()})
        )
    violations.sort(key=lambda v: (len(v["history"]), v["scenario"], v["case"]))
    missing = [name for name in prop.required if not events[name]]
    never_run = [s.name for s in prop.scenarios if not evals[s.name]]
    coverage = {
        "evaluations": sum(evals.values()),
        "distinct_nontrivial": sum(len(s) for s in signatures.values()),
        "rule": prop.rule
        + " A case is one execution of a scenario against the real code; it counts as non-trivial "
        "if at least one oracle decision was made and the scenario did not mark it as trivial, and "
        "as distinct if its recorded event history differs from all others of its scenario.",
        "samples": samples[:8],
        "oracle_decisions": checks,
        "trivial_cases": trivial,
        "planned_cases": planned,
        "cases_per_scenario": dict(sorted(evals.items())),
        "distinct_per_scenario": {k: len(v) for k, v in sorted(signatures.items())},
        "events_observed": dict(sorted(events.items())),
        "code_reached": monitors.describe_reach(lines, prop.files, repo),
        "workers": workers,
        "exhaustive_scenarios": [
            s.name for s in prop.scenarios if s.exhaustive and evals[s.name] == s.cases(tier)
        ],
    }
    evidence = {
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - started, 3),
        "violations": len(violations),
    }
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{prop.id}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")
    for what in sorted({k[0] for k in known_hits}):
        print(f"KNOWN-FINDING: property={prop.id} {what}")
    print(
        f"{prop.id}: {coverage['evaluations']} executions "
        f"({coverage['distinct_nontrivial']} distinct non-trivial), {checks} oracle decisions, "
        f"{sum(events.values())} events, {evidence['wall_s']} s"
    )
    if violations:
        v = violations[0]
        REPLAYS.mkdir(exist_ok=True)
        replay = REPLAYS / f"{prop.id}-{v['scenario']}-{v['case']}-{seed}.json"
        replay.write_text(json.dumps(v, indent=1, default=str) + "\n")
        print(f"{v['scenario']} case {v['case']}: {v['message']}")
        print("history:\n  " + "\n  ".join(v["history"][-20:]))
        print(f"VIOLATION property={prop.id} replay={replay}")
        return 1
    if trouble or missing or never_run:
        for t in trouble:
            print("INCONCLUSIVE:", t)
        if missing:
            print("INCONCLUSIVE: never observed", missing)
        if never_run:
            print("INCONCLUSIVE: scenarios never run", never_run)
        return 2
    return 0


def replay(prop, record, repo):
    scenario = next(s for s in prop.scenarios if s.name == record["scenario"])
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="vmon-replay-"))
    try:
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                enter_scratch(scratch, repo)
                case, message = run_case(
                    prop, scenario, record["case"], record["seed"], record["tier"], scratch
                )
                print("history:\n  " + "\n  ".join(case.trace))
                print("oracle:", message or "held")
                code = 1 if message else 0
            except BaseException:  # pylint:disable=broad-except
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os._exit(code)
        status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if status == 1:
        print(f"VIOLATION property={prop.id} replay={record.get('file')}")
    return status
