import contextlib
import io
import json
import logging
import math
import os
import re
import sys
import warnings
from pathlib import Path

from vistautils.logging_utils import configure_logging_from
from vistautils.parameters import ParameterError, Parameters
from vistautils.parameters_only_entrypoint import parameters_only_entry_point

from vmon import gen, paramgen, process, yamlgen
from vmon.engine import VERIF, Property
from vmon.fsutil import write

PROP = Property(
    "C26",
    rule="Command lines with random parameter files (or parameters given by the caller), override sequences "
    "(repeated, nested, new and existing names) and logging parameters are run through the entry point, in "
    "this process and in processes of their own; the calls of the program, the root logger, every line "
    "arriving at standard output and the error are compared with a model; wrong command lines, broken "
    "files, bad levels and failing programs are included.",
    required=["from_file", "given", "override_existing", "override_new", "override_replaces_namespace", "override_nested", "repeated_override",
              "override_value_odd", "option_before_file", "default_level", "explicit_level", "level_by_override",
              "config_file", "missing_config_file", "invalid_level", "level_not_text", "missing_file",
              "broken_file", "no_arguments", "incomplete_override", "superfluous_argument", "file_despite_given",
              "unknown_option", "conflicting_override", "program_error", "program_exit", "message_shown",
              "message_hidden", "parameters_shown", "process", "process_failure", "unprintable", "help",
              "configure_directly", "other_handler", "log_params", "own_level", "usage_shown", "no_script",
              "relative_file"],
    assumptions=["override names and values do not look like options", "values have no %name% references"],
    files=["vistautils/parameters_only_entrypoint.py", "vistautils/logging_utils.py", "vistautils/parameters.py"],
)

warnings.simplefilter("ignore")

LEVELS = {"CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARNING": 30, "WARN": 30, "INFO": 20, "DEBUG": 10}


@contextlib.contextmanager
def clean_logging():
    """A fresh root logger; everything as before afterwards."""
    root = logging.getLogger()
    kept = (root.level, root.handlers[:])
    others = {n: (lg.disabled, lg.level, lg.handlers[:], lg.propagate)
              for n, lg in logging.Logger.manager.loggerDict.items() if isinstance(lg, logging.Logger)}
    shutdown_list = logging._handlerList[:]
    root.handlers[:] = []
    root.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    try:
        yield root
    finally:
        for handler in root.handlers:
            if isinstance(handler, logging.FileHandler):
                handler.close()
        root.setLevel(kept[0])
        root.handlers[:] = kept[1]
        for n, lg in logging.Logger.manager.loggerDict.items():
            if isinstance(lg, logging.Logger):
                lg.disabled, level, handlers, lg.propagate = others.get(n, (False, 0, [], True))
                lg.setLevel(level)
                lg.handlers[:] = handlers
        logging._handlerList[:] = shutdown_list


def leaf(rng, lists=True):
    value = yamlgen.leaf(rng, lists)
    return value if not isinstance(value, (str, list, float)) or "%" not in str(value) else "text"


def model_tree(rng):
    return {k: v for k, v in paramgen.tree(rng, depth=2, leaf=leaf, plain=rng.random() < 0.6).items()
            if k not in ("logging", "_includes")}


def override_value(rng, c):
    if rng.random() < 0.3:
        c.count("override_value_odd")
        return rng.choice(["", " ", "-1", "-2.5", "a b", "true", "1", "null", "{}", "[1, 2]", "%a%", "é", "x=y", "a\nb", "$PATH",
                           "${HOME}/x", "~", "~/x", "@file", "\\n", "'q'", '"', "%(prog)s", "# c", "a: b", "*", "100%",
                           "&x", "0x10", "1e3", "x" * 3000, "\u2028", ", ", "a,b", "\t"])
    return rng.choice(["hello", "x", "/some/path", "a.b.c", gen.identifier(rng), "0.5"])


def overrides(c, model, names=None):
    """Override pairs compatible with the model, and the effective model."""
    rng = c.rng
    pairs = []
    effective = paramgen.copied(model)
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < 0.99 else 40):
        kind = rng.randint(0, 4)
        leaves = [p for p, _ in paramgen.leaves(effective)]
        namespaces = [p for p, v in paramgen.paths(effective) if isinstance(v, dict)]
        if kind == 0 and pairs:
            path = rng.choice(pairs)[0]
            c.count("repeated_override")
        elif kind <= 2 and leaves:
            path = rng.choice(leaves)
            c.count("override_existing")
        elif kind == 3 and namespaces:
            path = rng.choice(namespaces) + (rng.choice(paramgen.PLAIN),)
        elif kind == 4 and pairs and len(pairs[-1][0]) > 1 and rng.random() < 0.5:
            # a namespace only the pairs mentioned so far
            path = pairs[-1][0][:rng.randint(1, len(pairs[-1][0]) - 1)]
            if paramgen.lookup(model, path) is not None:
                continue
            c.count("override_replaces_namespace")
            place = effective
            for part in path[:-1]:
                place = place[part]
            place[path[-1]] = None
        else:
            path = tuple(rng.choice(paramgen.PLAIN) for _ in range(rng.randint(1, 3)))
        if any(not part or part[0] == "-" for part in path):
            continue
        # must not turn values into namespaces or the other way around
        if isinstance(paramgen.lookup(effective, path), dict) or any(
                paramgen.lookup(effective, path[:i]) is not None
                and not isinstance(paramgen.lookup(effective, path[:i]), dict) for i in range(1, len(path))):
            continue
        if len(path) > 1:
            c.count("override_nested")
        if paramgen.lookup(effective, path) is None:
            c.count("override_new")
        value = override_value(rng, c)
        pairs.append((path, value))
        place = effective
        for part in path[:-1]:
            place = place.setdefault(part, {})
        place[path[-1]] = value
    return pairs, effective


class Program:
    def __init__(self, error=None):
        self.calls, self.error, self.root_level, self.messages = [], error, None, []

    def __call__(self, params):
        self.calls.append(params)
        self.root_level = logging.getLogger().level
        for logger, level, text in self.messages:
            logging.getLogger(logger).log(level, text)
        if self.error:
            raise self.error


def run(program, args, *, given=None, direct=None, usage=None, **kwargs):
    """Returns (error, standard output)."""
    out, err = io.StringIO(), io.StringIO()
    argv = sys.argv
    sys.argv = ["the_program.py"] + args
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                if direct:
                    direct()
                elif given is not None:
                    parameters_only_entry_point(program, usage, parameters=given, **kwargs)
                elif usage is not None:
                    parameters_only_entry_point(program, usage, **kwargs)
                else:
                    parameters_only_entry_point(program, **kwargs)
                error = None
            except BaseException as e:  # noqa
                if type(e).__name__ in ("CaseTimeout", "Containment"):
                    raise
                error = e
    finally:
        sys.argv = argv
    return error, out.getvalue()


def flags(pairs):
    return [["-p", ".".join(path), value] for path, value in pairs]


def messages(rng):
    ret = []
    for i in range(rng.randint(1, 8)):
        level = rng.choice([10, 20, 30, 40, 50, 10, 20, 5, 15, 25, 49, 51])
        logger = rng.choice([None, "some.module", "vmon_new_" + gen.identifier(rng), "vistautils.parameters"])
        ret.append((logger, level, f"message-{i}-{level}-{rng.randint(0, 10 ** 9)}-{rng.choice(['', 'é', '%s', '100%'])}"))
    return ret


def params_file(c, model):
    text = yamlgen.document(c.rng, model)
    if text is None:
        text = json.dumps({"plain": "fallback"})
        model = {"plain": "fallback"}
    file = write(str(c.dir / c.rng.choice(["p.params", "the params.yaml", "é"])), text)
    return file, model


def command_line(c, file, pairs):
    rng = c.rng
    parts = flags(pairs)
    if file is not None:
        where = rng.randint(0, len(parts))
        if where and parts:
            c.count("option_before_file")
        parts.insert(where, [file])
    return [a for part in parts for a in part]


def check_output(c, program, out, level, logged):
    position = -1
    for logger, message_level, text in logged:
        shown = message_level >= level
        occurrences = [m.start() for m in re.finditer(re.escape(text), out)]
        c.eq(len(occurrences), 1 if shown else 0, "wrong number of times a message appears", (text, message_level, level))
        if shown:
            c.count("message_shown")
            c.check(occurrences[0] > position, "messages are shown out of order")
            position = occurrences[0]
            line = out[out.rfind("\n", 0, occurrences[0]) + 1:occurrences[0]]
            c.check(logging.getLevelName(message_level) in line, "a message is shown without its level", line)
        else:
            c.count("message_hidden")


@PROP.scenario(quick=4000)
def effective_parameters(c):
    rng = c.rng
    model = model_tree(rng)
    level = 20
    if rng.random() < 0.5:
        name = rng.choice(sorted(LEVELS))
        level = LEVELS[name]
        model["logging"] = {"root_level": name}
        if rng.random() < 0.3:
            model["logging"]["unrelated"] = 1
        c.count("explicit_level")
    from_file = rng.random() < 0.6
    if from_file:
        file, model = params_file(c, model)
        if rng.random() < 0.15:
            c.count("relative_file")
            name = rng.choice(["~", "~/p", "$HOME", "@p", "p=1", "a b", "%p%", "*", "p.params ", "./p", "a/../p", "{x}", "é",
                               "link/../q", "link/../s/../q"])
            os.chdir(c.dir)
            if name.startswith("link/"):
                # not "q" here
                os.makedirs("else where/s/t")
                os.symlink("else where/s/t" if name == "link/../s/../q" else "else where/s", "link")
                if name == "link/../s/../q":
                    os.mkdir("else where/s/s")
                c.count("link_then_parent")
            for directory in ("~", "a"):
                if name.startswith(directory + "/"):
                    os.mkdir(directory)
            os.rename(file, name)
            file = name
        if model == {"plain": "fallback"}:
            level = 20
        given = None
        c.count("from_file")
    else:
        file, given = None, Parameters.from_mapping(paramgen.copied(model))
        c.count("given")
    pairs, effective = overrides(c, {k: v for k, v in model.items() if k != "logging"})
    if "logging" in model:
        effective = {**{k: v for k, v in effective.items() if k in model}, "logging": model["logging"],
                     **{k: v for k, v in effective.items() if k not in model}}
    if rng.random() < 0.25:
        name = rng.choice(sorted(LEVELS))
        level = LEVELS[name]
        pairs.insert(rng.randint(0, len(pairs)), (("logging", "root_level"), name))
        effective["logging"] = {**effective.get("logging", {}), "root_level": name}
        c.count("level_by_override")
    elif "logging" not in model:
        c.count("default_level")
    error = None
    kind = rng.randint(0, 5)
    if kind == 0:
        error = rng.choice([ValueError("x"), ParameterError("y"), OSError(2, "z"), KeyboardInterrupt(), AssertionError()])
        c.count("program_error")
    elif kind == 1:
        error = SystemExit(rng.choice([0, 1, 3, "message"]))
        c.count("program_exit")
    program = Program(error)
    program.messages = messages(rng)
    args = command_line(c, file, pairs)
    kwargs = {"program_name": "prog"} if rng.random() < 0.5 else {}
    c.log("model", model, "args", args, "error", error)
    with clean_logging() as root:
        if rng.random() < 0.2:
            root.addHandler(rng.choice([logging.NullHandler(), logging.StreamHandler(io.StringIO())]))
            c.count("other_handler")
        if rng.random() < 0.2:
            # loggers may let everything pass: what is shown depends on the root level all the same
            for logger, _, _ in program.messages:
                if logger is not None:
                    logging.getLogger(logger).setLevel(1)
                    c.count("own_level")
        no_script = rng.random() < 0.05
        if no_script:
            # as by "python -c" or in an interactive session
            c.count("no_script")
            script = sys.modules["__main__"].__dict__.pop("__file__")
        try:
            raised, out = run(program, args, given=given, **kwargs)
        finally:
            os.chdir("/")
            if no_script:
                sys.modules["__main__"].__file__ = script
        c.check(raised is error, "the error of the program did not arrive", (raised, error, out))
        c.eq(len(program.calls), 1, "wrong number of calls of the program")
        actual = program.calls[0]
        c.check(isinstance(actual, Parameters), "the program got something else than parameters", actual)
        c.same(actual.as_nested_dicts(), effective, "wrong effective parameters", (model, args))
        if not pairs and given is not None:
            c.same(actual, given, "the parameters given by the caller were changed")
        c.eq(program.root_level, level, "wrong root logging level")
        check_output(c, program, out, level, program.messages)
        if given is not None:
            c.same(given.as_nested_dicts(), model, "the parameters of the caller were altered")
        if level <= 20 and _printable(actual):
            for path, value in paramgen.leaves(effective):
                if isinstance(value, str) and re.fullmatch("[a-z]{3,}", value):
                    c.check(value in out, "a parameter is not shown", (path, out))
                    c.count("parameters_shown")


def _printable(params):
    try:
        return bool(str(params))
    except RuntimeError:
        return False  # e.g. dates cannot be written


@PROP.scenario(quick=300)
def unprintable_parameters(c):
    """Whatever parameters the caller gives, the program runs."""
    rng = c.rng
    value = rng.choice([None, b"bytes", object(), {1, 2}, math, Path("x"), lambda: 1])
    given = Parameters.from_mapping({"a": value, "b": {"c": [value]}})
    pairs = [(("x",), "1")] if rng.random() < 0.5 else []
    program = Program()
    c.log("value", value)
    with clean_logging():
        raised, _ = run(program, command_line(c, None, pairs), given=given)
        c.eq(raised, None, "parameters which cannot be shown prevent the program from running")
        c.eq(len(program.calls), 1, "wrong number of calls of the program")
        c.check(program.calls[0].namespace("b").arbitrary_list("c")[0] is value, "a value was changed")
        c.eq("x" in program.calls[0], bool(pairs), "override missing")
    c.count("unprintable")


CONFIG = """[loggers]
keys=root{more}
[handlers]
keys=file
[formatters]
keys=simple
[logger_root]
level={level}
handlers=file
{section}
[handler_file]
class=FileHandler
level=NOTSET
formatter=simple
args=({file}, 'a', 'utf-8')
[formatter_simple]
format=%(levelname)s|%(message)s
"""


@PROP.scenario(quick=400)
def logging_config_file(c):
    rng = c.rng
    target = str(c.dir / "log.txt")
    name = rng.choice(["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"])
    level = LEVELS[name]
    config = write(str(c.dir / "logging.ini"), CONFIG.format(level=name, file=ascii(str(target)).replace("%", "%%"), more="", section=""))
    model = {"logging": {"config_file": config}, "other": 1}
    if rng.random() < 0.4:
        model["logging"]["root_level"] = rng.choice(sorted(LEVELS))
    missing = rng.random() < 0.25
    if missing:
        model["logging"]["config_file"] = str(c.dir / "nowhere.ini")
    program = Program()
    fresh = f"vmon_fresh_{rng.randint(0, 10 ** 12)}"
    program.messages = [(rng.choice([None, fresh]), lv, text) for _, lv, text in messages(rng)]
    given = file = None
    if rng.random() < 0.5:
        given = Parameters.from_mapping(model)
    else:
        file = write(str(c.dir / "p.params"), json.dumps(model, ensure_ascii=False))
    c.log("model", model, program.messages)
    with clean_logging():
        raised, out = run(program, command_line(c, file, []), given=given)
        if missing:
            c.check(isinstance(raised, ParameterError), "no parameter error for a missing logging configuration", raised)
            c.eq(program.calls, [], "the program was run despite a missing logging configuration")
            c.count("missing_config_file")
            return
        c.eq(raised, None, "the program failed")
        c.eq(len(program.calls), 1, "wrong number of calls of the program")
        c.eq(program.root_level, level, "the root level of the configuration is not used")
        with open(target, encoding="utf-8") as inp:
            lines = inp.read().splitlines()
        expected = [f"{logging.getLevelName(lv)}|{text}" for _, lv, text in program.messages if lv >= level]
        c.eq([line for line in lines if "message-" in line], expected, "wrong messages at the configured target")
        for _, _, text in program.messages:
            c.check(text not in out, "the default logging was used in addition to the configuration", out)
        c.count("config_file")


@PROP.scenario(quick=4000)
def failures(c):
    rng = c.rng
    kind = rng.choice(["missing_file", "broken_file", "no_arguments", "incomplete_override", "superfluous_argument",
                       "file_despite_given", "unknown_option", "conflicting_override", "invalid_level",
                       "level_not_text", "help"])
    model = model_tree(rng)
    model["value"] = "v"
    model["namespace"] = {"name": "n"}
    types, status = (Exception,), None
    given = Parameters.from_mapping(paramgen.copied(model)) if rng.random() < 0.3 else None
    pairs, _ = overrides(c, {k: v for k, v in model.items()})
    file = None
    if kind in ("invalid_level", "level_not_text"):
        bad = rng.choice(["LOUD", "", "WARNING ", "11x", "INF", "INFOO", "NOT_A_LEVEL", "é"]) if kind == "invalid_level" \
            else rng.choice([10, 3.5, ["INFO"], {"x": 1}, True])
        model["logging"] = {"root_level": bad}
        types = (ParameterError,)
        if given is not None:
            given = Parameters.from_mapping(paramgen.copied(model))
        elif kind == "invalid_level" and rng.random() < 0.5:
            model["logging"] = {"root_level": "INFO"}
            pairs.append((("logging", "root_level"), bad))
    if given is None:
        file = write(str(c.dir / "p.params"), json.dumps({k: v for k, v in model.items() if _jsonable(v)}))
    if kind == "missing_file":
        given, file = None, str(c.dir / "nowhere.params")
    elif kind == "broken_file":
        given = None
        file = write(str(c.dir / "p.params"), rng.choice(
            ["a: [", "just text", "- a\n- b\n", "1: x\n", "a.b: c\n", "_includes: [nowhere]\n", "a: '%undefined_name%'\n",
             "a: '%b%'\nb: '%a%'\n"]))
    args = command_line(c, file, pairs)
    if kind in ("no_arguments", "incomplete_override", "superfluous_argument", "file_despite_given", "unknown_option"):
        types, status = (SystemExit,), 2
    if kind == "no_arguments":
        given, args = None, command_line(c, None, pairs)
    elif kind == "incomplete_override":
        args += rng.choice([["-p"], ["-p", "name"]])
    elif kind == "superfluous_argument":
        args += ["extra"] if file is not None else ["extra", "more"]
    elif kind == "file_despite_given":
        given = Parameters.from_mapping({"a": 1})
        args = command_line(c, write(str(c.dir / "p.params"), "a: 1"), pairs)
    elif kind == "unknown_option":
        args.insert(0, rng.choice(["--verbose", "-x", "-q"]))
    elif kind == "conflicting_override":
        args += rng.choice([["-p", "value.below", "x"], ["-p", "namespace", "x"], ["-p", "", "x"]])
    elif kind == "help":
        args.insert(0, rng.choice(["-h", "--help"]))
        types, status = (SystemExit,), 0
    program = Program()
    c.log(kind, args, model)
    kwargs = {}
    if rng.random() < 0.5:
        kwargs["program_name"] = "prog-" + gen.identifier(rng)
    usage = f"does-{rng.randint(0, 10 ** 6)}" if rng.random() < 0.5 else None
    with clean_logging():
        raised, out = run(program, args, given=given, usage=usage, **kwargs)
        c.eq(program.calls, [], f"{kind}: the program was run")
        c.check(isinstance(raised, types), f"{kind}: no error, or one of an unexpected kind", repr(raised), out)
        if status is not None:
            c.eq(raised.code or 0, status, f"{kind}: wrong exit status")
        if kind == "help":
            c.check((usage or "") in out, "the usage message is not part of the help", out)
            c.check(kwargs.get("program_name", "") in out, "the name of the program is not part of the help", out)
            c.check("param_file" not in out if given is not None else "param_file" in out,
                    "the arguments described in the help", out)
            c.count("usage_shown")
    c.count(kind)


def _jsonable(value):
    try:
        return math.isfinite(len(json.dumps(value, allow_nan=False)))
    except (TypeError, ValueError):
        return False


@PROP.scenario(quick=300)
def configured_directly(c):
    rng = c.rng
    model = model_tree(rng)
    level = 20
    if rng.random() < 0.7:
        name = rng.choice(sorted(LEVELS))
        level = LEVELS[name]
        model["logging"] = {"root_level": name}
    params = Parameters.from_mapping(paramgen.copied(model))
    logged = messages(rng)
    kwargs = {}
    if rng.random() < 0.5:
        kwargs["log_params"] = rng.random() < 0.7
    model_before = paramgen.copied(model)
    c.log("model", model, kwargs)
    with clean_logging() as root:
        def direct():
            configure_logging_from(params, **kwargs)
            for logger, lv, text in logged:
                logging.getLogger(logger).log(lv, text)

        raised, out = run(None, [], direct=direct)
        try:
            str(params)
            c.eq(raised, None, "logging could not be configured")
        except RuntimeError:
            if raised is not None:
                return  # asking for parameters to be logged which cannot be shown
        c.eq(root.level, level, "wrong root logging level")
        check_output(c, None, out, level, logged)
        if kwargs.get("log_params") and level <= 20:
            c.check(str(params).strip() in out, "the parameters were not logged")
            c.count("log_params")
        c.same(params.as_nested_dicts(), model_before, "the parameters were changed")
    c.count("configure_directly")


@PROP.scenario(quick=16, thorough=600)
def whole_process(c):
    rng = c.rng
    model = {k: v for k, v in model_tree(rng).items() if _jsonable(v)}
    name = rng.choice(sorted(LEVELS))
    model["logging"] = {"root_level": name}
    level = LEVELS[name]
    pairs, effective = overrides(c, model)
    if effective["logging"] != model["logging"]:
        return c.trivial()
    failure = rng.choice([None, None, "error", "exit", "usage", "file", "level"])
    use_given = rng.random() < 0.3 and failure != "file"
    if failure == "level":
        model["logging"]["root_level"] = "NONSENSE"
    logged = [(lv, text) for _, lv, text in messages(rng)]
    plan = {"given": model if use_given else None, "failure": failure, "messages": logged, "logger": "a.b"}
    plan_file = write(str(c.dir / "plan.json"), json.dumps(plan))
    result = c.dir / "result.txt"
    file = None
    if not use_given:
        text = yamlgen.document(rng, model)
        if text is None:
            return c.trivial()
        file = write(str(c.dir / "p.params"), text)
    if failure == "file":
        file = str(c.dir / "nowhere")
    args = command_line(c, file, pairs) + (["--nonsense"] if failure == "usage" else [])
    c.log("model", model, args, failure)
    done = process.run([VERIF / "vmon" / "child_entry.py", process.repo(), result, plan_file] + args,
                       env={"PYTHONIOENCODING": "utf-8"})
    output = done.stdout.decode("utf-8")
    calls = result.read_text(encoding="utf-8").splitlines() if result.exists() else []
    expected_status = {None: 0, "error": 1, "exit": 17, "usage": 2, "file": 1, "level": 1}[failure]
    c.eq(done.returncode, expected_status, "wrong exit status", output[-1500:])
    if failure in ("usage", "file", "level"):
        c.eq(calls, [], "the program was run")
    else:
        c.eq(len(calls), 1, "wrong number of calls of the program", output[-1500:])
        c.same(json.loads(calls[0]), effective, "wrong effective parameters")
        for lv, text in logged:
            c.eq(output.count(text), int(lv >= level), "wrong number of times a message appears", (lv, text, name))
    c.count("process")
    if failure:
        c.count("process_failure")
