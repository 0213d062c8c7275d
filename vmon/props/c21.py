import logging
import os
import re
import warnings

from vistautils.parameters import Parameters, YAMLParametersLoader

from vmon import gen, paramgen, yamlgen
from vmon.engine import Property
from vmon.fsutil import write

PROP = Property(
    "C21",
    scale=1.5,
    rule="Random reference graphs (chains, repetition, shared and nested targets, whole namespaces, lists and "
    "falsy values, several references in one text, stray percent signs) over a file, its included files, a "
    "context and the environment are loaded with the names in several orders and compared with a recursive "
    "evaluator; with undefined, cyclic and wrongly typed references loading has to fail.",
    required=["from_file", "from_context", "from_environment", "from_include", "whole_value", "whole_namespace",
              "whole_falsy", "whole_list", "whole_context_namespace", "embedded", "several_in_one", "chain",
              "repeated", "stray_percent", "undefined", "cycle", "self_reference", "embedded_non_text",
              "environment_off", "file_over_context", "context_over_environment", "reordered", "long_chain",
              "nested_name", "cycle_through_namespace", "literal_percent_in_environment", "deep",
              "nothing"],
    assumptions=["references to names below a value which itself is a reference are left open",
                 "texts within lists are left open", "references to null values are left open"],
    files=["vistautils/parameters.py", "vistautils/_graph.py"],
)

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

REFERENCE = re.compile(r"%([\w.\-]+)%")


class Undefined(Exception):
    pass


class Cycle(Exception):
    pass


class NotText(Exception):
    pass


class Open(Exception):
    """The specification leaves this open."""


class Evaluator:
    """Interpolates *own* (raw nested dictionaries), backing off to *context* and *environment*."""

    def __init__(self, own, context, environment, count):
        self.own, self.context, self.environment, self.count = own, context, environment, count
        self.done = {}

    def all(self):
        return {key: self.value((key,), ()) for key in self.own}

    def value(self, path, active):
        """The interpolated value of the file's parameter or namespace at the path."""
        if path in self.done:
            return self.done[path]
        if any(path == a for a in active):
            raise Cycle(path)
        active += (path,)
        raw = paramgen.lookup(self.own, path)
        if isinstance(raw, dict):
            ret = {key: self.value(path + (key,), active) for key in raw}
        elif isinstance(raw, str):
            ret = self.text(raw, active)
        else:
            ret = raw
        self.done[path] = ret
        return ret

    def text(self, raw, active):
        if REFERENCE.fullmatch(raw):
            ret = self.look_up(raw[1:-1], active)
            self.count("whole_value")
            if isinstance(ret, dict):
                self.count("whole_namespace")
            elif isinstance(ret, list):
                self.count("whole_list")
            if not isinstance(ret, str) and not ret:
                self.count("whole_falsy")
            return ret
        found = REFERENCE.findall(raw)
        if len(found) > 1:
            self.count("several_in_one")
            if len(set(found)) < len(found):
                self.count("repeated")
        if raw.count("%") > 2 * len(found):
            self.count("stray_percent")

        def replace(match):
            value = self.look_up(match.group(1), active)
            if not isinstance(value, str):
                raise NotText(raw)
            self.count("embedded")
            return value

        return REFERENCE.sub(replace, raw)

    def look_up(self, name, active):
        path = tuple(name.split("."))
        if len(path) > 1:
            self.count("nested_name")
        if paramgen.lookup(self.own, path) is not None:
            self.count("from_file")
            if len(active) > 2:
                self.count("chain")
            if paramgen.lookup(self.context, path) is not None:
                self.count("file_over_context")
            return self.value(path, active)
        for i in range(1, len(path)):
            above = paramgen.lookup(self.own, path[:i])
            if isinstance(above, str) and REFERENCE.fullmatch(above):
                raise Open(name)
        value = paramgen.lookup(self.context, path)
        if value is not None:
            self.count("from_context")
            if name in self.environment:
                self.count("context_over_environment")
            if isinstance(value, dict):
                self.count("whole_context_namespace")
            return value
        if name in self.environment and path == (name,):
            self.count("from_environment")
            return self.environment[name]
        raise Undefined(name)


STRAY = ["%", "%%", "100% ", " % x", "%é %", "5%", "% ", "%(a)s", "%s"]
NAMES = ["a", "b", "c", "d", "e", "foo", "bar", "x-y", "_u", "Q9", "ü", "HOME2", "0"]


def raw_tree(rng, depth=2, width=5, deeper=0.3):
    """Nested dictionaries with None where values will be."""
    ret = {}
    for _ in range(rng.randint(1, width)):
        key = rng.choice(NAMES)
        if rng.random() < 0.1:
            key = rng.choice(["with space", "100%", "k:", "%a%"])
        if depth and rng.random() < deeper:
            ret[key] = raw_tree(rng, depth - 1, 3, deeper)
        else:
            ret[key] = None
    return ret


def plain_value(rng):
    kind = rng.randint(0, 9)
    if kind < 5:
        return rng.choice(["", "text", "a b", "\\1", "\\g<0>", "0", "$x", "{a}", "é", "x\ny", "'", '"'])
    return rng.choice([0, 1, False, True, 0.0, 2.5, [], [1, "x"], [[]], 7])


def fill(rng, model, others, *, hostile):
    """Puts values with references into a tree with None leaves (in place)."""
    leaves = [p for p, v in paramgen.paths(model) if v is None]
    rng.shuffle(leaves)
    ranks = {p: i for i, p in enumerate(leaves)}
    namespaces = [p for p, v in paramgen.paths(model) if isinstance(v, dict)]

    def below(ns):
        return [p for p in leaves if p[: len(ns)] == ns]

    for i, path in enumerate(leaves):
        targets = [".".join(p) for p in leaves[:i]]
        spaces = [".".join(n) for n in namespaces if all(ranks[p] < i for p in below(n))]
        if hostile and rng.random() < 0.2:
            targets = targets + [".".join(path)] + [".".join(p) for p in leaves[i:]]
            spaces = spaces + [".".join(n) for n in namespaces]
        usable = [t for t in targets + others if REFERENCE.fullmatch(f"%{t}%")]
        if hostile and rng.random() < 0.1:
            usable.append(rng.choice(["undefined", "a.undefined", "foo.bar.baz", "a.b.c.d", ".a", "a.", "."]))
        whole = usable + [s for s in spaces if REFERENCE.fullmatch(f"%{s}%")]
        kind = rng.random()
        if kind < 0.3 and whole:
            value = f"%{rng.choice(whole)}%"
        elif kind < 0.65 and usable:
            texts = [t for t in usable if hostile and rng.random() < 0.2 or is_text(model, t, others)]
            pieces = []
            for _ in range(rng.randint(1, 4)):
                if texts and rng.random() < 0.75:
                    pieces.append(f"%{rng.choice(texts)}%")
                else:
                    pieces.append(rng.choice(STRAY) if rng.random() < 0.15 else gen.identifier(rng) + " ")
            value = "".join(pieces)
            if rng.random() < 0.5:
                value = rng.choice([value + "!", "-" + value, value + "\n", " " + value, f" {value}\t", value + " "])
        else:
            value = plain_value(rng)
        spot = paramgen.lookup(model, path[:-1]) if path[:-1] else model
        spot[path[-1]] = value


def is_text(model, target, others):
    value = paramgen.lookup(model, tuple(target.split(".")))
    return isinstance(value, str) and REFERENCE.fullmatch(value) is None or target in others


def shuffled(rng, model):
    if isinstance(model, dict):
        return {k: shuffled(rng, model[k]) for k in gen.shuffled(rng, model)}
    return model


class Environment:
    def __init__(self, variables):
        self.variables = variables

    def __enter__(self):
        self.saved = dict(os.environ)
        os.environ.update(self.variables)
        return dict(os.environ)

    def __exit__(self, *_):
        for key in set(os.environ) - set(self.saved):
            del os.environ[key]
        os.environ.update(self.saved)


def variables(rng):
    ret = {}
    for _ in range(rng.randint(0, 3)):
        ret[rng.choice(["a", "b", "foo", "HOME2", "VMON_X", "x-y", "VMON.DOT"])] = rng.choice(
            ["", "from env", "%a%", "%undefined%", "é", "5", "\\1"]
        )
    return ret


def expectation(c, own, context, environment):
    """The outcome of loading: ('fine', {...}), ('fails', why) or ('open', None)."""
    try:
        interpolated = Evaluator(own, context, environment, c.count).all()
        return "fine", interpolated, paramgen.merged(context, interpolated)
    except Open:
        return "open", None, None
    except (Undefined, Cycle, NotText, KeyError) as e:
        return "fails", e, None


def judge(c, load, outcome, detail, what, *context):
    if outcome == "open":
        try:
            load()
        except IOError:
            pass
        return None
    if outcome == "fails":
        c.count({Undefined: "undefined", Cycle: "cycle", NotText: "embedded_non_text"}.get(
            type(detail), "unification_conflict"))
        c.raises(IOError, load, f"{what} ({detail!r})", *context)
        return None
    loaded = load()
    c.same(dict(loaded.as_nested_dicts()), detail, what, *context)
    for path, value in paramgen.paths(detail):
        if isinstance(value, dict):
            c.eq(tuple(loaded.namespace(".".join(path)).namespace_prefix), path, "path of a namespace")
    return loaded


@PROP.scenario(quick=6000)
def graphs(c):
    rng = c.rng
    hostile = rng.random() < 0.35
    context = paramgen.tree(rng, depth=2, plain=True, leaf=lambda r, _: plain_value(r)) if rng.random() < 0.6 else {}
    if rng.random() < 0.15:
        c.count("deep")
        own = raw_tree(rng, rng.randint(3, 6), 3, 0.6)
    else:
        own = raw_tree(rng)
    new_variables = variables(rng)
    others = [".".join(p) for p, _ in paramgen.paths(context)] + [
        k for k in new_variables if "." not in k
    ]
    if rng.random() < 0.15:
        others.append("PATH")
    fill(rng, own, others, hostile=hostile)
    if rng.random() < 0.1:
        # nothing refers to these directly
        c.count("nothing")
        spots = [own] + [v for _, v in paramgen.paths(own) if isinstance(v, dict)]
        for spot in rng.sample(spots, rng.randint(1, len(spots))):
            spot["nothing"] = None
    text = yamlgen.document(rng, own)
    if text is None:
        c.trivial()
        return
    c.log("load", text, context, new_variables)
    use_environment = rng.random() < 0.8
    if not use_environment:
        c.count("environment_off")
    loader = YAMLParametersLoader(interpolate_environmental_variables=use_environment)
    if use_environment and rng.random() < 0.5:
        loader = YAMLParametersLoader()
    with Environment(new_variables) as environment:
        if any("%" in v for v in new_variables.values()):
            c.count("literal_percent_in_environment")
        visible = environment if use_environment else {}
        kwargs = {"included_context": Parameters.from_mapping(context)} if context else {}
        outcome, detail, expected = expectation(c, own, context, visible)
        if outcome == "fails":
            expected = detail
        loaded = judge(c, lambda: loader.load_string(text, **kwargs), outcome, expected, "loading", text, context)
        # the order of names does not matter
        for _ in range(2):
            other = yamlgen.emit(rng, shuffled(rng, own), style="json")
            c.count("reordered")
            again = judge(c, lambda: loader.load_string(other, **kwargs), outcome, expected,
                          "loading in another order", other, context)
            if again is not None:
                c.check(again == loaded, "the order matters", text, other)
        if loaded is not None:
            for name in environment:
                if "." not in name and name not in own and name not in context:
                    c.check(name not in loaded, "an environment variable became a parameter", name)
        if kwargs:
            c.same(dict(kwargs["included_context"].as_nested_dicts()), context, "the context changed")


@PROP.scenario(quick=1500)
def includes(c):
    """References to parameters of included files, which are interpolated on their own."""
    rng = c.rng
    n = rng.randint(1, 3)
    layer = {}
    new_variables = variables(rng)
    with Environment(new_variables) as environment:
        files = []
        for i in range(n + 1):
            others = [".".join(p) for p, _ in paramgen.paths(layer)] + [k for k in new_variables if "." not in k]
            own = raw_tree(rng, 1, 4)
            fill(rng, own, others, hostile=rng.random() < 0.05)
            document = dict(own)
            if i == n and files:
                document = {"_includes": [f"part{j}.params" for j in range(n)], **own}
            text = yamlgen.document(rng, document)
            if text is None:
                c.trivial()
                return
            file = write(c.dir / ("main.params" if i == n else f"part{i}.params"), text)
            c.log("file", i, text)
            outcome, detail, merged = expectation(c, own, layer, environment)
            if outcome != "fine":
                break
            if i == n and any(
                paramgen.lookup(own, tuple(r.split("."))) is None and paramgen.lookup(layer, tuple(r.split(".")))
                for r in REFERENCE.findall(text)
            ):
                c.count("from_include")
            layer = merged
            files.append(file)
        else:
            judge(c, lambda: YAMLParametersLoader().load(c.dir / "main.params"), "fine", layer, "with includes")
            return
        if outcome == "fails":
            main = write(c.dir / "main2.params", "_includes: [" + ", ".join(
                f"part{j}.params" if j < n else "main.params" for j in range(i + 1)
            ) + "]\n")
            c.raises(IOError, lambda: YAMLParametersLoader().load(main), f"a bad included file: {detail!r}")


@PROP.scenario(quick=500)
def cycles(c):
    """Cycles of all lengths, through texts, whole values and namespaces."""
    rng = c.rng
    n = rng.choice([1, 1, 2, 3, 5, rng.randint(2, 40)])
    names = [f"p{i}" for i in range(n)]
    spaces = rng.random() < 0.5
    full = {name: (f"ns{rng.randint(0, 2)}.{name}" if spaces and rng.random() < 0.6 else name) for name in names}
    pairs = []
    for i, name in enumerate(names):
        target = names[(i + 1) % n]
        reference = full[target]
        if "." in reference and rng.random() < 0.4 and not full[name].startswith(reference.split(".")[0]):
            reference = reference.split(".")[0]  # the whole namespace
            pairs.append((full[name], f"%{reference}%"))
            c.count("cycle_through_namespace")
            continue
        pairs.append((full[name], rng.choice([f"%{reference}%", f"x %{reference}%", f"%{reference}%%{reference}%"])))
    if n == 1:
        c.count("self_reference")
    for _ in range(rng.randint(0, 3)):
        pairs.append((f"q{len(pairs)}", rng.choice(["fine", 5, f"%{full[names[0]]}%"])))
    if rng.random() < 0.2:
        pairs.append(("outer", {"inner": "%outer%"}))
    rng.shuffle(pairs)
    own = {}
    for key, value in pairs:
        spot = own
        for part in key.split(".")[:-1]:
            spot = spot.setdefault(part, {})
        spot[key.split(".")[-1]] = value
    context = Parameters.from_mapping({"p0": "from context", "ns0": {"p1": "from context"}})
    text = yamlgen.emit(rng, own, style="json")
    c.log("cycle", text)
    outcome, detail, _ = expectation(c, own, {}, {})
    c.check(outcome == "fails" and isinstance(detail, (Cycle, NotText)), "the model finds no cycle", own)
    if isinstance(detail, Cycle):
        c.count("cycle")
    c.raises(IOError, lambda: YAMLParametersLoader().load_string(text), "a cycle", text)
    c.raises(IOError, lambda: YAMLParametersLoader().load_string(text, included_context=context), "a cycle", text)


@PROP.scenario(quick=60)
def long_chains(c):
    rng = c.rng
    n = rng.randint(50, 1500)
    order = list(range(n))
    rng.shuffle(order)
    own = {f"p{n}": "end"}
    length = 3
    for i in order:
        if rng.random() < 0.02:
            own[f"p{i}"] = f"%p{i + 1}%+"
            length += 1
        else:
            own[f"p{i}"] = f"%p{i + 1}%"
    own["twice"] = "%p0%%p0%"
    own = shuffled(rng, own)
    c.log("long_chain", n, length)
    text = "".join(f'{k}: "{v}"\n' for k, v in own.items())
    loaded = YAMLParametersLoader().load_string(text)
    c.eq(loaded.string("p0"), "end" + "+" * (length - 3), "start of a long chain", n)
    c.eq(loaded.string("twice"), 2 * loaded.string("p0"), "repeated start of a long chain", n)
    c.eq(len(list(loaded.namespaced_items())), n + 2, "number of parameters")
