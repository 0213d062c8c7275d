import json
import logging
import os
import warnings
from pathlib import Path

from vistautils.parameters import ParameterError, Parameters, YAMLParametersLoader

from vmon import gen, monitors, paramgen, yamlgen
from vmon.engine import Property
from vmon.fsutil import write

PROP = Property(
    "C20",
    rule="Random directory layouts of YAML files in various styles with random include graphs (nested, "
    "diamond-shaped, repeated, relative, absolute, through '..'), contexts and environments are loaded and "
    "compared with merging nested dictionaries in the documented order of precedence; and variants with one "
    "defect somewhere in the include graph, for which the error has to name the file.",
    required=["many_files", "include", "nested_include", "diamond", "absolute_include", "parent_include", "linked_include", "context",
              "overridden_include", "overridden_by_later", "context_overridden", "conflict", "string",
              "relative_from_string", "absolute_from_string", "missing_include", "cycle", "self_include",
              "not_a_mapping", "non_string_name", "nested_non_string_name", "separator_in_name", "bad_yaml",
              "defect_in_include", "relative_path", "reused_loader", "deprecated_context", "both_contexts",
              "nested_includes_name", "aliases", "missing_file", "changed", "changed_include",
              "overridden_again",
              "unreadable", "fault_reported"],
    assumptions=["files are UTF-8 without carriage returns, included files are not symbolic links",
                 "values are not null, and no name is given twice in one mapping"],
    files=["vistautils/parameters.py"],
)

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


def content(rng, related=None):
    model = paramgen.tree(rng, depth=2, plain=rng.random() < 0.7, leaf=yamlgen.leaf, empty=0.05)
    if related:
        for key, value in related.items():
            if rng.random() < 0.4:
                if isinstance(value, dict):
                    if isinstance(model.get(key, {}), dict):
                        model[key] = {**{k: v for k, v in model.get(key, {}).items() if k not in value},
                                      **{k: v for k, v in value.items()
                                         if isinstance(v, dict) or rng.random() < 0.5},
                                      "more": rng.randint(0, 9)}
                else:
                    model[key] = yamlgen.leaf(rng)
    model.pop("_includes", None)
    return model


class Layout:
    """A set of parameter files; *include* graphs go from higher to lower numbers."""

    def __init__(self, c, cycle=False):
        self.c = c
        rng = self.rng = c.rng
        self.root = c.dir / "layout"
        self.directories = ["", "sub", "sub/deeper", "other dir", "é", "~", "~/~root", "$HOME"]
        n = rng.choice([1, 1, 2, 3, 4, 6])
        self.files = []
        for i in range(n):
            name = rng.choice(["p", "some params", "ü", "with-dash", "x.y"]) + f"{i}" + rng.choice(
                [".params", ".yaml", ""]
            )
            self.files.append(os.path.join(str(self.root), rng.choice(self.directories), name))
        self.models = []
        for i in range(n):
            self.models.append(content(rng, self.models[-1] if self.models else None))
        self.includes = {i: [] for i in range(n)}
        for i in range(1, n):
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                self.includes[i].append(rng.randrange(i))
            if i > 1 and rng.random() < 0.25:
                # again after another one, which it overrides now
                again = rng.sample(range(i), 2)
                self.includes[i] += [again[0], again[1], again[0]]
        if n > 1 and not self.includes[n - 1]:
            self.includes[n - 1].append(n - 2)
        if cycle:
            start = n - 1
            seen = self.reachable(start)
            target = rng.choice(sorted(seen))
            back = rng.choice(sorted(x for x in seen if target in self.reachable(x) or x == target))
            # from *target*, which is reachable from *back*, back to it
            self.includes[target].insert(rng.randint(0, len(self.includes[target])), back)
            if target == back:
                c.count("self_include")
        self.extra = {}

    def reachable(self, i):
        ret, todo = {i}, [i]
        while todo:
            for j in self.includes[todo.pop()]:
                if j not in ret:
                    ret.add(j)
                    todo.append(j)
        return ret

    def reference(self, i, j):
        rng = self.rng
        target = self.files[j]
        if rng.random() < 0.25:
            self.c.count("absolute_include")
            return target
        relative = os.path.relpath(target, os.path.dirname(self.files[i]))
        if rng.random() < 0.15:
            # through another directory: what comes before ".." matters
            self.c.count("linked_include")
            there = os.path.join(str(self.root), "sub", "deeper")
            return "linked/" + os.path.relpath(target, there)
        if rng.random() < 0.2:
            relative = "./" + relative
        if relative.startswith(".."):
            self.c.count("parent_include")
        return relative

    def lay(self):
        """Writes all files."""
        os.makedirs(self.root, exist_ok=True)
        for directory in self.directories:
            os.makedirs(self.root / directory, exist_ok=True)
            link = self.root / directory / "linked"
            if not link.is_symlink():
                link.symlink_to(self.root / "sub" / "deeper")
        for i, model in enumerate(self.models):
            document = {}
            if self.includes[i]:
                self.c.count("include", len(self.includes[i]))
                references = [self.reference(i, j) for j in self.includes[i]]
                if self.rng.random() < 0.5:
                    document = {"_includes": references, **model}
                else:
                    document = {**model, "_includes": references}
            elif self.rng.random() < 0.1:
                self.c.count("no_includes")
                document = {"_includes": [], **model} if self.rng.random() < 0.5 else {**model, "_includes": []}
            else:
                document = dict(model)
            text = yamlgen.document(self.rng, document)
            if text is None:
                self.models[i] = {"simple": i}
                text = yamlgen.document(
                    self.rng, {**({"_includes": document["_includes"]} if self.includes[i] else {}),
                               **self.models[i]}
                )
            write(self.files[i], text)
            self.c.log("file", os.path.relpath(self.files[i], str(self.root)), text)
        return self.files[-1]

    def expected(self, context, i=None):
        """The content of a file over its includes over the context; KeyError for conflicts."""
        i = len(self.files) - 1 if i is None else i
        ret = context
        for j in self.includes[i]:
            ret = paramgen.merged(ret, self.expected(ret, j))
        return paramgen.merged(ret, self.models[i])


def context_for(c, related):
    if c.rng.random() < 0.4:
        return {}
    c.count("context")
    return content(c.rng, related)


def chain(e):
    ret = []
    while e is not None and len(ret) < 5000:
        ret.append(str(e))
        e = e.__cause__ or e.__context__
    return ret


def forms(file):
    """As such, or as the text form of errors of the operating system has it."""
    return str(file), repr(str(file))[1:-1]


def names(c, error, *files):
    texts = chain(error)
    for file in files:
        c.check(any(form in text for text in texts for form in forms(file)), "the error does not name the file", file, texts[:4])


def environment(c, model):
    """Variables which must not matter, named like parameters."""
    saved = dict(os.environ)
    for key in c.rng.sample(sorted(model), min(len(model), 2)):
        if key and "=" not in key and "\0" not in key:
            try:
                os.environ[key] = "from the environment"
            except (ValueError, UnicodeEncodeError):
                pass
    os.environ["VMON_UNRELATED"] = "x"
    return saved


def restore(saved):
    for key in set(os.environ) - set(saved):
        del os.environ[key]
    os.environ.update(saved)


@PROP.scenario(quick=1800)
def include_graphs(c):
    rng = c.rng
    layout = Layout(c)
    main = layout.lay()
    context = context_for(c, layout.models[-1])
    loader = YAMLParametersLoader(**({} if rng.random() < 0.5 else
                                     {"interpolate_environmental_variables": rng.random() < 0.5}))
    kwargs = {"included_context": Parameters.from_mapping(context)} if context or rng.random() < 0.3 else {}
    if kwargs and rng.random() < 0.2:
        c.count("deprecated_context")
        kwargs = {"context": kwargs["included_context"]}
    given = rng.choice([Path, str])(main)
    if rng.random() < 0.3:
        c.count("relative_path")
        os.chdir(rng.choice([c.dir, layout.root, layout.root / "sub"]))
        given = type(given)(os.path.relpath(main))
    counts = [len(v) for v in layout.includes.values()]
    if sum(1 for n in counts if n) > 1:
        c.count("nested_include")
    targets = [j for v in layout.includes.values() for j in v]
    if len(set(targets)) < len(targets):
        c.count("diamond")
    saved = environment(c, layout.models[-1])
    try:
        try:
            expected = layout.expected(context)
        except KeyError:
            c.count("conflict")
            error = c.raises(IOError, lambda: loader.load(given, **kwargs), "a value and a namespace")
            names(c, error, given)
            return
        loaded = loader.load(given, **kwargs)
        c.same(dict(loaded.as_nested_dicts()), expected, "loaded parameters", given)
        c.check("_includes" not in loaded, "the include directive is a parameter")
        c.eq(tuple(loaded.namespace_prefix), (), "path of loaded parameters")
        for path, value in paramgen.paths(expected):
            if isinstance(value, dict):
                c.eq(tuple(loaded.namespace(".".join(path)).namespace_prefix), path, "path of a namespace")
        if not targets and not context:
            c.check(
                paramgen.ordered(dict(loaded.as_nested_dicts())) == paramgen.ordered(expected), "order"
            )
        count_precedence(c, layout, context)
        c.count("reused_loader")
        c.check(loader.load(given, **kwargs) == loaded, "loading again differs")
        c.check(YAMLParametersLoader().load(Path(main), **kwargs) == loaded, "a new loader differs")
        if kwargs:
            c.same(dict(list(kwargs.values())[0].as_nested_dicts()), context, "the context changed")
        if rng.random() < 0.4:
            changed_files(c, layout, loader, given, kwargs, context)
            return
        if not layout.includes[len(layout.files) - 1]:
            c.count("string")
            text = Path(main).read_text(encoding="utf-8")
            string_kwargs = {"included_context": v for v in kwargs.values()}
            c.check(loader.load_string(text, **string_kwargs) == loaded, "loading the text differs", text)
    finally:
        restore(saved)


def changed_files(c, layout, loader, given, kwargs, context):
    """What is loaded next is what the files contain by then."""
    rng = c.rng
    top = len(layout.files) - 1
    for i in rng.sample(sorted(layout.reachable(top)), 1):
        c.count("changed")
        if i != top:
            c.count("changed_include")
        old = layout.models[i]
        layout.models[i] = {k: rng.choice(["changed", 7, False, ["changed"]]) if not isinstance(v, dict) else v
                            for k, v in old.items() if rng.random() < 0.8}
        layout.models[i]["added"] = rng.randint(0, 100)
    layout.lay()
    try:
        expected = layout.expected(context)
    except KeyError:
        c.raises(IOError, lambda: loader.load(given, **kwargs), "a value and a namespace")
        return
    for some_loader in (loader, YAMLParametersLoader()):
        c.same(dict(some_loader.load(given, **kwargs).as_nested_dicts()), expected, "loaded after a change", given)


def count_precedence(c, layout, context):
    last = len(layout.files) - 1
    own = layout.models[last]
    included = [layout.models[j] for j in layout.includes[last]]
    for model in included:
        for key in model.keys() & own.keys():
            if not isinstance(own[key], dict) and own[key] != model[key]:
                c.count("overridden_include")
    for earlier, later in zip(included, included[1:]):
        if any(earlier[k] != later[k] and k not in own for k in earlier.keys() & later.keys()):
            c.count("overridden_by_later")
    for i, model in enumerate(included):
        if any(model is later and any(earlier[k] != model[k] for k in earlier.keys() & model.keys() - own.keys())
               for j, earlier in enumerate(included[i:]) for later in included[i + j:]):
            c.count("overridden_again")
    for model in included + [own]:
        if any(not isinstance(context[k], dict) for k in context.keys() & model.keys()):
            c.count("context_overridden")


@PROP.scenario(quick=700)
def strings(c):
    rng = c.rng
    model = content(rng)
    context = context_for(c, model)
    kwargs = {"included_context": Parameters.from_mapping(context)} if context else {}
    included = content(rng)
    file = write(c.dir / "included.params", yamlgen.document(rng, included) or '{"a": 1}')
    if Path(file).read_text(encoding="utf-8") == '{"a": 1}':
        included = {"a": 1}
    kind = rng.randint(0, 4)
    loader = YAMLParametersLoader()
    if kind == 0:
        c.count("relative_from_string")
        os.chdir(c.dir)
        bad = yamlgen.document(rng, {"_includes": ["included.params"], "x": 1})
        c.log("relative include", bad)
        c.raises(IOError, lambda: loader.load_string(bad, **kwargs), "a relative include in a string")
        return
    if kind == 1:
        c.count("absolute_from_string")
        document = {"_includes": [str(file)], **model}
        layers = (context, included, model)
    elif kind == 2 and model:
        # nested names which look like the directive
        c.count("nested_includes_name")
        model["nested"] = {"_includes": ["nothing.params"], "x": 1}
        document, layers = model, (context, model)
    elif kind == 3:
        c.count("aliases")
        shared = {"s": 1, "t": [1, 2]}
        model = {"first": shared, "second": shared, "third": {"fourth": shared}}
        text = "first: &x\n  s: 1\n  t: &y [1, 2]\nsecond: *x\nthird:\n  fourth: *x\n"
        document, layers = model, (context, model)
        if rng.random() < 0.5:
            text = "first: &x {s: 1, t: [1, 2]}\nsecond:\n  <<: *x\nthird: {fourth: {<<: *x}}\n"
    else:
        document, layers = model, (context, model)
    if kind != 3:
        text = yamlgen.document(rng, document)
        if text is None:
            c.trivial()
            return
    c.log("string", text, context)
    try:
        expected = {}
        for layer in layers:
            expected = paramgen.merged(expected, layer)
    except KeyError:
        c.raises(IOError, lambda: loader.load_string(text, **kwargs), "a value and a namespace")
        return
    loaded = loader.load_string(text, **kwargs)
    c.same(dict(loaded.as_nested_dicts()), expected, "loaded parameters", text)
    for path, value in paramgen.paths(expected):
        if isinstance(value, dict):
            c.eq(tuple(loaded.namespace(".".join(path)).namespace_prefix), path, "path of a namespace")
    c.check(loader.load_string(text, **kwargs) == loaded, "loading again differs")
    file = write(c.dir / "same.params", text)
    c.check(loader.load(Path(file), **kwargs) == loaded, "loading from a file differs", text)


def spoil(c, layout, text, model):
    """One defect; returns the text to use instead."""
    rng = c.rng
    kind = rng.choice(["not_a_mapping", "non_string_name", "nested_non_string_name", "separator_in_name",
                       "bad_yaml", "missing_include"])
    c.count(kind)
    if kind == "not_a_mapping":
        return rng.choice(["", "- a\n- b\n", "just text\n", "5\n", "true\n", "# only a comment\n", "null\n",
                           "[{a: 1}]\n", "---\n", "- a: 1\n"])
    bad = rng.choice(["1", "1.5", "true", "no", "null", "2020-01-01", "~", "0x1F"])
    if kind == "non_string_name":
        return rng.choice([f"{bad}: 1\nok: 2\n", f"ok: 2\n{bad}:\n  x: 1\n", f"{bad}:\n"])
    if kind == "nested_non_string_name":
        return rng.choice([
            f"outer:\n  {bad}: 1\n", f"a: {{b: {{c: {{{bad}: 1}}, d: 2}}}}\n",
            f"first: 1\nouter:\n  fine: 1\n  inner:\n    also: 2\n    {bad}: [1]\n",
            f"empty: {{}}\na: {{x: {{y: 1}}}}\nb: {{x: {{{bad}: 1}}}}\n",
        ])
    if kind == "separator_in_name":
        name = rng.choice(["a.b", ".a", "a.", ".", "1.2.3"])
        return rng.choice([f'"{name}": 1\n', f'outer:\n  "{name}": 1\n', f'outer: {{x: {{"{name}": {{y: 1}}}}}}\n'])
    if kind == "bad_yaml":
        return rng.choice(["a: [1\n", "a: b: c\n", "{a: 1\n", "a: *undefined\n", "\ta: 1\n", "a: 'x\n",
                           "a: 1\n--- \nb: 2\n", "a: !!python/object:object {}\n", "a: !unknown 1\n",
                           "a: !!python/name:os.system\n", "%bad\na: 1\n", "a: 1\n b: 2\n"])
    missing = rng.choice(["nothing.params", "sub/nothing", "../nothing", str(layout.root / "nothing"),
                          "./", "p0.params/x"])
    if rng.random() < 0.5:
        return yamlgen.document(rng, {"_includes": [missing], **model}) or f"_includes: ['{missing}']\n"
    return f"x: 1\n_includes:\n  - {missing}\n"


@PROP.scenario(quick=1000)
def defects(c):
    """One file in the include graph is no good."""
    rng = c.rng
    layout = Layout(c)
    main = layout.lay()
    top = len(layout.files) - 1
    broken = rng.choice(sorted(layout.reachable(top)))
    text = spoil(c, layout, None, layout.models[broken])
    write(layout.files[broken], text)
    if broken != top:
        c.count("defect_in_include")
    c.log("broken", os.path.relpath(layout.files[broken], str(layout.root)), text)
    loader = YAMLParametersLoader()
    error = c.raises(IOError, lambda: loader.load(Path(main)), "a defective file", text)
    c.check(any(form in str(error) for form in forms(main)), "the error does not name the file loaded", str(error))
    if not error_is_conflict(layout, broken):
        names(c, error, layout.files[broken])
    if broken == top:
        c.raises(IOError, lambda: loader.load_string(text), "a defective text", text)
    # the loader remains usable
    fine = write(c.dir / "fine.params", "a: 1\n")
    c.same(dict(loader.load(fine).as_nested_dicts()), {"a": 1}, "after a failure")


def error_is_conflict(layout, broken):
    """Whether loading might fail for another reason before it gets to the broken file."""
    try:
        layout.expected({})
        for i in range(len(layout.files)):
            layout.expected({}, i)
    except KeyError:
        return True
    return False


@PROP.scenario(quick=16, thorough=200)
def cycles(c):
    layout = Layout(c, cycle=True)
    main = layout.lay()
    c.count("cycle")
    error = c.raises((IOError, RecursionError), lambda: YAMLParametersLoader().load(Path(main)), "a cycle")
    names(c, error, main)
    fine = write(c.dir / "fine.params", "a: 1\n")
    c.same(dict(YAMLParametersLoader().load(fine).as_nested_dicts()), {"a": 1}, "after a failure")


@PROP.scenario(quick=60)
def misuse(c):
    rng = c.rng
    missing = c.dir / "nothing here.params"
    c.count("missing_file")
    c.log("missing", missing)
    error = c.raises(IOError, lambda: YAMLParametersLoader().load(rng.choice([str, Path])(missing)), "missing")
    names(c, error, missing)
    file = write(c.dir / "some.params", "a: 1\n")
    context = Parameters.from_mapping({"b": 2})
    c.count("both_contexts")
    c.raises(
        ParameterError,
        lambda: YAMLParametersLoader().load(file, context, included_context=context), "two contexts",
    )


@PROP.scenario(quick=150)
def failing_file_operations(c):
    """A file which cannot be read is an error, wherever it is included, and nothing is left out silently."""
    layout = Layout(c)
    main = layout.lay()
    context = context_for(c, layout.models[-1])
    kwargs = {"included_context": Parameters.from_mapping(context)} if context else {}
    try:
        expected = layout.expected(context)
    except KeyError:
        c.trivial()
        return
    loader = YAMLParametersLoader()
    c.count("unreadable")

    def run():
        try:
            return loader.load(main, **kwargs)
        except Exception as e:
            c.check(isinstance(e, IOError), "another kind of error", e)
            raise

    monitors.never_silent(
        c, run, lambda loaded: c.same(dict(loaded.as_nested_dicts()), expected, "loaded parameters", main), 5)


@PROP.scenario(quick=40, thorough=600)
def many_includes(c):
    """Dozens of included files, in one list or one by the other, and large files."""
    rng = c.rng
    n = rng.choice([8, 13, 30])
    shape = rng.choice(["list", "chain", "tree", "large"])
    root = c.dir / "many"
    os.makedirs(root / "sub")
    files, models, includes = [], [], []
    for i in range(3 if shape == "large" else n):
        files.append(str(root / rng.choice(["", "sub"]) / f"f{i}.params"))
        models.append({f"k{rng.randint(0, 12)}": rng.choice([i, f"v{i}", [i], 0, False, ""]) for _ in range(6)})
        models[-1]["ns"] = {f"k{rng.randint(0, 8)}": i for _ in range(3)}
        models[-1][f"own{i}"] = i
        if shape == "large":
            models[-1].update({f"w{rng.randint(0, 2000)}": i for _ in range(700)})
        includes.append({"list": [], "chain": [i - 1], "tree": [], "large": [i - 1]}[shape])
    if shape == "list":
        includes[-1] = gen.shuffled(rng, list(range(len(files) - 1)))
    elif shape == "tree":
        # the children of i are n-1-(2j+1), n-1-(2j+2), where j = n-1-i
        for i in range(len(files)):
            j = len(files) - 1 - i
            includes[i] = [len(files) - 1 - x for x in (2 * j + 1, 2 * j + 2) if x < len(files)]
    includes[0] = []
    c.count("many_files")
    c.log("includes", shape, includes)
    for i, file in enumerate(files):
        document = dict(models[i])
        if includes[i]:
            document["_includes"] = [os.path.relpath(files[j], os.path.dirname(file)) for j in includes[i]]
        write(file, json.dumps(document, ensure_ascii=False))

    def expected(i, context):
        for j in includes[i]:
            context = paramgen.merged(context, expected(j, context))
        return paramgen.merged(context, models[i])

    loaded = YAMLParametersLoader().load(files[-1])
    c.same(dict(loaded.as_nested_dicts()), expected(len(files) - 1, {}), "loaded parameters", shape)
    if shape != "large":
        # a file missing anywhere is found
        os.remove(files[0])
        error = c.raises(IOError, lambda: YAMLParametersLoader().load(files[-1]), "a missing file among many")
        names(c, error, files[0])
