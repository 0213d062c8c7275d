import logging
import warnings

from vistautils.parameters import Parameters, YAMLParametersLoader

from vmon import paramgen
from vmon.engine import Property

PROP = Property(
    "C19",
    scale=4,
    rule="Random pairs, triples and longer chains of parameter trees, which are related to each other so that "
    "names clash, values meet values, namespaces meet namespaces and (sometimes) values meet namespaces at "
    "any depth, are unified, given as parameters or as several kinds of mapping, and compared with merging "
    "nested dictionaries; algebraic laws are checked on the same inputs.",
    required=["large", "value_overridden", "falsy_new_value", "falsy_old_value", "namespaces_merged", "conflict",
              "nested_conflict", "mapping", "associative", "with_empty", "with_self", "prefix",
              "nested_prefix", "namespace_operand", "chain"],
    assumptions=["values are not None"],
    files=["vistautils/parameters.py"],
)

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


def relative(rng, model, conflicts):
    """A tree with many of the names of another one."""
    ret = {}
    for key, value in model.items():
        kind = rng.random()
        if kind < 0.35:
            continue
        if isinstance(value, dict):
            if conflicts and rng.random() < 0.15:
                ret[key] = paramgen.leaf(rng)
            else:
                ret[key] = relative(rng, value, conflicts)
        elif conflicts and rng.random() < 0.1:
            ret[key] = paramgen.tree(rng, depth=1)
        else:
            ret[key] = rng.choice([paramgen.leaf(rng), value, "", 0, False, [], 0.0])
    for _ in range(rng.randint(0, 2)):
        key = paramgen.name(rng)
        if key not in model or rng.random() < 0.3 and not conflicts and not isinstance(model[key], dict):
            ret[key] = paramgen.leaf(rng)
        if rng.random() < 0.4:
            key = paramgen.name(rng)
            if key not in model or isinstance(model[key], dict):
                ret[key] = paramgen.tree(rng, depth=2)
                if key in model and not conflicts:
                    ret[key] = relative(rng, model[key], False)
    items = list(ret.items())
    rng.shuffle(items)
    return dict(items)


def compatible(*models):
    merged = {}
    try:
        for model in models:
            merged = paramgen.merged(merged, model)
    except KeyError:
        return None
    return merged


def census(c, old, new, depth=0):
    for key in old.keys() & new.keys():
        a, b = old[key], new[key]
        if isinstance(a, dict) and isinstance(b, dict):
            c.count("namespaces_merged")
            census(c, a, b, depth + 1)
        elif isinstance(a, dict) or isinstance(b, dict):
            c.count("conflict")
            if depth:
                c.count("nested_conflict")
        else:
            c.count("value_overridden")
            if not b:
                c.count("falsy_new_value")
            if not a:
                c.count("falsy_old_value")


def is_tree(c, params, model, what, prefix=()):
    got = params.as_nested_dicts()
    c.same(dict(got), model, what)
    c.eq(tuple(params.namespace_prefix), tuple(prefix), what + ": own path")
    for path, value in paramgen.paths(model):
        if isinstance(value, dict):
            c.eq(
                tuple(params.namespace(".".join(path)).namespace_prefix), tuple(prefix) + path,
                what + ": path of a namespace",
            )
    start = "".join(p + "." for p in prefix)
    c.same(
        sorted(n for n, _ in params.namespaced_items()),
        sorted(start + ".".join(p) for p, _ in paramgen.leaves(model)),
        what + ": qualified names",
    )


def intact(c, params, model, prefix=()):
    c.check(
        paramgen.ordered(dict(params.as_nested_dicts())) == paramgen.ordered(model),
        "an input changed", params, model,
    )
    c.eq(tuple(params.namespace_prefix), tuple(prefix), "the path of an input changed")


@PROP.scenario(quick=4000)
def two(c):
    rng = c.rng
    conflicts = rng.random() < 0.4
    old = paramgen.tree(rng, depth=3)
    new = relative(rng, old, conflicts) if rng.random() < 0.85 else paramgen.tree(rng, depth=3)
    if rng.random() < 0.5:
        old, new = new, old
    c.log("unify", old, new)
    census(c, old, new)
    a, b = Parameters.from_mapping(old), Parameters.from_mapping(new)
    expected = compatible(old, new)
    plain = paramgen.copied(new)
    if expected is None:
        c.raises(IOError, lambda: a.unify(b), "a value and a namespace", old, new)
        c.raises(IOError, lambda: a.unify(plain), "a value and a namespace", old, new)
        c.raises(IOError, lambda: b.unify(a), "a value and a namespace", old, new)
        try:
            a.unify(b, namespace_prefix=["here"])
        except IOError as e:
            c.check("here." in str(e), "the error does not name the full path", str(e))
    else:
        is_tree(c, a.unify(b), expected, "unification")
        c.count("mapping")
        is_tree(c, a.unify(plain), expected, "unification with a mapping")
        c.check(paramgen.ordered(plain) == paramgen.ordered(new), "the mapping changed", plain, new)
        c.check(a.unify(b) == a.unify(plain), "parameters and mappings unify differently", old, new)
        c.count("prefix")
        prefix = tuple(paramgen.name(rng) for _ in range(rng.randint(1, 2)))
        if any(isinstance(v, dict) for v in expected.values()):
            c.count("nested_prefix")
        is_tree(c, a.unify(b, namespace_prefix=prefix), expected, "unification with a prefix", prefix)
    intact(c, a, old)
    intact(c, b, new)
    # laws
    c.count("with_empty")
    c.check(a.unify(Parameters.empty()) == a, "unifying with empty parameters changes something", old)
    c.check(Parameters.empty().unify(a) == a, "empty parameters unified differ", old)
    c.check(a.unify({}) == a, "unifying with an empty mapping changes something", old)
    c.count("with_self")
    c.check(a.unify(a) == a, "unifying with itself changes something", old)
    if expected is not None:
        c.check(a.unify(b).unify(b) == a.unify(b), "unifying again changes something", old, new)


@PROP.scenario(quick=1500)
def three(c):
    rng = c.rng
    models = [paramgen.tree(rng, depth=3)]
    for _ in range(2):
        models.append(relative(rng, rng.choice(models), rng.random() < 0.2))
    rng.shuffle(models)
    c.log("unify", *models)
    x, y, z = (Parameters.from_mapping(m) for m in models)

    def attempt(function):
        try:
            return function()
        except IOError:
            return None

    left = attempt(lambda: x.unify(y).unify(z))
    right = attempt(lambda: x.unify(y.unify(z)))
    expected = compatible(*models)
    if expected is None:
        c.check(left is None and right is None, "conflict is not reported", models)
    else:
        c.count("associative")
        c.check(left is not None and right is not None, "conflict is reported", models)
        is_tree(c, left, expected, "left grouping")
        is_tree(c, right, expected, "right grouping")
        c.check(left == right, "grouping matters", models)
    for params, model in zip((x, y, z), models):
        intact(c, params, model)


@PROP.scenario(quick=800)
def chains(c):
    """Many overrides, as in layered configurations; namespaces as operands."""
    rng = c.rng
    model = paramgen.tree(rng, depth=3, empty=0)
    params = Parameters.from_mapping(model)
    for _ in range(rng.randint(2, 8)):
        layer = relative(rng, model, False)
        expected = compatible(model, layer)
        if expected is None:
            continue
        c.log("layer", layer)
        c.count("chain")
        kind = rng.randint(0, 3)
        before = params
        if kind == 0:
            params = params.unify(layer)
        elif kind == 1:
            params = params.unify(Parameters.from_mapping(layer))
        elif kind == 2:
            params = params.unify(Parameters.from_mapping({"outer": {"inner": layer}}).namespace("outer.inner"))
            c.count("namespace_operand")
        else:
            outer = Parameters.from_mapping({"outer": model}).namespace("outer")
            params = outer.unify(layer)
            intact(c, outer, model, ("outer",))
            c.count("namespace_operand")
        intact(c, before, model)
        is_tree(c, params, expected, "layers")
        model = paramgen.copied(dict(params.as_nested_dicts()))


@PROP.scenario(quick=200)
def loaded(c):
    """Unification as done by the loader, with the path the parameters are to have."""
    import json

    rng = c.rng
    old = paramgen.tree(rng, depth=2, plain=True, leaf=lambda r, _: r.randint(0, 9))
    new = relative(rng, old, False)
    new = {k: v for k, v in new.items()
           if json.loads(json.dumps({k: v})) == {k: v} and "\x7f" not in json.dumps(new) and k != "_includes"}
    expected = compatible(old, new)
    if expected is None or "%" in json.dumps(new):
        c.trivial()
        return
    path = tuple(paramgen.name(rng, True) for _ in range(rng.randint(0, 2)))
    c.log("load", old, new, path)
    text = json.dumps(new)
    try:
        import yaml
        if yaml.safe_load(text) != new:
            raise ValueError
    except Exception:  # pylint:disable=broad-except
        c.trivial()
        return
    params = YAMLParametersLoader(interpolate_environmental_variables=False).load_string(
        text, included_context=Parameters.from_mapping(old), namespace_path=path
    )
    is_tree(c, params, expected, "loading with a path", path)


@PROP.scenario(quick=80, thorough=1500)
def large_trees(c):
    """Hundreds of names, dozens of levels, many layers."""
    rng = c.rng
    model = paramgen.large(rng)
    params = Parameters.from_mapping(model)
    c.count("large")
    for _ in range(rng.choice([1, 2, 12])):
        new = relative(rng, model, False)
        if rng.random() < 0.3:
            new = {**new, **{f"x{j}": rng.choice([0, j, "", {"y": j}]) for j in range(rng.choice([1, 40, 300]))}}
        expected = compatible(model, new)
        if expected is None:
            continue
        c.log("layer", len(new))
        result = params.unify(new if rng.random() < 0.5 else Parameters.from_mapping(new))
        intact(c, params, model)
        is_tree(c, result, expected, "large")
        params, model = result, paramgen.copied(dict(result.as_nested_dicts()))
    # a conflict anywhere is found
    paths = list(paramgen.paths(model))
    path, value = rng.choice(paths)
    bad = {"conflict": 1} if not isinstance(value, dict) else 5
    for part in reversed(path):
        bad = {part: bad}
    c.raises(Exception, lambda: params.unify(bad), "a conflict among many", path)
    intact(c, params, model)
