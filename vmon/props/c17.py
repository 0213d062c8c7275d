import collections
import copy
import logging
import pickle
import types
import warnings

from immutablecollections import immutabledict
from vistautils.parameters import ParameterError, Parameters, YAMLParametersLoader

from vmon import gen, paramgen
from vmon.engine import Property

PROP = Property(
    "C17",
    scale=3,
    rule="Random parameter trees (deep and wide nesting, unusual names, all value types, several kinds of "
    "mapping, pairs with dotted or otherwise separated names) are observed through every access path and "
    "compared with a nested-dictionary model; histories of operations on several parameters objects, of "
    "changes to their sources and to everything returned, after each of which all objects are compared "
    "with their models again.",
    required=["large", "namespace", "leaf", "absent", "below_leaf", "empty_namespace", "dotted_name", "pair_conflict",
              "pair_overwrites", "custom_separator", "empty_pair_name", "source_changed", "result_changed",
              "assignment", "prefix", "iterator_prefix", "list_in_sub_namespace", "unequal",
              "empty_component", "nothing_as_value"],
    assumptions=["values are neither None nor parameters objects with a path of their own"],
    files=["vistautils/parameters.py"],
)

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


def disguised(rng, model, top=True):
    """The same mapping, as one of several types."""
    items = {k: disguised(rng, v, False) if isinstance(v, dict) else v for k, v in model.items()}
    kind = rng.randint(0, 5)
    if kind == 0:
        return immutabledict(items.items())
    if kind == 1:
        return collections.OrderedDict(items)
    if kind == 2:
        return types.MappingProxyType(items)
    if kind == 3:
        return collections.ChainMap(items)
    return items


def observe(c, params, model, prefix=()):
    """Compares everything which can be observed of a (sub-)tree with the model."""
    rng = c.rng
    c.check(isinstance(params, Parameters), "is not a Parameters", params)
    c.eq(".".join(params.namespace_prefix), ".".join(prefix), "path of a namespace")
    c.eq(type(params.namespace_prefix), tuple, "type of the path")
    nested = params.as_nested_dicts()
    c.check(
        paramgen.ordered(dict(nested)) == paramgen.ordered(model), "nested dictionaries", nested, model
    )
    start = ".".join(prefix) + "." if prefix else ""
    c.same(
        list(params.namespaced_items()),
        [(start + ".".join(p), v) for p, v in paramgen.leaves(model)],
        "qualified items",
    )
    subs = params.sub_namespaces()
    expected = [(k, v) for k, v in model.items() if isinstance(v, dict)]
    c.eq(len(subs), len(expected), "number of sub-namespaces")
    for sub, (key, value) in zip(subs, expected):
        c.eq(".".join(sub.namespace_prefix), start + key, "path of a sub-namespace")
        c.check(
            paramgen.ordered(dict(sub.as_nested_dicts())) == paramgen.ordered(value), "sub-namespace", sub
        )
        if any(isinstance(v, list) for _, v in paramgen.leaves(value)):
            c.count("list_in_sub_namespace")
    for path, value in paramgen.paths(model):
        dotted = ".".join(path)
        c.check(dotted in params, "present name is missing", dotted)
        if isinstance(value, dict):
            c.count("namespace")
            if not value:
                c.count("empty_namespace")
            namespace = params.namespace(dotted)
            c.check(params.has_namespace(dotted) is True, "has_namespace", dotted)
            for other in (params.optional_namespace(dotted), params.namespace_or_empty(dotted),
                          params.get(dotted, Parameters), params.get_optional(dotted, Parameters)):
                c.check(other == namespace, "namespace accessors disagree", dotted, other)
            c.eq(".".join(namespace.namespace_prefix), start + dotted, "path of the namespace")
            if rng.random() < 0.3:
                c.check(
                    paramgen.ordered(dict(namespace.as_nested_dicts())) == paramgen.ordered(value),
                    "content of a namespace", dotted,
                )
        else:
            c.count("leaf")
            c.same(params.get(dotted, object), value, "value", dotted)
            c.same(params.get_optional(dotted, object), value, "optional value", dotted)
            c.check(params.has_namespace(dotted) is False, "has_namespace of a value", dotted)
            c.check(params.optional_namespace(dotted) is None, "optional_namespace of a value", dotted)
            c.raises(ParameterError, lambda: params.namespace(dotted), "namespace of a value")
            c.raises(ParameterError, lambda: params.namespace_or_empty(dotted), "namespace of a value")
            # stepwise
            cut = rng.randint(0, len(path) - 1)
            via = params.namespace(".".join(path[:cut])) if cut else params
            c.same(via.get(".".join(path[cut:]), object), value, "value via a namespace", path, cut)
            c.check(".".join(path[cut:]) in via, "membership via a namespace", path, cut)
    for _ in range(3):
        path = paramgen.absent_path(rng, model)
        dotted = ".".join(path)
        c.count("absent")
        if len(path) > 1 and not isinstance(paramgen.lookup(model, path[:-1]), (dict, type(None))):
            c.count("below_leaf")
        c.check((dotted in params) is False, "absent name is present", dotted)
        c.check(params.has_namespace(dotted) is False, "absent namespace is present", dotted)
        c.check(params.optional_namespace(dotted) is None, "optional_namespace of absent", dotted)
        c.check(params.get_optional(dotted, object) is None, "get_optional of absent", dotted)
        c.raises(ParameterError, lambda: params.get(dotted, object), "get of absent", dotted)
        c.raises(ParameterError, lambda: params.namespace(dotted), "namespace of absent", dotted)
        empty = params.namespace_or_empty(dotted)
        c.eq(dict(empty.as_nested_dicts()), {}, "namespace_or_empty of absent", dotted)
        c.eq(".".join(empty.namespace_prefix), start + dotted, "path of an absent namespace")


@PROP.scenario(quick=5000)
def trees(c):
    model = paramgen.tree(c.rng, depth=c.rng.randint(0, 4), width=c.rng.randint(1, 6))
    source = disguised(c.rng, paramgen.copied(model))
    prefix = tuple(paramgen.name(c.rng) for _ in range(c.rng.choice([0, 0, 0, 1, 3])))
    c.log("from_mapping", model, prefix)
    if prefix:
        c.count("prefix")
        given = c.rng.choice([list, tuple, iter, dict.fromkeys])(prefix)
        if not isinstance(given, (list, tuple, dict)):
            c.count("iterator_prefix")
        if isinstance(given, dict):
            prefix = tuple(given)
        params = Parameters.from_mapping(source, namespace_prefix=given)
    else:
        params = Parameters.from_mapping(source)
    observe(c, params, model, prefix)
    # every namespace in it, as a tree of its own
    namespaces = [(p, v) for p, v in paramgen.paths(model) if isinstance(v, dict)]
    for path, value in c.rng.sample(namespaces, min(2, len(namespaces))):
        observe(c, params.namespace(".".join(path)), value, prefix + path)
    again = Parameters.from_mapping(paramgen.copied(model), namespace_prefix=prefix)
    c.check(again == params and not again != params, "equal content makes unequal parameters", model)
    c.eq(hash(again), hash(params), "hash codes of equal parameters")
    # any difference is visible
    other = paramgen.copied(model)
    spots = [other] + [v for _, v in paramgen.paths(other) if isinstance(v, dict)]
    spot = c.rng.choice(spots)
    if spot and c.rng.random() < 0.5:
        key = c.rng.choice(list(spot))
        spot[key] = "something else entirely" if c.rng.random() < 0.5 else {"new": 1, "other": []}
    else:
        spot["one more"] = 0
    c.count("unequal")
    c.check(
        Parameters.from_mapping(other, namespace_prefix=prefix) != params, "unequal content", model, other
    )


@PROP.scenario(quick=5000)
def pairs(c):
    """Pairs with dotted names, in any order, later ones winning."""
    rng = c.rng
    separator = rng.choice([".", ".", ".", "/", "::", "->", "x", " "])
    if separator != ".":
        c.count("custom_separator")
    expected = {}
    given = []
    conflict = False
    names = [n for n in paramgen.PLAIN + rng.choice([[], [], paramgen.NAMES + [" ", "\t", "a ", " a", "\u00a0b"]])
             if not set(separator) & set(n) and "." not in n]
    for _ in range(rng.randint(0, 8)):
        path = tuple(rng.choice(names) for _ in range(rng.choice([1, 1, 2, 2, 3, 4])))
        if len(path) > 1 and rng.random() < 0.1:
            c.count("empty_component")
            at = rng.randrange(len(path))
            path = path[:at] + ("",) + path[at + 1:]
        if separator != "." and rng.random() < 0.1:
            path = path[:-1] + (path[-1] + "2",)
        value = paramgen.leaf(rng)
        given.append((separator.join(path), value))
        if len(path) > 1:
            c.count("dotted_name")
        spot = expected
        for part in path[:-1]:
            if isinstance(spot, dict):
                spot = spot.setdefault(part, {})
        if not isinstance(spot, dict):
            conflict = True
            break
        if path[-1] in spot:
            c.count("pair_overwrites")
        spot[path[-1]] = value
    c.log("pairs", given, separator)
    source = rng.choice([lambda x: x, tuple, iter, lambda x: (p for p in x)])(given)

    def build():
        if separator == ".":
            return Parameters.from_key_value_pairs(source)
        return Parameters.from_key_value_pairs(source, separator)

    if conflict:
        c.count("pair_conflict")
        c.raises(Exception, build, "a name below a value", given)
    else:
        observe(c, build(), expected)


@PROP.scenario(quick=800)
def nothing_as_value(c):
    """Whether a parameter without a value is there is left open, but it is kept, as are all others."""
    rng = c.rng
    model = paramgen.tree(rng, depth=3, leaf=lambda r, lists: None if r.random() < 0.3 else paramgen.leaf(r, lists))
    if not any(v is None for _, v in paramgen.leaves(model)):
        model["nil"] = None
    if rng.random() < 0.7:
        params = Parameters.from_mapping(disguised(rng, paramgen.copied(model)))
    else:
        model = {k: v for k, v in model.items() if v != {}}
        pairs_ = [(".".join(p), v) for p, v in paramgen.leaves(model) if all(p)]
        for dotted, value in list(pairs_):
            # later pairs win, also if they give nothing
            if rng.random() < 0.3:
                at = next(i for i, pair in enumerate(pairs_) if pair[0] == dotted)
                pairs_[at:at + 1] = [(dotted, rng.choice([None, 1, "x"])), (dotted, value)]
        params = Parameters.from_key_value_pairs(pairs_)
        model = {}
        for dotted, value in pairs_:
            spot = model
            *parents, last = dotted.split(".")
            for part in parents:
                spot = spot.setdefault(part, {})
            spot[last] = value
    c.log("nothing", model)
    c.count("nothing_as_value")
    nested = params.as_nested_dicts()
    c.check(paramgen.ordered(dict(nested)) == paramgen.ordered(model), "nested dictionaries", nested, model)
    c.same(list(params.namespaced_items()), [(".".join(p), v) for p, v in paramgen.leaves(model)], "qualified items")
    c.eq(len(params.sub_namespaces()), sum(isinstance(v, dict) for v in model.values()), "sub-namespaces")
    for path, value in paramgen.paths(model):
        dotted = ".".join(path)
        if value is None:
            c.check(params.get_optional(dotted, str) is None, "no value", dotted)
            c.check(params.has_namespace(dotted) is False, "no namespace", dotted)
            c.raises(ParameterError, lambda: params.get(dotted, str), "no value")
            c.raises(ParameterError, lambda: params.get(dotted, str, "default") if dotted in params
                     else params.get(dotted, str), "no value")
        elif not isinstance(value, dict):
            c.check(dotted in params, "present name is missing", dotted)
            c.same(params.get(dotted, object), value, "value", dotted)
            c.same(params.get_optional(dotted, object), value, "optional value", dotted)
        else:
            c.check(dotted in params, "present name is missing", dotted)
            c.check(params.has_namespace(dotted) is True, "has_namespace", dotted)


@PROP.scenario(quick=1200)
def rejections(c):
    rng = c.rng
    model = paramgen.tree(rng, depth=2)
    kind = rng.randint(0, 3)
    c.log("reject", kind, model)
    if kind == 0:
        spots = [model] + [v for _, v in paramgen.paths(model) if isinstance(v, dict)]
        bad = rng.choice(["a.b", ".", "a.", ".a", "..", paramgen.name(rng) + "." + paramgen.name(rng)])
        rng.choice(spots)[bad] = rng.choice([1, {}, {"x": 1}, "s"])
        c.raises(ValueError, lambda: Parameters.from_mapping(disguised(rng, model)), "separator in a name")
    elif kind == 1:
        c.count("empty_pair_name")
        given = [(rng.choice("abc"), 1) for _ in range(rng.randint(0, 3))]
        given.insert(rng.randint(0, len(given)), ("", 1))
        c.raises(Exception, lambda: Parameters.from_key_value_pairs(given), "empty name in pairs")
        c.raises(Exception, lambda: Parameters.from_key_value_pairs(given, "/"), "empty name in pairs")
    elif kind == 2:
        source = rng.choice([[], [("a", 1)], "abc", 5, {1, 2}, iter([("a", 1)]), object()])
        c.raises(TypeError, lambda: Parameters.from_mapping(source), "not a mapping", source)
    else:
        params = Parameters.from_mapping(model)
        for bad in (1, ("a",), b"a", None):
            c.raises((ValueError, TypeError, ParameterError), lambda: params.get(bad, object), "bad name")
            c.raises((ValueError, TypeError, ParameterError), lambda: bad in params, "bad name")


@PROP.scenario(quick=1200)
def exactly_one(c):
    rng = c.rng
    model = paramgen.tree(rng, depth=2, width=5, plain=True)
    params = Parameters.from_mapping(model)
    everything = [".".join(p) for p, _ in paramgen.paths(model)]
    names = list(dict.fromkeys(
        rng.choice(everything) if everything and rng.random() < 0.4
        else ".".join(paramgen.absent_path(rng, model))
        for _ in range(rng.randint(1, 5))
    ))
    present = sum(1 for n in names if n in everything)
    c.log("exactly_one", names, present)
    if present == 1:
        c.eq(params.assert_exactly_one_present(names), None, "exactly one is present", names)
    else:
        c.raises(ParameterError, lambda: params.assert_exactly_one_present(names), "not one", names)


def deface(rng, thing):
    """Changes something somewhere in a nested dictionary (namespaces only)."""
    spots = [thing]
    while spots:
        spot = spots.pop()
        spots.extend(v for v in spot.values() if isinstance(v, dict))
        for key in list(spot):
            if not isinstance(spot[key], dict) and rng.random() < 0.5:
                if rng.random() < 0.5:
                    spot[key] = "defaced"
                else:
                    del spot[key]
        spot["added"] = "by someone"


@PROP.scenario(quick=2500)
def histories(c):
    """Whatever is done, every parameters object stays what it was."""
    rng = c.rng
    held = []  # (parameters, model, prefix, source)

    def check_all():
        for params, model, prefix, _ in held:
            c.check(
                paramgen.ordered(dict(params.as_nested_dicts())) == paramgen.ordered(model),
                "parameters changed", params.as_nested_dicts(), model,
            )
            c.eq(".".join(params.namespace_prefix), ".".join(prefix), "path changed")
            for path, value in paramgen.paths(model):
                if isinstance(value, dict):
                    found = params.namespace(".".join(path))
                    c.eq(".".join(found.namespace_prefix), ".".join(prefix + path), "path changed")

    def new():
        model = paramgen.tree(rng, depth=3, plain=rng.random() < 0.5)
        source = paramgen.copied(model)
        held.append((Parameters.from_mapping(source), model, (), source))

    new()
    for _ in range(rng.randint(3, 12)):
        params, model, prefix, source = rng.choice(held)
        operation = rng.choice([
            "new", "change_source", "change_result", "assign", "unify", "unify_self", "unify_mapping",
            "namespace", "str", "items", "accessors", "context", "copy",
        ])
        c.log(operation)
        if operation == "new":
            new()
        elif operation == "change_source":
            c.count("source_changed")
            deface(rng, source)
        elif operation == "change_result":
            c.count("result_changed")
            deface(rng, params.as_nested_dicts())
            for attribute in ("__setitem__", "__delitem__", "clear", "update", "pop"):
                mapping = params.as_mapping()
                if hasattr(mapping, attribute):
                    arguments = {"__setitem__": ("a", 1), "update": ({"a": 1},), "clear": ()}
                    try:
                        getattr(mapping, attribute)(*arguments.get(attribute, ("a",)))
                    except Exception:  # pylint:disable=broad-except
                        pass
        elif operation == "assign":
            c.count("assignment")
            key = rng.choice(["_data", "namespace_prefix", "a", "foo"])
            c.raises((AttributeError, TypeError), lambda: setattr(params, key, {}), "assignment", key)
            c.raises((AttributeError, TypeError), lambda: delattr(params, key), "deletion", key)
        elif operation in ("unify", "unify_self", "unify_mapping"):
            other, other_model, other_prefix, _ = rng.choice(held)
            if operation == "unify_self":
                other, other_model, other_prefix = params, model, prefix
            if prefix or other_prefix:
                continue
            try:
                merged = paramgen.merged(model, other_model)
            except KeyError:
                c.raises(IOError, lambda: params.unify(other), "value meets namespace")
                continue
            if operation == "unify_mapping":
                mapping = paramgen.copied(other_model)
                result = params.unify(mapping)
                deface(rng, mapping)
            else:
                result = params.unify(other)
            c.check(dict(result.as_nested_dicts()) == merged, "unification", model, other_model)
            if len(held) < 6:
                order = result.as_nested_dicts()
                held.append((result, paramgen.copied(dict(order)), (), {}))
        elif operation == "namespace":
            spaces = [(p, v) for p, v in paramgen.paths(model) if isinstance(v, dict)]
            if spaces and len(held) < 6:
                path, value = rng.choice(spaces)
                held.append((params.namespace(".".join(path)), value, prefix + path, {}))
        elif operation == "str":
            str(params)
            repr(params)
        elif operation == "items":
            list(params.namespaced_items())
            params.sub_namespaces()
        elif operation == "accessors":
            for path in [".".join(p) for p, _ in paramgen.paths(model)] + ["absent.one"]:
                for accessor in ("string", "integer", "floating_point", "boolean", "arbitrary_list",
                                 "optional_string", "optional_integer", "positive_integer",
                                 "namespace_or_empty", "optional_namespace"):
                    try:
                        getattr(params, accessor)(path)
                    except ParameterError:
                        pass
        elif operation == "context":
            if not prefix:
                loader = YAMLParametersLoader(interpolate_environmental_variables=False)
                text = "added: 5\nfoo_too:\n  x: [1, 2]\n"
                try:
                    loader.load_string(text, included_context=params)
                except IOError:
                    pass
        elif operation == "copy":
            twin = rng.choice([copy.copy, copy.deepcopy, lambda p: pickle.loads(pickle.dumps(p))])(params)
            c.check(twin == params, "a copy is unequal")
            if len(held) < 6:
                held.append((twin, model, prefix, {}))
        check_all()


@PROP.scenario(quick=200)
def empties(c):
    prefix = [paramgen.name(c.rng) for _ in range(c.rng.randint(0, 3))]
    c.log("empty", prefix)
    for empty in (Parameters.empty(namespace_prefix=prefix), Parameters.from_mapping({}, namespace_prefix=prefix)):
        observe(c, empty, {}, tuple(prefix))
    observe(c, Parameters.empty(), {})
    observe(c, Parameters.from_key_value_pairs([]), {})
    twin = Parameters.from_mapping({gen.identifier(c.rng): 1})
    c.check(twin != Parameters.empty(), "something equals nothing")


@PROP.scenario(quick=60, thorough=1500)
def large_trees(c):
    """Hundreds of names, dozens of levels."""
    model = paramgen.large(c.rng)
    c.count("large")
    c.log("large", len(list(paramgen.paths(model))))
    if c.rng.random() < 0.5:
        params = Parameters.from_mapping(disguised(c.rng, model))
    else:
        pairs = [(".".join(p), v) for p, v in paramgen.leaves(model)]
        params = Parameters.from_key_value_pairs(pairs)
        model = {k: v for k, v in model.items() if v != {}}
    observe(c, params, model)
    twin = c.rng.choice([copy.copy, copy.deepcopy, lambda p: pickle.loads(pickle.dumps(p))])(params)
    c.check(twin == params, "a copy is unequal")
