import importlib
import logging
import os
import shutil
import sys
import types
import warnings

from immutablecollections import immutabledict
from vistautils.misc_utils import eval_in_context_of_modules
from vistautils.parameters import ParameterError, Parameters

from vmon import paramgen
from vmon.engine import Property
from vmon.fsutil import write

PROP = Property(
    "C24",
    scale=4,
    rule="Random combinations of how a parameter specifies an object (absent, plain expression, special value "
    "or factory, namespace with value, factory, both or neither, custom names of these, imports, values of "
    "the wrong kind), of contexts, expected types and defaults are evaluated, with factories which record "
    "their calls; the object, the calls, the namespace they got and the context are compared with a "
    "specification of the documented decision procedure.",
    required=["absent", "plain", "plain_qualified", "plain_with_dots", "special_value", "special_value_in_namespace",
              "special_factory", "special_factory_in_namespace", "special_factory_expression", "value", "factory",
              "both", "neither", "default_value", "falsy_default_value", "default_factory",
              "default_factory_in_namespace", "default_ignored", "failing_expression_with_default", "wrong_type",
              "not_callable", "import", "fresh_import", "context", "no_context", "custom_names", "wrong_kind",
              "evaluate", "optional_evaluate", "nested_name", "constructor", "from_parameters", "callable",
              "failing_factory", "both_defaults", "falsy_result", "several_imports", "module_there", "module_gone",
              "odd_special_name", "chained_special"],
    assumptions=["names which are not in scope within a namespace and are not imported are left open"],
    files=["vistautils/parameters.py", "vistautils/misc_utils.py"],
)

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

MODULE = "vmon.fixture.outer.inner.things"


def things():
    return importlib.import_module(MODULE)


def forget():
    """The fixture's modules have to be imported again."""
    for name in [n for n in sys.modules if n.startswith("vmon.fixture")]:
        del sys.modules[name]
    if hasattr(sys.modules["vmon"], "fixture"):
        del sys.modules["vmon"].fixture


FACTORIES = ["Built", "BuiltByClass", "Inheriting", "Plain", "Lenient", "Plain.nested", "function", "callable_object",
             "callable_maker", "number", "falsy", "failing", "Failing", "not_callable", "WORD"]
VALUES = ["NUMBER", "WORD", "LIST", "Plain.nested", "function", "Built", "NOTHING"]
STANDARD = ["abc", "bisect", "csv", "xml.sax", "json.decoder", "string", "token", "email.mime", "os.path", "html",
            "heapq", "copy", "collections.abc"]
# expression, value
EXPRESSIONS = [
    ("1 + 2", 3), ("'text'", "text"), ("[x for x in (1, 2)]", [1, 2]), ("0", 0), ("''", ""), ("False", False),
    ("None", None), ("2.5", 2.5), ("[1.5, 2.0]", [1.5, 2.0]), ("'a.b.c'", "a.b.c"), ("'x'.upper()", "X"),
    ("{'a': 1.5}", {"a": 1.5}), ("(1).real", 1), ("'a.b'.split('.')", ["a", "b"]), ("max([1, 2])", 2),
    ("'{0.real}'.format(3)", "3"), ("math.pi", __import__("math").pi), ("os.path.sep", "/"),
    ("datetime.date.min.year", 1), ("xml.dom.minidom.Node.ELEMENT_NODE", 1), ("dict.fromkeys([1])", {1: None}),
    ("math.floor(2.5) + 1", 3), ("os.path.join('a.b', 'c')", "a.b/c"), ("float.fromhex('0x1.8p1')", 3.0),
]
# with several modules, some with names beginning with those of others
SEVERAL = [
    ("token.NAME + tokenize.NAME", ["token", "tokenize"], 2),
    ("copy.copy(3) + len(copyreg.__name__)", ["copy", "copyreg"], 10),
    ("json.dumps([1]) + json.tool.__name__", ["json", "json.tool"], "[1]json.tool"),
    ("[html.escape('<'), html.entities.html5['lt']]", ["html", "html.entities"], ["&lt;", "<"]),
    ("string.digits[:2] + stringprep.__name__", ["stringprep", "string", "math"], "01stringprep"),
    ("os.path.join('a', 'b') + os.sep", ["os.path", "os"], "a/b/"),
    ("abc.__name__ + xml.dom.__name__ + xml.sax.__name__", ["xml.dom", "xml.sax", "abc"], "abcxml.domxml.sax"),
]
BAD_EXPRESSIONS = ["", "1 +", "undefined_name", "1 / 0", "undefined.module.name", "math.undefined",
                   "x y", "import os", "raise ValueError", "[][0]", "vmon.fixture.outer.undefined.thing",
                   "vmon.fixture.undefined", "os.path.", ".os", "a = 1"]


# names of special values and factories; these are no expressions, even if they look like some
SPECIAL_NAMES = ["", " ", "007", "12", "1 + 1", "a.b", "os.path", "math", "special-value", "Special", "\u00e9", "e\u0301", "a b",
                 "\ufeffx", "None", "[]", "self", "value", "factory", "import", "special ", " special", "#special",
                 "x" * 150, "os.path.sep", "vmon.fixture.outer.inner.things.Plain", "1 +", "undefined.module.name", "$HOME", "~"]


def special_name(c, default, *taken):
    if c.rng.random() < 0.6:
        return default
    c.count("odd_special_name")
    return c.rng.choice([x for x in SPECIAL_NAMES if x not in taken])


class Attributed:
    """An object in the caller's context."""

    def __init__(self):
        self.attr = self
        self.five = 5

    def method(self):
        return self


def caller_context(rng):
    """A context given by the caller, with the fixture's names in it."""
    module = things()
    ret = {n: getattr(module, n) for n in dir(module) if not n.startswith("__")}
    ret["local"] = 7
    ret["obj"] = Attributed()
    return rng.choice([dict, dict, lambda d: immutabledict(d.items()), types.MappingProxyType])(ret)


def gen_shuffled(rng, items):
    return rng.sample(items, len(items))


def snapshot_of(context):
    return None if context is None else [(k, id(v)) for k, v in context.items()]


class Error:
    def __repr__(self):
        return "an error"


ERROR = Error()


class Open:
    """The specification leaves the outcome open."""


OPEN = Open()


class Made:
    """The object a factory makes out of a namespace."""

    def __init__(self, factory, namespace, prefix):
        self.factory, self.namespace, self.prefix = factory, namespace, prefix

    def __repr__(self):
        return f"made by {self.factory} from {self.namespace} at {self.prefix}"


class Thing:
    """An object of the fixture, by name."""

    def __init__(self, name):
        self.name = name

    def get(self):
        ret = things()
        for part in self.name.split("."):
            ret = getattr(ret, part)
        return ret

    def __repr__(self):
        return f"things.{self.name}"


def expression(c, in_namespace, with_context):
    """(expression, imports, value or ERROR)"""
    rng = c.rng
    kind = rng.randint(0, 9)
    if kind < 2:
        text = rng.choice(BAD_EXPRESSIONS)
        return text, [], ERROR
    if kind < 5 and in_namespace and rng.random() < 0.2:
        c.count("several_imports")
        text, imports, value = rng.choice(SEVERAL)
        return text, gen_shuffled(rng, imports), value
    if kind < 5:
        usable = EXPRESSIONS
        text, value = rng.choice(usable)
        imports = []
        head = text.split(".")[0]
        if head in ("math", "os", "datetime", "xml"):
            if in_namespace:
                imports = {"math": ["math"], "os": [rng.choice(["os", "os.path"])], "datetime": ["datetime"],
                           "xml": ["xml.dom.minidom"]}[head]
            c.count("plain_qualified")
        if "." in text:
            c.count("plain_with_dots")
        if in_namespace and imports and rng.random() < 0.3:
            imports = imports + rng.sample(STANDARD, rng.randint(1, len(STANDARD)))
            rng.shuffle(imports)
        return text, imports, value
    if kind < 7 and with_context:
        text, value = rng.choice([("local", 7), ("local * 2", 14), ("local.real", 7), ("obj.five", 5),
                                  ("obj.attr.five", 5), ("obj.attr.attr.five + local", 12),
                                  ("obj.method().five", 5), ("obj.method().attr.five", 5),
                                  ("[local, 2.5]", [7, 2.5]), ("str(local)", "7")])
        return text, [], value
    name = rng.choice(VALUES)
    if with_context and rng.random() < 0.5:
        return name, [], Thing(name)
    return f"{MODULE}.{name}", [MODULE] if in_namespace else [], Thing(name)


def factory_expression(c, with_context):
    """(expression, imports, factory name or ERROR)"""
    rng = c.rng
    if rng.random() < 0.1:
        return rng.choice(BAD_EXPRESSIONS), [], ERROR
    name = rng.choice(FACTORIES)
    if with_context and rng.random() < 0.5:
        return name, [], name
    return f"{MODULE}.{name}", [MODULE], name


TYPES = {
    "object": object, "int": int, "str": str, "list": list, "float": float, "bool": bool, "tuple_of": (int, str),
    "Product": "Product", "Built": "Built", "Plain": "Plain",
}


def judge(c, call, expected, expected_type, prefix_of):
    """Calls, and compares the outcome with what is expected."""
    if isinstance(expected_type, str):
        kind = lambda: getattr(things(), expected_type)  # noqa
    else:
        kind = lambda: expected_type  # noqa
    if expected is OPEN:
        try:
            call()
        except Exception:  # pylint:disable=broad-except
            pass
        return
    if isinstance(expected, Made):
        name = expected.factory
        if name in ("failing", "Failing"):
            c.count("failing_factory")
            c.raises(Exception, call, "failing factory", expected)
            return
        if name in ("not_callable", "WORD", "NUMBER"):
            c.count("not_callable")
            c.raises(Exception, call, "a factory which cannot be called", expected)
            return
    elif expected is ERROR:
        c.raises(Exception, call, "something wrong", expected)
        return
    calls_before = len(things().CALLS) if MODULE in sys.modules else 0
    try:
        found = call()
        error = None
    except Exception as e:  # pylint:disable=broad-except
        found, error = None, e
    calls = things().CALLS[calls_before:]
    if isinstance(expected, Made):
        c.eq(len(calls), 1, "number of calls of the factory", expected, calls)
        _, params = calls[0]
        if expected.factory in ("Plain", "Lenient"):
            c.count("constructor")
            c.check(params is None, "a constructor was given something", params)
        else:
            c.count("from_parameters" if expected.factory[0].isupper() and expected.factory != "Plain.nested"
                    else "callable")
            c.check(isinstance(params, Parameters), "the factory did not get parameters", params)
            c.same(dict(params.as_nested_dicts()), expected.namespace, "what the factory got", expected)
            c.eq(".".join(params.namespace_prefix), expected.prefix, "the path of what the factory got")
        product = {"number": int, "falsy": int}.get(expected.factory)
        made_type = product or getattr(things(), {
            "Built": "Built", "BuiltByClass": "BuiltByClass", "Inheriting": "Inheriting", "Plain": "Plain", "Lenient": "Lenient",
        }.get(expected.factory, "Product"))
        right = issubclass(made_type, kind())
    else:
        c.eq(len(calls), 0, "factories were called", expected, calls)
        value = expected.get() if isinstance(expected, Thing) else expected
        right = isinstance(value, kind())
    if not right:
        c.count("wrong_type")
        c.check(isinstance(error, (ParameterError, TypeError)), "a result of the wrong type", found, error, expected)
        return
    if error is not None:
        from vmon.engine import Violated

        raise Violated(f"failed instead of giving {expected!r}") from error
    if isinstance(expected, Made):
        if expected.factory == "number":
            c.eq(found, len(expected.namespace), "result of the factory")
        elif expected.factory == "falsy":
            c.count("falsy_result")
            c.eq(found, 0, "result of the factory")
        else:
            c.check(type(found) is made_type, "type of what was made", found, expected)
            c.eq(found.how, {"Built": "from_parameters", "BuiltByClass": "from_parameters",
                             "Inheriting": "from_parameters", "Plain": "constructor", "Lenient": "constructor",
                             "Plain.nested": "nested"}.get(expected.factory, expected.factory), "how it was made")
            if expected.factory not in ("Plain", "Lenient"):
                c.check(found.params == params, "made from other parameters")
    elif isinstance(expected, Thing):
        c.check(found is value, "another object", found, expected)
    else:
        if not value and value is not None:
            c.count("falsy_result")
        c.same(found, value, "result", expected)


def start(c):
    """Common parts of a case: freshness of modules and the context."""
    with_context = c.rng.random() < 0.5
    context = None
    if with_context:
        c.count("context")
        context = caller_context(c.rng)
    else:
        c.count("no_context")
        if c.rng.random() < 0.5:
            c.count("fresh_import")
            forget()
    return context


class SpecialFactory:
    pass


@PROP.scenario(quick=12000)
def objects(c):
    rng = c.rng
    context = start(c)
    with_context = context is not None
    custom = rng.random() < 0.2
    value_name, factory_name = ("the_value", "make") if custom else ("value", "factory")
    kwargs = {}
    if custom:
        c.count("custom_names")
        kwargs.update(value_namespace_param_name=value_name, factory_namespace_param_name=factory_name)
    expected_type = TYPES[rng.choice(sorted(TYPES) + ["object"] * 12)]
    namespace = {k: v for k, v in paramgen.tree(rng, depth=1, plain=True).items()
                 if k not in (value_name, factory_name, "import")}
    name = rng.choice(["thing", "deep.thing", "deep.er.thing"])
    kind = rng.choice(["absent", "plain", "plain", "special_value", "special_factory", "wrong_kind", "value", "value",
                       "factory", "factory", "factory", "both", "neither", "special_value_in_namespace",
                       "special_factory_in_namespace"])
    c.count(kind)
    special, special_maker = "special", "special_factory"
    if kind.startswith("special") or kind == "both":
        special = special_name(c, special)
        special_maker = special_name(c, special_maker, special)
    special_values = {special: rng.choice([0, "", None, [1], "a text", 5, False]), "other": 1}
    special_factories = {special_maker: rng.choice(["function", "Built", "Plain", "callable_object"])}
    special_expression = rng.random() < 0.4
    uses_special = rng.random() < 0.4

    # defaults
    default, default_factory = None, None
    if rng.random() < 0.4:
        default = rng.choice([0, "", [], False, 5, "default", 2.5])
        kwargs["default_value"] = default
    if rng.random() < 0.4:
        default_factory = rng.choice(["function", "Built", "Plain", "callable_object", "falsy", "not_callable", "failing"])
    if default is not None and default_factory:
        c.count("both_defaults")

    def by_default(made_from):
        if default is not None:
            c.count("default_value")
            if not default:
                c.count("falsy_default_value")
            return default
        if default_factory:
            c.count("default_factory")
            if made_from:
                c.count("default_factory_in_namespace")
            return Made(default_factory, made_from, name)
        return ERROR

    stored = namespace
    if kind == "absent":
        stored, expected = None, by_default({})
    elif kind == "plain":
        stored, _, expected = expression(c, False, with_context)
    elif kind == "special_value":
        uses_special = True
        stored, expected = special, special_values[special]
    elif kind == "special_factory":
        uses_special = True
        stored, expected = special_maker, Made(special_factories[special_maker], {}, name)
    elif kind == "wrong_kind":
        stored, expected = rng.choice([5, 0, 1.5, True, False, [], ["x"]]), ERROR
    elif kind == "value":
        namespace[value_name], imports, expected = expression(c, True, with_context)
        if imports or rng.random() < 0.1:
            c.count("import")
            namespace["import"] = imports or ["json"]
        if rng.random() < 0.05:
            namespace[value_name], expected = rng.choice([5, [1], {"x": 1}]), ERROR
    elif kind == "special_value_in_namespace":
        uses_special = True
        namespace[value_name], expected = special, special_values[special]
    elif kind in ("factory", "special_factory_in_namespace"):
        if kind == "factory":
            namespace[factory_name], imports, factory = factory_expression(c, with_context)
        else:
            uses_special = True
            namespace[factory_name], factory = special_maker, special_factories[special_maker]
            imports = [MODULE] if special_expression else []
        if imports:
            c.count("import")
            namespace["import"] = imports
        expected = ERROR if factory is ERROR else Made(factory, None, name)
        if rng.random() < 0.03:
            namespace["import"] = rng.choice([["undefined_module"], ["math", "undefined.module"]])
            expected = ERROR
            if kind == "special_factory_in_namespace" and not special_expression:
                expected = OPEN
    elif kind == "both":
        namespace[value_name] = "1"
        namespace[factory_name] = f"{MODULE}.Plain"
        namespace["import"] = [MODULE]
        if rng.random() < 0.5:
            uses_special = True
            if rng.random() < 0.7:
                namespace[factory_name] = special_maker
            if rng.random() < 0.5:
                namespace[value_name] = special
        expected = ERROR
    else:
        expected = by_default(True)
    if isinstance(expected, Made) and isinstance(stored, dict):
        expected.namespace = stored
    if kind not in ("absent", "neither") and (default is not None or default_factory):
        c.count("default_ignored")
        if expected is ERROR:
            c.count("failing_expression_with_default")
    if uses_special:
        if isinstance(expected, Made) and special_expression and kind.startswith("special_factory"):
            c.count("special_factory_expression")
        kwargs["special_values"] = special_values
    if "." in name:
        c.count("nested_name")
    everything = paramgen.tree(rng, depth=1, plain=True)
    spot = everything
    for part in name.split(".")[:-1]:
        spot[part] = {**paramgen.tree(rng, depth=0, plain=True), **(spot.get(part) if isinstance(spot.get(part), dict) else {})}
        spot = spot[part]
    if stored is None:
        spot.pop("thing", None)
    else:
        spot["thing"] = stored
    params = Parameters.from_mapping(everything)
    if context is not None:
        kwargs["context"] = context
    # factories are looked up only now, as modules may have been forgotten
    if default_factory:
        kwargs["default_factory"] = Thing(default_factory).get()
    if uses_special:
        kwargs["special_factories"] = {
            k: f"{MODULE}.{v}" if special_expression else Thing(v).get() for k, v in special_factories.items()
        }
        if special_expression and kind == "special_factory" and context is None and rng.random() < 0.5:
            forget()
            if default_factory:
                kwargs["default_factory"] = Thing(default_factory).get()
    before = snapshot_of(context)
    c.log("object", kind, name, stored, expected, sorted(kwargs), str(expected_type))
    if isinstance(expected_type, str):
        things()
        kwargs_type = lambda: getattr(things(), expected_type)  # noqa
    else:
        kwargs_type = lambda: expected_type  # noqa
    judge(c, lambda: params.object_from_parameters(name, kwargs_type(), **kwargs), expected, expected_type, name)
    c.eq(snapshot_of(context), before, "the context changed")
    rebuilt = Parameters.from_mapping(everything)
    c.check(rebuilt == params, "the parameters changed")


@PROP.scenario(quick=6000)
def evaluations(c):
    rng = c.rng
    context = start(c)
    with_context = context is not None
    optional = rng.random() < 0.3
    c.count("optional_evaluate" if optional else "evaluate")
    if optional:
        context = None
        with_context = False
    kwargs = {}
    value_name = "value"
    if rng.random() < 0.3:
        c.count("custom_names")
        value_name = kwargs["namespace_param_name"] = "the value"
    kind = rng.choice(["absent", "plain", "plain", "namespace", "namespace", "special", "special_in_namespace",
                       "wrong_kind", "no_value"])
    name = rng.choice(["thing", "deep.thing"])
    default = None
    if not optional and rng.random() < 0.4:
        default = kwargs["default"] = rng.choice([0, "", False, [], 5, "default"])
    if kind == "absent":
        stored = None
        expected = None if optional else ERROR if default is None else default
    elif kind == "plain":
        stored, _, expected = expression(c, False, with_context)
    elif kind == "namespace":
        text, imports, expected = expression(c, True, with_context)
        stored = {value_name: text, "more": 1}
        if imports:
            stored["import"] = imports
    elif kind == "special":
        stored, expected = special_name(c, "short"), 3
        kwargs["special_values"] = {stored: "1 + 2", "shorter": "5"}
        if rng.random() < 0.2:
            # looked up just once
            c.count("chained_special")
            kwargs["special_values"][stored], kwargs["special_values"]["'shorter'"] = "'shorter'", "5"
            expected = "shorter"
    elif kind == "special_in_namespace":
        stored, expected = {value_name: special_name(c, "short"), "import": ["math"]}, 3
        kwargs["special_values"] = {stored[value_name]: "math.floor(3.5)"}
    elif kind == "wrong_kind":
        stored, expected = rng.choice([5, 0, [], ["x"], True]), ERROR
    else:
        stored, expected = rng.choice([{}, {"other": "1"}, {value_name: 5}, {value_name: []}]), ERROR
    expected_type = TYPES[rng.choice(["object"] * 4 + ["int", "str", "list", "tuple_of"])]
    if kind == "absent":
        expected_type = object
    params = Parameters.from_key_value_pairs([("z", 1)] + ([] if stored is None else [(name, stored)]))
    if context is not None:
        kwargs["context"] = context
    before = snapshot_of(context)
    c.log("evaluate", kind, name, stored, expected, sorted(kwargs), str(expected_type))
    function = params.optional_evaluate if optional else params.evaluate
    if expected is ERROR:
        c.raises(ParameterError, lambda: function(name, expected_type, **kwargs), "evaluation must fail", stored)
    else:
        judge(c, lambda: function(name, expected_type, **kwargs), expected, expected_type, name)
    c.eq(snapshot_of(context), before, "the context changed")


@PROP.scenario(quick=800)
def in_modules(c):
    """The evaluation of expressions itself."""
    rng = c.rng
    context = caller_context(rng) if rng.random() < 0.7 else {}
    if not context and rng.random() < 0.5:
        forget()
    before = snapshot_of(context)
    text, modules, expected = rng.choice([
        ("local", [], 7), ("local", ["math", "os.path"], 7), (f"{MODULE}.NUMBER", [MODULE], 42),
        ("vmon.fixture.outer.OUTER", [MODULE], "outer value"),
        ("vmon.fixture.outer.OUTER", ["vmon.fixture.outer.inner"], "outer value"),
        ("math.floor(1.5) + len(os.path.sep)", ["math", "os"], 2),
        ("xml.dom.minidom.Node.TEXT_NODE", ["xml.dom.minidom"], 3),
        ("1 + 1", [], 2), ("undefined", [], ERROR), ("1", ["undefined_module"], ERROR), ("math.pi", [], ERROR),
        ("1", [f"{MODULE}.undefined"], ERROR), ("[local for _ in 'ab']", [], [7, 7]),
        ("(lambda: local)()", [], 7), ("max(x for x in (local, 1) if local)", [], 7),
    ])
    if "local" in text and not context:
        expected = ERROR
    kind = rng.choice([object, object, int, str, float])
    c.log("eval", text, modules, sorted(context)[:2], kind.__name__)

    def call():
        return eval_in_context_of_modules(text, context, context_modules=modules, expected_type=kind)

    if expected is ERROR:
        c.raises(Exception, call, "evaluation must fail", text, modules)
    elif isinstance(expected, kind):
        c.same(call(), expected, "value", text, modules)
    else:
        c.raises(TypeError, call, "value of the wrong type", text, kind)
    c.eq(snapshot_of(context), before, "the context changed")


@PROP.scenario(quick=150)
def late_modules(c):
    """A module can appear, change and disappear between two evaluations of the same parameters."""
    rng = c.rng
    name = f"vmon_late_{os.getpid()}_{c.i}"
    qualified = rng.choice([name, name + ".part"])
    directory = str(c.dir / "modules")
    os.mkdir(directory)
    text = qualified + ".VALUE"
    params = Parameters.from_mapping(
        {"a": rng.choice([text, text, {"value": text, "import": [qualified]}]), "b": text + "()"})
    was = list(sys.path), sys.dont_write_bytecode
    sys.path.append(directory)
    sys.dont_write_bytecode = True
    try:
        present = None
        for step in range(rng.randint(2, 5)):
            change = rng.choice(["appear", "appear", "disappear", "nothing"])
            if change == "appear":
                present = step + 1
                write(os.path.join(directory, name, "__init__.py"), f"VALUE = {present}")
                write(os.path.join(directory, name, "part.py"), f"VALUE = {present}")
            elif change == "disappear":
                present = None
                shutil.rmtree(os.path.join(directory, name), ignore_errors=True)
            for known in [n for n in sys.modules if n.split(".")[0] == name]:
                del sys.modules[known]
            importlib.invalidate_caches()
            c.log("late module", text, change, present)
            for call in (lambda: params.evaluate("a", int, context={}),
                         lambda: params.object_from_parameters("a", int, context={"x": 1})):
                if present is None:
                    c.count("module_gone")
                    c.raises((ParameterError, ImportError, NameError), call, "a module which is not there was used")
                else:
                    c.count("module_there")
                    c.eq(call(), present, "not the value in the module as it is now")
    finally:
        sys.path[:], sys.dont_write_bytecode = was
        for known in [n for n in sys.modules if n.split(".")[0] == name]:
            del sys.modules[known]
        importlib.invalidate_caches()
