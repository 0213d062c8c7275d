import enum
import logging
import math
import warnings

from vistautils.parameters import ParameterError, Parameters
from vistautils.range import Range

from vmon import gen, paramgen
from vmon.engine import Property

PROP = Property(
    "C18",
    scale=3,
    rule="A value of random type is put at a random (possibly nested) name of a random parameter tree, or "
    "nothing is, and is requested through every typed accessor with random valid options, ranges and "
    "defaults (falsy ones in particular), directly or through its namespace; the result is compared with a "
    "specification of each accessor.",
    required=["present_ok", "present_wrong_type", "present_out_of_contract", "absent_default",
              "absent_falsy_default", "absent_none", "absent_required", "default_ignored", "bad_default",
              "below_value", "namespace", "empty_namespace", "not_a_namespace", "absent_namespace",
              "not_a_number"] + ["accessor_" + n for n in (
                  "string", "optional_string", "integer", "optional_integer", "positive_integer",
                  "optional_positive_integer", "floating_point", "optional_floating_point", "boolean",
                  "optional_boolean", "arbitrary_list", "optional_arbitrary_list", "enum", "get",
                  "get_optional", "optional_float", "optional_boolean_with_default")],
    assumptions=["whether booleans count as integers is left open",
                 "what a default of the wrong type does is left open (other than for lists and positive integers)"],
    files=["vistautils/parameters.py"],
)

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")


class Colour(enum.Enum):
    RED = "red"
    GREEN = "RED"
    BLUE = 3
    CRIMSON = "red"  # an alias
    name_ = "x"


class Level(enum.IntEnum):
    NONE = 0
    LOW = 1
    HIGH = 2


class Flags(enum.Flag):
    NOTHING = 0
    A = 1
    B = 2
    BOTH = 3


ENUMS = [Colour, Level, Flags]


def a_range(rng, point, nan=False):
    """A range around (or not) the given kind of values, and a predicate for it."""
    lo, hi = sorted([point(), point()])
    makers = {
        "closed": (lambda: Range.closed(lo, hi), lambda x: lo <= x <= hi),
        "closed_open": (lambda: Range.closed_open(lo, hi), lambda x: lo <= x < hi),
        "open_closed": (lambda: Range.open_closed(lo, hi), lambda x: lo < x <= hi),
        "at_least": (lambda: Range.at_least(lo), lambda x: x >= lo),
        "at_most": (lambda: Range.at_most(hi), lambda x: x <= hi),
        "greater_than": (lambda: Range.greater_than(lo), lambda x: x > lo),
        "less_than": (lambda: Range.less_than(hi), lambda x: x < hi),
        "all": (Range.all, lambda x: True),
    }
    if lo < hi:
        makers["open"] = (lambda: Range.open(lo, hi), lambda x: lo < x < hi)
    if nan:
        # whether what is not a number is in a range without a lower bound is left open, as it has no order
        del makers["at_most"], makers["less_than"]
    make, predicate = makers[rng.choice(sorted(makers))]
    return make(), predicate


class Spec:
    """
    What one request promises: *types* of good values, further *good* values' predicate,
    whether it is *optional*, and the *default* (None if there is none).
    """

    def __init__(self, call, types, good=lambda v: True, optional=False, default=None,
                 default_good=None, convert=lambda v: v, without=()):
        self.call = call
        self.types = types
        self.good = good
        self.optional = optional
        self.default = default
        #: True, False (it has to be rejected) or None (left open)
        self.default_good = default_good
        self.convert = convert
        #: types for which it is left open whether they are right
        self.without = without


def requests(rng, stored):
    """name of accessor -> function making a specification."""

    def string(optional):
        def make():
            options = None
            if rng.random() < 0.5:
                options = [paramgen.string(rng) for _ in range(rng.randint(0, 3))]
                if isinstance(stored, str) and rng.random() < 0.6:
                    options.append(stored)
                elif isinstance(stored, str):
                    # close, but different
                    options += rng.sample([stored.upper(), stored.title(), stored + " ", " " + stored, stored[:-1],
                                           stored + stored, stored + "x", stored.swapcase(), stored[1:]], 2)
            default = None
            if rng.random() < 0.5:
                default = rng.choice(["", paramgen.string(rng)] + (options or []))
            kwargs = {} if default is None else {"default": default}
            args = () if options is None else (rng.choice([list, tuple, set, iter])(options),)
            default_good = options is None or default in options
            return Spec(
                lambda p, n: (p.optional_string if optional else p.string)(n, *args, **kwargs),
                str, lambda v: options is None or v in options, optional, default,
                default_good if default_good or not optional else None,
            )
        return make

    def integer():
        valid, predicate = a_range(rng, lambda: rng.randint(-5, 5))
        kwargs = {"valid_range": valid} if rng.random() < 0.6 else {}
        if not kwargs:
            predicate = lambda x: True  # noqa
        default = rng.choice([None, 0, rng.randint(-6, 6)])
        if default is not None:
            kwargs["default"] = default
        return Spec(lambda p, n: p.integer(n, **kwargs), int, predicate, False, default,
                    default is None or predicate(default), without=(bool,))

    def optional_integer():
        default = rng.choice([None, 0, rng.randint(-6, 6)])
        kwargs = {} if default is None else {"default": default}
        return Spec(lambda p, n: p.optional_integer(n, **kwargs), int, optional=True, default=default,
                    default_good=True, without=(bool,))

    def positive_integer(optional):
        def make():
            default = rng.choice([None, 0, rng.randint(-6, 6), 1])
            default_good = default is None or default > 0
            if rng.random() < 0.1:
                default, default_good = rng.choice([2.5, -0.5, 0.0, False, [], ""]), False
            kwargs = {} if default is None else {"default": default}
            return Spec(
                lambda p, n: (p.optional_positive_integer if optional else p.positive_integer)(n, **kwargs),
                int, lambda v: v > 0, optional, default, default_good, without=(bool,),
            )
        return make

    def floating(name, optional, with_default=True):
        def make():
            valid, predicate = a_range(rng, lambda: rng.choice([0.0, -1.5, 2.5, rng.uniform(-3, 3)]),
                                       isinstance(stored, float) and math.isnan(stored))
            args = (valid,) if rng.random() < 0.6 else ()
            if not args:
                predicate = lambda x: True  # noqa
            default = rng.choice([None, 0.0, rng.uniform(-3, 3)]) if with_default else None
            kwargs = {} if default is None else {"default": default}
            return Spec(lambda p, n: getattr(p, name)(n, *args, **kwargs), float, predicate, optional,
                        default, default is None or predicate(default))
        return make

    def boolean(optional):
        def make():
            default = rng.choice([None, False, True])
            kwargs = {} if default is None else {"default": default}
            return Spec(lambda p, n: (p.optional_boolean if optional else p.boolean)(n, **kwargs), bool,
                        optional=optional, default=default, default_good=True)
        return make

    def boolean_with_default():
        default = rng.choice([False, True])
        return Spec(lambda p, n: p.optional_boolean_with_default(n, default), bool, optional=True,
                    default=default, default_good=True)

    def arbitrary_list(optional):
        def make():
            default = rng.choice([None, [], paramgen.listing(rng)])
            default_good = True
            if optional and rng.random() < 0.2:
                default, default_good = rng.choice([(), "abc", 0, (1, 2), {}]), False
            kwargs = {} if default is None else {"default": default}
            return Spec(
                lambda p, n: (p.optional_arbitrary_list if optional else p.arbitrary_list)(n, **kwargs),
                list, optional=optional, default=default, default_good=default_good,
            )
        return make

    def enumeration():
        kind = rng.choice(ENUMS)
        default = rng.choice([None] + list(kind))
        kwargs = {} if default is None else {"default": default}
        return Spec(lambda p, n: p.enum(n, kind, **kwargs), str, lambda v: v in kind.__members__, False,
                    default, True, convert=lambda v: kind.__members__[v])

    def get(optional):
        def make():
            wanted = rng.choice([str, int, float, bool, list, object, (str, list), Parameters])
            default = rng.choice([None, 0, "", False, [], "x", 3, 2.5])
            if not optional and default is not None and not isinstance(default, wanted):
                default = None
            if optional and default is not None:
                return Spec(lambda p, n: p.get_optional(n, wanted, default=default), wanted,
                            optional=True, default=default, default_good=True, without=(bool,))
            if optional:
                return Spec(lambda p, n: p.get_optional(n, wanted), wanted, optional=True, without=(bool,))
            args = () if default is None else (default,)
            return Spec(lambda p, n: p.get(n, wanted, *args), wanted, default=default, default_good=True,
                        without=(bool,))
        return make

    return {
        "string": string(False), "optional_string": string(True),
        "integer": integer, "optional_integer": optional_integer,
        "positive_integer": positive_integer(False), "optional_positive_integer": positive_integer(True),
        "floating_point": floating("floating_point", False),
        "optional_floating_point": floating("optional_floating_point", True),
        "optional_float": floating("optional_float", True, False),
        "boolean": boolean(False), "optional_boolean": boolean(True),
        "optional_boolean_with_default": boolean_with_default,
        "arbitrary_list": arbitrary_list(False), "optional_arbitrary_list": arbitrary_list(True),
        "enum": enumeration, "get": get(False), "get_optional": get(True),
    }


def is_left_open(value, spec):
    wanted = spec.types if isinstance(spec.types, tuple) else (spec.types,)
    return type(value) in spec.without and type(value) not in wanted and object not in wanted


def decide(c, params, name, present, stored, accessor, spec):
    c.count("accessor_" + accessor)
    what = f"{accessor} of {name!r}"
    if present:
        value = stored
        if is_left_open(stored, spec):
            try:
                c.eq(spec.call(params, name), stored, what)
                c.check(spec.good(stored), what + " is out of contract", stored)
            except ParameterError:
                pass
            return
        if isinstance(value, spec.types) and spec.good(value):
            c.count("present_ok")
            if spec.default is not None and spec.default_good is False and accessor == "optional_arbitrary_list":
                # a list's default which is no list: left open whether it is looked at
                try:
                    c.same(spec.call(params, name), value, what)
                except ParameterError:
                    pass
                return
            if spec.default is not None:
                c.count("default_ignored")
            c.same(spec.call(params, name), spec.convert(value), what, spec.default)
        else:
            c.count("present_wrong_type" if not isinstance(value, spec.types) else "present_out_of_contract")
            c.raises(ParameterError, lambda: spec.call(params, name), what, stored, spec.default)
    elif spec.default is not None:
        if spec.default_good:
            c.count("absent_default")
            if not spec.default:
                c.count("absent_falsy_default")
            c.check(spec.call(params, name) is spec.default, what + " must give its default", spec.default)
        elif spec.default_good is False:
            c.count("bad_default")
            c.raises(ParameterError, lambda: spec.call(params, name), what + ": bad default", spec.default)
        else:
            try:
                c.check(spec.call(params, name) is spec.default, what, spec.default)
            except ParameterError:
                pass
    elif spec.optional:
        c.count("absent_none")
        c.check(spec.call(params, name) is None, what + " must give nothing")
    else:
        c.count("absent_required")
        c.raises(ParameterError, lambda: spec.call(params, name), what + " must fail")


def namespaces(c, params, name, present, stored):
    is_namespace = present and isinstance(stored, Parameters)
    c.check(params.has_namespace(name) is is_namespace, "has_namespace", name)
    if is_namespace:
        c.count("empty_namespace" if not stored.as_nested_dicts() else "namespace")
        for function in (params.namespace, params.optional_namespace, params.namespace_or_empty):
            found = function(name)
            c.check(isinstance(found, Parameters), "is no namespace", name, found)
            c.same(dict(found.as_nested_dicts()), dict(stored.as_nested_dicts()), "namespace", name)
            c.eq(found.namespace_prefix, stored.namespace_prefix, "path of the namespace", name)
        return
    c.check(params.optional_namespace(name) is None, "optional_namespace", name)
    c.raises(ParameterError, lambda: params.namespace(name), "namespace", name)
    if present:
        c.count("not_a_namespace")
        c.raises(ParameterError, lambda: params.namespace_or_empty(name), "namespace_or_empty", name)
    else:
        c.count("absent_namespace")
        found = params.namespace_or_empty(name)
        c.check(isinstance(found, Parameters) and not found.as_nested_dicts(), "namespace_or_empty", found)
        c.eq(".".join(found.namespace_prefix), ".".join(params.namespace_prefix + (name,)), "path")


@PROP.scenario(quick=12000)
def accessors(c):
    rng = c.rng
    model = paramgen.tree(rng, depth=2, plain=True)
    spots = [((), model)] + [(p, v) for p, v in paramgen.paths(model) if isinstance(v, dict)]
    prefix, spot = rng.choice(spots)
    key = rng.choice(paramgen.NAMES + paramgen.PLAIN)
    kind = rng.choice(["str", "enum", "int", "float", "bool", "list", "namespace", "absent", "absent",
                       "below_value", "other"])
    if kind == "below_value":
        spot[key] = rng.choice([0, "", "x", False, [], 1.5, ["b"], "abc"])
        c.count("below_value")
    elif kind == "absent":
        spot.pop(key, None)
    else:
        spot[key] = {
            "str": lambda: paramgen.string(rng),
            "enum": lambda: rng.choice(["RED", "GREEN", "BLUE", "CRIMSON", "red", "3", "NONE", "LOW", "", "A",
                                        "BOTH", "NOTHING", "name", "mro", "__class__", "Colour.RED", "None"]),
            "int": lambda: rng.choice([0, 1, -1, rng.randint(-6, 6), 10 ** 30]),
            "float": lambda: rng.choice([0.0, -0.0, 1.5, rng.uniform(-3, 3), math.inf, -math.inf, math.nan]),
            "bool": lambda: rng.random() < 0.5,
            "list": lambda: paramgen.listing(rng),
            "namespace": lambda: paramgen.tree(rng, depth=1),
            "other": lambda: rng.choice([(), (1, 2), b"x", b"", {1}, frozenset(), 1j, range(3)]),
        }[kind]()
    path = prefix + (key,)
    if kind == "below_value":
        path += (rng.choice(["x", "0", "b", key]),)
    present = kind not in ("absent", "below_value")
    if kind == "float" and math.isnan(spot[key]):
        c.count("not_a_number")
    stored = spot.get(key) if present else None
    params = Parameters.from_mapping(model)
    cut = rng.randint(0, len(prefix))
    via = params.namespace(".".join(path[:cut])) if cut else params
    name = ".".join(path[cut:])
    c.log("stored", kind, name, stored)
    if isinstance(stored, dict):
        stored = via.namespace(name)
    namespaces(c, via, name, present, stored)
    for accessor, make in requests(rng, stored).items():
        for _ in range(2):
            decide(c, via, name, present, stored, accessor, make())


@PROP.scenario(quick=300)
def many_options(c):
    """Options and ranges of a program's configuration, several of them against one set of values."""
    rng = c.rng
    words = [gen.text(rng, 6).replace(".", "") + str(i) for i in range(8)]
    model = {f"p{i}": rng.choice(words) for i in range(5)}
    numbers = {f"n{i}": rng.randint(-20, 20) for i in range(5)}
    params = Parameters.from_mapping({**model, "numbers": numbers})
    c.log("options", model, numbers)
    for name, value in model.items():
        options = gen.subset(rng, words)
        if value in options:
            c.eq(params.string(name, options), value, "valid option")
            c.eq(params.optional_string(name, options), value, "valid option")
        else:
            c.raises(ParameterError, lambda: params.string(name, options), "invalid option")
            c.raises(ParameterError, lambda: params.optional_string(name, options), "invalid option")
            c.raises(ParameterError, lambda: params.string(name, options, words[0]), "invalid option")
    for name, value in numbers.items():
        valid, predicate = a_range(rng, lambda: rng.randint(-20, 20))
        if predicate(value):
            c.eq(params.integer("numbers." + name, valid_range=valid), value, "valid number")
        else:
            c.raises(ParameterError, lambda: params.integer("numbers." + name, valid_range=valid), "range")
