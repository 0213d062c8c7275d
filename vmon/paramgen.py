"""Parameter trees as nested dictionaries: generation and a reference model."""
import math

from vmon import gen

NAMES = ["a", "b", "c", "x", "foo", "bar", "value", "factory", "import", "A", "_private", "with space",
         "dash-ed", "1", "true", "null", "~", "é", "\U0001f600", "%", "%a", "a%b", "#c", "k:", "-", "*s",
         "&t", "!u", "'q", '"r', "[", "{", "?", "|", ">", "@", "`", "=", "<<", "yes", "0x1", "1_000", "x\ty",
         " lead", "trail ", "n\nl", "_includes2", "self", "__class__", "_data", "namespace_prefix", "\\",
         "two  blanks", "e\u0301", "A\u030a", "\u00c5", "\u212b", "\ufb01", "UPPER", "Upper", "upper", "007", "7", "x\x85y", "x\ry",
         "a,b", "a/b", "a:b", "$HOME", "\ufeffx", "x\ufeff", "a#b", "~/x", "x" * 150, "\u00a0x", "None", "\u0130", "\u4e2d\u6587"]
PLAIN = ["a", "b", "c", "d", "foo", "bar", "baz_2", "x-y", "Q", "_u"]


def name(rng, plain=False):
    if plain or rng.random() < 0.6:
        return rng.choice(PLAIN)
    if rng.random() < 0.8:
        return rng.choice(NAMES)
    return gen.text(rng, 8).replace(".", "") or "n"


def string(rng):
    kind = rng.randint(0, 5)
    if kind == 0:
        return rng.choice(["", " ", "0", "1.5", "true", "no", "null", "~", "2020-01-01", "a.b.c", "x\n", "\n",
                           "- a", "a: b", "# c", "{}", "[]", "'", '"', "%", "%%", "% %", "100%", "1e3", "0o7",
                           "two  blanks", " padded ", "e\u0301", "\u212b", "UPPER", "a\rb", "a\r\nb", "\ta", "~/x", "$HOME", "../a//b/./c", "None"])
    return gen.text(rng, 20).replace("%", "") if kind < 4 else gen.text(rng, 100).replace("%", "")


def integer(rng):
    return rng.choice([0, 1, -1, rng.randint(-9, 9), rng.randint(-10 ** 20, 10 ** 20)])


def floating(rng, special=True):
    return rng.choice([0.0, 1.0, -2.5, rng.uniform(-1, 1), rng.uniform(-1, 1) * 10 ** rng.randint(-300, 300),
                       math.inf if special else 0.5, -math.inf if special else 3.25, 5e-324, 1e16, -0.0])


def scalar(rng):
    return rng.choice([string, string, integer, floating, lambda r: r.random() < 0.5])(rng)


def listing(rng, depth=2, mappings=True):
    n = rng.choice([0, 1, 2, rng.randint(0, 6)])
    ret = []
    for _ in range(n):
        kind = rng.randint(0, 9)
        if kind == 0 and depth:
            ret.append(listing(rng, depth - 1, mappings))
        elif kind == 1 and depth and mappings:
            ret.append({name(rng): scalar(rng) for _ in range(rng.randint(0, 2))})
        else:
            ret.append(scalar(rng))
    return ret


def leaf(rng, lists=True):
    if lists and rng.random() < 0.2:
        return listing(rng)
    return scalar(rng)


def tree(rng, depth=3, width=4, *, plain=False, lists=True, leaf=leaf, empty=0.1):
    if rng.random() < empty:
        return {}
    ret = {}
    for _ in range(rng.randint(1, width)):
        if depth and rng.random() < 0.35:
            ret[name(rng, plain)] = tree(
                rng, depth - 1, width, plain=plain, lists=lists, leaf=leaf, empty=empty
            )
        else:
            ret[name(rng, plain)] = leaf(rng, lists)
    return ret


def paths(model, prefix=()):
    """All (path, value) of leaves and namespaces, in order, parents first."""
    for key, value in model.items():
        yield prefix + (key,), value
        if isinstance(value, dict):
            yield from paths(value, prefix + (key,))


def leaves(model, prefix=()):
    return [(p, v) for p, v in paths(model, prefix) if not isinstance(v, dict)]


def lookup(model, path):
    """The value at the path (a tuple), or None."""
    for part in path:
        if not isinstance(model, dict) or part not in model:
            return None
        model = model[part]
    return model


def copied(model):
    """A copy which shares nothing mutable with the original."""
    if isinstance(model, dict):
        return {k: copied(v) for k, v in model.items()}
    if isinstance(model, list):
        return [copied(v) for v in model]
    return model


def ordered(model):
    """A form which compares equal only if the order of names is the same, too."""
    if isinstance(model, dict):
        return [(k, ordered(v)) for k, v in model.items()]
    if isinstance(model, list):
        return ["list"] + [ordered(v) for v in model]
    return model


def merged(old, new):
    """The model of unification; raises KeyError for a value meeting a namespace."""
    ret = dict(old)
    for key, value in new.items():
        if key in old:
            if isinstance(value, dict) != isinstance(old[key], dict):
                raise KeyError(key)
            if isinstance(value, dict):
                value = merged(old[key], value)
        ret[key] = value
    return ret


def absent_path(rng, model):
    """A dotted path at which there is nothing."""
    everything = [p for p, _ in paths(model)]
    for _ in range(50):
        kind = rng.randint(0, 5)
        if kind == 0 or not everything:
            path = (name(rng),) * rng.randint(1, 2)
        elif kind == 1:
            path = rng.choice(everything) + (name(rng),)
        elif kind == 2:
            path = rng.choice(everything)
            path = path[:-1] + (path[-1] + rng.choice("x_ 1"),)
        elif kind == 3:
            path = rng.choice(everything)
            path = path[:-1] + (path[-1].upper(),)
        elif kind == 4:
            # empty parts are parts as well
            path = rng.choice(everything)
            at = rng.randint(0, len(path))
            path = path[:at] + ("",) * rng.randint(1, 2) + path[at:]
        else:
            path = rng.choice(everything)[1:] or ("nothing",)
        if lookup(model, path) is None:
            return path
    return ("surely", "not", "here")


def large(rng, leaf=None):
    """A wide, a long or a deep tree."""
    leaf = leaf or (lambda: rng.choice([0, 1, "", "x", False, True, 2.5, [], [1, "a"], "text of some length"]))
    kind = rng.choice(["wide", "wide_levels", "deep"])
    if kind == "wide":
        ret = {f"n{j}": leaf() for j in range(rng.choice([70, 300, 1100, 2100]))}
        if rng.random() < 0.4:
            ret = {"before": leaf(), "space": ret, "after": leaf()}
    elif kind == "wide_levels":
        ret = {f"n{j}": {f"m{k}": leaf() for k in range(rng.randint(0, 20))} for j in range(rng.choice([20, 40]))}
    else:
        ret = {"end": leaf()}
        for j in range(rng.choice([8, 15, 30])):
            ret = {rng.choice(["d", "e", f"level{j}"]): ret, f"side{j}": leaf()}
    return ret
