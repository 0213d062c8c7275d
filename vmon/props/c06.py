import copy
import os
import pickle
import subprocess
import sys

from vistautils.parameters import Parameters
from vistautils.range import Range

from vmon import gen, monitors
from vmon.engine import VERIF, Property
from vmon.rangemodel import coalesce, cuts_of, make, random_cuts, valid_cuts
from vmon.rangeobjs import build, observe, probes_for, random_recipe

PROP = Property(
    "C06",
    scale=10,
    rule="Objects of every kind (ranges, mutable and immutable range sets, maps, spans, parameters), "
    "including unbounded and empty ones, pickled under protocols 0 to 5 and copied shallowly and "
    "deeply, alone and within containers; the answers of the copy to all queries are compared with "
    "those of the original. Batches of pickles are also read by another process with another hash "
    "seed, compared there with natively built objects, and sent back. All 7 kinds of unbounded and "
    "bounded ranges over 2 values are enumerated.",
    required=["pickled", "copied", "unbounded", "empty", "independent", "other_process",
              "parameters", "kind:mutable", "kind:immutable", "kind:map", "kind:span", "kind:range"],
    assumptions=["endpoint types and values can be pickled themselves"],
    files=["vistautils/range.py", "vistautils/span.py"],
)


def kinds_of_copies(c, obj):
    for protocol in range(pickle.HIGHEST_PROTOCOL + 1):
        c.count("pickled")
        yield f"pickle protocol {protocol}", pickle.loads(pickle.dumps(obj, protocol))
    c.count("copied", 2)
    yield "copy", copy.copy(obj)
    yield "deepcopy", copy.deepcopy(obj)
    yield "within a container", pickle.loads(pickle.dumps({"a": [obj, (obj,)]}))["a"][1][0]
    yield "deepcopy within a container", copy.deepcopy([{"x": obj}])[0]["x"]
    yield "copy of a copy", copy.copy(pickle.loads(pickle.dumps(copy.deepcopy(obj))))


def check_copies(c, recipe, obj, probes):
    kind = recipe["kind"]
    c.count("kind:" + kind)
    expected = observe(recipe, obj, probes)
    for how, other in kinds_of_copies(c, obj):
        c.check(type(other) is type(obj), f"{how}: kind", type(other), obj)
        c.check(other == obj and obj == other and not other != obj, f"{how}: equality", obj, other)
        if kind not in ("mutable",):
            c.eq(hash(other), hash(obj), f"{how}: hash", obj)
            c.check(other in {obj}, f"{how}: as set member", obj)
        c.eq(repr(other), repr(obj), f"{how}: printed form")
        c.eq(observe(recipe, other, probes), expected, f"{how}: answers", obj, other)
        # the copy can be used together with originals
        if kind == "range":
            c.check(other.encloses(obj) and obj.encloses(other), f"{how}: enclosure", obj)
            c.eq(other.span(obj) == obj, True, f"{how}: span with original", obj)
            c.eq(other.intersection(obj) == obj, True, f"{how}: intersection", obj)
    c.eq(observe(recipe, obj, probes), expected, "original afterwards", obj)


def note(c, recipe):
    if recipe["kind"] == "range":
        cuts = [recipe["cut"]]
    elif recipe["kind"] in ("mutable", "immutable"):
        cuts = recipe["members"]
    elif recipe["kind"] == "map":
        cuts = [cut for cut, _ in recipe["entries"]]
    else:
        return
    if any(-1 in cut or 10 ** 9 in cut for cut in cuts):
        c.count("unbounded")
    if not cuts or any(lo == hi for lo, hi in cuts):
        c.count("empty")


@PROP.scenario(quick=len(gen.FAMILY_NAMES), exhaustive=True)
def small_ranges(c):
    family = gen.FAMILY_NAMES[c.i]
    values = gen.values(c.rng, family, 2)
    c.log("all ranges over", values)
    for cut in valid_cuts(2):
        recipe = {"kind": "range", "values": values, "cut": cut}
        note(c, recipe)
        check_copies(c, recipe, make(Range, values, *cut), valid_cuts(2))
        if cut[0] < cut[1]:
            for kind in ("mutable", "immutable"):
                recipe = {"kind": kind, "values": values, "members": [cut]}
                check_copies(c, recipe, build(c.rng, recipe), valid_cuts(2))


@PROP.scenario(quick=900)
def random_objects(c):
    recipe = random_recipe(c.rng)
    probes = probes_for(c.rng, recipe)
    c.log(recipe["kind"], recipe)
    note(c, recipe)
    check_copies(c, recipe, build(c.rng, recipe), probes)


@PROP.scenario(quick=300)
def mutable_copies_are_independent(c):
    recipe = random_recipe(c.rng, "mutable")
    values = recipe["values"]
    original = build(c.rng, recipe)
    c.log("set", recipe["members"])
    sets = [(original, list(recipe["members"]))]
    for _ in range(c.rng.randint(1, 4)):
        source, content = c.rng.choice(sets)
        how = c.rng.choice(["copy", "deepcopy", "pickle"])
        c.log(how)
        duplicate = {
            "copy": copy.copy,
            "deepcopy": copy.deepcopy,
            "pickle": lambda x: pickle.loads(pickle.dumps(x, c.rng.randint(0, 5))),
        }[how](source)
        sets.append((duplicate, list(content)))
        for _ in range(c.rng.randint(0, 3)):
            s, content = c.rng.choice(sets)
            if c.rng.random() < 0.15:
                c.log("clear")
                s.clear()
                del content[:]
            else:
                cut = random_cuts(c.rng, len(values), 0.1)
                c.log("add", cut)
                s.add(make(Range, values, *cut))
                content.append(cut)
            for t, adds in sets:
                from vistautils.range import BoundType
                c.count("independent")
                c.eq([cuts_of(r, values, BoundType) for r in t.as_ranges()], coalesce(adds),
                     "content of the copies and the original")
                c.eq(len(t), len(coalesce(adds)), "length")


def random_tree(rng, depth=3):
    ret = {}
    for _ in range(rng.randint(0, 4)):
        name = rng.choice(["a", "b", "c", "x y", "\u00e9", "import", "0"])
        if depth and rng.random() < 0.4:
            ret[name] = random_tree(rng, depth - 1)
        else:
            ret[name] = rng.choice([0, 1, "", "x", 2.5, True, False, [1, [2]], [], "%a%", -3])
    return ret


def check_params(c, other, original, how):
    c.check(type(other) is Parameters, f"{how}: type", other)
    c.check(other == original and original == other and not other != original, f"{how}: equality")
    c.same(other.as_nested_dicts(), original.as_nested_dicts(), f"{how}: content")
    c.eq(other.namespace_prefix, original.namespace_prefix, f"{how}: prefix")
    c.eq(list(other.namespaced_items()), list(original.namespaced_items()), f"{how}: items")
    for name, value in original.as_nested_dicts().items():
        if isinstance(original.get(name, object), Parameters):
            check_params(c, other.namespace(name), original.namespace(name), how)
        else:
            c.same(other.get(name, object), value, f"{how}: lookup")


@PROP.scenario(quick=300)
def parameters(c):
    tree = random_tree(c.rng)
    prefix = c.rng.choice([(), (), ("p",), ("p", "q")])
    c.log("parameters", tree, prefix)
    params = Parameters.from_mapping(tree, namespace_prefix=prefix)
    for protocol in range(6):
        c.count("parameters")
        check_params(c, pickle.loads(pickle.dumps(params, protocol)), params, f"protocol {protocol}")
    check_params(c, copy.copy(params), params, "copy")
    check_params(c, copy.deepcopy(params), params, "deepcopy")
    for p in params.sub_namespaces() if not any(isinstance(v, list) for v in flat(tree)) else ():
        check_params(c, pickle.loads(pickle.dumps(p)), p, "namespace")
        check_params(c, copy.deepcopy(p), p, "namespace")


def flat(tree):
    for v in tree.values():
        if isinstance(v, dict):
            yield from flat(v)
        else:
            yield v


@PROP.scenario(quick=8, thorough=200)
def other_processes(c):
    work = []
    for _ in range(40):
        protocol = c.rng.randint(0, 5)
        if c.rng.random() < 0.1:
            tree = random_tree(c.rng)
            recipe = {"kind": "parameters", "content": tree, "prefix": ("x",) * c.rng.randint(0, 2)}
            obj, probes = Parameters.from_mapping(tree, namespace_prefix=recipe["prefix"]), []
        else:
            recipe = random_recipe(c.rng)
            obj, probes = build(c.rng, recipe), probes_for(c.rng, recipe)
            hash(obj)  # a hash code must not be remembered across processes
        work.append((recipe, probes, pickle.dumps(obj, protocol), protocol, obj))
        c.log("sent", recipe["kind"], protocol)
    inp, out = c.dir / "in", c.dir / "out"
    inp.write_bytes(pickle.dumps([w[:4] for w in work]))
    repo = os.path.dirname(os.path.dirname(sys.modules["vistautils.range"].__file__))
    with monitors.trusted():
        done = subprocess.run(
            [sys.executable, "-B", str(VERIF / "vmon" / "child_unpickle.py"), repo, str(VERIF),
             str(inp), str(out)],
            env={**os.environ, "PYTHONHASHSEED": str(c.rng.randint(1, 10 ** 6))},
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, check=False,
        )
    c.eq(done.returncode, 0, "the other process failed", done.stdout[-2000:])
    for (recipe, probes, _, protocol, obj), r in zip(work, pickle.loads(out.read_bytes())):
        c.count("other_process")
        c.check(r["equal"] and not r["unequal"], "equal to one built there", recipe, protocol)
        c.eq(r["type"], r["native_type"], "kind there", recipe)
        if r["hashable"] or recipe["kind"] not in ("parameters", "mutable"):
            c.check(r["same_hash"] and r["member"], "hash code there", recipe, protocol)
        again = pickle.loads(r["again"])
        if recipe["kind"] == "parameters":
            check_params(c, again, obj, "back from another process")
            c.same(r["seen"][0], obj.as_nested_dicts(), "content seen there")
        else:
            c.eq(r["seen"], observe(recipe, obj, probes), "answers there", recipe, protocol)
            c.check(again == obj, "back from another process", recipe)
            c.eq(observe(recipe, again, probes), r["seen"], "answers of the returned", recipe)
