"""
Run as a separate process: reads pickles of [(recipe, probes, pickled object)], and writes what the
unpickled objects answer, how they compare to natively built ones, and the objects pickled again.
"""
import pickle
import random
import sys
import warnings

REPO, VERIF, IN, OUT = sys.argv[1:5]
sys.path[0:0] = [REPO, VERIF]
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

from vmon.rangeobjs import build, observe  # noqa pylint:disable=all

with open(IN, "rb") as inp:
    work = pickle.load(inp)
results = []
for recipe, probes, pickled, protocol in work:
    obj = pickle.loads(pickled)
    if recipe["kind"] == "parameters":
        from vistautils.parameters import Parameters
        native = Parameters.from_mapping(recipe["content"], namespace_prefix=recipe["prefix"])
        seen = [obj.as_nested_dicts(), obj.namespace_prefix, list(obj.namespaced_items())]
    else:
        native = build(random.Random(0), recipe)
        seen = observe(recipe, obj, probes)
    hashable = True
    try:
        same_hash = hash(obj) == hash(native)
        member = obj in {native} and native in {obj}
    except TypeError:
        same_hash = member = hashable = False
    results.append({
        "equal": obj == native and native == obj,
        "unequal": obj != native,
        "type": type(obj).__name__,
        "native_type": type(native).__name__,
        "same_hash": same_hash,
        "member": member,
        "hashable": hashable,
        "seen": seen,
        "again": pickle.dumps(obj, protocol),
    })
with open(OUT, "wb") as out:
    pickle.dump(results, out)
