"""Seconds per scenario: tools/timing.py C20 [cases]"""
import importlib, os, sys, time, tempfile, shutil
sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "/repo"]
from vmon import engine
m = importlib.import_module("vmon.props." + sys.argv[1].lower())
n = int(sys.argv[2]) if len(sys.argv) > 2 else 10
scratch = os.path.realpath(tempfile.mkdtemp(prefix="vmon-timing-"))
engine.enter_scratch(scratch, "/repo")
for s in m.PROP.scenarios:
    t = time.time(); k = min(n, s.quick)
    for i in range(k):
        _, msg = engine.run_case(m.PROP, s, i, 1, "quick", scratch)
        if msg: print(s.name, i, msg[:500])
    d = time.time() - t
    print(f"{s.name:24} {1000*d/k:8.2f} ms/case x {s.quick} = {d/k*s.quick:7.2f} s CPU")
os.chdir("/")
shutil.rmtree(scratch, ignore_errors=True)
