"""Verification units: one unit = one function (or a few) of /repo under contract, run in its own process."""
import os, sys, time, traceback, multiprocessing as mp, queue
from . import irbuild, ir
from .terms import *
from .engine import *
from .qt import QEx, BA, Vec, pure, Tm

HARNESS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness")
_mods = {}
def module(src):
    if src not in _mods:
        p = os.path.join(HARNESS, src)
        ll, lay = irbuild.build_ir(p if os.path.exists(p) else src)
        _mods[src] = ir.parse_module(ll, lay)
    return _mods[src]

class Unit:
    def __init__(s, name, srcs, fn, budget=600, thorough_only=False, bounded=None):
        s.name, s.srcs, s.fn, s.budget, s.thorough_only, s.bounded = name, srcs, fn, budget, thorough_only, bounded

def run_unit(u, tier):
    t0 = time.time(); r = {"unit": u.name, "obs": [], "error": None, "functions": {}, "contracts": {}, "notes": [], "bounded": u.bounded}
    try:
        mods = [module(s) for s in u.srcs]
        ex = QEx(mods, u.name); ex.tier = tier
        ex.deadline = time.time() + u.budget
        ex.targets = []
        try:
            u.fn(ex)
        except Unsupported as e:
            r["error"] = "cannot be verified: %s" % e
            if os.environ.get("PVC_TB"): traceback.print_exc()
        except RecursionError as e: r["error"] = "recursion limit"
        r["obs"] = [(o.name, o.ok, o.t, o.how, o.model, o.detail, o.path) for o in ex.obs]
        r["contracts"] = dict(ex.used_contracts); r["functions"] = dict(ex.inlined); r["targets"] = list(ex.targets)
        r["solver"] = ex.tsolver; r["queries"] = ex.nsolver; r["paths"] = ex.npaths; r["covers"] = ex.ncover; r["inv"] = ex.ninv
        if not r["error"] and not any(o.ok for o in ex.obs): r["error"] = "vacuous: no obligation generated"
    except irbuild.BuildError as e: r["error"] = "build: %s" % e
    except Exception as e:
        r["error"] = "engine: %s" % e
        r["notes"].append(traceback.format_exc())
        if os.environ.get("PVC_TB"): traceback.print_exc()
    r["wall"] = time.time() - t0
    return r

def target(ex, dem):
    f = ex.find(dem); ex.targets.append(f.dem); return f

def prepare(units):
    """compile and parse all the sources once, in this process, in parallel compile jobs"""
    from concurrent.futures import ThreadPoolExecutor
    srcs = sorted({s for u in units for s in u.srcs})
    def b(s):
        p = os.path.join(HARNESS, s)
        try: irbuild.build_ir(p if os.path.exists(p) else s)
        except irbuild.BuildError: pass
    with ThreadPoolExecutor(8) as tp: list(tp.map(b, srcs))
    for s in srcs:
        try: module(s)
        except irbuild.BuildError: pass

def _child(u, tier, q):
    sys.setrecursionlimit(20000)
    q.put(run_unit(u, tier))

def run_units(units, tier, jobs=8, on_result=None):
    prepare(units)
    ctx = mp.get_context("fork"); results = []; pending = list(units); running = []
    while pending or running:
        while pending and len(running) < jobs:
            u = pending.pop(0); q = ctx.SimpleQueue(); p = ctx.Process(target=_child, args=(u, tier, q)); p.start()
            running.append((u, p, q, time.time()))
        time.sleep(0.02)
        for e in list(running):
            u, p, q, t = e
            if not q.empty():
                results.append(q.get()); p.join(); running.remove(e)
            elif not p.is_alive():
                if not q.empty(): continue
                results.append({"unit": u.name, "obs": [], "error": "engine: process died (%s)" % p.exitcode, "functions": {}, "contracts": {}, "notes": [], "targets": [], "solver": 0, "queries": 0, "paths": 0, "wall": time.time() - t, "bounded": u.bounded})
                running.remove(e)
            elif time.time() - t > u.budget + 60:
                p.kill(); p.join()
                results.append({"unit": u.name, "obs": [], "error": "time budget of the unit used up", "functions": {}, "contracts": {}, "notes": [], "targets": [], "solver": 0, "queries": 0, "paths": 0, "wall": time.time() - t, "bounded": u.bounded})
                running.remove(e)
    order = {u.name: i for i, u in enumerate(units)}
    results.sort(key=lambda r: order[r["unit"]])
    return results

def cover(ex, st, what):
    """vacuity guard: the point is reachable"""
    ok = ex.check(st) != z3.unsat
    ex.ncover += 1
    ex.obs.append(Ob("%s/cover[%s]" % (ex.unit, what), ok, 0, "z3"))
