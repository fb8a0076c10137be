#!/usr/bin/env python3-vt
"""check.py --property Cxx [--tier quick|thorough]: discharge every obligation of the property's contracts on /repo's current tree."""
import os, sys, argparse, json, time, importlib, re, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.setrecursionlimit(20000)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-replay", action="store_true")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from pvc import unit, replay, irbuild
    mod = importlib.import_module("pvc.specs." + prop.lower())
    units = [u for u in mod.UNITS if tier == "thorough" or not u.thorough_only]
    results = unit.run_units(units, tier)
    obs = [o for r in results for o in r["obs"]]
    bad = [(r["unit"], o) for r in results for o in r["obs"] if not o[1]]
    errs = [(r["unit"], r["error"], r["notes"]) for r in results if r["error"]]
    listed = findings(prop)
    known = []; fresh = []
    for u, o in bad:
        k = next((x for x in listed if re.search(x[0], o[0])), None)
        (known if k else fresh).append((u, o, k))
    for u, e, n in errs: print("note: unit %s: %s" % (u, e))
    for x in sorted({k for _, _, k in known}): print("KNOWN-FINDING: property=%s %s" % (prop, x[1]))
    viol = bool(fresh or errs)
    wall_proof = time.time() - t0
    rc = 0
    standin = None
    if getattr(mod, "BOUNDED", None) and not viol and not a.no_replay:       # functions out of the verifier's reach: bounded check of the same property, never counted as proved
        secs = (getattr(mod, "BOUNDED_SECONDS", 30)) if tier == "quick" else 240
        status, text = replay.run(prop, secs, str(seed)); standin = {"functions": mod.BOUNDED, "bound": "generated inputs for %d s, seed %d" % (secs, seed), "status": status}
        if status != "pass":
            rc = 1; rep = write_replay(prop, [], [], status, text)
            print("VIOLATION property=%s replay=%s%s" % (prop, rep, "" if status == "fail" else " no-failing-input-found"))
            print("  bounded stand-in: %s" % "\n    ".join([l for l in text.splitlines() if l.strip()][:6]))
    if viol:
        rc = 1
        status, text = ("none", "not run") if a.no_replay else replay.run(prop, max(40, min(240, 780 - wall_proof)), str(seed))
        rep = write_replay(prop, fresh, errs, status, text)
        tail = "" if status == "fail" else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (prop, rep, tail))
        for u, o, _ in fresh[:6]: print("  failed obligation: %s [%s] %s" % (o[0], o[3], (o[5] or "")[:300]))
        if status == "fail": print("  failing input on the real code: %s" % "\n    ".join([l for l in text.splitlines() if l.strip()][:6]))
    evidence(prop, tier, seed, units, results, obs, bad, errs, known, fresh, time.time() - t0, mod, standin, rc)
    ok = sum(1 for o in obs if o[1])
    print("%s: %d obligations, %d discharged, %d units, %d functions under contract, %.1f s" % (prop, len(obs), ok, len(units), len(functions(results)), time.time() - t0))
    sys.stdout.flush()
    return rc

def findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) obligation=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def functions(results):
    s = set()
    for r in results: s |= set(r["functions"]) | set(r["targets"])
    return sorted(s)

def write_replay(prop, fresh, errs, status, text):
    d = os.path.join(HERE, "replays"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.txt" % prop)
    with open(p, "w") as f:
        f.write("property %s\n" % prop)
        for u, o, _ in fresh:
            f.write("\nFAILED OBLIGATION %s\n  verdict: %s\n  counterexample: %s\n  %s\n  %s\n" % (o[0], o[3], o[4] or "-", o[5], o[6]))
        for u, e, n in errs: f.write("\nUNIT %s NOT VERIFIED: %s\n%s\n" % (u, e, "\n".join(n)))
        f.write("\nREPLAY ON THE REAL CODE (replay/%s.cpp against /repo, ASan+UBSan): %s\n%s\n" % (prop.lower(), status, text))
    return p

def evidence(prop, tier, seed, units, results, obs, bad, errs, known, fresh, wall, mod, standin, rc):
    by = {}
    for o in obs: by[o[3].split(":")[0]] = by.get(o[3].split(":")[0], 0) + (1 if o[1] else 0)
    contracts = {}
    for r in results:
        for k, v in r["contracts"].items(): contracts[k] = contracts.get(k, 0) + v
    trusted = sorted("assumed contract: " + k for k in contracts) + [
        "clang 18 (C++ to LLVM IR, opt sroa+simplifycfg)", "pvc VC generator (/verif/pvc: IR semantics, memory model, loop rule)", "z3 5.3"]
    cov = {"obligations": len(obs), "discharged": sum(1 for o in obs if o[1]), "checker_cmd": "python3-vt check.py --property %s --tier %s" % (prop, tier),
           "trusted_base": trusted, "functions_under_contract": functions(results), "units": [
               {"unit": r["unit"], "targets": r["targets"], "obligations": len(r["obs"]), "discharged": sum(1 for o in r["obs"] if o[1]), "paths": r.get("paths", 0),
                "loop_invariants": r.get("inv", 0), "cover_points": r.get("covers", 0), "solver_queries": r.get("queries", 0), "solver_s": round(r.get("solver", 0), 2),
                "wall_s": round(r["wall"], 2), "bounded": r.get("bounded"), "error": r["error"]} for r in results],
           "discharged_by": by, "solver_s": round(sum(r.get("solver", 0) for r in results), 2), "bounded_units": [r["unit"] for r in results if r.get("bounded")],
           "known_findings": len(known), "bounded_stand_in": standin}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": max(len(fresh) + len(errs), rc)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

COMMON_ASSUMPTIONS = [
    "Qt 5.15 and libc/zlib behave as their assumed contracts in pvc/qt*.py say (listed per run in trusted_base)",
    "the code is compiled by clang for verification and by g++ for production; machine integers are modelled exactly (wrap-around and signed-overflow obligations), floating point and pointer provenance are not",
    "termination is not proved except where loops are unrolled with an unwinding obligation",
    "allocation does not fail; objects of distinct allocations do not alias; byte array sizes stay below 2^31-32"]

if __name__ == "__main__":
    sys.exit(main())
