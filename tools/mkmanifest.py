"""Writes MANIFEST.json: a check for every property that has a spec module, not_applicable for the others."""
import json, os, importlib, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
NA = {"C26": "QtScript glue: the observable behaviour is the QtScript engine's (JavaScript evaluation, script-side objects), an external interpreter no contract here can specify; pillow's own part is a few forwarding calls",
      "C27": "TLS: confidentiality and certificate handling are entirely QSslSocket/OpenSSL; pillow only configures the socket, there is no functional contract over pillow code to discharge",
      "C28": "liveness of the whole server under the event loop (every request eventually answered): a whole-history property over schedules; contracts and deductive verification of functions cannot express it",}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "pvc/specs/%s.py" % i.lower())):
        m = importlib.import_module("pvc.specs." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3-vt check.py --property %s --tier quick" % i, "thorough_cmd": "python3-vt check.py --property %s --tier thorough" % i,
                       "technique": "contract-based deductive verification of the real code (contracts over LLVM IR extracted from /repo on every run, SMT)", "level": "proof", "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "not under contract yet: no check claimed")})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Nothing is built ahead: every check extracts LLVM IR from /repo's current sources and discharges the obligations generated from it. See DESIGN.md."}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
