"""C01: the request head parser recognises exactly its grammar and reports exactly the ranges the grammar assigns."""
from ..unit import *
from ..simrel import *
from .. import ir
import time, collections, heapq, itertools
NOTE = ("thin_http_parser_execute/init/has_error/is_finished (real IR of parser/parser.c) against a reference automaton written from the published grammar: every byte string, every split, by an inductive "
        "relation between implementation cut points (each end-of-buffer test and each resumption) and reference states; obligations decided for all 256 byte values by set-wise execution and Z3 for the offsets.")
ASSUMPTIONS = ["caller contract (proved of processInput in C02): offsets handed in equal the bytes already parsed, the buffer is followed by a NUL, holds the same earlier bytes as in the previous call, is at least 1 and below 2^31 bytes long, and the parser is not called again once finished",
               "the header callback does not touch the parser (proved of parser_http_field in C02) and header_done is null (proved of initialize in C02)",
               "pointer subtraction within the buffer is exact (no wrap-around of addresses)"]
# ------------------------------------------------------------------ the grammar (parser/common.rl), as a byte automaton
def rng(*a):
    s = set()
    for x in a:
        if isinstance(x, tuple): s |= set(range(x[0], x[1] + 1))
        else: s |= {ord(c) for c in x} if isinstance(x, str) else {x}
    return frozenset(s)
DIGIT = rng((48, 57)); UPPER = rng((65, 90)); ALPHA = rng((65, 90), (97, 122)); HEX = rng((48, 57), (65, 70), (97, 102))
METHOD = DIGIT | UPPER | rng("$-_.")
SCHEME = ALPHA | DIGIT | rng("+-.")
URICH = frozenset(range(256)) - rng((0, 31), 127, " #%")          # uchar | reserved, without escapes
PATHCH = URICH - rng("?")
TOKEN = frozenset(range(33, 127)) - rng('()<>@,;:\\"/[]?={}')
VARS = ["m_s", "m_e", "u_s", "u_e", "q_s", "f_s", "v_s", "v_e", "h_s", "h_e", "x_s",   # h: header name, x: header value start
        "rp_s", "rp_e", "rq_s", "rq_e", "rf_s", "rf_e"]      # reported (0,0 until complete): only path, query and fragment are optional
ACCEPT, REJECT = "accept", "reject"
def step(q, b):
    """-> (next state, set of variables that become the current offset, event)"""
    k = q[0]
    if k == "method":
        n = q[1]
        if b in METHOD and n < 20: return ("method", n + 1), {"m_s"} if n == 0 else set(), None
        if b == 32 and n >= 1: return ("uri",), {"m_e"}, None
    elif k == "uri":
        if b == 42: return ("star",), {"u_s"}, None
        if b == 47: return ("path",), {"u_s"}, None
        if b == 58: return ("abs",), {"u_s"}, None
        if b in SCHEME: return ("scheme",), {"u_s"}, None
    elif k == "star": return uriend(b, set())
    elif k == "scheme":
        if b == 58: return ("abs",), set(), None
        if b in SCHEME: return ("scheme",), set(), None
    elif k == "abs":
        if b in URICH: return q, set(), None
        if b == 37: return ("esc", "abs"), set(), None
        return uriend(b, set())
    elif k == "path":
        if b in PATHCH: return q, set(), None
        if b == 37: return ("esc", "path"), set(), None
        if b == 63: return ("query0",), {"path!"}, None
        return uriend(b, {"path!"})
    elif k in ("query0", "query"):
        st = {"q_s"} if k == "query0" else set()
        if b in URICH: return ("query",), st, None
        if b == 37: return ("esc", "query"), st, None
        return uriend(b, st | {"query!"})
    elif k in ("frag0", "frag"):
        st = {"f_s"} if k == "frag0" else set()
        if b in URICH: return ("frag",), st, None
        if b == 37: return ("esc", "frag"), st, None
        if b == 32: return ("http", 0), st | {"frag!"}, None
    elif k == "esc":
        if b == 117: return ("escu", q[1]), set(), None
        if b in HEX: return ("esc2", q[1]), set(), None
    elif k == "escu":
        if b in HEX: return ("esc2", q[1]), set(), None
    elif k == "esc2":
        if b in HEX: return (q[1],), set(), None
    elif k == "http":
        if b == b"HTTP/"[q[1]]: return ("http", q[1] + 1) if q[1] < 4 else ("major0",), {"v_s"} if q[1] == 0 else set(), None
    elif k == "major0":
        if b in DIGIT: return ("major",), set(), None
    elif k == "major":
        if b in DIGIT: return q, set(), None
        if b == 46: return ("minor0",), set(), None
    elif k == "minor0":
        if b in DIGIT: return ("minor",), set(), None
    elif k == "minor":
        if b in DIGIT: return q, set(), None
        if b == 13: return ("lf",), {"v_e"}, None
    elif k == "lf":
        if b == 10: return ("line",), set(), None
    elif k == "line":
        if b == 13: return ("final",), set(), None
        if b in TOKEN: return ("name",), {"h_s"}, None
    elif k == "name":
        if b in TOKEN: return q, set(), None
        if b == 58: return ("blanks",), {"h_e"}, None
    elif k == "blanks":
        if b == 32: return q, set(), None
        if b == 13: return ("lf",), {"x_s"}, "header"
        return ("value",), {"x_s"}, None
    elif k == "value":
        if b == 13: return ("lf",), set(), "header"
        return q, set(), None
    elif k == "final":
        if b == 10: return ACCEPT, set(), None
    return REJECT, set(), None
def uriend(b, up):
    if b == 32: return ("http", 0), up | {"u_e"}, None
    if b == 35: return ("frag0",), up | {"u_e"}, None
    return REJECT, set(), None

REPORTED = {"request_method": ("m_s", "m_e"), "request_uri": ("u_s", "u_e"), "request_path": ("rp_s", "rp_e"), "query_string": ("rq_s", "rq_e"),
            "fragment": ("rf_s", "rf_e"), "http_version": ("v_s", "v_e")}
P_ = sym("P"); L = sym("L"); BUF = sym("buf"); PAR = sym("par")

def run(ex):
    fn = target(ex, "thin_http_parser_execute"); mod = fn.module
    F = {k: mod.funcs[n] for k, n in [("init", "thin_http_parser_init"), ("err", "thin_http_parser_has_error"), ("fin", "thin_http_parser_is_finished")]}
    for f in F.values(): target(ex, f.dem)
    lay = mod.layouts["http_parser"]
    off = {n: v[0] for n, v in lay.items()}
    sty = next(t for n, t in mod.types.items() if n.endswith("http_parser")); offs = list(ir.offsets(mod, sty)); size = dict(zip(offs, [ir.sizeof(mod, t) for t in sty.el]))
    key = lambda n: (addl(PAR, con(off[n])), size[off[n]])
    names = {key(n): n for n in off}
    S = Sim(mod, VARS)
    oblig = collections.OrderedDict()       # name -> (ok, detail)
    def field_event(sim, st, a): st.ev.append(tuple(a)); return None
    S.extern["#http_field"] = field_event
    # ---------------------------------------------------------------- init
    ini = S.call_state(F["init"], [PAR], {key("data"): sym("#data"), key("http_field"): sym("#http_field"), key("header_done"): con(0)})
    res = S.run(ini)
    ok = len(res) == 1 and res[0][0] == "ret"
    oblig["init/returns"] = (ok, "")
    m0 = res[0][1].mem
    oblig["init/callbacks-kept"] = (m0[key("data")] == sym("#data") and m0[key("http_field")] == sym("#http_field") and m0[key("header_done")] == con(0), "init must keep the callbacks")
    # ---------------------------------------------------------------- relation
    nodes = {}           # key -> dict(inv=..., wit=bytes, kind)
    queue = []; inq = set()
    kinds = "method uri star scheme abs path query0 query frag0 frag http major0 major minor0 minor lf line name blanks value final".split(); tick = itertools.count()
    def qrank(q):
        if q[0].startswith("esc"): return (kinds.index(q[1]) , 0)
        if q[0] in ("lf", "line", "name", "blanks", "value", "final"): return (kinds.index("lf"), 0)
        return (kinds.index(q[0]), q[1] if len(q) > 1 else 0)
    def visit(nk, inv, wit, mk):
        n = nodes.get(nk)
        if n is None:
            nodes[nk] = n = {"inv": inv, "wit": wit, "mk": mk}; ch = True
            if len(nodes) > 4000: raise Unsupported("too many implementation states")
        else:
            new = {k: n["inv"][k] & inv.get(k, frozenset()) for k in n["inv"]}
            ch = new != n["inv"]; n["inv"] = new
        if ch and nk not in inq: heapq.heappush(queue, (qrank(nk[2]), len(wit), len(inq), next(tick), nk)); inq.add(nk)
    zero = {v: con(0) for v in VARS}; defs0 = dict(zero, P=con(0), O=con(0))
    ORDER = ["P", "O"] + VARS
    def vinv(defs):
        """equalities among the symbols themselves: each in terms of constants and earlier ones"""
        out = {}
        for i, x in enumerate(ORDER):
            d = defs[x]; c = {d} if d.const else set()
            for y in ORDER[:i]:
                z = subl(d, defs[y])
                if z.const: c.add(Lin(frozenset([(y, 1)]), z.c))
            out[("v", x)] = frozenset(c)
        return out
    def minv(st, mem, defs): return {**vinv(defs), **{("m", k): S.cands(v, defs) | S.bound(st, v, defs["P"]) for k, v in mem.items() if not any(x.startswith("#thin") or x.startswith("#" + fn.name) for x, _ in k[0].t)}}
    S.pairs = [(b, a) for a, b in REPORTED.values()] + [("h_e", "h_s"), ("P", "O")]
    S.persist = ("#data", "#http_field")
    cs0 = m0.get(key("cs"))
    def csof(mem):
        v = mem.get(key("cs"))
        return v.c if isinstance(v, Lin) and v.const else None
    def entry(st, mem, defs, q, wit):
        c = csof(mem)
        if c is None: raise Unsupported("the parser state stored on return is not a constant")
        visit(("entry", c, q), minv(st, mem, defs), wit, None)
    entry(res[0][1], m0, defs0, ("method", 0), b"")
    def predicates(mem):
        r = []
        for k in ("err", "fin"):
            o = S.run(S.call_state(F[k], [PAR], mem))
            if len(o) != 1 or o[0][0] != "ret" or not isinstance(o[0][1].ret, Lin) or not o[0][1].ret.const: raise Unsupported("parser status predicate is not determined by the stored state")
            r.append(bool(o[0][1].ret.c))
        return tuple(r)
    seen_ref = set(); pcache = {}
    stepcache = {}
    def process(nk):
        n = nodes[nk]; q = nk[2]; seen_ref.add(q); obs = {}
        def ob(kind, ok, detail=""):
            nm = "%s@%s/%s" % (kind, "%s:%s" % (nk[0], nk[1]) if nk[0] == "entry" else "cut:" + nk[3], "-".join(map(str, q)))
            if nm not in obs or (obs[nm][0] and not ok): obs[nm] = (ok, detail if not ok else "")
        sub = {}
        for x in ORDER:
            c = n["inv"][("v", x)]
            if c: sub[x] = S.subst(min(c, key=lambda t: (bool(t.t), [ORDER.index(y) for y, _ in t.t], t.c)), sub)
        cur = {v: sub.get(v, sym(v)) for v in ORDER}; P = S.P = cur["P"]
        S.eqs = tuple((x, cur[x]) for x in ORDER if x in sub)
        def rep(c): return S.subst(S.pick(c), sub)
        mem = {}; extra = []
        for k, c in n["inv"].items():
            if k[0] != "m": continue
            mem[k[1]] = rep(c)
            if ("below",) in c and isinstance(mem[k[1]], Lin) and len(mem[k[1]].t) == 2: extra.append(("ge", mem[k[1]], con(0)))
            if mem[k[1]] is TOP and ("below",) in c:
                x = sym("?" + names.get(k[1], "x")); mem[k[1]] = x; extra += [("ge", x, con(0)), ("lt", x, P)]
        if nk[0] == "entry":
            st = S.call_state(fn, [PAR, BUF, L, P], mem); oldO = P
        else:
            st = n["mk"](mem, n["inv"], rep); oldO = cur["O"]
        st.facts = st.facts + extra
        for kind, t, msg in S.run(st):
            bs = [b for b in range(256) if t.mask[b]]
            where = "after %r" % (n["wit"],) + (" byte %s" % brepr(bs) if t.read else " at the end of the buffer")
            if kind == "bad": ob("no-abort", False, "%s: %s" % (msg, where)); continue
            if not t.read:
                # end of the buffer (or nothing consumed)
                if kind == "cut": raise Unsupported("cut without a byte consumed")
                ob("stops-at-end", S.proves(t, "eq", P, L), "returns before the end of the buffer without reading: " + where)
                ob("no-event", not t.ev, "header reported without a byte: " + where)
                e, f = status(t.mem)
                ob("incomplete-is-neither", not e and not f, "%s although the head is incomplete: %s" % ("error reported" if e else "finished reported", where))
                nr = t.mem.get(key("nread")); ob("consumed", isinstance(nr, Lin) and S.proves(t, "eq", nr, L), "bytes consumed is %r instead of the buffer length: %s" % (nr, where))
                ob("result", isinstance(t.ret, Lin) and S.proves(t, "eq", t.ret, L), "returns %r: %s" % (t.ret, where))
                # express by P (== L here)
                mem2 = {k: (addl(subl(v, L), P) if isinstance(v, Lin) and ("L", 1) in v.t else v) for k, v in t.mem.items()}
                defs = {v: cur[v] for v in VARS}; defs["P"] = defs["O"] = P
                if not e and not f: entry(t, mem2, defs, q, n["wit"])
                continue
            groups = {}
            for b in bs:
                r = stepcache.get((q, b))
                if r is None: r = stepcache[(q, b)] = step(q, b)
                groups.setdefault((r[0], frozenset(r[1]), r[2]), []).append(b)
            for (q2, up, evt), gb in groups.items():
                where = "after %r then byte %s" % (n["wit"], brepr(gb))
                defs = {v: cur[v] for v in VARS}
                for u in up:
                    if u in defs: defs[u] = P
                for u, d in (("path!", "p"), ("query!", "q"), ("frag!", "f")):
                    if u in up: defs["r%s_s" % d] = defs[{"p": "u"}.get(d, d) + "_s"]; defs["r%s_e" % d] = P
                want = []
                if evt == "header": want = [(sym("#data"), addl(BUF, defs["h_s"]), subl(defs["h_e"], defs["h_s"]), addl(BUF, defs["x_s"]), subl(P, defs["x_s"]))]
                ob("headers", len(t.ev) == len(want) and all(S.same(t, a, b) for a, b in zip([x for e_ in t.ev for x in e_], [x for e_ in want for x in e_])), "header callback %s, expected %s: %s" % (t.ev, want, where))
                if kind == "ret":
                    e, f = status(t.mem)
                    nr = t.mem.get(key("nread"))
                    if q2 == REJECT:
                        ob("rejects", e and not f, "accepted, the grammar rejects it: " + where)
                        ob("first-offending-byte", isinstance(nr, Lin) and S.proves(t, "eq", nr, P), "rejection reported at %r, not at the offending byte P: %s" % (nr, where))
                    elif q2 == ACCEPT:
                        ob("finishes", f and not e, "complete head not reported as finished: " + where)
                        if f:
                            bsv = t.mem.get(key("body_start")); ob("body-start", isinstance(bsv, Lin) and S.proves(t, "eq", bsv, addl(P, con(1))), "body start %r: %s" % (bsv, where))
                            for r, (a, b) in REPORTED.items():
                                g, l = t.mem.get(key(r + "_start")), t.mem.get(key(r + "_len"))
                                wl = subl(defs[b], defs[a])
                                # an empty range may be reported at any offset within the head when the grammar has none of that element
                                ob("range:" + r, isinstance(g, Lin) and isinstance(l, Lin) and S.same(t, l, wl) and S.same(t, g, defs[a]), "%s reported as [%r, +%r), the grammar assigns [%r, +%r): %s" % (r, g, l, defs[a], wl, where))
                    else: ob("accepts", False, "rejected (or stopped early), the grammar allows it: " + where)
                    continue
                ob("accepts", q2 not in (REJECT, ACCEPT), "continues, the grammar %s here: %s" % ("rejects" if q2 == REJECT else "ends", where))
                if q2 in (REJECT, ACCEPT): continue
                # cut: the position asked about must be P+1
                ndefs = dict(defs, P=addl(P, con(1)), O=oldO)
                inv = vinv(ndefs)
                for k, v in t.mem.items(): inv[("m", k)] = S.cands(v, ndefs) | S.bound(t, v, ndefs["P"])
                stk = []
                for d, fr in enumerate(t.frames):
                    lv = S.live(fr.fn, fr.blk, fr.i); consts = []
                    if d < len(t.frames) - 1: lv = lv - {fr.blk.insts[fr.i].res}
                    for r in sorted(lv):
                        v = S.norm(fr.env[r], t)
                        if isinstance(v, Lin) and v.const: consts.append((r, v.c))
                        inv[("r", d, r)] = S.cands(v, ndefs)
                    stk.append((fr.fn.name, fr.blk.name, fr.i, tuple(consts)))
                # values in terms of the new position: only then may the relation be entered
                nk2 = ("cut", tuple(stk), q2, stk[-1][1])
                shape = [(fr.fn, fr.blk, fr.i, fr.prev, fr.call) for fr in t.frames]
                def mk(mem, inv, rep, shape=shape):
                    s2 = S.call_state(fn, [], mem); s2.frames = []
                    for d, (a, b, c, p_, cl) in enumerate(shape):
                        fr = Fr(); fr.fn, fr.blk, fr.i, fr.prev, fr.call = a, b, c, p_, cl
                        fr.env = {k[2]: rep(v) for k, v in inv.items() if k[0] == "r" and k[1] == d}
                        s2.frames.append(fr)
                    return s2
                # re-evaluate the comparison operands in the new symbols: the cut keeps the instruction that compares
                visit(nk2, inv, n["wit"] + bytes([gb[0]]), mk)
        n["obs"] = obs
    def status(mem):
        k = mem.get(key("cs"))
        kk = k if isinstance(k, Lin) else None
        if kk is None or kk not in pcache:
            r = predicates(mem)
            if kk is None: return r
            pcache[kk] = r
        return pcache[kk]
    t0 = time.time(); nproc = 0
    while queue:
        nk = heapq.heappop(queue)[-1]; inq.discard(nk); nproc += 1
        try: process(nk)
        except Undecided as e: nodes[nk]["err"] = "%s (state %s, %s, after %r)" % (e, nk[0], nk[2], nodes[nk]["wit"])
        else: nodes[nk].pop("err", None)
        if time.time() > ex.deadline: raise Unsupported("time budget of the unit used up")
    for n in nodes.values():
        if "err" in n:
            if os.environ.get("PVC_DEBUG"): print({k: v for k, v in n["inv"].items() if k[0] == "r"}); print({names.get(k[1], k[1]): v for k, v in n["inv"].items() if k[0] == "m"}); print({k: v for k, v in n["inv"].items() if k[0] == "v"})
            raise Unsupported(n["err"])
    for n in nodes.values(): oblig.update(n.get("obs", {}))
    # the reference is covered entirely: every reference state is related to some implementation state
    allq = set(); wl = [("method", 0)]
    while wl:
        q = wl.pop()
        if q in allq or q in (ACCEPT, REJECT): continue
        allq.add(q); wl += [step(q, b)[0] for b in range(256)]
    bad = any(not v[0] for v in oblig.values())
    ex.obs.append(Ob("C01/cover[every reference state is reached]", bad or allq == seen_ref, 0, "simulation", detail="unreached: %s" % sorted(allq - seen_ref)[:5]))
    ex.obs.append(Ob("C01/cover[a head is accepted]", bad or any("finishes@" in k for k in oblig), 0, "simulation"))
    ex.ncover += 2
    per = S.tsolver / max(1, len(oblig))
    for k, (ok, d) in oblig.items(): ex.obs.append(Ob("thin_http_parser_execute/" + k, ok, per, "simulation+z3", detail=d))
    ex.nsolver += S.nq; ex.tsolver += S.tsolver; ex.npaths += nproc; ex.inlined.update(S.inl)
    ex.ninv += sum(len(n["inv"]) for n in nodes.values())
    ex.simstats = (len(nodes), nproc, len(oblig))

def brepr(bs):
    if len(bs) == 256: return "any"
    return ",".join(repr(chr(b)) if 32 < b < 127 else "0x%02x" % b for b in bs[:6]) + (",…(%d)" % len(bs) if len(bs) > 6 else "")
UNITS = [Unit("thin_http_parser", ["parser/parser.c"], run, 500)]
