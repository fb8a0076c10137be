"""Loop rule: inductive invariants found by Houdini over candidates, then discharged as obligations.

For a loop header reached from outside:
  * if the first branch after the header is decided by constants the iteration is unrolled (loops over constant data need
    no invariant); units may also ask for unrolling of a function's loops (ex.unroll_rx) - in both cases with the
    obligation that the unrolling bound suffices;
  * otherwise: which slots (SSA phis, memory cells, buffer contents, element arrays, ghost variables) the body changes
    is determined by executing it from a state in which these slots are arbitrary, until a fixpoint; each changed slot
    gets candidate invariants; Houdini removes the candidates that do not hold initially or are not preserved; the
    remaining ones are assumed at the header and their initiation and preservation are proved as obligations."""
import z3
from .terms import *
from . import ir
from .engine import *

PEEK_STEPS = 300

def is_concrete(ex, st, f, h, body):
    """True if the first conditional branch from the header on is decided by constants alone"""
    t = st.fork()
    sp, sc = ex.probe, ex.cmplog
    ex.probe += 1; ex.cmplog = None; decided = False
    depth = len(t.frames)
    try:
        ex.enter(t, t.frames[-1])
        for _ in range(PEEK_STEPS):
            if len(t.frames) < depth: return True
            fr = t.frames[-1]
            if fr.arrive is not None:
                if len(t.frames) == depth and (fr.arrive == h or fr.arrive not in body): return decided
                if fr.arrive in ir.loops(fr.fn): return decided
                ex.enter(t, fr); continue
            ins = fr.blk.insts[fr.i]
            if ins.op == "br" and len(ins.a) == 3:
                c = ex.val(t, fr, ins.a[0], ir.INT(1))
                if c is UNDEF: return False
                c = c if isinstance(c, bool) else simp(c)
                if not isinstance(c, bool): return decided and len(t.frames) == depth and all(x in body for x in ins.a[1:])
                tgt = ins.a[1] if c else ins.a[2]
                if len(t.frames) == depth:
                    # units may ask that every exit test of the header be decided (foreach: a constant flag and then the iterators)
                    if not ex.__dict__.get("strict_concrete") or all(x in body for x in ins.a[1:]) or tgt not in body: return True
                    decided = True
                ex.go(t, fr, tgt); continue
            if ins.op == "switch":
                if isz(ex.val(t, fr, ins.a[0], ins.ty)): return False
            w = []
            if ex.step(t, fr, w) == "STOP" or w: return decided
        return decided
    except (Infeasible, Unsupported):
        return False
    finally:
        ex.probe, ex.cmplog = sp, sc

# ------------------------------------------------------------------ slots
def slot_get(st, key):
    k = key[0]
    if k == "phi": return st.frames[-1].env.get(key[1], UNDEF)
    if k == "cell":
        c = st.mem[key[1]].cells.get(key[2]); return None if c is None else c[1]
    if k == "bytes": return st.mem[key[1]].content
    if k == "elems": o = st.mem[key[1]]; return (o.n, o.base, o.log, o.apps)
    if k == "g": return st.g.get(key[1])
    if k == "freed": return st.mem[key[1]].freed
    if k == "osize": return st.mem[key[1]].size
    if k == "oshared": return st.mem[key[1]].shared
def slot_set(st, key, v):
    k = key[0]
    if k == "phi": st.frames[-1].env[key[1]] = v
    elif k == "cell": o = st.w(key[1]); o.cells[key[2]] = (o.cells[key[2]][0], v)
    elif k == "bytes": st.w(key[1]).content = v
    elif k == "g": st.g[key[1]] = v
    else: raise Unsupported("slot_set")

def vsame(a, b):
    if a is b: return True
    if isz(a) or isz(b): return isz(a) and isz(b) and a.eq(b)
    if type(a) != type(b): return False
    if isinstance(a, Content): return a.base.key() == b.base.key() and len(a.over) == len(b.over) and all(x is y for x, y in zip(a.over, b.over))
    if isinstance(a, tuple): return len(a) == len(b) and all(vsame(x, y) for x, y in zip(a, b))
    if a is UNDEF or b is UNDEF: return False
    try: return vkey(a) == vkey(b)
    except Exception: return False

def diff_slots(base, back, phis):
    out = set()
    for r in phis:
        if not vsame(slot_get(base, ("phi", r)), slot_get(back, ("phi", r))): out.add(("phi", r))
    for oid, o in base.mem.items():
        p = back.mem.get(oid)
        if p is o or p is None: continue
        if o.kind == "bytes":
            if not vsame(o.content, p.content): out.add(("bytes", oid))
        elif o.kind == "elems":
            if not vsame(o.n, p.n) or o.base is not p.base or o.log != p.log or o.apps is not p.apps: out.add(("elems", oid))
        else:
            for off in set(o.cells) | set(p.cells):
                a, b = o.cells.get(off), p.cells.get(off)
                if a is None:
                    if o.lazy is not None or o.name.startswith("local"): continue
                    if any(x <= off < y for x, y in o.zero): 
                        if vsame(b[1], 0) or vsame(b[1], NULL): continue
                    out.add(("cell", oid, off)); continue
                if b is None or a[0] != b[0] or not vsame(a[1], b[1]): out.add(("cell", oid, off))
        if o.freed != p.freed: out.add(("freed", oid))
        if not vsame(o.size, p.size): out.add(("osize", oid))
        if not vsame(o.shared, p.shared): out.add(("oshared", oid))
    for k in set(base.g) | set(back.g):
        if hidden_g(k): continue
        if not vsame(base.g.get(k), back.g.get(k)): out.add(("g", k))
    return out

def hidden_g(k): return (k if isinstance(k, str) else str(k[0])).startswith("_")
def part_of(v, part, st=None):
    if part == "vn": return st.mem[v.oid].n if st is not None and hasattr(v, "el") and v.oid in st.mem else None
    if part == "v": return v if isint(v) or isbool(v) else None
    if isinstance(v, Ptr):
        if part == "off": return v.off
        if part == "idx": return v.idx
        if part == "null": return v.null
        if part == "id" and v.oid is None: return v.off
        return None
    if isinstance(v, OPtr): return v.id if part == "id" else (eq(v.id, 0) if part == "null" else None)
    if isinstance(v, tuple): return v[0] if part == "n" else None
    if hasattr(v, "part"): return v.part(part)
    return None

class HS: pass

def loop(ex, st, f, h, body, work):
    cnt = f.unroll.get(h, 0)
    want = ex.unroll_rx is not None and ex.unroll_rx.search(f.fn.dem) is not None
    if not want: want = is_concrete(ex, st, f, h, body)
    if want:
        f.unroll[h] = cnt + 1
        if cnt + 1 > ex.unroll_max:
            ex.prove(st, False, "unwinding-bound", "loop needs more than %d iterations" % ex.unroll_max)
            raise Infeasible()
        return "UNROLL"
    return general(ex, st, f, h, body, work)

def general(ex, st, f, h, body, work):
    fn = f.fn
    where = "loop in %s" % fn.dem.split("(")[0]
    blk = fn.blocks[h]
    prev = f.blk.name
    init = st.fork(); fi = init.frames[-1]
    vals = []
    for ph in blk.phis:
        for bn, v in ph.a:
            if bn == prev: vals.append((ph.res, ex.val(init, fi, v, ph.ty))); break
    for r, v in vals: fi.env[r] = v
    phis = [r for r, _ in vals]
    ph_ty = {ph.res: ph.ty for ph in blk.phis}
    fi.arrive = None; fi.prev = prev; fi.blk = blk; fi.i = 0
    for fo in ex.foldlist:
        if fo.kind == "val": init.pc += fo.axioms(IntVal(0))
    ctx = LoopCtx(); ctx.depth = len(st.frames) - 1; ctx.header = h; ctx.body = body; ctx.fn = fn
    base_depth = len(st.frames) - 1

    def run_body(S, probe, log=None):
        old = ex.cmplog
        if probe: ex.probe += 1; ex.cmplog = log
        try:
            backs, exits = ex.explore([S], base_depth, ctx); kept = []
            for b in backs:
                if not flagged(b): kept.append(b); continue
                ex.probe += 1
                try: e = leaves(b)
                finally: ex.probe -= 1
                if e is None: kept.append(b); continue
                exits += leaves(b)
            return kept, exits
        finally:
            if probe: ex.probe -= 1
            ex.cmplog = old
    def flagged(b):
        """some slot that decides whether to go on has been given a value"""
        b2 = phi_at_back(ex, b, blk)
        for key in changed:
            if key[0] not in ("phi", "cell"): continue
            x, y = slot_get(init, key), slot_get(b2, key)
            if (isint(x) or isbool(x)) and (isint(y) or isbool(y)) and not isz(y) and (isz(x) or x != y): return True
        return False
    def leaves(b):
        """the states in which the loop is left when the header decides at once, without a choice, to leave it; None otherwise"""
        s = phi_at_back(ex, b, blk).fork(); fr = s.frames[-1]; fr.arrive = None; fr.prev = fr.blk.name; fr.blk = blk; fr.i = 0; more = []; lps = ir.loops(fn)
        try:
            for _ in range(80):
                if len(s.frames) == base_depth: return [s]
                fr = s.frames[-1]
                if fr.arrive is not None:
                    if len(s.frames) - 1 == base_depth:
                        if fr.arrive == h or fr.arrive in body and fr.arrive in lps: return None
                        if fr.arrive not in body: return [s]
                    elif fr.arrive in ir.loops(fr.fn): return None
                    if ex.arrive(s, fr, ctx, more) != "GO" or more: return None
                elif ex.step(s, fr, more) == "STOP" or more: return None
        except Infeasible: return []
        return None

    hints = {}
    def mk(changed, steps): return header_state(ex, init, changed, steps, ph_ty, hints)
    # ---- 1. which slots change
    changed = set(("phi", r) for r in phis if isint(dict(vals)[r]))
    for rnd in range(14):
        hs = mk(changed, None)
        backs, exits = run_body(hs.state.fork(), True)
        new = set()
        for b in backs:
            b2 = phi_at_back(ex, b, blk)
            d = diff_slots(hs.state, b2, phis)
            for key in d | changed:
                v0, v = slot_get(init, key), slot_get(b2, key)
                if isinstance(v0, Ptr) and v0.oid is None and isinstance(v, (Ptr, OPtr)) and not (isinstance(v, Ptr) and v.oid is None):
                    hl = hints.setdefault(key, [])
                    kk = ("p", v.oid) if isinstance(v, Ptr) else ("o", v.cls)
                    if not any(x[0] == kk for x in hl): hl.append((kk, v))
            new |= d
        if os.environ.get("PVC_DEBUG"): print("loop", where, "round", rnd, "changed", changed, "new", new - changed, "backs", len(backs), "exits", len(exits))
        new -= changed
        if not new: break
        changed |= new
    else:
        raise Unsupported("%s: changed slots do not stabilise" % where)
    # ---- 2. steps: slots that advance by a constant per iteration
    k = fint("k")
    steps = {}
    for (key, part, x0, x) in hs.parts:
        if not isint(x): continue
        ds = set()
        for b in backs:
            pb = phi_at_back(ex, b, blk); y = part_of(slot_get(pb, key), part, pb)
            if y is None or isbool(y): ds.add(None); continue
            d = sub(y, x)
            if isz(d): d = next((c for c in (1, 0, -1) if ex.holds(b, eq(d, c))), None)
            ds.add(d)
        if len(ds) == 1 and None not in ds: steps[(key, part)] = ds.pop()
    # ---- 3. candidates
    hs = mk(changed, (k, steps))
    hs.state.pc.append(k >= 0)
    log = []
    backs, exits = run_body(hs.state.fork(), True, log)
    cands = candidates(ex, hs, init, log, k, steps, backs, blk) + struct_candidates(ex, hs, init, k)
    live = []
    for c in cands:
        try:
            if c.init(ex, init): live.append(c)
        except Unsupported: pass
    if os.environ.get("PVC_DEBUG"):
        print("  steps", steps, "cands", len(cands), "init-ok", [c.name + ":" + str(getattr(c, "t", "")) for c in live])
    # ---- 4. Houdini; of several structural candidates for one slot only the first is tried at a time
    def gkey(c): return c.key if isinstance(c, (RopeFoldCand, ListFoldCand)) else None
    pool, gone = live, set()
    def active(): 
        out, seen = [], set()
        for c in pool:
            if id(c) in gone: continue
            g = gkey(c)
            if g is not None:
                if g in seen: continue
                seen.add(g)
            out.append(c)
        return out
    live = active(); again = False
    for rnd in range(60):
        H = build_header(ex, hs, live, k)
        backs, exits = run_body(H, True)
        drop = set()
        for b in backs:
            b2 = phi_at_back(ex, b, blk)
            for c in live:
                if id(c) in drop: continue
                if not c.preserved(ex, b2, hs): drop.add(id(c))
        if not drop:
            if again or not any(isinstance(c, ListSameCand) for c in live): break
            again = True; log = []; run_body(build_header(ex, hs, live, k), True, log)       # comparisons with what the lists kept now show
            have = {c.t.sexpr() for c in pool if isinstance(c, BoolCand)}
            more = [c for c in candidates(ex, hs, init, log, k, steps, backs, blk) if isinstance(c, BoolCand) and c.t.sexpr() not in have and c.init(ex, init)]
            if not more: break
            live = live + more; pool += more; continue
        if os.environ.get("PVC_DEBUG"): print("  drop", [c.name + ":" + str(getattr(c, "t", "")) for c in live if id(c) in drop])
        sdrop = {id(c) for c in live if id(c) in drop and gkey(c) is not None}
        if sdrop and any(gkey(c) is not None and id(c) not in gone | sdrop and id(c) not in {id(x) for x in live} for c in pool):
            gone |= sdrop; live = active()          # another form of the same invariant: start again with every other candidate
        else: live = [c for c in live if id(c) not in drop]
        ex.houdini_dropped += len(drop)
    else: raise Unsupported("%s: no inductive subset" % where)
    if os.environ.get("PVC_DEBUG"): print("  live", [c.name + ":" + str(getattr(c, "t", "")) for c in live])
    # ---- 5. final pass with obligations
    H = build_header(ex, hs, live, k)
    if not ex.probe: ex.ninv += len(live)
    for c in live: c.prove_init(ex, init, where)
    backs, exits = run_body(H, False)
    for b in backs:
        b2 = phi_at_back(ex, b, blk)
        for c in live: c.prove_step(ex, b2, hs, where)
        extra = {x for x in diff_slots(hs.state, b2, phis) - changed if x[0] in ("phi", "g") or x[1] in init.mem}   # objects made for arbitrary slot values are part of the slot
        if extra: raise Unsupported("%s: slots %s change outside the invariant" % (where, extra))
    if not ex.probe: ex.obs.append(Ob("%s/loop-frame@%s" % (ex.unit, where), True, 0, "syntactic"))
    for e in exits: work.append(e)
    return "DONE"

def phi_at_back(ex, b, blk):
    """state at the back edge with the header's phis evaluated"""
    if getattr(b, "_phi", None) is not None: return b._phi
    t = b.fork(); f = t.frames[-1]
    vals = []
    for ph in blk.phis:
        for bn, v in ph.a:
            if bn == f.blk.name: vals.append((ph.res, ex.val(t, f, v, ph.ty))); break
    for r, v in vals: f.env[r] = v
    b._phi = t; t._phi = t
    return t

def header_state(ex, init, changed, steps, ph_ty, hints):
    """init with the changed slots arbitrary. parts: (slot, part, init term, header symbol)"""
    hs = HS(); hs.state = init.fork(); hs.parts = []; hs.structs = []; hs.init = init
    st = hs.state
    kk, stp = steps if steps else (None, {})
    def sym(key, part, x0, name, rng=None, lo=None):
        if kk is not None and (key, part) in stp:
            d = stp[(key, part)]; x = add(x0, mul(d, kk)) if d else x0
            hs.parts.append((key, part, x0, x))
            if lo is not None: st.pc.append(Z(x) >= lo)        # a size
            return x
        x = fbool(name) if isbool(x0) else fint(name)
        if rng and z3.is_int(x): st.pc.append(And(x >= -(1 << (rng - 1)), x < (1 << (rng - 1))))
        if lo is not None: st.pc.append(x >= lo)
        hs.parts.append((key, part, x0, x)); return x
    for key in sorted(changed, key=repr):
        v = slot_get(init, key)
        if key[0] == "phi":
            rng = ph_ty[key[1]].n if ph_ty[key[1]].k == "int" else None
            st.frames[-1].env[key[1]] = havoc_value(ex, hs, key, v, sym, rng, hints)
        elif key[0] == "cell":
            o = st.mem[key[1]]; c = o.cells.get(key[2])
            if c is None: raise Unsupported("loop: cell %s of %s first written inside the loop" % (key[2], o.name))
            nv = havoc_value(ex, hs, key, v, sym, c[0] * 8 if isint(c[1]) else None, hints)
            o = st.w(key[1]); o.cells[key[2]] = (c[0], nv)
        elif key[0] == "bytes":
            o = st.w(key[1])
            n = o.size if o.size is not None else v.base.len()
            o.content = Content(Rope([Sl(UFSrc(ffun("buf")), 0, n)])); hs.structs.append(key)
        elif key[0] == "elems":
            o = st.w(key[1]); hs.structs.append(key)
            o.n = sym(key, "n", v[0], "n", None, 0)
            o.base = arb_elem(o.cls); o.log = (); o.apps = None
        elif key[0] == "g":
            if hidden_g(key[1]): continue
            st.g[key[1]] = havoc_value(ex, hs, key, v, sym, None, hints)
        elif key[0] == "freed": st.w(key[1]).freed = True
        elif key[0] == "osize": st.w(key[1]).size = sym(key, "v", v, "size")
        elif key[0] == "oshared": st.w(key[1]).shared = "maybe"
    return hs

def arb_elem(cls):
    def base(ex, st, idx, off, t, size):
        if cls in ("QByteArray", "Pillow::HttpHeader", "QPair<QByteArray, QByteArray>"):
            i = fint("arb"); st.pc.append(blen(i) >= 0); return ex.pure_atom(i)
        if cls in ("QString", "QPair<QString, QString>"): return Tm("val", fint("arb"))
        if cls and cls.endswith("*"):
            i = fint("arb"); st.pc.append(i >= 0); return OPtr(i, cls[:-1].strip())
        if t.k == "int" and t.n > 1:
            i = fint("arb"); st.pc.append(And(i >= -(1 << (t.n - 1)), i < (1 << (t.n - 1)))); return i
        raise Unsupported("read of an arbitrary element inside the loop")
    return base

def havoc_value(ex, hs, key, v, sym, rng, hints):
    st = hs.state
    nm = str(key[1]) + "_"
    if isint(v) or isbool(v): return sym(key, "v", v, "h" + nm, rng)
    if isinstance(v, Ptr) and v.oid is not None:
        o = st.mem[v.oid]
        if o.kind == "elems": return Ptr(v.oid, v.off, sym(key, "idx", v.idx, "ix"), v.null)
        if o.kind == "bytes": return Ptr(v.oid, sym(key, "off", v.off, "po"), v.idx, v.null)
        return v
    if isinstance(v, Ptr) and v.oid is None:
        hl = hints.get(key, [])
        if len(hl) == 1:
            tgt = hl[0][1]
            if isinstance(tgt, Ptr):
                x = fint("lastix"); nl = fbool("null")
                hs.parts.append((key, "idx", 0, x)); hs.parts.append((key, "null", True, nl))
                return Ptr(tgt.oid, tgt.off, x, nl)
            x = fint("optr"); st.pc.append(x >= 0); hs.parts.append((key, "id", 0, x)); return OPtr(x, tgt.cls)
        if not hl: return v
        raise Unsupported("loop: pointer slot with several targets")
    if isinstance(v, OPtr): return OPtr(sym(key, "id", v.id, "op", None, 0), v.cls, v.off)
    if hasattr(v, "havoc"):
        return v.havoc(ex, hs, key, sym)
    if v is UNDEF: return UNDEF
    if isinstance(v, Tm): return Tm("val", fint("hval"))
    raise Unsupported("loop: cannot make slot %s = %r arbitrary" % (key, v))

# ------------------------------------------------------------------ candidates
class BoolCand:
    """term over header symbols"""
    def __init__(s, term, hs, k, name): s.t, s.hs, s.k, s.name = term, hs, k, name
    def subst(s, st, kterm):
        pairs = []
        for (key, part, x0, x) in s.hs.parts:
            if not isz(x) or not (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED): continue
            y = part_of(slot_get(st, key), part, st)
            if y is None:
                if part == "idx": y = 0
                else: continue
            pairs.append((x, Z(y)))
        pairs.append((s.k, Z(kterm)))
        return simp(z3.substitute(s.t, *pairs)) if isz(s.t) else s.t
    def init(s, ex, init): return ex.holds(init, s.subst(init, 0))
    def assume(s, ex, st): ex.assume(st, s.t)
    def preserved(s, ex, b, hs): return ex.holds(b, s.subst(b, s.k + 1))
    def prove_init(s, ex, init, where): ex.prove(init.fork(), s.subst(init, 0), "loop-init[%s]" % s.name, str(s.t), where)
    def prove_step(s, ex, b, hs, where): ex.prove(b, s.subst(b, s.k + 1), "loop-step[%s]" % s.name, str(s.t), where)
class StepCand:
    """slot = x0 + c*k: defining equation of the ghost counter"""
    def __init__(s, key, part, x, d, k): s.key, s.part, s.x, s.d, s.k, s.name = key, part, x, d, k, "step"
    def init(s, ex, init): return True
    def assume(s, ex, st): pass
    def cond(s, b):
        y = part_of(slot_get(b, s.key), s.part, b)
        return eq(y, add(s.x, s.d)) if y is not None else False
    def preserved(s, ex, b, hs):
        if not ex.holds(b, s.cond(b)): raise Unsupported("loop step of %s changed during refinement" % (s.key,))
        return True
    def prove_init(s, ex, init, where): pass
    def prove_step(s, ex, b, hs, where): ex.prove(b, s.cond(b), "loop-step[%s]" % s.name, "", where)

class StructCand:
    """base class: structural invariant of one slot; subclasses give check(ex, st, kterm, init) -> bool and assume"""
    def at(s, st, kterm): return BoolCand(s.idx, s.hs, s.k, "").subst(st, kterm) if isz(s.idx) else s.idx
    def init(s, ex, init): return s.check_init(ex, init)
    def preserved(s, ex, b, hs): return s.check_step(ex, b)
    def prove_init(s, ex, init, where):
        ok = s.check_init(ex, init)
        if not ex.probe: ex.obs.append(Ob("%s/loop-init[%s]@%s" % (ex.unit, s.name, where), ok, 0, "structural"))
    def prove_step(s, ex, b, hs, where):
        ok = s.check_step(ex, b)
        if not ex.probe: ex.obs.append(Ob("%s/loop-step[%s]@%s" % (ex.unit, s.name, where), ok, 0, "structural"))

class RopeFoldCand(StructCand):
    """byte string slot = initial bytes ++ fold over 0..idx"""
    def __init__(s, ex, key, fold, hs, k, idx, init):
        s.key, s.fold, s.hs, s.k, s.idx, s.name = key, fold, hs, k, idx, "fold " + fold.name
        s.base0 = ex.slot_rope(init, key); s.idx0 = s.first_piece(ex, init)
        if s.idx0: s.base0 = Rope()
    def check_init(s, ex, init):
        if ex.holds(init, eq(s.at(init, 0), 0)): return True
        if not s.idx0: return False
        return ex.holds(init, eq(s.at(init, 0), 1))      # the first piece was put in front of the loop
    def first_piece(s, ex, init):
        """an initial string that is the first piece already"""
        try:
            if not isz(s.idx) or not ex.holds(init, eq(s.at(init, 0), 1)): return False
            p = s.fold.piece(ex, init, 0); return p is not None and ex.rope_eq(init.fork(), s.base0, p)
        except Unsupported: return False
    def assume(s, ex, st):
        s.fold.facts(ex, st, s.idx)
        ex.set_slot_rope(st, s.key, s.base0 + Rope([FoldP(s.fold, s.idx)]), s.hs)
    def check_step(s, ex, b):
        got = ex.slot_rope(b, s.key)
        hi = s.at(b, s.k + 1)
        want = s.base0 + Rope([FoldP(s.fold, s.idx)])
        if ex.holds(b, eq(hi, add(s.idx, 1))):
            p = s.fold.piece(ex, b, s.idx)
            if p is None: return False
            want = want + p
        elif not ex.holds(b, eq(hi, s.idx)): return False
        return ex.rope_eq(b, got, want)

class ListFoldCand(StructCand):
    def __init__(s, ex, key, fold, hs, k, idx, init):
        s.key, s.fold, s.hs, s.k, s.idx, s.name = key, fold, hs, k, idx, "listfold " + fold.name
        s.base0 = ex.slot_list(init, key)
    def check_init(s, ex, init): return s.base0 is not None and ex.holds(init, eq(s.at(init, 0), 0))
    def assume(s, ex, st):
        s.fold.facts(ex, st, s.idx)
        ex.set_slot_list(st, s.key, s.base0 + (("fold", s.fold, s.idx),), s.hs)
    def check_step(s, ex, b):
        got = ex.slot_list(b, s.key)
        if got is None: return False
        hi = s.at(b, s.k + 1)
        want = s.base0 + (("fold", s.fold, s.idx),)
        if ex.holds(b, eq(hi, add(s.idx, 1))):
            p = s.fold.piece(ex, b, s.idx)
            if p is None: return False
            want = want + tuple(p)
        elif not ex.holds(b, eq(hi, s.idx)): return False
        return ex.list_eq(b, got, want)

class ListSameCand(ListFoldCand):
    """the list is copied (detached) but its elements stay"""
    def __init__(s, ex, key, hs, init):
        s.key, s.hs, s.name = key, hs, "list kept"; s.base0 = ex.slot_list(init, key)
    def check_init(s, ex, init): return s.base0 is not None
    def assume(s, ex, st): ex.set_slot_list(st, s.key, s.base0, s.hs)
    def check_step(s, ex, b):
        got = ex.slot_list(b, s.key); return got is not None and ex.list_eq(b, got, s.base0)

class UniqCand:
    """the storage of a byte-array slot stays unshared"""
    def __init__(s, key): s.key, s.name = key, "unshared"
    def init(s, ex, init): return ex.slot_unshared(init, s.key)
    def assume(s, ex, st): ex.set_slot_unshared(st, s.key)
    def preserved(s, ex, b, hs): return ex.slot_unshared(b, s.key)
    def prove_init(s, ex, init, where): pass
    def prove_step(s, ex, b, hs, where):
        if not ex.probe: ex.obs.append(Ob("%s/loop-step[unshared]@%s" % (ex.unit, where), ex.slot_unshared(b, s.key), 0, "structural"))

class FrameCand(StructCand):
    """bytes of a buffer outside the predicate D keep their initial value"""
    def __init__(s, key, D, init, name): s.key, s.D, s.name = key, D, "bytes unchanged outside " + name; s.c0 = slot_get(init, key)
    def check_init(s, ex, init): return True
    def assume(s, ex, st):
        o = st.w(s.key[1]); g = ffun("buf"); c0, D = s.c0, s.D
        def get(i):
            d = D(i)
            return ite(d, g(Z(i)), c0.get(i))
        o.content = Content(Rope([Sl(FnSrc(get), 0, c0.base.len())]))
    def check_step(s, ex, b):
        c = slot_get(b, s.key); i = fint("pt")
        if not ex.holds(b, eq(c.base.len(), s.c0.base.len())): return False
        return ex.holds(b, or_(s.D(i), eq(c.get(i), s.c0.get(i))), timeout=10000)

def candidates(ex, hs, init, log, k, steps, backs, blk):
    out = []; seen = set()
    def addc(t, name):
        if isinstance(t, bool) or t is None: return
        t = simp(t)
        if not isz(t): return
        key = t.sexpr()
        if key in seen: return
        seen.add(key); out.append(BoolCand(t, hs, k, name))
    parts = {(key, part): x for key, part, x0, x in hs.parts}
    for (key, part), d in steps.items():
        if (key, part) in parts: out.append(StepCand(key, part, parts[(key, part)], d, k))
    syms = [x for _, _, _, x in hs.parts if isz(x)] + [k]
    names = set(str(v) for x in syms for v in z3_vars(x))
    for key, part, x0, x in hs.parts:
        if isbool(x):
            if isz(x) and isinstance(x0, bool): addc(x == BoolVal(x0), "const")
            continue
        if not isz(x): continue
        addc(Z(x) >= Z(x0), "ge-init"); addc(Z(x) <= Z(x0), "le-init")
    for a, b in log[:400]:
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.oid == b.oid and a.oid is not None:
            a, b = (a.idx, b.idx) if (isz(a.idx) or isz(b.idx)) else (a.off, b.off)
        if not (isint(a) and isint(b)): continue
        vs = [str(v) for t in (a, b) if isz(t) for v in z3_vars(t)]
        if not any(v in names for v in vs): continue
        addc(Z(a) <= Z(b), "cmp-le"); addc(Z(a) >= Z(b), "cmp-ge"); addc(Z(a) <= Z(b) + 1, "cmp-le1")
    nparts = [p for p in hs.parts if isint(p[3]) and isz(p[3])]
    if len(nparts) <= 8:
        for i in range(len(nparts)):
            for j in range(len(nparts)):
                if i == j: continue
                _, _, x0, x = nparts[i]; _, _, y0, y = nparts[j]
                addc(Z(x) - Z(x0) <= Z(y) - Z(y0), "rel-le")
                if i < j: addc(Z(x) - Z(x0) == Z(y) - Z(y0), "rel-eq"); addc((Z(x) - Z(x0)) + (Z(y) - Z(y0)) == 0, "rel-anti")
    for fo in ex.foldlist:
        for t, nm in fo.cands(ex, hs, k): addc(t, nm)
    for fn in ex.loopcands:
        for t, nm in fn(ex, hs, k, init): addc(t, nm)
    return out

def z3_vars(t):
    acc = []; seen = set(); todo = [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.append(x)
        todo += x.children()
    return acc

def index_terms(hs, k):
    ds = []
    for x in [k] + [x for _, p, _, x in hs.parts if isint(x) and isz(x)]:
        if not any(x.eq(y) for y in ds): ds.append(x)
    return ds

def struct_candidates(ex, hs, init, k):
    out = []
    ds = index_terms(hs, k)
    for key in hs.structs:
        if ex.is_rope_slot(init, key):
            for fo in ex.foldlist:
                if fo.kind == "bytes":
                    for x in ds: out.append(RopeFoldCand(ex, key, fo, hs, k, x, init))
            if ex.slot_unshared(init, key): out.append(UniqCand(key))
        elif ex.is_list_slot(init, key):
            for fo in ex.foldlist:
                if fo.kind == "list":
                    for x in ds: out.append(ListFoldCand(ex, key, fo, hs, k, x, init))
            out.append(ListSameCand(ex, key, hs, init))
        if key[0] == "bytes":
            for fn in ex.framespecs:
                for D, nm in fn(ex, hs, init, key): out.append(FrameCand(key, D, init, nm))
    for fn in ex.structcands: out += fn(ex, hs, k, init)
    return out

def build_header(ex, hs, live, k):
    H = hs.state.fork()
    for c in live: c.assume(ex, H)
    for fo in ex.foldlist: fo.unfold(ex, H, index_terms(hs, k))
    return H
