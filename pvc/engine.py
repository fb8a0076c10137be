"""Path-wise symbolic execution of LLVM IR / verification-condition generation."""
import z3, time, re, os, sys
from . import ir
from .terms import *

class Unsupported(Exception): pass
class Infeasible(Exception): pass

# ---------------------------------------------------------------- pointers and objects
class Ptr:
    __slots__ = ("oid", "idx", "off", "null")
    def __init__(s, oid, off=0, idx=0, null=False): s.oid, s.off, s.idx, s.null = oid, off, idx, null
    def key(s): return ("ptr", s.oid, vkey(s.idx), vkey(s.off), vkey(s.null))
    def __repr__(s): return "Ptr(%s,%s,%s%s)" % (s.oid, s.idx, s.off, "" if s.null is False else ",null=%s" % s.null)
NULL = Ptr(None, 0, 0, True)
class OPtr:
    """pointer to an opaque object, identified by an integer term (0 = null)"""
    __slots__ = ("id", "cls", "off")
    def __init__(s, id, cls=None, off=0): s.id, s.cls, s.off = id, cls, off
    def key(s): return ("optr", vkey(s.id))
    def __repr__(s): return "OPtr(%s:%s)" % (s.id, s.cls)
class FPtr:
    __slots__ = ("name", "mod")
    def __init__(s, name, mod=None): s.name, s.mod = name, mod
    def key(s): return ("fptr", s.name)
    def __repr__(s): return "FPtr(%s)" % s.name
class VTab:      # vtable pointer of an opaque object
    __slots__ = ("o", "off")
    def __init__(s, o, off=0): s.o, s.off = o, off
class VFn:       # virtual function of an opaque object
    __slots__ = ("o", "slot")
    def __init__(s, o, slot): s.o, s.slot = o, slot
class Agg:
    __slots__ = ("v",)
    def __init__(s, v): s.v = list(v)
class Undef: 
    def __repr__(s): return "undef"
UNDEF = Undef()

class Content:
    __slots__ = ("base", "over")
    def __init__(s, base, over=()): s.base, s.over = base, tuple(over)
    def get(s, i):
        r = s.base.get(i)
        for off, n, rp in s.over:
            c = and_(le(off, i), lt(i, add(off, n)))
            if c is False: continue
            r = ite(c, rp.get(sub(i, off)), r)
        return r

class Obj:
    __slots__ = ("kind", "name", "size", "cells", "zero", "lazy", "content", "stride", "n", "base", "log", "freed", "shared", "const", "data", "cls", "vcls", "apps")
    def __init__(s, kind, name, size=None):
        s.kind, s.name, s.size = kind, name, size
        s.cells = {}; s.zero = (); s.lazy = None; s.content = None; s.stride = None; s.n = None; s.base = None
        s.log = (); s.freed = False; s.shared = False; s.const = False; s.data = None; s.cls = None; s.vcls = None; s.apps = None
    def copy(s):
        o = Obj.__new__(Obj)
        for k in Obj.__slots__: setattr(o, k, getattr(s, k))
        o.cells = dict(s.cells)
        return o

class Frame:
    __slots__ = ("fn", "blk", "prev", "i", "env", "call", "arrive", "unroll", "allocas", "onret")
    def __init__(s, fn):
        s.fn, s.blk, s.prev, s.i, s.env = fn, fn.entry, None, 0, {}
        s.call = None; s.arrive = None; s.unroll = {}; s.allocas = (); s.onret = None
    def copy(s):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.prev, f.i, f.env = s.fn, s.blk, s.prev, s.i, dict(s.env)
        f.call, f.arrive, f.unroll, f.allocas, f.onret = s.call, s.arrive, dict(s.unroll), s.allocas, s.onret
        return f

class State:
    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = []; s.trace = []; s.g = {}; s.ret = None; s.done = None; s.note = []
    def fork(s):
        t = State.__new__(State)
        t.frames = [f.copy() for f in s.frames]; t.mem = dict(s.mem); t.pc = list(s.pc); t.trace = list(s.trace)
        t.g = dict(s.g); t.ret = s.ret; t.done = s.done; t.note = list(s.note)
        return t
    def w(s, oid):
        o = s.mem[oid].copy(); s.mem[oid] = o; return o

class Ob:
    __slots__ = ("name", "ok", "t", "how", "model", "detail", "path")
    def __init__(s, name, ok, t, how, model=None, detail="", path=""): s.name, s.ok, s.t, s.how, s.model, s.detail, s.path = name, ok, t, how, model, detail, path

class LoopCtx:
    __slots__ = ("depth", "header", "body", "fn")

class Ex:
    def __init__(s, modules, unit="unit"):
        s.modules = modules; s.unit = unit
        s.contracts = {}          # demangled name -> handler
        s.patterns = []           # (compiled regex, handler)
        s.obs = []                # obligations
        s.solver = z3.SolverFor("ALL") if False else z3.Solver()
        s.solver.set("timeout", 20000)
        s.stack = []; s.probe = 0; s.nsolver = 0; s.tsolver = 0.0
        s.oidc = itertools.count(1); s.gobj = {}; s.loopcands = []; s.unroll_rx = None; s.unroll_max = 80
        s.fn_under = set(); s.used_contracts = {}; s.inlined = {}; s.qr = {}
        s.max_paths = 20000; s.npaths = 0; s.max_obs_fail = 40
        s.foldlist = []           # Fold objects usable as invariants
        s.deadline = None; s.tms = {}; s.tmrev = {}
        s.loop_hook = None; s.vmethods = {}
        s.funcs = {}; s.houdini_dropped = 0; s.ninv = 0; s.ncover = 0
        for m in modules:
            for f in m.funcs.values():
                if f.defined and (f.name not in s.funcs or not s.funcs[f.name].defined): s.funcs[f.name] = f
                s.funcs.setdefault(f.name, f)
        s.init_globals = {}
        s.framespecs = []; s.structcands = []

    # ---------- solver
    def sync(s, pc):
        k = 0; st = s.stack; n = min(len(st), len(pc))
        while k < n and st[k] is pc[k]: k += 1
        if len(st) > k:
            s.solver.pop(len(st) - k); del st[k:]
        for c in pc[k:]:
            s.solver.push(); s.solver.add(c); st.append(c)
    def check(s, st, *extra, timeout=None):
        ex = []
        for e in extra:
            if isinstance(e, bool):
                if not e: return z3.unsat
            else: ex.append(e)
        t0 = time.time()
        if s.deadline and t0 > s.deadline: raise Unsupported("time budget of the unit used up")
        s.sync(st.pc)
        s.solver.set("timeout", timeout or 20000)
        s.solver.push()
        for e in ex: s.solver.add(e)
        r = s.solver.check()
        s.last_model = s.solver.model() if r == z3.sat else None
        s.solver.pop()
        s.nsolver += 1; s.tsolver += time.time() - t0
        return r
    def assume(s, st, c):
        if isinstance(c, bool):
            if not c: raise Infeasible()
            return
        st.pc.append(c)
    def feasible(s, st, c=True):
        if c is False: return False
        return s.check(st, c, timeout=4000) != z3.unsat
    def holds(s, st, c, timeout=4000):
        """is c implied by the path condition (silent query)"""
        if isinstance(c, bool):
            return c or (s.check(st, timeout=timeout) == z3.unsat and False)
        c2 = simp(c)
        if isinstance(c2, bool): return c2
        return s.check(st, Not(c2), timeout=timeout) == z3.unsat
    def prove(s, st, c, kind, detail="", where=None):
        if s.probe:
            s.assume(st, c) if not isinstance(c, bool) else None
            if c is False: raise Infeasible()
            return True
        name = "%s/%s@%s" % (s.unit, kind, where or s.where(st))
        t0 = time.time()
        if not isinstance(c, bool): c = simp(c)
        if c is True:
            s.obs.append(Ob(name, True, 0, "trivial")); return True
        r = s.check(st, B(not_(c)) if not isinstance(c, bool) else True)
        how = "z3"
        if r == z3.unknown:
            r, how = s.retry(st, c)
        dt = time.time() - t0
        if r == z3.unsat:
            s.obs.append(Ob(name, True, dt, how)); return True
        m = None
        if r == z3.sat and s.last_model is not None:
            m = s.model_text(s.last_model)
        s.obs.append(Ob(name, False, dt, "%s:%s" % (how, r), m, detail, s.pathdesc(st)))
        nf = sum(1 for o in s.obs if not o.ok)
        if nf >= s.max_obs_fail: raise Unsupported("too many failed obligations")
        if where is not None and c is False: return False
        s.assume(st, c)
        return False
    def retry(s, st, c):
        """second attempt in a fresh non-incremental solver, then cvc5"""
        sol = z3.Solver(); sol.set("timeout", 30000)
        for x in st.pc: sol.add(x)
        sol.add(B(not_(c)))
        r = sol.check()
        if r != z3.unknown:
            s.last_model = sol.model() if r == z3.sat else None
            return r, "z3-fresh"
        return r, "z3-fresh"
    def model_text(s, m):
        try:
            return "; ".join("%s=%s" % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:3000]
        except Exception as e: return str(e)
    def pathdesc(s, st):
        return "trace: %s | call stack: %s" % (" ".join(map(str, st.trace))[:1500], " > ".join(f.fn.dem.split("(")[0] for f in st.frames))
    def where(s, st):
        for f in reversed(st.frames):
            ins = None
            if f.i < len(f.blk.insts): ins = f.blk.insts[f.i]
            if ins is not None and ins.dbg:
                l = ir.loc(f.fn.module, ins.dbg)
                if "/usr/" not in l: return "%s(%s)" % (l.replace("/repo/", ""), f.fn.dem.split("(")[0])
        return st.frames[-1].fn.dem.split("(")[0].split(" ")[-1] if st.frames else "?"

    # ---------- memory
    def new(s, st, obj):
        oid = next(s.oidc); st.mem[oid] = obj; return oid
    def new_cells(s, st, name, size=None, lazy=None):
        o = Obj("cells", name, size); o.lazy = lazy; return s.new(st, o)
    def new_bytes(s, st, name, rope, size=None, const=False):
        o = Obj("bytes", name, size if size is not None else rope.len()); o.content = Content(rope); o.const = const
        return s.new(st, o)
    def glob(s, st, name, mod):
        while "alias:" + name in mod.md and name not in mod.globals: name = mod.md["alias:" + name]
        g = mod.globals.get(name)
        key = (name, id(mod)) if (name.startswith(".str") or g is None or not g.external) else name
        if name in mod.funcs and g is None: return FPtr(name, mod)
        if g is None: raise Unsupported("global " + name)
        if key in s.gobj and s.gobj[key] in st.mem: return Ptr(s.gobj[key])
        if key in s.gobj: oid = s.gobj[key]
        else: oid = s.gobj[key] = next(s.oidc)
        o = s.make_global(st, g, mod)
        st.mem[oid] = o
        if not g.external and g.init is not None:
            s.init_value(st, o, 0, g.ty, g.init, mod)
        init = s.init_globals.get(key)
        if init: o.cells.update(init)
        return Ptr(oid)
    def make_global(s, st, g, mod):
        t = ir.resolve(mod, g.ty)
        size = ir.sizeof(mod, t)
        if t.k == "array" and t.el.k == "int" and t.el.n == 8:
            o = Obj("bytes", g.name, size); o.content = Content(rlit(bytes(size)))
        else:
            o = Obj("cells", g.name, size)
        o.const = g.const
        if g.external: o.lazy = "external"
        return o
    def init_value(s, st, o, off, ty, v, mod):
        ty = ir.resolve(mod, ty)
        if v[0] == "zero":
            if o.kind == "bytes": return
            o.zero = o.zero + ((off, off + ir.sizeof(mod, ty)),); return
        if v[0] == "str":
            if o.kind == "bytes": o.content = Content(rlit(v[1]))
            else:
                oo = ir.sizeof(mod, ty)
                for k, ch in enumerate(v[1]): o.cells[off + k] = (1, sb(ch))
            return
        if v[0] == "agg":
            if ty.k == "struct":
                for (ety, ev), eo in zip(v[1], ir.offsets(mod, ty)): s.init_value(st, o, off + eo, ety, ev, mod)
            else:
                es = ir.sizeof(mod, ty.el)
                if o.kind == "bytes":
                    o.content = Content(rlit(bytes([(ev[1] & 255) if ev[0] == "c" else 0 for _, ev in v[1]]))); return
                for k, (ety, ev) in enumerate(v[1]): s.init_value(st, o, off + k * es, ety, ev, mod)
            return
        if v[0] == "undef": return
        o.cells[off] = (ir.sizeof(mod, ty), s.const(st, v, ty, mod))
    def const(s, st, v, ty, mod):
        k = v[0]
        if k == "c":
            if ty.k == "int" and ty.n == 1: return bool(v[1])
            if ty.k == "int": return wrap(ty.n, v[1])
            return v[1]
        if k == "null": return NULL
        if k == "g": return s.glob(st, v[1], mod)
        if k == "undef": return UNDEF
        if k == "zero":
            t = ir.resolve(mod, ty)
            if t.k == "int": return False if t.n == 1 else 0
            if t.k == "ptr": return NULL
            return UNDEF
        if k == "f": return Tm("flt", v[1])
        if k == "gep":
            ops = [s.const(st, o, t, mod) for t, o in v[2]]
            return s.gep(st, v[1], ops, mod)
        if k == "cast":
            x = s.const(st, v[3], v[2], mod)
            return s.cast(st, v[1], v[2], x, v[4])
        if k == "bin":
            return s.binop(st, v[1], v[2], s.const(st, v[3], v[2], mod), s.const(st, v[4], v[2], mod), ())
        if k == "agg":
            return Agg([s.const(st, ev, ety, mod) for ety, ev in v[1]])
        raise Unsupported("const %r" % (v,))
    def val(s, st, f, v, ty):
        if v[0] == "l":
            try: return f.env[v[1]]
            except KeyError: raise Unsupported("undefined local %%%s in %s" % (v[1], f.fn.dem))
        return s.const(st, v, ty, f.fn.module)

    def nonnull(s, st, p, kind="null-deref"):
        if isinstance(p, OPtr):
            s.prove(st, not_(eq(p.id, 0)), kind, "pointer %r" % p); return p
        if isinstance(p, Ptr):
            if p.oid is None:
                s.prove(st, False, kind, "null pointer"); raise Infeasible()
            if p.null is not False:
                s.prove(st, not_(p.null), kind, "pointer may be null")
                return Ptr(p.oid, p.off, p.idx)
            return p
        if p is UNDEF:
            s.prove(st, False, kind, "undefined pointer"); raise Infeasible()
        raise Unsupported("deref of %r" % (p,))

    def fresh_of(s, st, ty, name, mod=None):
        ty = ir.resolve(mod, ty) if ty.k == "named" else ty
        if ty.k == "int":
            if ty.n == 1: return fbool(name)
            v = fint(name); st.pc.append(And(v >= -(1 << (ty.n - 1)), v < (1 << (ty.n - 1)))); return v
        if ty.k == "ptr":
            v = fint(name); st.pc.append(v >= 0); return OPtr(v)
        if ty.k == "double": return Tm("flt", fresh_name(name))
        raise Unsupported("fresh %r" % ty)

    def load(s, st, p, ty, mod):
        t = ir.resolve(mod, ty); size = ir.sizeof(mod, t)
        if isinstance(p, VTab):
            return VFn(p.o, p.off // 8)
        p = s.nonnull(st, p)
        if isinstance(p, OPtr):
            if t.k == "ptr" and p.off == 0: return VTab(p)
            h = s.opaque_field(st, p, t, size)
            if h is not None: return h
            raise Unsupported("load from opaque object %r+%s" % (p, p.off))
        o = st.mem[p.oid]
        if o.freed: s.prove(st, False, "use-after-free", "object %s" % o.name)
        if o.kind == "bytes":
            if t.k != "int" or t.n % 8: raise Unsupported("load %r from bytes %s" % (t, o.name))
            s.prove(st, and_(le(0, p.off), le(add(p.off, size), o.size)), "bounds-read", "object %s off %s size %s" % (o.name, p.off, o.size))
            if size == 1:
                v = simp(o.content.get(p.off))
                if isz(v): st.pc.append(And(v >= -128, v <= 127))
                return v
            bs = [o.content.get(add(p.off, k)) for k in range(size)]
            r = 0
            for k in range(size): r = add(r, mul(uns(8, bs[k]), 1 << (8 * k)))
            return wrap(t.n, r)
        if o.kind == "elems":
            return s.elems_load(st, o, p, t, size)
        if o.kind == "qbd": return o.data.load(s, st, p, t, size)
        off = p.off
        if o.vcls and t.k == "ptr" and not isz(off) and off == 0: return VTab(Ptr(p.oid))      # object of an external class
        if isz(off):
            return s.sym_cell_load(st, o, p, t, size, mod)
        c = o.cells.get(off)
        if c is not None:
            if c[0] == size: return s.reinterpret(st, c[1], t)
            if not isz(c[1]) and isinstance(c[1], int) and not isinstance(c[1], bool) and size < c[0]:
                return wrap(size * 8, c[1])
            if isz(c[1]) and z3.is_int(c[1]) and size < c[0] and t.k == "int":
                return wrap(size * 8, c[1])
        if c is None or c[0] != size:
            if t.k == "int" and t.n % 8 == 0:      # assemble from smaller / extract from larger cells
                v = s.assemble(o, off, size)
                if v is not None: return wrap(t.n, v)
        if any(a <= off and off + size <= b for a, b in o.zero) and not any(off < k + cs and k < off + size for k, (cs, _) in o.cells.items()):
            return 0 if t.k == "int" and t.n > 1 else (False if t.k == "int" else NULL)
        if o.lazy is not None:
            if o.lazy == "external": raise Unsupported("load from external global %s+%s" % (o.name, off))
            if o.size is not None: s.prove(st, and_(le(0, off), le(off + size, o.size)), "bounds-read", "object %s" % o.name)
            v = o.lazy(s, st, p.oid, off, t, size)
            if v is not None:
                o = st.w(p.oid); o.cells[off] = (size, v); return v
        if o.size is not None: s.prove(st, and_(le(0, off), le(off + size, o.size)), "bounds-read", "object %s" % o.name)
        s.prove(st, False, "uninitialised-read", "object %s offset %s size %s" % (o.name, off, size))
        raise Infeasible()
    def assemble(s, o, off, size):
        """integer value of bytes [off,off+size) from cells (little endian), or None"""
        r = 0; k = off
        for q, (cs, v) in o.cells.items():
            if q < off and q + cs >= off + size and isint(v):
                u = v % (1 << (8 * cs))
                return (u / (1 << (8 * (off - q)))) % (1 << (8 * size)) if isz(u) else (u >> (8 * (off - q))) & ((1 << 8 * size) - 1)
        while k < off + size:
            c = o.cells.get(k)
            if c is None:
                if any(a <= k < b for a, b in o.zero) and not any(q <= k < q + cs for q, (cs, _) in o.cells.items()):
                    k += 1; continue
                return None
            cs, v = c
            if k + cs > off + size or not isint(v): return None
            r = add(r, mul(uns(8 * cs, v), 1 << (8 * (k - off)))); k += cs
        return r
    def reinterpret(s, st, v, t):
        if t.k == "int" and t.n == 8 and isbool(v): return ite(v, 1, 0)
        return v
    def opaque_field(s, st, p, t, size): return None
    def sym_cell_load(s, st, o, p, t, size, mod):
        cands = sorted(k for k, (cs, _) in o.cells.items() if cs == size)
        s.prove(st, or_(*[eq(p.off, k) for k in cands]), "bounds-read", "symbolic index into %s" % o.name)
        cands = [k for k in cands if s.feasible(st, eq(p.off, k))] if len(cands) <= 80 or t.k != "int" else cands
        if not cands: raise Infeasible()
        if t.k == "int" and all(isint(o.cells[k][1]) for k in cands):
            r = o.cells[cands[-1]][1]
            for k in reversed(cands[:-1]): r = ite(eq(p.off, k), o.cells[k][1], r)
            return r
        vs = [o.cells[k][1] for k in cands]
        if all(isinstance(v, Ptr) and v.oid is not None and not isz(v.off) and st.mem[v.oid].kind == "bytes" and st.mem[v.oid].const and st.mem[v.oid].content.base.lit() is not None for v in vs):
            # one of several string literals, chosen by the index
            ls = [st.mem[v.oid].content.base.lit()[v.off:].split(b"\0")[0] for v in vs]
            n = len(ls[-1])
            for k, l in reversed(list(zip(cands, ls))[:-1]): n = ite(eq(p.off, k), len(l), n)
            def get(i, off=p.off):
                r = LitSrc(ls[-1] + b"\0").get(i)
                for k, l in reversed(list(zip(cands, ls))[:-1]): r = ite(eq(off, k), LitSrc(l + b"\0").get(i), r)
                return r
            q = Obj("bytes", "literal table", add(n, 1)); rope = Rope([Sl(FnSrc(get, ("littab", o.name, vkey(p.off))), 0, add(n, 1))]); q.content = Content(rope); q.const = True
            q.data = {"cstr": lambda ex, st, pp: Rope([Sl(rope.p[0].src, 0, n)])}
            return Ptr(s.new(st, q))
        return ("FORK", [(eq(p.off, k), o.cells[k][1]) for k in cands])
    def elems_load(s, st, o, p, t, size):
        s.prove(st, and_(le(0, p.idx), lt(p.idx, o.n)), "bounds-read", "element %s of %s (count %s)" % (p.idx, o.name, o.n))
        return s.elem_value(st, o, p.idx, p.off, t, size)
    def elem_value(s, st, o, idx, off, t, size):
        for (wi, wo, ws, wv) in reversed(o.log):
            if wi is None:                      # block layer: closure over all indices
                return wv(s, st, idx, off, t, size)
            if wo != off: continue
            c = eq(wi, idx)
            if c is True or (c is not False and s.holds(st, c)): return wv
            if c is False or s.holds(st, not_(c)): continue
            a, b = wv, s.elem_value2(st, o, idx, off, t, size, wi)
            if isint(a) and isint(b) or isbool(a) and isbool(b): return ite(c, a, b)
            return ("FORK", [(c, a), (not_(c), b)])
        if o.apps is not None:
            n0, pieces = o.apps
            if not s.holds(st, lt(idx, n0)):
                pos = n0
                for pc in pieces:
                    if pc[0] == "item":
                        if s.holds(st, eq(idx, pos)): return pc[1][off][1]
                        pos = add(pos, 1); continue
                    if pc[0] == "fold" and getattr(pc[1], "elem", None) is not None and s.holds(st, and_(le(pos, idx), lt(idx, add(pos, pc[1].lenf(Z(pc[2])))))):
                        return pc[1].elem(s, st, sub(idx, pos), off)
                    raise Unsupported("read of element %s of a list built by a fold" % (idx,))
                raise Unsupported("read of undetermined list element")
        return o.base(s, st, idx, off, t, size)
    def elem_value2(s, st, o, idx, off, t, size, skip):
        o2 = o.copy(); k = len(o.log)
        for q in range(len(o.log) - 1, -1, -1):
            if o.log[q][0] is skip and o.log[q][1] == off: k = q; break
        o2.log = o.log[:k]
        return s.elem_value(st, o2, idx, off, t, size)

    def store(s, st, p, v, size):
        if isinstance(p, (VTab, VFn)): raise Unsupported("store to vtable")
        p = s.nonnull(st, p)
        if isinstance(p, OPtr): raise Unsupported("store to opaque object %r" % p)
        o = st.mem[p.oid]
        if o.freed: s.prove(st, False, "use-after-free", "object %s" % o.name)
        if o.const: s.prove(st, False, "write-to-constant", "object %s" % o.name)
        if o.kind == "qbd": return o.data.store(s, st, p, v, size)
        o = st.w(p.oid)
        if o.kind == "bytes":
            if not isint(v): raise Unsupported("store %r in bytes" % (v,))
            s.prove(st, and_(le(0, p.off), le(add(p.off, size), o.size)), "bounds-write", "object %s off %s size %s" % (o.name, p.off, o.size))
            if size == 1: s.content_write(st, o, p.off, rbyte(v))
            else:
                u = v if not isz(v) else v % (1 << (8 * size))
                for k in range(size):
                    b = ((u >> (8 * k)) & 255) if not isz(u) else (u / (1 << (8 * k))) % 256
                    s.content_write(st, o, add(p.off, k), rbyte(wrap(8, b)))
            return
        if o.kind == "elems":
            s.prove(st, and_(le(0, p.idx), lt(p.idx, o.n)), "bounds-write", "element %s of %s (count %s)" % (p.idx, o.name, o.n))
            o.log = o.log + ((p.idx, p.off, size, v),); return
        if isz(p.off): raise Unsupported("symbolic store into %s" % o.name)
        if o.size is not None and not isz(o.size) and not (0 <= p.off and p.off + size <= o.size):
            s.prove(st, False, "bounds-write", "object %s off %s" % (o.name, p.off)); raise Infeasible()
        for k in [k for k, (cs, _) in o.cells.items() if k < p.off + size and p.off < k + cs and k != p.off]:
            cs, cv = o.cells[k]
            if k < p.off and k + cs >= p.off + size and isint(cv) and isint(v):    # write inside a larger integer
                lo = 8 * (p.off - k); w = 8 * size; u = uns(8 * cs, cv)
                lowp = u % (1 << lo) if isz(u) else u & ((1 << lo) - 1)
                hi = (u / (1 << (lo + w))) if isz(u) else u >> (lo + w)
                o.cells[k] = (cs, wrap(8 * cs, add(add(lowp, mul(uns(w, v), 1 << lo)), mul(hi, 1 << (lo + w)))))
                return
            if k > p.off and k + cs <= p.off + size: del o.cells[k]; continue
            raise Unsupported("overlapping store in %s at %s" % (o.name, p.off))
        if p.off in o.cells and o.cells[p.off][0] > size and isint(o.cells[p.off][1]) and isint(v):
            cs, cv = o.cells[p.off]; u = uns(8 * cs, cv); w = 8 * size
            hi = (u / (1 << w)) if isz(u) else u >> w
            o.cells[p.off] = (cs, wrap(8 * cs, add(uns(w, v), mul(hi, 1 << w)))); return
        o.cells[p.off] = (size, v)
    def content_write(s, st, o, off, rope):
        c = o.content; n = rope.len()
        if n == 0: return
        bl = c.base.len()
        if not c.over and (eq(off, bl) is True or (isz(sub(off, bl)) and s.holds(st, eq(off, bl)))):
            o.content = Content(c.base + rope)
        elif not c.over and not isz(off) and c.base.lit() is not None and rope.lit() is not None and off + len(rope.lit()) <= len(c.base.lit()):
            b = c.base.lit(); r = rope.lit(); o.content = Content(rlit(b[:off] + r + b[off + len(r):]))
        elif (off == 0 if not isz(off) else False) and s.holds(st, le(bl, n)) and not c.over:
            o.content = Content(rope)
        else:
            o.content = Content(c.base, c.over + ((off, n, rope),))

    # ---------- ropes under a path condition
    def subrope(s, st, rope, off, n):
        if not isz(n) and n == 0: return Rope()
        out = []; cur = 0; pieces = list(rope.p)
        if (not isz(off) and off == 0) and eq(n, rope.len()) is True: return rope
        # skip
        k = 0; skip = off
        while k < len(pieces):
            ln = pieces[k].n
            if not isz(skip) and skip == 0: break
            if s.holds(st, le(ln, skip)): skip = sub(skip, ln); k += 1; continue
            if s.holds(st, eq(skip, 0)): skip = 0; break
            if s.holds(st, le(add(skip, n), ln)) :
                return Rope([s.subpiece(pieces[k], skip, n)]) if not isinstance(pieces[k], FoldP) else Rope([Sl(FnSrc(rope.get, ("rg", rope.key())), off, n)])
            if s.holds(st, lt(skip, ln)) and not isinstance(pieces[k], FoldP):
                rest = sub(ln, skip); out.append(s.subpiece(pieces[k], skip, rest)); n = sub(n, rest); k += 1; skip = 0; break
            return Rope([Sl(FnSrc(rope.get, ("rg", rope.key())), off, n)])
        while k < len(pieces):
            if s.holds(st, le(n, 0)): return Rope(out)
            ln = pieces[k].n
            if s.holds(st, le(ln, n)): out.append(pieces[k]); n = sub(n, ln); k += 1; continue
            if s.holds(st, lt(n, ln)) and not isinstance(pieces[k], FoldP): out.append(s.subpiece(pieces[k], 0, n)); return Rope(out)
            return Rope([Sl(FnSrc(rope.get, ("rg", rope.key())), off, n)])if not out else Rope(out + [Sl(FnSrc(Rope(pieces[k:]).get), 0, n)])
        if not s.holds(st, le(n, 0)):
            out.append(Sl(FnSrc(lambda i: fint("beyond")), 0, n))
        return Rope(out)
    def subpiece(s, p, off, n):
        if isinstance(p, Lit):
            if not isz(off) and not isz(n): return Lit(p.b[off:off + n])
            return Sl(LitSrc(p.b), off, n)
        return Sl(p.src, add(p.off, off), n)
    def slice(s, st, content, off, n):
        if not isz(n) and n <= 0: return Rope()
        for (wo, wn, rp) in reversed(content.over):
            if s.holds(st, or_(le(add(off, n), wo), le(add(wo, wn), off))): continue
            if s.holds(st, and_(le(wo, off), le(add(off, n), add(wo, wn)))):
                return s.subrope(st, rp, sub(off, wo), n)
            return Rope([Sl(FnSrc(content.get, ("content", id(content), vkey(content.base))), off, n)])
        return s.subrope(st, content.base, off, n)

    def norm(s, st, r):
        out = []
        for p in r.p:
            n = p.n
            if isz(n) and s.holds(st, eq(n, 0)): continue
            if isinstance(p, FoldP) and isz(p.hi) and s.holds(st, eq(p.hi, 0)): continue
            if isinstance(p, Sl) and isz(n) and isinstance(p.src, LitSrc):
                pass
            out.append(p)
        return Rope(out)
    def rope_eq(s, st, a, b, prove=None):
        """is a == b as byte strings under the path condition? structural, then pointwise. Returns bool."""
        if a.key() == b.key(): return True
        A, B_ = list(s.norm(st, a).p), list(s.norm(st, b).p)
        while A and B_:
            x, y = A[0], B_[0]
            if isinstance(x, Lit) and isinstance(y, Lit):
                m = min(x.n, y.n)
                if x.b[:m] != y.b[:m]: return s.check(st) == z3.unsat
                A[0:1] = [Lit(x.b[m:])] if x.n > m else []; B_[0:1] = [Lit(y.b[m:])] if y.n > m else []
                continue
            if isinstance(x, FoldP) or isinstance(y, FoldP):
                if isinstance(x, FoldP) and isinstance(y, FoldP) and x.fold is y.fold and s.holds(st, eq(x.hi, y.hi)):
                    A.pop(0); B_.pop(0); continue
                return False
            if not isz(x.n) and not isz(y.n) and not isinstance(x, FoldP) and not isinstance(y, FoldP) and x.n <= 64 and y.n <= 64 and not (isinstance(x, Lit) and isinstance(y, Lit)):
                m = min(x.n, y.n)
                if m > 0 and s.holds(st, and_(*[eq(x.get(i), y.get(i)) for i in range(m)]), timeout=10000):
                    A[0:1] = [s.subpiece(x, m, x.n - m)] if x.n > m else []; B_[0:1] = [s.subpiece(y, m, y.n - m)] if y.n > m else []
                    continue
            if isinstance(x, Sl) and isinstance(y, Sl) and (x.src.key == y.src.key or s.same_src(st, x.src, y.src)) and s.holds(st, eq(x.off, y.off)):
                if s.holds(st, eq(x.n, y.n)): A.pop(0); B_.pop(0); continue
                if s.holds(st, le(x.n, y.n)):
                    A.pop(0); B_[0] = Sl(y.src, add(y.off, x.n), sub(y.n, x.n)); continue
                if s.holds(st, le(y.n, x.n)):
                    B_.pop(0); A[0] = Sl(x.src, add(x.off, y.n), sub(x.n, y.n)); continue
            break
        if not A and not B_: return True
        ra, rb = Rope(A), Rope(B_)
        if any(isinstance(p, FoldP) for p in ra.p + rb.p):
            # strip common suffix
            while A and B_:
                x, y = A[-1], B_[-1]
                if isinstance(x, FoldP) and isinstance(y, FoldP) and x.fold is y.fold and s.holds(st, eq(x.hi, y.hi)): A.pop(); B_.pop(); continue
                if isinstance(x, Lit) and isinstance(y, Lit):
                    m = min(x.n, y.n)
                    if x.b[-m:] != y.b[-m:]: return False
                    A[-1:] = [Lit(x.b[:-m])] if x.n > m else []; B_[-1:] = [Lit(y.b[:-m])] if y.n > m else []; continue
                if x.key() == y.key(): A.pop(); B_.pop(); continue
                break
            ra, rb = Rope(A), Rope(B_)
            if any(isinstance(p, FoldP) for p in ra.p + rb.p): return False
        la, lb = ra.len(), rb.len()
        if not s.holds(st, eq(la, lb), timeout=10000): return False
        if not isz(la) and la <= 64:
            return s.holds(st, and_(*[eq(ra.get(i), rb.get(i)) for i in range(la)]), timeout=10000)
        i = fint("pt")
        g = implies(and_(le(0, i), lt(i, la)), eq(ra.get(i), rb.get(i)))
        return s.holds(st, g, timeout=10000)
    def same_src(s, st, a, b):
        if isinstance(a, AtomSrc) and isinstance(b, AtomSrc):
            if s.holds(st, eq(a.id, b.id)): return True
            x, y = s.tmrev.get(str(a.id)), s.tmrev.get(str(b.id))       # congruence of opaque functions
            if x is not None and y is not None and x.op == y.op and x.a and len(x.a) == len(y.a) and s.val_eq(st, x, y):
                st.pc.append(a.id == b.id); return True
        return False
    def prove_rope(s, st, a, b, kind, detail=""):
        if s.probe: return
        t0 = time.time()
        ok = s.rope_eq(st, a, b)
        m = None
        if not ok:
            la, lb = a.len(), b.len(); i = fint("pt")
            try: bad = or_(not_(eq(la, lb)), and_(le(0, i), lt(i, la), not_(eq(a.get(i), b.get(i)))))
            except Exception: bad = True
            if s.check(st, bad) == z3.sat: m = s.model_text(s.last_model)
        s.obs.append(Ob("%s/%s@%s" % (s.unit, kind, s.where(st)), ok, time.time() - t0, "rope", m, "%s: got %r expected %r" % (detail, a, b), s.pathdesc(st)))
        return ok
    def rope_cond(s, a, b):
        """Bool term for a == b when one side is literal"""
        la, lb = a.lit(), b.lit()
        if la is not None and lb is not None: return la == lb
        if la is not None: a, b, la, lb = b, a, lb, la
        if lb is None: return None
        c = eq(a.len(), len(lb))
        if c is False: return False
        return and_(c, *[eq(a.get(i), sb(lb[i])) for i in range(len(lb))])

    # ---------- instruction semantics
    def gep(s, st, bt, ops, mod):
        p = ops[0]; off = 0; t = bt
        if isinstance(p, Ptr) and p.oid is not None and st.mem[p.oid].kind == "elems":
            o = st.mem[p.oid]; es = ir.sizeof(mod, bt); idx, o2 = p.idx, p.off
            first = ops[1]
            if es == o.stride: idx = add(idx, first)
            elif not isz(first) and (es * first) % o.stride == 0: idx = add(idx, es * first // o.stride)
            elif es % o.stride == 0: idx = add(idx, mul(first, es // o.stride))
            elif not isz(first): o2 = o2 + es * first
            else: raise Unsupported("gep on element array with stride %d (elem %d)" % (es, o.stride))
            rest = s.gep_off(bt, ops[2:], mod)
            o2 = add(o2, rest)
            if not isz(o2) and not (0 <= o2 < o.stride):
                idx = add(idx, o2 // o.stride); o2 = o2 % o.stride
            return Ptr(p.oid, o2, idx, p.null)
        off = mul(ir.sizeof(mod, bt), ops[1])
        off = add(off, s.gep_off(bt, ops[2:], mod))
        if isinstance(p, Ptr): return Ptr(p.oid, add(p.off, off), p.idx, p.null)
        if isinstance(p, OPtr): return OPtr(p.id, p.cls, add(p.off, off))
        if isinstance(p, VTab): return VTab(p.o, p.off + off)
        if p is UNDEF: return UNDEF
        raise Unsupported("gep on %r" % (p,))
    def gep_off(s, bt, idxs, mod):
        t = bt; off = 0
        for i in idxs:
            t = ir.resolve(mod, t)
            if t.k == "struct":
                off = add(off, ir.offsets(mod, t)[i]); t = t.el[i]
            elif t.k in ("array", "vector"):
                off = add(off, mul(ir.sizeof(mod, t.el), i)); t = t.el
            else: raise Unsupported("gep into %r" % t)
        return off
    def divmod_(s, st, x, c):
        """C truncated division by positive constant via q,r"""
        if not isz(x):
            q = abs(x) // c; q = -q if x < 0 else q
            return q, x - q * c
        key = (x.get_id(), c)
        hit = s.qr.get(key)
        if hit is None:
            hit = s.qr[key] = (fint("q"), fint("r"), x)
        q, r, _ = hit
        if s.holds(st, x >= 0): st.pc.append(And(x == q * c + r, r >= 0, r < c, q >= 0))
        else: st.pc.append(And(x == q * c + r, If(x >= 0, And(r >= 0, r < c), And(r <= 0, r > -c))))
        return q, r
    def binop(s, st, op, ty, a, b, flags):
        if ty.k in ("double", "float"): return Tm(op, a, b)
        n = ty.n
        if n == 1:
            if op == "and": return and_(a, b)
            if op == "or": return or_(a, b)
            if op == "xor": return not_(iff(a, b))
            raise Unsupported("i1 " + op)
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, (Ptr, OPtr, PDiff)) or isinstance(b, (Ptr, OPtr, PDiff)): return s.ptr_arith(st, op, a, b)
        if isbool(a): a = ite(a, 1, 0)
        if isbool(b): b = ite(b, 1, 0)
        if isinstance(a, Tm) or isinstance(b, Tm): return s.fresh_of(st, ty, "tmop")
        if op in ("add", "sub", "mul"):
            r = {"add": add, "sub": sub, "mul": mul}[op](a, b)
            if "nsw" in flags:
                if isz(r): s.prove(st, inrange(n, r), "overflow", "%s %s %s" % (a, op, b))
                else: s.prove(st, inrange(n, r), "overflow")
                return r
            if not isz(r): return wrap(n, r)
            if s.holds(st, inrange(n, r)): return r
            return wrap(n, r)
        if op in ("sdiv", "srem"):
            s.prove(st, not_(eq(b, 0)), "div-by-zero")
            if isz(b): raise Unsupported("division by symbolic divisor")
            if b < 0:
                s.prove(st, not_(and_(eq(b, -1), eq(a, -(1 << (n - 1))))), "overflow", "division")
                q, r = s.divmod_(st, a, -b); return neg(q) if op == "sdiv" else r
            if "exact" in flags and isz(a) and not isinstance(a, int):
                q, r = s.divmod_(st, a, b); return q
            q, r = s.divmod_(st, a, b)
            return q if op == "sdiv" else r
        if op in ("udiv", "urem"):
            if isz(b): raise Unsupported("division by symbolic divisor")
            u = uns(n, a); q, r = s.divmod_(st, simp(u), b if b > 0 else b & ((1 << n) - 1))
            return wrap(n, q if op == "udiv" else r)
        if op == "shl":
            if isz(b): raise Unsupported("shl by symbolic")
            r = mul(a, 1 << b)
            if "nsw" in flags: s.prove(st, inrange(n, r), "overflow", "shl")
            return wrap(n, r) if not (isz(r) and s.holds(st, inrange(n, r))) else r
        if op == "ashr":
            if isz(b): raise Unsupported("ashr by symbolic")
            return a >> b if not isz(a) else simp(a / (1 << b))
        if op == "lshr":
            if isz(b): raise Unsupported("lshr by symbolic")
            u = uns(n, a)
            return wrap(n, u >> b) if not isz(u) else simp(u / (1 << b)) if b > 0 else a
        if op == "and": return s.band(st, n, a, b)
        if op == "or":
            if not isz(a) and not isz(b): return wrap(n, a | b)
            return s.bor(st, n, a, b)
        if op == "xor":
            if not isz(a) and not isz(b): return wrap(n, a ^ b)
            if not isz(b) and b == -1: return simp(-1 - a)
            if not isz(a): a, b = b, a
            if not isz(b) and b == 1 and s.holds(st, And(a >= 0, a <= 1)): return simp(1 - a)
            if not isz(b) and b > 0 and b & (b - 1) == 0:      # one bit flipped
                u = uns(n, a); q, _ = s.divmod_(st, simp(u), b) if b > 1 else (u, 0); _, bit = s.divmod_(st, simp(q), 2)
                return wrap(n, simp(u + b - 2 * b * bit))
            raise Unsupported("symbolic xor")
        raise Unsupported("binop " + op)
    def runs(s, mask):
        r = []; i = 0
        while mask >> i:
            if (mask >> i) & 1:
                j = i
                while (mask >> j) & 1: j += 1
                r.append((i, j - i)); i = j
            else: i += 1
        return r
    def band(s, st, n, a, b):
        if not isz(a) and not isz(b): return wrap(n, a & b)
        if not isz(a): a, b = b, a
        if isz(b): raise Unsupported("symbolic and")
        m = b & ((1 << n) - 1)
        u = uns(n, a) if not s.holds(st, a >= 0) else a
        r = 0
        for lo, w in s.runs(m):
            q = simp(u / (1 << lo)) if lo else u
            r = add(r, mul(simp(q % (1 << w)) if lo + w < n or True else q, 1 << lo))
        return wrap(n, r) if m >> (n - 1) else r
    def bor(s, st, n, a, b):
        # disjoint bits: find k with one side < 2^k and the other a multiple of 2^k (both nonneg)
        for x, y in ((a, b), (b, a)):
            for k in (1, 2, 3, 4, 5, 6, 7, 8, 16, 24, 31):
                if k >= n: break
                if s.holds(st, and_(le(0, x), lt(x, 1 << k))):
                    if not isz(y): c = (y % (1 << k)) == 0
                    else: c = y % (1 << k) == 0
                    if s.holds(st, c): return add(x, y)
                    break
        if not isz(b) or not isz(a):
            x, c = (a, b) if isz(a) else (b, a)
            cl = s.band(st, n, x, wrap(n, ~c))
            return add(cl, c)
        r = s.bor_packed(st, n, a, b)
        if r is not None: return r
        raise Unsupported("symbolic or %s | %s" % (a, b))
    def bor_packed(s, st, n, a, b):
        # (x & ~mask) | (v & mask): disjoint whenever bits cannot overlap; try byte/bit windows
        ua, ub = simp(uns(n, a)), simp(uns(n, b))
        for lo in range(0, n):
            pass
        for lo in range(n):
            for w in range(1, n - lo + 1):
                # b confined to window [lo,lo+w), a has zero there
                if s.holds(st, and_(eq(ub % (1 << lo) if isz(ub) else 0, 0), lt(ub, 1 << (lo + w)))):
                    if s.holds(st, eq((ua / (1 << lo)) % (1 << w), 0)): return wrap(n, add(ua, ub))
                    break
        return None
    def ptr_arith(s, st, op, a, b):
        if op == "sub":
            pa, pb = (a.p if isinstance(a, PDiff) else a), (b.p if isinstance(b, PDiff) else b)
            if isinstance(pa, Ptr) and isinstance(pb, Ptr):
                if pa.oid is None and pb.oid is None: return sub(pa.off, pb.off)
                if pa.oid is None or pb.oid is None:           # computed before a null test: some number
                    x = fint("diff"); st.pc.append(And(x >= -(1 << 63), x < 1 << 63)); return x
                if pa.oid != pb.oid:
                    raise Unsupported("difference of pointers to different objects")
                o = st.mem[pa.oid]
                if o.kind == "elems":
                    d = sub(pa.off, pb.off)
                    return add(mul(sub(pa.idx, pb.idx), o.stride), d)
                return sub(pa.off, pb.off)
            if isint(pa) and isinstance(pb, Ptr) or isinstance(pa, Ptr) and isint(pb):    # a null pointer seen as a number
                x = fint("diff"); st.pc.append(And(x >= -(1 << 63), x < 1 << 63)); return x
        raise Unsupported("pointer arithmetic " + op)
    def cast(s, st, op, fty, v, tty):
        if v is UNDEF: return UNDEF
        if op == "ptrtoint":
            if isinstance(v, Ptr) and v.oid is None: return v.off
            return PDiff(v)
        if op == "inttoptr":
            if isinstance(v, PDiff): return v.p
            if not isz(v): return Ptr(None, v, 0, v == 0)
            raise Unsupported("inttoptr")
        if op == "bitcast": return v
        if isinstance(v, PDiff):
            if op in ("trunc", "zext", "sext"): return v
        if op in ("sitofp", "uitofp", "fptosi", "fpext", "fptrunc", "fptoui"):
            return Tm(op, v) if op not in ("fptosi", "fptoui") else s.fresh_of(st, tty, "fp")
        fn, tn = fty.n, tty.n
        if op == "trunc":
            if isbool(v): return v
            if isinstance(v, Tm): return s.fresh_of(st, tty, "tmop")
            if tn == 1:
                if not isz(v): return bool(v & 1)
                x = simp(v)
                if isz(x) and z3.is_app_of(x, z3.Z3_OP_ITE):
                    c, p, q = x.children()
                    if z3.is_int_value(p) and z3.is_int_value(q): return _c(ite(c, bool(p.as_long() & 1), bool(q.as_long() & 1)))
                if s.holds(st, And(v >= 0, v <= 1)): return simp(v == 1)
                return simp(v % 2 == 1)
            if not isz(v): return wrap(tn, v)
            if s.holds(st, inrange(tn, v)): return v
            return wrap(tn, v)
        if op == "zext":
            if isbool(v): return ite(v, 1, 0)
            if not isz(v): return uns(fn, v)
            if s.holds(st, v >= 0): return v
            return simp(uns(fn, v))
        if op == "sext":
            if isbool(v): return ite(v, -1, 0)
            return v
        raise Unsupported("cast " + op)
    def icmp(s, st, pred, ty, a, b):
        if isinstance(a, PDiff): a = a.p
        if isinstance(b, PDiff): b = b.p
        if isinstance(a, (Ptr, OPtr, FPtr, VFn)) or isinstance(b, (Ptr, OPtr, FPtr, VFn)): return s.ptr_cmp(st, pred, a, b)
        if a is UNDEF or b is UNDEF:
            s.prove(st, False, "uninitialised-read", "comparison with undefined value"); raise Infeasible()
        if isbool(a) and isbool(b):
            r = iff(a, b); return r if pred == "eq" else not_(r)
        if isbool(a): a = ite(a, 1, 0)
        if isbool(b): b = ite(b, 1, 0)
        if isinstance(a, Tm) or isinstance(b, Tm): return s.tm_bool(Tm("icmp", pred, a, b))
        if pred == "eq": return eq(a, b)
        if pred == "ne": return not_(eq(a, b))
        if pred[0] == "u":
            n = ty.n; a, b = uns(n, a), uns(n, b); pred = "s" + pred[1:]
        return {"slt": lambda: lt(a, b), "sle": lambda: le(a, b), "sgt": lambda: lt(b, a), "sge": lambda: le(b, a)}[pred]()
    def ptr_cmp(s, st, pred, a, b):
        if isinstance(a, int): a = Ptr(None, a, 0, a == 0)
        if isinstance(b, int): b = Ptr(None, b, 0, b == 0)
        if a is UNDEF or b is UNDEF: raise Unsupported("compare undef pointer")
        def isnull(p):
            if isinstance(p, OPtr): return eq(p.id, 0) if not isz(p.off) and p.off == 0 else False
            if isinstance(p, (FPtr, VFn)): return False
            return p.null if p.oid is not None else eq(p.off, 0)
        if pred in ("eq", "ne"):
            if isinstance(a, Ptr) and a.oid is None and a.off == 0: r = isnull(b)
            elif isinstance(b, Ptr) and b.oid is None and b.off == 0: r = isnull(a)
            elif isinstance(a, OPtr) and isinstance(b, OPtr): r = eq(a.id, b.id)
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.oid is None and b.oid is None: r = eq(a.off, b.off)
                elif a.oid == b.oid:
                    same = and_(eq(a.idx, b.idx), eq(a.off, b.off))
                    if a.null is False and b.null is False: r = same
                    else: r = or_(and_(B(isnull(a)), B(isnull(b))), and_(not_(isnull(a)), not_(isnull(b)), same))
                else: r = and_(isnull(a), isnull(b))
            elif isinstance(a, FPtr) and isinstance(b, FPtr): r = a.name == b.name
            elif (isinstance(a, OPtr) and isinstance(b, Ptr)) or (isinstance(a, Ptr) and isinstance(b, OPtr)): r = s.tm_bool(Tm("ptreq", a, b))
            else: raise Unsupported("pointer comparison %r %r" % (a, b))
            return r if pred == "eq" else not_(r)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.oid == b.oid:
            o = st.mem.get(a.oid)
            if o is not None and o.kind == "elems": x, y = a.idx, b.idx
            else: x, y = a.off, b.off
            p = pred[1:]
            return {"lt": lambda: lt(x, y), "le": lambda: le(x, y), "gt": lambda: lt(y, x), "ge": lambda: le(y, x)}[p]()
        raise Unsupported("pointer order comparison %r %r" % (a, b))
    def tm_bool(s, tm):
        k = ("b", tm.key())
        if k not in s.tms: s.tms[k] = z3.Bool("tm%d:%s" % (len(s.tms), tm.op))
        return s.tms[k]
    def tm_int(s, st, tm, lo=None, hi=None):
        k = ("i", tm.key())
        if k not in s.tms: s.tms[k] = z3.Int("tm%d:%s" % (len(s.tms), tm.op))
        v = s.tms[k]
        if lo is not None: st.pc.append(v >= lo)
        if hi is not None: st.pc.append(v <= hi)
        return v
    def tm_id(s, tm):
        """identity of an opaque value as an Int term (equal keys -> equal ids)"""
        if tm.op == "val": return tm.a[0]
        k = ("id", tm.key())
        if k not in s.tms: s.tms[k] = z3.Int("tmid%d:%s" % (len(s.tms), tm.op)); s.tmrev[str(s.tms[k])] = tm
        return s.tms[k]

    # ---------- calls
    def handler(s, dem, name):
        h = s.contracts.get(dem) or s.contracts.get(name)
        if h: return h
        for rx, h in s.patterns:
            if rx.match(dem): return h
        return None
    def call(s, st, f, ins):
        callee, cargs = ins.a
        mod = f.fn.module
        if callee[0] == "l":
            fp = f.env[callee[1]]
            if isinstance(fp, VFn): return s.vcall(st, f, ins, fp)
            if isinstance(fp, Ptr) and fp.oid is None:
                s.prove(st, False, "null-call"); raise Infeasible()
            if not isinstance(fp, FPtr): return s.icall(st, f, ins, fp)
            name = fp.name
        else: name = callee[1]
        while "alias:" + name in mod.md: name = mod.md["alias:" + name]
        args = [None if v is None else s.val(st, f, v, t) for t, v, at in cargs]
        return s.call_name(st, f, ins, name, args, mod)
    def icall(s, st, f, ins, fp): raise Unsupported("indirect call through %r" % (fp,))
    def call_name(s, st, f, ins, name, args, mod):
        if name.startswith("llvm."): return s.intrinsic(st, f, ins, name, args)
        fn = mod.funcs.get(name)
        if fn is None or not fn.defined: fn = s.funcs.get(name, fn)
        dem = fn.dem if fn is not None else name
        h = s.handler(dem, name)
        if h is not None:
            s.used_contracts[dem] = s.used_contracts.get(dem, 0) + 1
            C = Call(s, st, f, ins, args, dem, fn)
            return h(C)
        if fn is not None and fn.defined:
            return s.inline(st, f, ins, fn, args)
        raise Unsupported("no contract for external function %s" % dem)
    def inline(s, st, f, ins, fn, args, onret=None):
        if len(st.frames) > 60: raise Unsupported("inlining too deep at " + fn.dem)
        if sum(1 for q in st.frames if q.fn is fn) >= 3: raise Unsupported("recursion in " + fn.dem)
        if "/repo/" in ir.func_file(fn.module, fn): s.inlined[fn.dem] = s.inlined.get(fn.dem, 0) + 1
        nf = Frame(fn); nf.call = ins; nf.onret = onret
        for (nm, ty, at), a in zip(fn.params, args): nf.env[nm] = a
        st.frames.append(nf)
        return "INLINE"
    def vcall(s, st, f, ins, vf):
        args = [s.val(st, f, v, t) for t, v, at in ins.a[1]]
        s.nonnull(st, vf.o)
        cls = vf.o.cls if isinstance(vf.o, OPtr) else st.mem[vf.o.oid].vcls
        key = (cls, vf.slot)
        h = s.vmethods.get(key)
        if h is None:
            raise Unsupported("virtual call slot %d of class %s" % (vf.slot, cls))
        name, fnh = h
        s.used_contracts["virtual " + name] = s.used_contracts.get("virtual " + name, 0) + 1
        return fnh(Call(s, st, f, ins, args, name, None))
    def intrinsic(s, st, f, ins, name, args):
        if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.stackrestore", "llvm.experimental.noalias", "llvm.donothing")): return None
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            s.memcpy(st, args[0], args[1], args[2], f.fn.module, overlap_ok=name.startswith("llvm.memmove")); return None
        if name.startswith("llvm.memset"):
            s.memset(st, args[0], args[1], args[2]); return None
        if name.startswith(("llvm.trap", "llvm.ubsantrap")):
            s.prove(st, False, "trap"); raise Infeasible()
        raise Unsupported("intrinsic " + name)
    def memset(s, st, p, v, n):
        if not isz(n) and n == 0: return
        p = s.nonnull(st, p); o = st.mem[p.oid]
        s.prove(st, and_(le(0, p.off), le(add(p.off, n), o.size)) if o.size is not None else True, "bounds-write", "memset")
        o = st.w(p.oid)
        if o.kind == "bytes": s.content_write(st, o, p.off, Rope([Sl(ConstSrc(v), 0, n)])); return
        if isz(n) or isz(p.off) or v != 0: raise Unsupported("memset")
        for k in [k for k in o.cells if p.off <= k < p.off + n]: del o.cells[k]
        o.zero = tuple(z for z in o.zero) + ((p.off, p.off + n),)
    def memcpy(s, st, d, sr, n, mod, overlap_ok=False):
        if not isz(n) and n == 0: return
        if isz(n) and (isinstance(d, Ptr) and d.oid is None or isinstance(sr, Ptr) and sr.oid is None) and s.holds(st, eq(n, 0)): return
        s.prove(st, le(0, n), "memcpy-size", "negative size")
        d, sr = s.nonnull(st, d), s.nonnull(st, sr)
        if isinstance(d, OPtr) or isinstance(sr, OPtr): raise Unsupported("memcpy on opaque object")
        od, os_ = st.mem[d.oid], st.mem[sr.oid]
        if od.freed or os_.freed: s.prove(st, False, "use-after-free", "memcpy")
        if os_.kind == "bytes":
            s.prove(st, and_(le(0, sr.off), le(add(sr.off, n), os_.size)), "bounds-read", "memcpy from %s off %s n %s size %s" % (os_.name, sr.off, n, os_.size))
        if od.kind == "bytes":
            s.prove(st, and_(le(0, d.off), le(add(d.off, n), od.size)), "bounds-write", "memcpy to %s off %s n %s size %s" % (od.name, d.off, n, od.size))
            if od.const: s.prove(st, False, "write-to-constant", od.name)
        if od.kind == "bytes" and os_.kind == "bytes":
            r = s.slice(st, os_.content, sr.off, n)
            o = st.w(d.oid); s.content_write(st, o, d.off, r); return
        if od.kind == "cells" and os_.kind == "cells" and not isz(n):
            o = st.w(d.oid)
            for k in [k for k in o.cells if d.off <= k < d.off + n]: del o.cells[k]
            for k, (cs, v) in list(os_.cells.items()):
                if sr.off <= k and k + cs <= sr.off + n: o.cells[k - sr.off + d.off] = (cs, v)
            o.zero = o.zero + tuple((max(a, sr.off) - sr.off + d.off, min(b, sr.off + n) - sr.off + d.off) for a, b in os_.zero if a < sr.off + n and sr.off < b)
            return
        if od.kind == "cells" and os_.kind == "bytes" and not isz(n) and not isz(sr.off) and os_.content.base.lit() is not None and not os_.content.over:
            b = os_.content.base.lit(); o = st.w(d.oid)
            for k in range(n): o.cells[d.off + k] = (1, sb(b[sr.off + k]))
            return
        if os_.kind == "cells" and od.kind == "elems" and not isz(n) and n <= od.stride:
            for k, (cs, v) in sorted(os_.cells.items()):
                if sr.off <= k and k + cs <= sr.off + n: s.store(st, Ptr(d.oid, d.off + k - sr.off, d.idx), v, cs)
            return
        if os_.kind == "elems" and od.kind == "cells" and not isz(n) and os_.data and isinstance(os_.data, dict) and "fields" in os_.data:
            for (fo, fs, fty) in os_.data["fields"]:
                v = s.elem_value(st, os_, sr.idx, fo, fty, fs); s.store(st, Ptr(d.oid, d.off + fo - sr.off), v, fs)
            return
        raise Unsupported("memcpy %s<-%s" % (od.kind, os_.kind))

    # ---------- step
    def start(s, st, fn, args):
        f = Frame(fn)
        for (nm, ty, at), a in zip(fn.params, args): f.env[nm] = a
        st.frames.append(f)
    def find(s, dem):
        r = [f for f in s.funcs.values() if f.defined and (f.dem == dem or f.name == dem)]
        if not r:
            r = [f for f in s.funcs.values() if f.defined and f.dem.split("(")[0] == dem]
        if not r: raise Unsupported("function %s not found in the source" % dem)
        return r[0]
    def run(s, st, fn, args):
        """execute fn from st; list of final states (returned from fn)"""
        s.start(st, fn, args)
        return s.explore([st], len(st.frames) - 1, None)
    def explore(s, work, base, ctx):
        """run states until frame depth returns to base (finished) or, inside a loop ctx, until back edge/exit."""
        work = list(work); fin = []; backs = []; exits = []
        while work:
            st = work.pop()
            try:
                while True:
                    if len(st.frames) == base:
                        if ctx is not None: exits.append(st); break
                        fin.append(st); s.npaths += 1
                        if s.npaths > s.max_paths: raise Unsupported("path limit")
                        break
                    f = st.frames[-1]
                    if f.arrive is not None:
                        r = s.arrive(st, f, ctx, work)
                        if r == "BACK": backs.append(st); break
                        if r == "EXIT": exits.append(st); break
                        if r == "STOP": break
                        continue
                    r = s.step(st, f, work)
                    if r == "STOP": break
            except Infeasible:
                pass
        if ctx is None: return fin
        return backs, exits
    def go(s, st, f, target):
        f.arrive = target
    def arrive(s, st, f, ctx, work):
        target = f.arrive
        if ctx is not None and len(st.frames) - 1 == ctx.depth:
            if target == ctx.header: return "BACK"
            if target not in ctx.body: return "EXIT"
        lps = ir.loops(f.fn)
        if target in lps and not (s.loop_hook and s.loop_hook(st, f, target)):
            mode = s.loop_mode(st, f, target, lps[target], work)
            if mode == "UNROLL": s.enter(st, f); return "GO"
            if mode == "DONE": return "STOP"
        s.enter(st, f)
        return "GO"
    def enter(s, st, f):
        target = f.arrive; f.arrive = None
        prev = f.blk.name; b = f.fn.blocks[target]
        vals = []
        for ph in b.phis:
            for bn, v in ph.a:
                if bn == prev: vals.append((ph.res, s.val(st, f, v, ph.ty))); break
            else: raise Unsupported("phi")
        for r, v in vals: f.env[r] = v
        f.prev = prev; f.blk = b; f.i = 0
    def loop_mode(s, st, f, h, body, work):
        from . import loops
        return loops.loop(s, st, f, h, body, work)

    def step(s, st, f, work):
        ins = f.blk.insts[f.i]; op = ins.op; mod = f.fn.module; env = f.env
        if op == "load":
            v = s.load(st, s.val(st, f, ins.a[0], ir.PTR), ins.ty, mod)
            if isinstance(v, tuple) and v and v[0] == "FORK":
                alts = [(c, x) for c, x in v[1] if s.feasible(st, c)]
                if not alts: raise Infeasible()
                for c, x in alts[1:]:
                    t = st.fork(); s.assume(t, c); g = t.frames[-1]; g.env[ins.res] = x; g.i += 1; work.append(t)
                s.assume(st, alts[0][0]); v = alts[0][1]
            env[ins.res] = v; f.i += 1; return
        if op == "store":
            v = s.val(st, f, ins.a[0], ins.ty); p = s.val(st, f, ins.a[1], ir.PTR)
            s.store(st, p, v, ir.sizeof(mod, ins.ty)); f.i += 1; return
        if op == "getelementptr":
            env[ins.res] = s.gep(st, ins.ty, [s.val(st, f, v, t) for t, v in ins.a], mod); f.i += 1; return
        if op == "call":
            r = s.call(st, f, ins)
            if isinstance(r, str) and r == "INLINE": return
            if isinstance(r, str) and r == "STOP": return "STOP"
            if isinstance(r, list):       # [(state, value)]
                if not r: raise Infeasible()
                for t, v in r:
                    g = t.frames[-1]
                    if ins.res is not None: g.env[ins.res] = v
                    g.i += 1
                    if t is not st: work.append(t)
                if not any(t is st for t, _ in r): return "STOP"
                return
            if ins.res is not None: env[ins.res] = r
            f.i += 1; return
        if op == "br":
            if len(ins.a) == 1: s.go(st, f, ins.a[0]); return
            c = s.val(st, f, ins.a[0], ir.INT(1))
            if c is UNDEF: s.prove(st, False, "uninitialised-read", "branch"); raise Infeasible()
            if not isinstance(c, bool): c = simp(c)
            if c is True: s.go(st, f, ins.a[1]); return
            if c is False: s.go(st, f, ins.a[2]); return
            ft = s.feasible(st, c)
            nc = not_(c)
            ff = s.feasible(st, nc) if ft else True
            if ft and ff:
                t = st.fork(); t.pc.append(nc); s.go(t, t.frames[-1], ins.a[2]); work.append(t)
                st.pc.append(c); s.go(st, f, ins.a[1]); return
            if ft: s.go(st, f, ins.a[1]); return
            st.pc.append(nc); s.go(st, f, ins.a[2]); return
        if op == "switch":
            v = s.val(st, f, ins.a[0], ins.ty)
            if isbool(v): v = ite(v, 1, 0)
            if not isz(v):
                for c, b in ins.a[2]:
                    if wrap(ins.ty.n, c) == v: s.go(st, f, b); return
                s.go(st, f, ins.a[1]); return
            alts = {}
            for c, b in ins.a[2]: alts.setdefault(b, []).append(wrap(ins.ty.n, c))
            opts = [(b, or_(*[eq(v, c) for c in cs])) for b, cs in alts.items()]
            opts.append((ins.a[1], and_(*[not_(eq(v, wrap(ins.ty.n, c))) for c, _ in ins.a[2]])))
            opts = [(b, c) for b, c in opts if s.feasible(st, c)]
            if not opts: raise Infeasible()
            for b, c in opts[1:]:
                t = st.fork(); s.assume(t, c); s.go(t, t.frames[-1], b); work.append(t)
            s.assume(st, opts[0][1]); s.go(st, f, opts[0][0]); return
        if op == "ret":
            v = None if ins.a[0] is None else s.val(st, f, ins.a[0], ins.ty)
            return s.do_ret(st, f, v, work)
        if op == "icmp":
            pred, a, b = ins.a
            a, b = s.val(st, f, a, ins.ty), s.val(st, f, b, ins.ty)
            if s.cmplog is not None: s.cmplog.append((a, b))
            env[ins.res] = s.icmp(st, pred, ins.ty, a, b); f.i += 1; return
        if op in ir.BINOPS:
            env[ins.res] = s.binop(st, op, ins.ty, s.val(st, f, ins.a[0], ins.ty), s.val(st, f, ins.a[1], ins.ty), ins.flags); f.i += 1; return
        if op in ir.CASTS:
            env[ins.res] = s.cast(st, op, ins.a[0], s.val(st, f, ins.a[1], ins.a[0]), ins.ty); f.i += 1; return
        if op == "alloca":
            t = ir.resolve(mod, ins.ty); size = ir.sizeof(mod, t)
            if ins.a[0] is not None and ins.a[0][1] != ("c", 1): raise Unsupported("variable alloca")
            if t.k == "array" and t.el.k == "int" and t.el.n == 8:
                o = Obj("bytes", "local", size); o.content = Content(Rope([Sl(UFSrc(ffun("uninit")), 0, size)]))
            else: o = Obj("cells", "local:" + (ins.ty.name or repr(ins.ty)), size)
            env[ins.res] = Ptr(s.new(st, o)); f.i += 1; return
        if op == "select":
            c, a, b = ins.a
            c = s.val(st, f, c, ir.INT(1)); x, y = s.val(st, f, a, ins.ty), s.val(st, f, b, ins.ty)
            if not isinstance(c, bool): c = simp(c)
            if isinstance(c, bool): env[ins.res] = x if c else y; f.i += 1; return
            if isbool(x) and isbool(y):
                env[ins.res] = or_(and_(c, x), and_(not_(c), y)); f.i += 1; return
            if isint(x) and isint(y): env[ins.res] = ite(c, x, y); f.i += 1; return
            if isinstance(x, OPtr) and isinstance(y, OPtr) and x.cls == y.cls: env[ins.res] = OPtr(ite(c, x.id, y.id), x.cls); f.i += 1; return
            if s.feasible(st, not_(c)):
                if s.feasible(st, c):
                    t = st.fork(); t.pc.append(not_(c)); g = t.frames[-1]; g.env[ins.res] = y; g.i += 1; work.append(t)
                else:
                    env[ins.res] = y; f.i += 1; return
            st.pc.append(c); env[ins.res] = x; f.i += 1; return
        if op == "freeze": env[ins.res] = s.val(st, f, ins.a[0], ins.ty); f.i += 1; return
        if op == "extractvalue":
            v = s.val(st, f, ins.a[0], ins.ty)
            for k in ins.a[1]: v = v.v[k] if isinstance(v, Agg) else s.agg_get(v, k)
            env[ins.res] = v; f.i += 1; return
        if op == "insertvalue":
            v = s.val(st, f, ins.a[0], ins.ty); t = ir.resolve(mod, ins.ty)
            v = Agg([UNDEF] * len(t.el)) if v is UNDEF else Agg(v.v)
            if len(ins.a[2]) != 1: raise Unsupported("nested insertvalue")
            v.v[ins.a[2][0]] = s.val(st, f, ins.a[1][1], ins.a[1][0]); env[ins.res] = v; f.i += 1; return
        if op == "unreachable":
            raise Infeasible()
        if op == "fcmp":
            a, b = s.val(st, f, ins.a[1], ins.ty), s.val(st, f, ins.a[2], ins.ty)
            env[ins.res] = s.tm_bool(Tm("fcmp", ins.a[0], a, b)); f.i += 1; return
        if op == "fneg": env[ins.res] = Tm("fneg", s.val(st, f, ins.a[0], ins.ty)); f.i += 1; return
        if op == "atomicrmw":
            k, d, v = ins.a; p = s.val(st, f, d, ir.PTR); old = s.load(st, p, ins.ty, mod); x = s.val(st, f, v, ins.ty)
            nv = wrap(ins.ty.n, add(old, x) if k == "add" else sub(old, x)) if k in ("add", "sub") else x
            s.store(st, p, nv, ir.sizeof(mod, ins.ty)); env[ins.res] = old; f.i += 1; return
        if op == "fence": f.i += 1; return
        raise Unsupported("instruction " + op)
    cmplog = None
    def agg_get(s, v, k): raise Unsupported("extractvalue of %r" % (v,))
    def do_ret(s, st, f, v, work):
        st.frames.pop()
        if f.onret is not None:
            r = f.onret(s, st, v)
            if r is not None:
                if isinstance(r, tuple) and r and r[0] == "V": v = r[1]
        if not st.frames or f.call is None:
            st.ret = v; return
        g = st.frames[-1]
        if f.call.res is not None: g.env[f.call.res] = v
        g.i += 1

class PDiff:
    __slots__ = ("p",)
    def __init__(s, p): s.p = p
    def key(s): return ("pdiff", vkey(s.p))
def _c(x): return x

class Call:
    """context handed to a contract"""
    __slots__ = ("ex", "st", "f", "ins", "a", "dem", "fn", "base", "result")
    def __init__(s, ex, st, f, ins, args, dem, fn): s.ex, s.st, s.f, s.ins, s.a, s.dem, s.fn = ex, st, f, ins, args, dem, fn
    def ev(s, *e): s.st.trace.append(tuple(e))
    def split(s, c):
        """list of (state, bool) for the feasible outcomes of c"""
        if not isinstance(c, bool): c = simp(c)
        if isinstance(c, bool): return [(s.st, c)]
        out = []
        if s.ex.feasible(s.st, not_(c)):
            if s.ex.feasible(s.st, c):
                t = s.st.fork(); t.pc.append(not_(c)); s.st.pc.append(c)
                return [(s.st, True), (t, False)]
            s.st.pc.append(not_(c)); return [(s.st, False)]
        return [(s.st, True)]
    def on(s, st): return Call(s.ex, st, st.frames[-1], s.ins, s.a, s.dem, s.fn)
    @property
    def mod(s): return s.f.fn.module
