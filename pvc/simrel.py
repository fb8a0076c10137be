"""Simulation-relation prover for byte-driven automata: a function that walks a buffer byte by byte (and may stop at the end of
the buffer, to be resumed with the next one) against a reference automaton.

The IR of the real function is executed between *cut points*.  A cut point is every place where the function asks whether the
buffer is exhausted after having consumed a byte; a state that returned to the caller because the buffer ended is a cut point
too (the next call starts there).  At every cut point (together with the reference state) an invariant is kept: for every field
and live register the set of terms (reference variables, current offset + k, differences, constants) it equals.  The invariants
start from everything that holds on the first arrival and are intersected with what holds on every further arrival until they
are inductive; then every step, for each of the 256 byte values (processed as sets of byte values), yields the obligations."""
import numpy as np, z3, time, os
from . import ir

class Undecided(Exception): pass
class Bad(Exception): pass
ALLB = (1 << 256) - 1
BV = np.arange(256)

class Lin:
    __slots__ = ("t", "c")
    def __init__(s, t, c): s.t, s.c = t, c          # t: frozenset of (sym, coef)
    def __eq__(s, o): return isinstance(o, Lin) and s.t == o.t and s.c == o.c
    def __hash__(s): return hash((s.t, s.c))
    def __repr__(s): return "+".join(["%s%s" % ("" if k == 1 else "-" if k == -1 else str(k) + "*", x) for x, k in sorted(s.t)] + ([str(s.c)] if s.c or not s.t else []))
    @property
    def const(s): return not s.t
def sym(x): return Lin(frozenset([(x, 1)]), 0)
def con(n): return Lin(frozenset(), n)
def lin(a, b, k=1):
    if not b.t: return Lin(a.t, a.c + k * b.c)
    d = dict(a.t)
    for x, n in b.t:
        d[x] = d.get(x, 0) + k * n
        if d[x] == 0: del d[x]
    return Lin(frozenset(d.items()), a.c + k * b.c)
def addl(a, b): return lin(a, b)
def subl(a, b): return lin(a, b, -1)
class Byt:
    """an integer that depends only on the byte being consumed"""
    __slots__ = ("v",)
    def __init__(s, v): s.v = v
class Cmp:
    """undecided comparison of two linear terms"""
    __slots__ = ("op", "a", "b")
    def __init__(s, op, a, b): s.op, s.a, s.b = op, a, b
class Top:
    def __repr__(s): return "?"
TOP = Top()

class Fr:
    __slots__ = ("fn", "blk", "i", "env", "prev", "call")
    def copy(s):
        f = Fr(); f.fn, f.blk, f.i, f.env, f.prev, f.call = s.fn, s.blk, s.i, dict(s.env), s.prev, s.call; return f
class St:
    __slots__ = ("frames", "mem", "mask", "facts", "read", "ev", "ret", "path", "na")
    def copy(s):
        t = St(); t.frames = [f.copy() for f in s.frames]; t.mem = dict(s.mem); t.mask = s.mask.copy(); t.facts = list(s.facts); t.read = s.read; t.ev = list(s.ev); t.ret = s.ret; t.path = s.path; t.na = s.na
        return t

class Sim:
    """ref: .vars (names of the reference variables), .start, .facts() -> list of (lin, op, lin)"""
    def __init__(s, mod, refvars, refdefaults=0):
        s.mod = mod; s.refvars = refvars; s.cache = {}; s.nq = 0; s.tsolver = 0; s.inl = {}
        s.extern = {}            # name -> handler(st, args) -> value
        s.obs = {}
        s.live_cache = {}
        s.strict = True
        s.layout = {}            # field offset -> name (for messages)
        s.z = {}; s.dbms = {}; s.ndbm = 0
    # ------------------------------------------------------------ arithmetic facts
    def zv(s, l):
        e = z3.IntVal(l.c)
        for x, k in l.t:
            if x not in s.z: s.z[x] = z3.Int(x)
            e = e + k * s.z[x]
        return e
    def rel(s, op, a, b):
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
    def basefacts(s):
        P, L, O = z3.Int("P"), z3.Int("L"), z3.Int("O")
        f = [P >= 0, P <= L, L >= 1, L < 1 << 31, O >= 0, O <= P, z3.Int("buf") > 0, z3.Int("buf") + L < 1 << 62]
        for v in s.refvars:
            x = z3.Int(v); f += [x >= 0, z3.Or(x < P, x == 0)]
        return f
    def proves(s, st, op, a, b):
        d = subl(a, b)
        if d.const: return bool({"eq": d.c == 0, "ne": d.c != 0, "lt": d.c < 0, "le": d.c <= 0, "gt": d.c > 0, "ge": d.c >= 0}[op])
        key = (op, d, tuple(st.facts), s.eqs)
        if key in s.cache: return s.cache[key]
        q = s.dbm(st, op, d)
        if q is not None: s.cache[key] = q; return q
        if os.environ.get("PVC_DEBUG"): print("Z3", op, d, st.facts)
        t0 = time.time(); sl = z3.Solver(); sl.set("timeout", 10000)
        for f in s.basefacts(): sl.add(f)
        for (o, x, y) in st.facts: sl.add(s.rel(o, s.zv(x), s.zv(y)))
        for (x, d_) in s.eqs: sl.add(z3.Int(x) == s.zv(d_))
        sl.add(z3.Not(s.rel(op, s.zv(a), s.zv(b))))
        r = sl.check() == z3.unsat
        s.nq += 1; s.tsolver += time.time() - t0; s.cache[key] = r
        return r
    @staticmethod
    def diff(d):
        """x - y + c -> (x, y, c); None if not of that shape ("" is zero)"""
        pos = [x for x, k in d.t if k == 1]; neg = [x for x, k in d.t if k == -1]
        if len(pos) + len(neg) != len(d.t) or len(pos) > 1 or len(neg) > 1: return None
        return (pos[0] if pos else "", neg[0] if neg else "", d.c)
    def dbm(s, st, op, d):
        """difference constraints: shortest paths; True when proved, False when the relation certainly is not entailed by them (None: ask Z3)"""
        q = s.diff(d)
        if q is None:
            # x - y - z + c <= 0 follows from x - z + c <= 0 when y >= 0 (all symbols are non-negative)
            if op in ("le", "lt") or op in ("ge", "gt"):
                dd = d if op in ("le", "lt") else lin(con(0), d, -1); oo = {"ge": "le", "gt": "lt"}.get(op, op)
                neg = [x for x, k_ in dd.t if k_ == -1]
                if len(dd.t) == 3 and len(neg) == 2:
                    for y in neg:
                        if y[0] not in "#@" and s.dbm(st, oo, addl(dd, sym(y))): return True
            return None
        k = (tuple(st.facts), s.eqs)
        D = s.dbms.get(k)
        if D is None:
            e = {}
            def le(x, y, c):          # x - y <= c
                if x != y and e.get((x, y), 1 << 62) > c: e[(x, y)] = c
            le("", "P", 0); le("P", "L", 0); le("", "L", -1); le("L", "", (1 << 31) - 1); le("", "O", 0); le("O", "P", 0); le("", "buf", -1)
            gone = {x for x, y in s.eqs if x not in ("P", "O") and y.const}; refs = [v for v in s.refvars if v not in gone]
            for v in refs: le("", v, 0); le(v, "P", 0)
            mx = max([y.c for x, y in s.eqs if x in gone] + [0])
            if mx: le("", "P", -mx - 1)
            for (o, a, b) in list(st.facts) + [("eq", sym(x), y) for x, y in s.eqs if x not in gone]:
                f = s.diff(subl(a, b))
                if f is None: return None
                x, y, c = f
                if o in ("le", "eq"): le(x, y, -c)
                if o == "lt": le(x, y, -c - 1)
                if o in ("ge", "eq"): le(y, x, c)
                if o == "gt": le(y, x, c - 1)
            ns = {z for p in e for z in p}
            def close():
                M = {a: dict() for a in ns}
                for (x, y), c in e.items(): M[x][y] = c
                for m in ns:
                    for a in ns:
                        if m in M[a]:
                            am = M[a][m]
                            for b, mb in M[m].items():
                                if am + mb < M[a].get(b, 1 << 62): M[a][b] = am + mb
                return M
            M = close(); ne = [s.diff(subl(a, b)) for o, a, b in st.facts if o == "ne"]
            for _ in range(3):
                n0 = dict(e)
                if M[""].get("P", 0) <= -1:
                    for v in refs: le(v, "P", -1)
                for f in ne:
                    if f is None: continue
                    x, y, c = f
                    if M.get(x, {}).get(y, 1 << 62) == -c: le(x, y, -c - 1)
                    if M.get(y, {}).get(x, 1 << 62) == c: le(y, x, c - 1)
                if e == n0: break
                M = close()
            D = s.dbms[k] = (M, any(M[a].get(a, 0) < 0 for a in ns))
        M, incon = D
        if incon: return True
        x, y, c = q
        up = M.get(x, {}).get(y); lo = M.get(y, {}).get(x)      # x-y <= up ; y-x <= lo
        hi = None if up is None else up + c; lw = None if lo is None else c - lo
        r = {"le": hi is not None and hi <= 0, "lt": hi is not None and hi < 0, "ge": lw is not None and lw >= 0, "gt": lw is not None and lw > 0,
             "eq": hi == 0 and lw == 0, "ne": (hi is not None and hi < 0) or (lw is not None and lw > 0)}[op]
        s.ndbm += 1
        return bool(r)
    NEG = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}
    # ------------------------------------------------------------ values
    def val(s, st, f, v, ty):
        k = v[0]
        if k == "l": return f.env[v[1]]
        if k == "c":
            c = v[1]
            if c is None: return con(0)
            if isinstance(c, bool): c = int(c)
            return con(int(c))
        if k == "g":
            if v[1] in s.mod.funcs: return ("fn", v[1])
            return sym("@" + v[1])
        if k in ("null", "zero"): return con(0)
        if k in ("undef", "poison"): return TOP
        raise Undecided("operand %r" % (v,))
    def isptr0(s, v): return isinstance(v, Lin) and v.const and v.c == 0
    def byt(s, v, w):
        if isinstance(v, Byt): return v.v
        if isinstance(v, Lin) and v.const: return np.full(256, v.c, dtype=object)
        return None
    def norm(s, v, st):
        if isinstance(v, Byt):
            x = v.v[st.mask]
            if len(x) and (x == x[0]).all(): return con(int(x[0]))
        return v
    def wrap(s, arr, w):
        m = 1 << w
        return np.array([((int(x) + (m >> 1)) % m) - (m >> 1) for x in arr], dtype=object)
    def binop(s, st, op, w, a, b):
        a, b = s.norm(a, st), s.norm(b, st)
        if isinstance(a, Lin) and isinstance(b, Lin):
            if op == "add": r = addl(a, b)
            elif op == "sub": r = subl(a, b)
            elif op == "or" and not a.t and not b.t: r = con(a.c | b.c)
            elif op == "and" and not a.t and not b.t: r = con(a.c & b.c)
            elif op == "xor" and not a.t and not b.t: r = con(a.c ^ b.c)
            elif op == "mul" and (not a.t or not b.t):
                if a.t: a, b = b, a
                r = Lin(frozenset((x, k * a.c) for x, k in b.t if a.c), b.c * a.c)
            elif op in ("shl", "lshr", "ashr", "urem", "udiv") and not a.t and not b.t and a.c >= 0 and b.c >= 0:
                r = con({"shl": lambda: a.c << b.c, "lshr": lambda: a.c >> b.c, "ashr": lambda: a.c >> b.c, "urem": lambda: a.c % b.c, "udiv": lambda: a.c // b.c}[op]())
            else: return TOP
            if not r.t and w > 1: r = con(int(s.wrap([r.c], w)[0]))
            return r
        x, y = s.byt(a, w), s.byt(b, w)
        if x is None or y is None: return TOP
        U = lambda v: v % (1 << w)
        fn = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q,
              "mul": lambda p, q: p * q, "shl": lambda p, q: U(p) << U(q), "lshr": lambda p, q: U(p) >> U(q), "ashr": lambda p, q: p >> U(q)}.get(op)
        if fn is None: return TOP
        r = np.array([fn(int(p), int(q)) for p, q in zip(x, y)], dtype=object)
        return Byt(r % 2 if w == 1 else s.wrap(r, w))
    def icmp(s, st, pred, w, a, b):
        a, b = s.norm(a, st), s.norm(b, st)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if pred in ("eq", "ne") and (s.isptr0(a) or s.isptr0(b)): return con(int(pred == "ne"))
            raise Undecided("comparison of function pointers")
        op = pred[1:] if pred[0] in "us" and pred not in ("eq",) and len(pred) == 3 else pred
        uns = pred[0] == "u" and len(pred) == 3
        if isinstance(a, Lin) and isinstance(b, Lin):
            if a.const and b.const:
                x, y = a.c, b.c
                if uns: x, y = x % (1 << w), y % (1 << w)
                return con(int(bool({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op])))
            if any(x[0] in "@#" for x, _ in a.t | b.t):
                d = subl(a, b)
                if not d.const and pred in ("eq", "ne") and (s.isptr0(a) or s.isptr0(b)): return con(int(pred == "ne"))
            if ("buf", 1) in a.t and ("buf", 1) in b.t: a, b = subl(a, sym("buf")), subl(b, sym("buf"))
            if uns and not (s.nonneg(st, a) and s.nonneg(st, b)): raise Undecided("unsigned comparison of a possibly negative value: %r %s %r facts %s eqs %s" % (a, pred, b, st.facts, s.eqs))
            if s.proves(st, op, a, b): return con(1)
            if s.proves(st, s.NEG[op], a, b): return con(0)
            return Cmp(op, a, b)
        x, y = s.byt(a, w), s.byt(b, w)
        if x is None or y is None: return TOP
        if uns: x, y = x % (1 << w), y % (1 << w)
        return Byt(np.array([int(bool({"eq": p == q, "ne": p != q, "lt": p < q, "le": p <= q, "gt": p > q, "ge": p >= q}[op])) for p, q in zip(x, y)], dtype=object))
    def nonneg(s, st, a): return s.proves(st, "ge", a, con(0))
    # ------------------------------------------------------------ memory
    def load(s, st, p, ty):
        n = ir.sizeof(s.mod, ty)
        if isinstance(p, Byt): raise Undecided("address depends on the byte")
        if isinstance(p, tuple) and p[0] == "gbyt":      # constant table indexed by the byte
            arr = p[1]; r = []
            for b in range(256):
                o = int(p[2][b])
                r.append(arr.get(o, 0))
                if st.mask[b] and o not in arr: raise Bad("read outside a constant table")
            return Byt(np.array(r, dtype=object))
        if not isinstance(p, Lin): raise Undecided("load through an unknown pointer")
        d = subl(p, sym("buf"))
        if not any(x == "buf" for x, _ in d.t):
            if n != 1: raise Undecided("multi-byte read of the buffer")
            k = subl(d, s.P)
            if not k.const:
                if s.proves(st, "eq", d, sym("L")): return con(0)
                raise Undecided("read of the buffer away from the current position (%r)" % (d,))
            if k.c == 0:
                if s.proves(st, "lt", d, sym("L")): st.read = True; return Byt(np.array([b - 256 if b > 127 else b for b in range(256)], dtype=object))
                if s.proves(st, "eq", d, sym("L")): return con(0)
                raise Bad("read at offset %r, which may lie past the received bytes" % (d,))
            if s.proves(st, "eq", d, sym("L")): return con(0)
            raise Bad("read at offset %r while the current byte is at P" % (d,)) if k.c > 0 else Undecided("look-behind")
        for x, _ in p.t:
            if x.startswith("@"):
                g = s.mod.globals.get(x[1:])
                if g is not None and g.const and len(p.t) == 1:
                    arr = s.table(g, n)
                    if p.c in arr: return con(arr[p.c])
                raise Undecided("load of global " + x)
        key = (p, n)
        if key in st.mem: return st.mem[key]
        for (q, m) in st.mem:
            d = subl(p, q)
            if d.const and -n < d.c < m: raise Undecided("access of another width at %r" % (p,))
        return TOP
    def table(s, g, n):
        out = {}
        t = ir.resolve(s.mod, g.ty)
        if t.k != "array" or g.init is None: return out
        es = ir.sizeof(s.mod, t.el)
        if es != n: return out
        if g.init[0] == "str":
            for i, b in enumerate(g.init[1]): out[i] = b - 256 if b > 127 else b
        elif g.init[0] == "zero":
            for i in range(t.n): out[i * es] = 0
        elif g.init[0] == "agg":
            for i, (_, e) in enumerate(g.init[1]):
                if e[0] == "c": out[i * es] = int(e[1])
        return out
    def store(s, st, p, v, n):
        if not isinstance(p, Lin): raise Undecided("store through an unknown pointer")
        if any(x == "buf" for x, _ in p.t): raise Bad("write into the received bytes")
        if any(x.startswith("@") for x, _ in p.t): raise Undecided("store to a global")
        for (q, m) in list(st.mem):
            d = subl(p, q)
            if d.const and -n < d.c < m and not (d.c == 0 and m == n): raise Undecided("access of another width at %r" % (p,))
        st.mem[(p, n)] = s.norm(v, st)
    def gep(s, st, ty, ops, f):
        base = s.val(st, f, ops[0][1], ir.PTR)
        off = con(0); cur = ty
        for j, (t, v) in enumerate(ops[1:]):
            x = s.norm(s.val(st, f, v, t), st)
            if j == 0: sz = ir.sizeof(s.mod, cur)
            else:
                r = ir.resolve(s.mod, cur)
                if r.k == "struct":
                    off = addl(off, con(ir.offsets(s.mod, r)[x.c])); cur = r.el[x.c]; continue
                cur = r.el; sz = ir.sizeof(s.mod, cur)
            if isinstance(x, Byt):
                if isinstance(base, Lin) and len(base.t) == 1 and off.const:
                    g = s.mod.globals.get(next(iter(base.t))[0][1:])
                    if g is not None and g.const: return ("gbyt", s.table(g, sz), [int(q) * sz + off.c + base.c for q in x.v])
                raise Undecided("address depends on the byte")
            if not isinstance(x, Lin): raise Undecided("unknown index")
            off = addl(off, s.binop(st, "mul", 64, x, con(sz)))
        if not isinstance(base, Lin): raise Undecided("address arithmetic on an unknown pointer")
        return addl(base, off)
    # ------------------------------------------------------------ liveness
    def live(s, fn, blk, i):
        """registers live before instruction i of blk"""
        if fn not in s.live_cache:
            use, de = {}, {}
            def vals(ins):
                out = set()
                def w(x):
                    if isinstance(x, tuple):
                        if len(x) == 2 and x[0] == "l" and isinstance(x[1], str): out.add(x[1]); return
                        for y in x: w(y)
                    elif isinstance(x, list):
                        for y in x: w(y)
                w(ins.a); return out
            li = {b: set() for b in fn.blocks}; ch = True
            s.live_cache[fn] = (li, vals)
            while ch:
                ch = False
                for bn, b in reversed(list(fn.blocks.items())):
                    o = set()
                    for sc in ir.succs(b):
                        sb = fn.blocks[sc]
                        o |= li[sc]
                        for ph in sb.phis:
                            for (pb, v) in ph.a:
                                if pb == bn and v[0] == "l": o.add(v[1])
                    for ins in reversed(b.insts):
                        if ins.res is not None: o.discard(ins.res)
                        o |= vals(ins)
                    for ph in b.phis: o.discard(ph.res)
                    if o != li[bn]: li[bn] = o; ch = True
        li, vals = s.live_cache[fn]; o = set()
        for sc in ir.succs(blk):
            o |= li[sc]
            for ph in fn.blocks[sc].phis:
                for (pb, v) in ph.a:
                    if pb == blk.name and v[0] == "l": o.add(v[1])
        for ins in reversed(blk.insts[i:]):
            if ins.res is not None: o.discard(ins.res)
            o |= vals(ins)
        return o
    # ------------------------------------------------------------ execution
    def call_state(s, fn, args, mem):
        st = St(); st.frames = []; st.mem = dict(mem); st.mask = np.ones(256, dtype=bool); st.facts = []; st.read = False; st.ev = []; st.ret = None; st.path = 0; st.na = 0
        s.push(st, fn, args, None); return st
    def push(s, st, fn, args, ins):
        f = Fr(); f.fn = fn; f.blk = fn.entry; f.i = 0; f.prev = None; f.call = ins; f.env = {p[0]: a for p, a in zip(fn.params, args)}
        st.frames.append(f); s.inl[fn.dem] = s.inl.get(fn.dem, 0) + 1
        if len(st.frames) > 20: raise Undecided("call depth")
    def jump(s, st, f, to):
        b = f.fn.blocks[to]; vals = []
        for ph in b.phis:
            v = next((v for pb, v in ph.a if pb == f.blk.name), None)
            vals.append((ph.res, s.val(st, f, v, ph.ty)))
        for r, v in vals: f.env[r] = v
        f.prev = f.blk; f.blk = b; f.i = 0; st.path += 1
        if st.path > 3000: raise Undecided("no cut point on a loop")
    def run(s, st):
        """-> list of (kind, state): kind "ret" or "cut" """
        work = [st]; out = []
        while work:
            st = work.pop()
            try: k = s.steps(st, work)
            except Bad as e: out.append(("bad", st, str(e))); continue
            if k is not None: out.append((k, st, None))
        return out
    def fork(s, st, cond, work, cont):
        """cont(state, truth): continue"""
        cond = s.norm(cond, st)
        if isinstance(cond, Lin) and cond.const: cont(st, cond.c & 1); return None
        if isinstance(cond, Byt):
            m = np.array([int(x) & 1 for x in cond.v], dtype=bool)
            a, b = st.mask & m, st.mask & ~m
            if not a.any(): cont(st, 0); return None
            if not b.any(): cont(st, 1); return None
            t = st.copy(); t.mask = b; st.mask = a; cont(st, 1); cont(t, 0); work.append(t); return None
        if isinstance(cond, Cmp):
            for tr, o in ((1, cond.op), (0, s.NEG[cond.op])):
                if s.proves(st, o, cond.a, cond.b): cont(st, tr); return None
            if any(x == "L" for x, _ in subl(cond.a, cond.b).t) and st.read: return "cut"
            t = st.copy(); st.facts.append((cond.op, cond.a, cond.b)); t.facts.append((s.NEG[cond.op], cond.a, cond.b))
            cont(st, 1); cont(t, 0); work.append(t); return None
        raise Undecided("branch on an unknown value")
    def steps(s, st, work):
        while True:
            f = st.frames[-1]; ins = f.blk.insts[f.i]; op = ins.op
            if op == "br":
                if len(ins.a) == 1: s.jump(st, f, ins.a[0]); continue
                c = s.val(st, f, ins.a[0], ir.INT(1))
                r = s.fork(st, c, work, lambda t, tr: s.jump(t, t.frames[-1], ins.a[1] if tr else ins.a[2]))
                if r: return r
                continue
            if op == "switch":
                v = s.norm(s.val(st, f, ins.a[0], ins.ty), st)
                if isinstance(v, Lin) and v.const:
                    s.jump(st, f, next((l for c, l in ins.a[2] if int(c) == v.c), ins.a[1])); continue
                if isinstance(v, Byt):
                    groups = {}
                    for b in range(256):
                        if st.mask[b]: groups.setdefault(next((l for c, l in ins.a[2] if int(c) == int(v.v[b])), ins.a[1]), []).append(b)
                    items = list(groups.items())
                    for l, bs in items[1:]:
                        t = st.copy(); t.mask = np.zeros(256, dtype=bool); t.mask[bs] = True; s.jump(t, t.frames[-1], l); work.append(t)
                    m = np.zeros(256, dtype=bool); m[items[0][1]] = True; st.mask = m; s.jump(st, f, items[0][0]); continue
                raise Undecided("switch on an unknown value")
            if op == "ret":
                v = None if ins.a[0] is None else s.val(st, f, ins.a[0], ins.ty)
                st.frames.pop()
                if not st.frames: st.ret = v; return "ret"
                g = st.frames[-1]
                if f.call is not None and f.call.res is not None: g.env[f.call.res] = v
                g.i += 1; continue
            if op == "unreachable": raise Bad("unreachable point reached")
            if op == "icmp":
                ty = ins.ty; w = 64 if ty.k == "ptr" else ty.n
                f.env[ins.res] = s.icmp(st, ins.a[0], w, s.val(st, f, ins.a[1], ty), s.val(st, f, ins.a[2], ty)); f.i += 1; continue
            if op in ir.BINOPS:
                f.env[ins.res] = s.binop(st, op, ins.ty.n, s.val(st, f, ins.a[0], ins.ty), s.val(st, f, ins.a[1], ins.ty)); f.i += 1; continue
            if op in ir.CASTS:
                v = s.norm(s.val(st, f, ins.a[1], ins.a[0]), st); src, dst = ins.a[0], ins.ty
                if isinstance(v, Cmp):
                    r = s.fork(st, v, work, lambda t, tr: t.frames[-1].env.__setitem__(ins.res, con(tr if op == "zext" else -tr)) or setattr(t.frames[-1], "i", t.frames[-1].i + 1))
                    if r: raise Undecided("end of buffer comparison used as a value")
                    continue
                if op in ("ptrtoint", "inttoptr", "bitcast"): r = v
                elif isinstance(v, Lin):
                    if v.const:
                        if op == "trunc": r = con(int(s.wrap([v.c], dst.n)[0])) if dst.n > 1 else con(v.c & 1)
                        elif op == "zext": r = con(v.c % (1 << src.n))
                        else: r = v if src.n > 1 else con(-(v.c & 1))
                    elif op == "trunc":
                        r = v if dst.n >= 32 and s.proves(st, "ge", v, con(0)) and s.proves(st, "lt", v, con(1 << 31)) else TOP
                    elif op == "zext": r = v if s.nonneg(st, v) else TOP
                    else: r = v
                elif isinstance(v, Byt):
                    if op == "trunc": r = Byt(s.wrap(v.v, dst.n)) if dst.n > 1 else Byt(v.v % 2)
                    elif op == "zext": r = Byt(v.v % (1 << src.n))
                    else: r = v if src.n > 1 else Byt(-(v.v % 2))
                else: r = v
                f.env[ins.res] = r; f.i += 1; continue
            if op == "select":
                c = s.norm(s.val(st, f, ins.a[0], ir.INT(1)), st); a, b = s.val(st, f, ins.a[1], ins.ty), s.val(st, f, ins.a[2], ins.ty)
                if isinstance(c, Lin) and c.const: f.env[ins.res] = a if c.c & 1 else b; f.i += 1; continue
                if a is b or (isinstance(a, Lin) and a == b): f.env[ins.res] = a; f.i += 1; continue
                if isinstance(a, Lin) and isinstance(b, Lin) and a.const and b.const and ins.ty.k == "int" and ins.ty.n == 1 and isinstance(c, (Cmp, Byt)):
                    if isinstance(c, Cmp): f.env[ins.res] = c if a.c & 1 else Cmp(s.NEG[c.op], c.a, c.b)
                    else: f.env[ins.res] = c if a.c & 1 else Byt(1 - c.v % 2)
                    f.i += 1; continue
                def cont(t, tr): g = t.frames[-1]; g.env[ins.res] = a if tr else b; g.i += 1
                r = s.fork(st, c, work, cont)
                if r: return r
                continue
            if op == "load":
                f.env[ins.res] = s.load(st, s.val(st, f, ins.a[0], ir.PTR), ins.ty); f.i += 1; continue
            if op == "store":
                s.store(st, s.val(st, f, ins.a[1], ir.PTR), s.val(st, f, ins.a[0], ins.ty), ir.sizeof(s.mod, ins.ty)); f.i += 1; continue
            if op == "getelementptr":
                f.env[ins.res] = s.gep(st, ins.ty, ins.a, f); f.i += 1; continue
            if op == "alloca":
                st.na += 1; f.env[ins.res] = sym("#%s.%s" % (f.fn.name, ins.res)); f.i += 1; continue
            if op == "freeze": f.env[ins.res] = s.val(st, f, ins.a[0], ins.ty); f.i += 1; continue
            if op == "call":
                cal = s.val(st, f, ins.a[0], ir.PTR); args = [s.val(st, f, a[1], a[0]) if a[1] is not None else None for a in ins.a[1]]
                if isinstance(cal, tuple) and cal[0] == "fn":
                    nm = cal[1]; fn = s.mod.funcs[nm]
                    if nm.startswith("llvm.dbg") or nm.startswith("llvm.lifetime"): f.i += 1; continue
                    if nm == "__assert_fail": raise Bad("assertion may fail (line %s)" % (args[2],))
                    if nm in s.extern: f.env[ins.res or "_"] = s.extern[nm](s, st, args); f.i += 1; continue
                    if fn.defined: s.push(st, fn, args, ins); continue
                    raise Undecided("call of %s" % fn.dem)
                if isinstance(cal, Lin) and len(cal.t) == 1 and cal.c == 0:
                    x = next(iter(cal.t))[0]
                    if x in s.extern: f.env[ins.res or "_"] = s.extern[x](s, st, args); f.i += 1; continue
                raise Undecided("indirect call")
            raise Undecided("instruction " + op)
    # ------------------------------------------------------------ relation
    def cands(s, v, newdefs):
        """terms over the new symbols that equal v (over the old ones)"""
        if isinstance(v, tuple): return frozenset([v])
        if isinstance(v, Cmp): return frozenset(("cmp", v.op, a, b) for a in s.cands(v.a, newdefs) for b in s.cands(v.b, newdefs))
        if not isinstance(v, Lin): return frozenset()
        out = set()
        if v.const: out.add(v)
        isbuf = ("buf", 1) in v.t; w = subl(v, sym("buf")) if isbuf else v
        add = lambda t: out.add(addl(t, sym("buf")) if isbuf else t)
        ix = newdefs.get("#ix")
        if ix is None:
            by, pr = {}, {}
            for n, d in newdefs.items(): by.setdefault(d, []).append(sym(n))
            for a, b in s.pairs: pr.setdefault(subl(newdefs[a], newdefs[b]), []).append(subl(sym(a), sym(b)))
            ix = newdefs["#ix"] = (by, pr)
        for t in ix[0].get(w, ()): add(t)
        for n in ("P", "O"):
            x = subl(w, newdefs[n])
            if x.const and x.c: add(Lin(frozenset([(n, 1)]), x.c))
        if not isbuf: out.update(ix[1].get(v, ()))
        if not v.const and all(x in ("buf", "L", "par") or x in s.persist for x, _ in v.t): out.add(v)
        return frozenset(out)
    pairs = ()
    def bound(s, st, v, newP):
        """markers: 0 <= v < new position"""
        if not isinstance(v, Lin): return frozenset()
        if v.const: return frozenset([("below",)]) if v.c >= 0 and s.proves(st, "lt", v, newP) else frozenset()
        if len(v.t) == 1 and v.c == 0 and next(iter(v.t))[0] in s.refvars: return frozenset([("below",)])
        if any(x in ("buf", "par") or x[0] in "#@" for x, _ in v.t): return frozenset()
        if len(v.t) == 2 and s.diff(v) and v.c == 0: return frozenset([("below",)]) if s.proves(st, "ge", v, con(0)) and s.proves(st, "lt", sym(s.diff(v)[0]), newP) else frozenset()
        return frozenset([("below",)]) if s.proves(st, "ge", v, con(0)) and s.proves(st, "lt", v, newP) else frozenset()
    persist = (); eqs = ()
    def subst(s, v, m):
        if isinstance(v, tuple) and v[0] == "cmp": return Cmp(v[1], s.subst(v[2], m), s.subst(v[3], m))
        if not isinstance(v, Lin): return v
        r = con(v.c)
        for x, k in v.t:
            for _ in range(abs(k)): r = lin(r, m.get(x, sym(x)), 1 if k > 0 else -1)
        return r
    def same(s, st, a, b): return isinstance(a, Lin) and isinstance(b, Lin) and (a == b or s.proves(st, "eq", a, b))
    def pick(s, c):
        """representative: reference variable first"""
        if ("below",) in c: c = c - {("below",)}
        if not c: return TOP
        def rank(t):
            if isinstance(t, tuple): return (0, sum(10 * rank(x)[0] for x in t[2:]), repr(t)) if t[0] == "cmp" else (0, 0, repr(t))
            names = [x for x, _ in t.t if x != "buf"]; refs = [x for x in names if x in s.refvars or x == "O"]
            if refs and t.c == 0: return (0, len(names), repr(t))
            if "P" in names: return (1, len(names), repr(t))
            if not refs and names: return (2, 0, repr(t))
            if refs: return (3, len(names), repr(t))
            return (4, 0, repr(t))
        return min(c, key=rank)
