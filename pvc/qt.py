"""Assumed contracts of the Qt classes pillow uses (Qt 5.15), and the value model behind them.

BA     value of a QByteArray cell: 'own' (heap storage object), 'raw' (view of foreign storage), 'pure' (immutable value)
Vec    value of a QVector/QList/QVarLengthArray cell: reference to an 'elems' object
Tm     value of any other value class (QString, QUrl, ...): structural term; pure member functions are uninterpreted"""
import re, z3
from .terms import *
from .engine import *
from . import ir

class BA:
    __slots__ = ("k", "oid", "off", "n", "cap", "rope", "null")
    def __init__(s, k, oid=None, off=0, n=0, cap=0, rope=None, null=False): s.k, s.oid, s.off, s.n, s.cap, s.rope, s.null = k, oid, off, n, cap, rope, null
    def key(s):
        if s.k == "pure": return ("ba", s.rope.key(), vkey(s.null))
        return ("ba", s.k, s.oid, vkey(s.off), vkey(s.n), vkey(s.cap))
    def __repr__(s): return "BA:%r" % (s.rope,) if s.k == "pure" else "BA:%s(o%s+%s,n=%s,cap=%s)" % (s.k, s.oid, s.off, s.n, s.cap)
    def len(s): return s.rope.len() if s.k == "pure" else s.n
    def part(s, p): return {"n": s.len(), "cap": s.cap if s.k == "own" else (0 if s.k == "raw" else None)}.get(p)
    def havoc(s, ex, hs, key, sym):
        st = hs.state
        n = sym(key, "n", s.len(), "n", None, 0)
        c0 = s.cap if s.k == "own" else fint("cap")
        cap = sym(key, "cap", c0, "cap", None, 0); st.pc.append(Z(cap) >= Z(n)); st.pc.append(Z(cap) <= 2147483646)
        o = Obj("bytes", "bytearray", add(cap, 1)); o.content = Content(Rope([Sl(UFSrc(ffun("ba")), 0, n)])); o.shared = "maybe"
        hs.structs.append(key)
        return BA("own", ex.new(st, o), 0, n, cap)

class Vec:
    __slots__ = ("oid", "el")
    def __init__(s, oid, el): s.oid, s.el = oid, el
    def key(s): return ("vec", s.oid)
    def __repr__(s): return "Vec(o%s)" % s.oid
    def havoc(s, ex, hs, key, sym):
        st = hs.state; o = st.mem[s.oid]
        n = sym(key, "vn", o.n, "vn", None, 0)
        q = Obj("elems", o.name); q.stride = o.stride; q.n = n; q.cls = o.cls; q.shared = "maybe"; q.data = o.data
        from .loops import arb_elem
        q.base = arb_elem(o.cls)
        hs.structs.append(key)
        return Vec(ex.new(st, q), s.el)

EMPTY_BA = lambda null=True: BA("pure", rope=Rope(), null=null)
class Shift:
    """elements of a list without the first ones"""
    def __init__(s, base): s.of, s.by = (base.of, base.by + 1) if isinstance(base, Shift) else (base, 1)
    def __call__(s, ex, st, idx, off, t, size): return s.of(ex, st, add(idx, s.by), off, t, size)

def number_rope(ex, st, n, base=10, bits=32):
    """canonical numeral of n"""
    if not isz(n):
        d = "0123456789abcdef"; a = abs(n); t = ""
        while True:
            t = d[a % base] + t; a //= base
            if a == 0: break
        return rlit(("-" if n < 0 else "") + t)
    i = ex.tm_id(Tm("numeral", n, base)); st.pc += [blen(i) >= 1, blen(i) <= 40]
    return ratom(i)
def pure(rope, null=False): return BA("pure", rope=rope, null=null)

# ---- pure functions of byte strings, by identity
ci_eq = z3.Function("ci_eq", IntSort(), IntSort(), BoolSort())    # equal length, equal up to ASCII case
bs_eq = z3.Function("bs_eq", IntSort(), IntSort(), BoolSort())

numv = z3.Function("numv", IntSort(), IntSort(), IntSort(), IntSort()); numok = z3.Function("numok", IntSort(), IntSort(), IntSort(), BoolSort())
def number_at(st, bits, i, base=10):
    """value and success of parsing byte string i as a number"""
    v, ok = numv(IntVal(bits), Z(base), Z(i)), numok(IntVal(bits), Z(base), Z(i))
    st.pc += [v >= -(1 << (bits - 1)), v < 1 << (bits - 1), z3.Implies(Not(ok), v == 0)]
    return v, ok
def number_of(ex, st, bits, r, base=10): return number_at(st, bits, ex.rope_id(st, r), base)

class QEx(Ex):
    def __init__(s, modules, unit="unit"):
        Ex.__init__(s, modules, unit)
        s.schemas = dict(SCHEMAS)
        s.litids = {}
        s.strmat = {}
        install(s)
        from .qt2 import install2; install2(s)
    # ---- identities of ropes
    def rope_id(s, st, rope):
        """integer identity of a byte string: equal key -> equal id; literals are distinct"""
        if len(rope.p) == 1 and isinstance(rope.p[0], Sl) and isinstance(rope.p[0].src, AtomSrc) and eq(rope.p[0].off, 0) is True and eq(rope.p[0].n, blen(Z(rope.p[0].src.id))) is True:
            return rope.p[0].src.id
        l = rope.lit()
        k = ("rid", rope.key())
        if k not in s.tms:
            if l is not None: s.tms[k] = IntVal(-1000 - len(s.litids)); s.litids[l] = s.tms[k]
            else: s.tms[k] = fint("bs")
        i = s.tms[k]
        return i
    def pure_atom(s, i): return pure(ratom(i))
    def ba_rope(s, st, v):
        if v.k == "pure": return v.rope
        o = st.mem[v.oid]
        if o.freed: s.prove(st, False, "use-after-free", "byte array over released storage %s" % o.name)
        return s.slice(st, o.content, v.off, v.n)
    # ---- cells holding class values
    def vget(s, st, p):
        p = s.nonnull(st, p)
        if isinstance(p, OPtr): return s.opaque_value(st, p)
        o = st.mem[p.oid]
        if o.freed: s.prove(st, False, "use-after-free", "value in released object %s" % o.name)
        if o.kind == "elems":
            s.prove(st, and_(le(0, p.idx), lt(p.idx, o.n)), "bounds-read", "element %s of %s (count %s)" % (p.idx, o.name, o.n))
            v = s.elem_value(st, o, p.idx, p.off, ir.PTR, 8)
            return v
        c = o.cells.get(p.off)
        if c is not None: return c[1]
        if o.lazy is not None and o.lazy != "external":
            v = o.lazy(s, st, p.oid, p.off, ir.PTR, 8)
            if v is not None:
                st.w(p.oid).cells[p.off] = (8, v); return v
        if o.lazy == "external": return Tm("external", o.name, p.off)
        raise Unsupported("no value at %s+%s" % (o.name, p.off))
    def vset(s, st, p, v, size=8):
        p = s.nonnull(st, p)
        if isinstance(p, OPtr): raise Unsupported("value stored in opaque object")
        o = st.mem[p.oid]
        if o.freed: s.prove(st, False, "use-after-free", "store to released object")
        o = st.w(p.oid)
        if o.kind == "elems":
            s.prove(st, and_(le(0, p.idx), lt(p.idx, o.n)), "bounds-write", "element %s of %s (count %s)" % (p.idx, o.name, o.n))
            if o.shared: s.prove(st, False, "write-to-shared", o.name)
            o.log = o.log + ((p.idx, p.off, size, v),)
        else:
            for k in [k for k, (cs, _) in o.cells.items() if p.off < k < p.off + size]: del o.cells[k]
            o.cells[p.off] = (size, v)
    def opaque_value(s, st, p): return Tm("deref", p)
    def bget(s, st, p):
        v = s.vget(st, p)
        if isinstance(v, BA): return v
        if isinstance(v, Tm): return pure(ratom(s.tm_atom(st, v)))
        raise Unsupported("QByteArray expected at %r, found %r" % (p, v))
    def tm_atom(s, st, tm):
        i = s.tm_id(tm); c = blen(i) >= 0
        st.pc.append(c); return i
    def copy_of(s, st, v):
        """value of a copied class object"""
        if isinstance(v, BA) and v.k == "own": st.w(v.oid).shared = "maybe"
        if isinstance(v, Vec): st.w(v.oid).shared = "maybe"
        return v
    def release(s, st, v):
        if isinstance(v, BA) and v.k == "own" and st.mem[v.oid].shared is False: st.w(v.oid).freed = True
        if isinstance(v, Vec) and st.mem[v.oid].shared is False: st.w(v.oid).freed = True
    # ---- storage
    def own(s, st, rope, cap=None, n=None, name="bytearray"):
        n = rope.len() if n is None else n
        if cap is None:
            cap = fint("cap"); st.pc.append(cap >= Z(n)); st.pc.append(cap <= 2147483646)
        o = Obj("bytes", name, add(cap, 1)); o.content = Content(rope)
        return BA("own", s.new(st, o), 0, n, cap)
    def concretise(s, st, p):
        """cell value with explicit storage (for capacity/data_ptr); 'pure' values get storage of unknown capacity, possibly shared"""
        v = s.bget(st, p)
        if v.k != "pure": return v
        if v.rope.lit() == b"" and v.null is True: return v
        w = s.own(st, v.rope); st.w(w.oid).shared = "maybe"; s.vset(st, p, w); return w
    def unshared_versions(s, st, v):
        """[(state, bool unshared)] for an own byte array"""
        sh = st.mem[v.oid].shared
        if sh is False: return [(st, True)]
        b = fbool("unshared"); t = st.fork()
        st.pc.append(b); t.pc.append(Not(b)); st.w(v.oid).shared = False
        return [(st, True), (t, False)]
    def detach(s, st, p, cap=None):
        """all states after QByteArray::detach() on the cell: [(state, BA own unshared)]"""
        v = s.bget(st, p); out = []
        if v.k == "pure":
            v = s.concretise(st, p)
        if v.k == "own":
            for t, u in s.unshared_versions(st, v):
                if u: out.append((t, v))
                else:
                    # reallocData(size + 1): no spare room is guaranteed
                    w = s.own(t, s.ba_rope(t, v), None); t.pc.append(Z(w.cap) == Z(v.n)) if cap is None else None
                    s.vset(t, p, w); out.append((t, w))
            return out
        if v.k == "raw" or v.k == "pure":
            r = s.ba_rope(st, v) if v.k == "raw" else Rope()
            n = r.len()
            w = s.own(st, r, n if cap is None else cap); s.vset(st, p, w); return [(st, w)]
        raise Unsupported("detach")
    def const_data(s, st, v):
        """pointer to constant bytes of a value (NUL terminated for owned storage)"""
        if v.k == "pure":
            k = v.rope.key()
            oid = st.g.get(("_mat", k))
            if oid is None or oid not in st.mem:
                o = Obj("bytes", "constbytes", add(v.rope.len(), 1)); o.content = Content(v.rope + rlit(b"\0")); o.const = True
                oid = s.new(st, o); st.g[("_mat", k)] = oid
            return Ptr(oid)
        if v.k == "own":
            o = st.mem[v.oid]
            # the terminator
            o2 = st.w(v.oid)
            if not o.content.over and eq(o.content.base.len(), v.n) is True: o2.content = Content(o.content.base, ((v.n, 1, rlit(b"\0")),))
            return Ptr(v.oid, v.off)
        return Ptr(v.oid, v.off)
    def rope_at(s, st, p, n):
        """bytes [p, p+n) as a rope, with the bounds obligation"""
        if not isz(n) and n == 0: return Rope()
        if isinstance(p, Ptr) and p.oid is None:
            if s.holds(st, le(n, 0)): return Rope()
        p = s.nonnull(st, p)
        if isinstance(p, OPtr): raise Unsupported("bytes of an opaque object")
        o = st.mem[p.oid]
        if o.freed: s.prove(st, False, "use-after-free", o.name)
        if o.kind != "bytes":
            if not isz(n) and all((p.off + i) in o.cells for i in range(n)):
                return Rope([x for i in range(n) for x in rbyte(o.cells[p.off + i][1]).p])
            raise Unsupported("bytes of %s" % o.name)
        s.prove(st, and_(le(0, n), le(0, p.off), le(add(p.off, n), o.size)), "bounds-read", "%s bytes at %s of %s (size %s)" % (n, p.off, o.name, o.size))
        return s.slice(st, o.content, p.off, n)
    def cstr(s, st, p):
        """NUL terminated string at p"""
        if isinstance(p, Ptr) and p.oid is None: return None
        p = s.nonnull(st, p)
        if isinstance(p, OPtr):
            t = Tm("cstr", p); return ratom(s.tm_atom(st, t))
        o = st.mem[p.oid]
        if isinstance(o.data, dict) and "cstr" in o.data and not isz(p.off) and p.off == 0: return o.data["cstr"](s, st, p)
        if o.kind == "bytes" and not o.content.over:
            l = o.content.base.lit()
            if l is not None and not isz(p.off):
                z = l.find(b"\0", p.off)
                if z < 0: s.prove(st, False, "bounds-read", "unterminated string"); raise Infeasible()
                return rlit(l[p.off:z])
            if o.name == "constbytes" and not isz(p.off) and p.off == 0:
                # string length: first NUL inside a byte array: equal to the array if it holds no NUL
                r = Rope(o.content.base.p)
                return s.cstr_of(st, r)
        if o.data and isinstance(o.data, dict) and "cstr" in o.data: return o.data["cstr"](s, st, p)
        raise Unsupported("C string at %s+%s" % (o.name, p.off))
    def cstr_of(s, st, r): raise Unsupported("C string of symbolic byte array")
    # ---- loop slots
    def is_rope_slot(s, st, key):
        from .loops import slot_get
        return key[0] == "bytes" or isinstance(slot_get(st, key), BA)
    def slot_rope(s, st, key):
        from .loops import slot_get
        v = slot_get(st, key)
        if key[0] == "bytes": return s.slice(st, v, 0, v.base.len()) if v.over else v.base
        return s.ba_rope(st, v)
    def set_slot_rope(s, st, key, rope, hs):
        from .loops import slot_get, slot_set
        if key[0] == "bytes": st.w(key[1]).content = Content(rope); return
        v = slot_get(st, key); n = rope.len()
        st.pc.append(Z(v.n) == Z(n))
        o = st.w(v.oid); o.content = Content(rope)
        slot_set(st, key, BA("own", v.oid, 0, n, v.cap))
    def slot_unshared(s, st, key):
        from .loops import slot_get
        if key[0] == "bytes": return False
        v = slot_get(st, key)
        return isinstance(v, BA) and v.k == "own" and st.mem[v.oid].shared is False
    def set_slot_unshared(s, st, key):
        from .loops import slot_get
        st.w(slot_get(st, key).oid).shared = False
    def is_list_slot(s, st, key):
        from .loops import slot_get
        return key[0] == "elems" or isinstance(slot_get(st, key), Vec)
    def slot_list(s, st, key):
        from .loops import slot_get
        oid = key[1] if key[0] == "elems" else slot_get(st, key).oid
        return s.list_pieces(st, oid)
    def list_pieces(s, st, oid):
        o = st.mem[oid]
        if o.log: return None
        if o.apps is None:
            if not isz(o.n) and o.n == 0: return ()
            return (("base", o.base, o.n),)
        n0, ps = o.apps
        return (() if (not isz(n0) and n0 == 0) else (("base", o.base, n0),)) + tuple(ps)
    def set_slot_list(s, st, key, pieces, hs):
        from .loops import slot_get
        oid = key[1] if key[0] == "elems" else slot_get(st, key).oid
        s.set_list(st, oid, pieces)
        for k, part, x0, x in hs.parts:                     # the header symbol of the size names the size of that list
            if k == key and part in ("n", "vn"): st.pc.append(eq(x, st.mem[oid].n))
    def set_list(s, st, oid, pieces):
        o = st.w(oid); o.log = ()
        n = 0; n0 = 0; rest = list(pieces)
        if rest and rest[0][0] == "base":
            o.base, n0 = rest[0][1], rest[0][2]; rest = rest[1:]
        n = n0
        for p in rest: n = add(n, 1 if p[0] == "item" else p[1].lenf(Z(p[2])))
        o.apps = (n0, tuple(rest)); o.n = n
    def list_eq(s, st, a, b):
        a = [x for x in a]; b = [x for x in b]
        a = s.norm_list(st, a); b = s.norm_list(st, b)
        if len(a) != len(b): return False
        for x, y in zip(a, b):
            if x[0] != y[0]: return False
            if x[0] == "base":
                if x[1] is not y[1] or not s.holds(st, eq(x[2], y[2])): return False
            elif x[0] == "fold":
                if x[1] is not y[1] or not s.holds(st, eq(x[2], y[2])): return False
            else:
                for k in y[1]:
                    if k not in x[1]: return False
                    if not s.val_eq(st, x[1][k][1], y[1][k][1]): return False
        return True
    def norm_list(s, st, ps):
        return [p for p in ps if not ((p[0] == "fold" and s.holds(st, eq(p[2], 0))) or (p[0] == "base" and s.holds(st, eq(p[2], 0))))]
    def val_eq(s, st, a, b):
        if isinstance(a, BA) and isinstance(b, BA): return s.rope_eq(st, s.ba_rope(st, a), s.ba_rope(st, b))
        if isinstance(a, Rope) and isinstance(b, Rope): return s.rope_eq(st, a, b)
        if isint(a) and isint(b): return s.holds(st, eq(a, b))
        if isbool(a) and isbool(b): return s.holds(st, B(iff(a, b)) if isz(iff(a, b)) else iff(a, b))
        if isinstance(a, Tm) and isinstance(b, Tm):
            if a.key() == b.key(): return True
            return a.op == b.op and len(a.a) == len(b.a) and all(s.val_eq(st, x, y) for x, y in zip(a.a, b.a))
        if isinstance(a, BA) and isinstance(b, Rope): return s.rope_eq(st, s.ba_rope(st, a), b)
        if isinstance(a, OPtr) and isinstance(b, OPtr): return s.holds(st, eq(a.id, b.id))
        try: return vkey(a) == vkey(b)
        except Exception: return False
    # ---- vectors
    def schema(s, el):
        if el in s.schemas: return s.schemas[el]
        if el.endswith("*"): return [(0, 8)]
        raise Unsupported("element type " + el)
    def stride(s, el): a = s.schema(el); return max(o + z for o, z in a)
    def vec(s, st, el, n=0, base=None, shared=False, name=None):
        o = Obj("elems", name or "vector<%s>" % el); o.stride = s.stride(el); o.n = n; o.base = base or no_elem; o.shared = shared; o.cls = el
        return Vec(s.new(st, o), el)
    def vecval(s, st, p, el):
        v = s.vget(st, p)
        if isinstance(v, Vec): return v
        if isinstance(v, Tm): return s.tm_vec(st, p, v, el)
        raise Unsupported("vector expected, found %r" % (v,))
    def tm_vec(s, st, p, v, el):
        """an opaque list value gets an element array whose elements are terms of the list"""
        n = s.tm_int(st, Tm("count", v), 0, 2147483647 // 16)
        sch = s.schema(el)
        def base(ex, st2, idx, off, t, size):
            tm = Tm("elem", v, idx, off)
            return s.elem_of_tm(st2, el, tm, off)
        w = s.vec(st, el, n, base, "maybe", "list")
        try: s.vset(st, p, w)
        except Exception: pass
        return w
    def elem_of_tm(s, st, el, tm, off):
        if el.endswith("*"):
            i = s.tm_int(st, tm, 0); return OPtr(i, el[:-1].strip())
        if el in ("QByteArray", "Pillow::HttpHeader", "QPair<QByteArray, QByteArray>"): return pure(ratom(s.tm_atom(st, tm)))
        if el == "Pillow::HttpHeaderRef": return s.tm_int(st, tm, -2147483648, 2147483647)
        return tm
    def vec_mut(s, st, p, el):
        """fresh unshared copy of the vector in cell p (old storage released if it was unshared)"""
        v = s.vecval(st, p, el); o = st.mem[v.oid]
        q = o.copy(); q.shared = False; q.freed = False
        nv = Vec(s.new(st, q), el)
        if o.shared is False: st.w(v.oid).freed = True
        s.vset(st, p, nv); return nv
    def vec_detach(s, st, p, el):
        v = s.vecval(st, p, el)
        if st.mem[v.oid].shared is False: return v
        q = st.mem[v.oid].copy(); q.shared = False
        nv = Vec(s.new(st, q), el); s.vset(st, p, nv); return nv
    def read_item(s, st, p, el):
        out = {}
        for off, size in s.schema(el):
            q = Ptr(p.oid, add(p.off, off), p.idx, p.null) if isinstance(p, Ptr) else p
            v = s.vget(st, q) if size == 8 else s.load(st, q, ir.INT(size * 8), None)
            out[off] = (size, s.copy_of(st, v))
        return out
    def vec_push(s, st, p, el, item):
        v = s.vec_mut(st, p, el); o = st.w(v.oid)
        if o.log:
            raise Unsupported("append to a vector with pending element writes")
        n0, ps = o.apps if o.apps is not None else (o.n, ())
        o.apps = (n0, ps + (("item", item),)); o.n = add(o.n, 1)
        st.pc.append(Z(o.n) <= 2147483647) if isz(o.n) else None
        return v

def no_elem(ex, st, idx, off, t, size): raise Unsupported("element of an empty vector")

SCHEMAS = {"QByteArray": [(0, 8)], "QString": [(0, 8)], "Pillow::HttpHeader": [(0, 8), (8, 8)], "QPair<QString, QString>": [(0, 8), (8, 8)],
           "QPair<QByteArray, QByteArray>": [(0, 8), (8, 8)], "Pillow::HttpHeaderRef": [(0, 4), (4, 4), (8, 4), (12, 4)], "QNetworkCookie": [(0, 8)]}

class QBD:
    """QByteArray::data_ptr(): the header of the array in cell p"""
    def __init__(s, p): s.p = p
    def load(s, ex, st, q, t, size):
        v = ex.bget(st, s.p)
        if q.off == 4 and size == 4: return v.len()
        if q.off == 8 and size == 4: return add(v.cap, 1) if v.k == "own" else 0
        raise Unsupported("field %s of QByteArray::Data" % q.off)
    def store(s, ex, st, q, n, size):
        v = ex.bget(st, s.p)
        if q.off != 4 or size != 4: raise Unsupported("store to field %s of QByteArray::Data" % q.off)
        if v.k == "own":
            ex.prove(st, st.mem[v.oid].shared is False, "write-to-shared", "size of a possibly shared byte array overwritten")
            ex.prove(st, and_(le(0, n), le(n, v.cap)), "size-within-capacity", "size %s capacity %s" % (n, v.cap))
            ex.vset(st, s.p, BA("own", v.oid, 0, n, v.cap))
            o = st.w(v.oid)
            if not o.content.over and not isz(n) and n == 0: o.content = Content(Rope())
            elif o.content.over and len(o.content.over) == 1 and ex.holds(st, eq(o.content.base.len(), o.content.over[0][0])) :
                pass
            ex.norm_content(st, v.oid, n)
        elif v.k == "raw":
            ex.prove(st, and_(le(0, n), le(n, v.n)), "size-within-view", "size %s of a view of %s bytes" % (n, v.n))
            ex.vset(st, s.p, BA("raw", v.oid, v.off, n, 0))
        else:
            ex.prove(st, False, "write-to-shared", "the shared null array is not writable")

def norm_content(ex, st, oid, n):
    """content of an owned array after its size became n: the bytes [0,n)"""
    o = st.w(oid)
    r = ex.slice(st, o.content, 0, n)
    o.content = Content(r)
QEx.norm_content = norm_content

# ------------------------------------------------------------------ contracts
def install(ex):
    c = ex.contracts; P = lambda rx, h: ex.patterns.append((re.compile(rx + r"$"), h))

    # ---- QByteArray
    def ba_ctor(C): C.ex.vset(C.st, C.a[0], EMPTY_BA())
    c["QByteArray::QByteArray()"] = ba_ctor
    def ba_copy(C):
        C.ex.vset(C.st, C.a[0], C.ex.copy_of(C.st, C.ex.bget(C.st, C.a[1])))
    c["QByteArray::QByteArray(QByteArray const&)"] = ba_copy
    def ba_move(C):
        v = C.ex.bget(C.st, C.a[1]); C.ex.vset(C.st, C.a[0], v); C.ex.vset(C.st, C.a[1], EMPTY_BA())
    c["QByteArray::QByteArray(QByteArray&&)"] = ba_move
    def ba_ptr(C):
        ex, st = C.ex, C.st; p, n = C.a[1], C.a[2]
        outs = []
        # null pointer -> null array; size < 0 -> strlen
        isn = ex.ptr_cmp(st, "eq", p, NULL)
        for t, nul in C.split(isn):
            D = C.on(t)
            if nul: ex.vset(t, C.a[0], EMPTY_BA()); outs.append((t, None)); continue
            for u, neg in D.split(lt(n, 0)):
                if neg: r = ex.cstr(u, p)
                else: r = ex.rope_at(u, p, n)
                ex.vset(u, C.a[0], ex.own(u, r, r.len()) if r.lit() is None and ex.holds(u, lt(0, r.len())) else pure(r)); outs.append((u, None))
        return outs
    c["QByteArray::QByteArray(char const*, int)"] = ba_ptr
    c["QByteArray::~QByteArray()"] = lambda C: C.ex.release(C.st, C.ex.vget(C.st, C.a[0]))
    def ba_assign(C):
        ex, st = C.ex, C.st
        v = ex.bget(st, C.a[1]); old = ex.bget(st, C.a[0])
        if vkey(old) != vkey(v):
            nv = ex.copy_of(st, v); ex.release(st, old); ex.vset(st, C.a[0], nv)
        return C.a[0]
    c["QByteArray::operator=(QByteArray const&)"] = ba_assign
    def ba_massign(C):
        ex, st = C.ex, C.st
        v, w = ex.bget(st, C.a[0]), ex.bget(st, C.a[1])
        ex.vset(st, C.a[0], w); ex.vset(st, C.a[1], v); return C.a[0]
    c["QByteArray::operator=(QByteArray&&)"] = ba_massign
    c["QByteArray::swap(QByteArray&)"] = ba_massign
    def ba_cassign(C):
        r = C.ex.cstr(C.st, C.a[1]); C.ex.release(C.st, C.ex.vget(C.st, C.a[0])); C.ex.vset(C.st, C.a[0], pure(r)); return C.a[0]
    c["QByteArray::operator=(char const*)"] = ba_cassign
    for nm in ("size", "length", "count"): c["QByteArray::%s() const" % nm] = lambda C: C.ex.ba_len(C)
    c["QByteArray::isEmpty() const"] = lambda C: eq(C.ex.ba_len(C), 0)
    def isnull(C):
        v = C.ex.bget(C.st, C.a[0])
        if v.k == "pure" and (isinstance(v.null, bool) or isz(v.null)): return v.null
        if v.k == "own": return False
        return fbool("isnull")
    c["QByteArray::isNull() const"] = isnull
    def cap(C):
        v = C.ex.concretise(C.st, C.a[0]); return v.cap if v.k == "own" else 0
    c["QByteArray::capacity() const"] = cap
    def at(C):
        v = C.ex.bget(C.st, C.a[0]); i = C.a[1]
        C.ex.prove(C.st, and_(le(0, i), lt(i, v.len())), "bounds-read", "QByteArray::at(%s) of size %s" % (i, v.len()))
        x = simp(C.ex.ba_get(C.st, v, i))
        if isz(x): C.st.pc.append(And(x >= -128, x <= 127))
        return x
    c["QByteArray::at(int) const"] = at
    c["QByteArray::operator[](int) const"] = at
    def cdata(C): return C.ex.const_data(C.st, C.ex.bget(C.st, C.a[0]))
    for nm in ("constData() const", "data() const", "constBegin() const", "begin() const", "cbegin() const", "operator char const*() const"): c["QByteArray::" + nm] = cdata
    def cend(C):
        v = C.ex.bget(C.st, C.a[0]); p = C.ex.const_data(C.st, v); return Ptr(p.oid, add(p.off, v.len()))
    for nm in ("constEnd() const", "end() const", "cend() const"): c["QByteArray::" + nm] = cend
    def data(C):
        out = []
        for t, v in C.ex.detach(C.st, C.a[0]): out.append((t, Ptr(v.oid, v.off)))
        return out
    c["QByteArray::data()"] = data; c["QByteArray::begin()"] = data
    c["QByteArray::detach()"] = lambda C: [(t, None) for t, v in C.ex.detach(C.st, C.a[0])]
    def isdet(C):
        v = C.ex.concretise(C.st, C.a[0])
        if v.k == "own": return C.ex.unshared_versions(C.st, v)
        if v.k == "pure": return False
        return fbool("isdetached")
    c["QByteArray::isDetached() const"] = isdet
    def dptr(C):
        ex, st = C.ex, C.st
        ex.concretise(st, C.a[0])
        q = Obj("qbd", "QByteArrayData"); q.data = QBD(C.a[0])
        r = Obj("cells", "dref", 8); r.cells[0] = (8, Ptr(ex.new(st, q)))
        return Ptr(ex.new(st, r))
    c["QByteArray::data_ptr()"] = dptr
    def clear(C): C.ex.release(C.st, C.ex.vget(C.st, C.a[0])); C.ex.vset(C.st, C.a[0], EMPTY_BA())
    c["QByteArray::clear()"] = clear
    def reserve(C):
        ex, st, p, n = C.ex, C.st, C.a[0], C.a[1]; out = []
        v = ex.concretise(st, p)
        ex.prove(st, le(n, 2147483646 - 32), "allocation-size", "reserve(%s)" % n)
        vs = ex.unshared_versions(st, v) if v.k == "own" else [(st, False)]
        for t, u in vs:
            D = C.on(t)
            for t2, enough in (D.split(le(n, v.cap)) if u else [(t, False)]):
                if enough: out.append((t2, None)); continue
                r = ex.ba_rope(t2, v); m = r.len()
                cp = fint("cap"); t2.pc.append(cp == If(Z(n) > Z(m), Z(n), Z(m)))
                w = ex.own(t2, r, cp, n=v.len())
                if u: ex.release(t2, v)
                ex.vset(t2, p, w); out.append((t2, None))
        return out
    c["QByteArray::reserve(int)"] = reserve
    def squeeze(C):
        ex, st, p = C.ex, C.st, C.a[0]; out = []
        v = ex.concretise(st, p)
        if v.k != "own": return
        for t, u in ex.unshared_versions(st, v):
            w = ex.own(t, ex.ba_rope(t, v), v.len(), n=v.len())
            if u: ex.release(t, v)
            ex.vset(t, p, w); out.append((t, None))
        return out
    c["QByteArray::squeeze()"] = squeeze; c["QByteArray::shrink_to_fit()"] = squeeze
    def setraw(C):
        ex, st = C.ex, C.st; p, n = C.a[1], uns_(C.a[2])
        old = ex.vget(st, C.a[0])
        if not isz(n) and n == 0:
            ex.release(st, old); ex.vset(st, C.a[0], EMPTY_BA(False)); return C.a[0]
        ex.rope_at(st, p, n)
        ex.release(st, old)
        ex.vset(st, C.a[0], BA("raw", p.oid, p.off, n, 0)); return C.a[0]
    def uns_(n): return n if not isz(n) else n
    c["QByteArray::setRawData(char const*, unsigned int)"] = setraw
    def fromraw(C):
        C.ex.rope_at(C.st, C.a[1], C.a[2]); C.ex.vset(C.st, C.a[0], BA("raw", C.a[1].oid, C.a[1].off, C.a[2], 0))
    c["QByteArray::fromRawData(char const*, int)"] = fromraw
    def ba_append(C, r):
        ex, st, p = C.ex, C.st, C.a[0]
        v = ex.bget(st, p); cur = ex.ba_rope(st, v); n = add(cur.len(), r.len())
        if eq(r.len(), 0) is True: return p
        if isz(n): ex.prove(st, le(n, 2147483647 - 32), "allocation-size", "append to %s bytes" % n)
        # in place when unshared and large enough; otherwise reallocated: the capacity afterwards is only known to be >= n
        w = ex.own(st, cur + r)
        if v.k == "own":
            st.pc.append(z3.Implies(Z(v.cap) >= Z(n), Z(w.cap) >= Z(v.cap))) if st.mem[v.oid].shared is False else None
        ex.release(st, v); ex.vset(st, p, w); return p
    def ap_n(C):
        n = C.a[2]; outs = []
        if not isz(n) and n < 0: return ba_append(C, C.ex.cstr(C.st, C.a[1]))
        if isz(n):
            for t, neg in C.split(lt(n, 0)):
                D = C.on(t); outs.append((t, ba_append(D, D.ex.cstr(t, C.a[1]) if neg else D.ex.rope_at(t, C.a[1], n))))
            return outs
        return ba_append(C, C.ex.rope_at(C.st, C.a[1], n))
    c["QByteArray::append(char const*, int)"] = ap_n
    c["QByteArray::append(char const*)"] = lambda C: ba_append(C, C.ex.cstr(C.st, C.a[1]))
    c["QByteArray::append(char)"] = lambda C: ba_append(C, rbyte(C.a[1]))
    def ap_ba(C): return ba_append(C, C.ex.ba_rope(C.st, C.ex.bget(C.st, C.a[1])))
    c["QByteArray::append(QByteArray const&)"] = ap_ba
    for nm, h in (("QByteArray const&", ap_ba), ("char", c["QByteArray::append(char)"]), ("char const*", c["QByteArray::append(char const*)"])):
        c["QByteArray::operator+=(%s)" % nm] = h; c["QByteArray::push_back(%s)" % nm] = h
    def ba_plus(C):
        """concatenation: a new array"""
        ex, st = C.ex, C.st; t1, t2 = re.match(r"operator\+\((.*), (.*)\)$", C.dem).groups(); rs = []
        for a, ty in zip(C.a[1:3], (t1, t2)): rs.append(rbyte(a) if ty == "char" else ex.cstr(st, a) if ty == "char const*" else ex.ba_rope(st, ex.bget(st, a)))
        r = rs[0] + rs[1]; n = r.len()
        if isz(n): ex.prove(st, le(n, 2147483647 - 32), "allocation-size", "concatenation of %s bytes" % n)
        ex.vset(st, C.a[0], EMPTY_BA(False) if eq(n, 0) is True else ex.own(st, r))
    for t1, t2 in (("QByteArray const&", "QByteArray const&"), ("QByteArray const&", "char const*"), ("char const*", "QByteArray const&"), ("QByteArray const&", "char"), ("char", "QByteArray const&")):
        c["operator+(%s, %s)" % (t1, t2)] = ba_plus
    def prepend(C, r):
        ex, st, p = C.ex, C.st, C.a[0]; v = ex.bget(st, p); cur = ex.ba_rope(st, v); n = add(cur.len(), r.len())
        if eq(r.len(), 0) is True: return p
        if isz(n): ex.prove(st, le(n, 2147483647 - 32), "allocation-size", "prepend to %s bytes" % n)
        w = ex.own(st, r + cur); ex.release(st, v); ex.vset(st, p, w); return p
    c["QByteArray::prepend(char const*)"] = lambda C: prepend(C, C.ex.cstr(C.st, C.a[1])); c["QByteArray::prepend(char)"] = lambda C: prepend(C, rbyte(C.a[1]))
    c["QByteArray::prepend(QByteArray const&)"] = lambda C: prepend(C, C.ex.ba_rope(C.st, C.ex.bget(C.st, C.a[1]))); c["QByteArray::push_front(QByteArray const&)"] = c["QByteArray::prepend(QByteArray const&)"]
    def right(C):
        ex, st = C.ex, C.st; v = ex.bget(st, C.a[1]); n = C.a[2]; r = ex.ba_rope(st, v); L = r.len(); out = []
        for t, whole in C.split(le(L, n)):
            D = C.on(t)
            if whole: ex.vset(t, C.a[0], ex.copy_of(t, v)); out.append((t, None)); continue
            for t2, neg in D.split(lt(n, 0)):
                ex.vset(t2, C.a[0], EMPTY_BA(False) if neg else ex.own(t2, ex.subrope(t2, r, sub(L, n), n), n)); out.append((t2, None))
        return out
    c["QByteArray::right(int) const"] = right
    def left(C):
        ex, st = C.ex, C.st; v = ex.bget(st, C.a[1]); n = C.a[2]; r = ex.ba_rope(st, v); L = r.len(); out = []
        for t, whole in C.split(le(L, n)):
            D = C.on(t)
            if whole: ex.vset(t, C.a[0], ex.copy_of(t, v)); out.append((t, None)); continue
            for t2, neg in D.split(lt(n, 0)):
                ex.vset(t2, C.a[0], EMPTY_BA(False) if neg else ex.own(t2, ex.subrope(t2, r, 0, n), n)); out.append((t2, None))
        return out
    c["QByteArray::left(int) const"] = left
    def mid(C):
        ex, st = C.ex, C.st; v = ex.bget(st, C.a[1]); p, n = C.a[2], C.a[3]; r = ex.ba_rope(st, v); L = r.len(); out = []
        for t, ok in C.split(and_(le(0, p), le(p, L))):
            D = C.on(t)
            if not ok: ex.vset(t, C.a[0], EMPTY_BA(False) if ex.holds(t, le(L, p)) else pure(ratom(ex.tm_atom(t, Tm("mid", r, p, n))))); out.append((t, None)); continue
            for t2, tail in D.split(or_(lt(n, 0), lt(sub(L, p), n))):
                m = sub(L, p) if tail else n
                ex.vset(t2, C.a[0], pure(ex.subrope(t2, r, p, m))); out.append((t2, None))
        return out
    c["QByteArray::mid(int, int) const"] = mid
    def remove(C):
        ex, st = C.ex, C.st; v = ex.bget(st, C.a[0]); p, n = C.a[1], C.a[2]; r = ex.ba_rope(st, v); L = r.len(); out = []
        for t, ok in C.split(and_(le(0, p), lt(p, L), lt(0, n))):
            D = C.on(t)
            if not ok: out.append((t, C.a[0])); continue
            for t2, tail in D.split(lt(sub(L, p), n)):
                nr = ex.subrope(t2, r, 0, p) + (Rope() if tail else ex.subrope(t2, r, add(p, n), sub(L, add(p, n))))
                ex.release(t2, v); ex.vset(t2, C.a[0], ex.own(t2, nr)); out.append((t2, C.a[0]))
        return out
    c["QByteArray::remove(int, int)"] = remove
    def toint(bits):   # number_of
        def h(C):
            ex, st = C.ex, C.st; r = ex.ba_rope(st, ex.bget(st, C.a[0]))
            v, ok = number_of(ex, st, bits, r, C.a[2])
            if not (isinstance(C.a[1], Ptr) and C.a[1].oid is None): ex.store(st, C.a[1], ite(ok, 1, 0), 1)
            return v
        return h
    c["QByteArray::toInt(bool*, int) const"] = toint(32)
    c["QByteArray::toLongLong(bool*, int) const"] = toint(64)
    def num(C):
        n, b = C.a[1], C.a[2]
        C.ex.vset(C.st, C.a[0], pure(ratom(C.ex.tm_atom(C.st, Tm("unumber", n, b))) if "unsigned" in C.dem else number_rope(C.ex, C.st, n, b)))
    for t in ("int", "long long", "unsigned int", "unsigned long long"): c["QByteArray::number(%s, int)" % t] = num
    def ba_eq(C):
        ex, st = C.ex, C.st
        return ex.ropes_eq_term(st, ex.ba_rope(st, ex.bget(st, C.a[0])), ex.ba_rope(st, ex.bget(st, C.a[1])))
    c["operator==(QByteArray const&, QByteArray const&)"] = ba_eq
    c["operator!=(QByteArray const&, QByteArray const&)"] = lambda C: not_(ba_eq(C))
    def ba_eqc(C):
        ex, st = C.ex, C.st
        return ex.ropes_eq_term(st, ex.ba_rope(st, ex.bget(st, C.a[0])), ex.cstr(st, C.a[1]))
    c["operator==(QByteArray const&, char const*)"] = ba_eqc
    c["operator!=(QByteArray const&, char const*)"] = lambda C: not_(ba_eqc(C))
    # C string helpers
    def slen(C):
        r = C.ex.cstr(C.st, C.a[0]); return 0 if r is None else r.len()
    c["qstrlen(char const*)"] = slen; c["strlen"] = slen
    def strncmp(C):
        """int with the sign of the comparison; equality with a literal is exact"""
        ex, st = C.ex, C.st; a, b, n = C.a
        if isinstance(a, Ptr) and a.oid is None or isinstance(b, Ptr) and b.oid is None: raise Unsupported("strncmp of null")
        ra, rb = ex.ntbytes(st, a, n), ex.ntbytes(st, b, n)
        if ra is None or rb is None: raise Unsupported("strncmp")
        t = ex.ropes_eq_term(st, ra, rb); v = ex.tm_int(st, Tm("cmp", ra, rb), -2147483648, 2147483647)
        st.pc.append((v == 0) == B(t)); return v
    c["qstrncmp(char const*, char const*, unsigned int)"] = strncmp; c["strncmp"] = strncmp
    def memcmp(C):
        ex, st = C.ex, C.st; a, b, n = C.a
        ra, rb = ex.rope_at(st, a, n), ex.rope_at(st, b, n)
        t = ex.ropes_eq_term(st, ra, rb); v = ex.tm_int(st, Tm("cmp", ra, rb), -2147483648, 2147483647)
        st.pc.append((v == 0) == B(t)); return v
    c["memcmp"] = memcmp

    def memchr(C):
        """pointer to the first such byte of the range, null when there is none"""
        ex, st = C.ex, C.st; p, ch, n = C.a
        r = ex.rope_at(st, p, n); ch = wrap(8, ch); ix = fint("first"); t = st.fork()
        st.pc += [ix >= 0, ix < Z(n)]
        st.pc.append(Z(eq(r.get(ix), ch)))
        if len(r.p) == 1 and isinstance(r.p[0], Sl) and isinstance(r.p[0].src, UFSrc):
            j = z3.Int("j"); g, off = r.p[0].src.f, r.p[0].off
            st.pc.append(z3.ForAll([j], z3.Implies(And(Z(off) <= j, j < Z(add(off, ix))), g(j) != Z(ch))))
            t.pc.append(z3.ForAll([j], z3.Implies(And(Z(off) <= j, j < Z(add(off, n))), g(j) != Z(ch))))
        return [(st, Ptr(p.oid, add(p.off, ix), p.idx)), (t, NULL)]
    c["memchr"] = memchr; c["memchr(void const*, int, unsigned long)"] = memchr

    # ---- QVector / QList / QVarLengthArray
    vecs = r"(?:QVector|QList|QVarLengthArray)<(.*)>::"
    def V(meth, h):
        rx = re.compile(r"(?:QVector|QList|QVarLengthArray)<(.+?)(?:, \d+)?>::" + meth + "$")
        def g(C):
            m = rx.match(C.dem); return h(C, m.group(1))
        ex.patterns.append((rx, g))
    def vctor(C, el): C.ex.vset(C.st, C.a[0], C.ex.vec(C.st, el))
    V(r"(?:QVector|QList|QVarLengthArray)\((?:int)?\)", lambda C, el: vctor(C, el) if len(C.a) == 1 else vsized(C, el))
    def vsized(C, el):
        C.ex.vset(C.st, C.a[0], C.ex.vec(C.st, el)); vresize(C, el)
    def vcopy(C, el): C.ex.vset(C.st, C.a[0], C.ex.copy_of(C.st, C.ex.vecval(C.st, C.a[1], el)))
    V(r"(?:QVector|QList|QVarLengthArray)\((?:QVector|QList|QVarLengthArray)<.*> const&\)", vcopy)
    def vmove(C, el):
        v = C.ex.vecval(C.st, C.a[1], el); C.ex.vset(C.st, C.a[0], v); C.ex.vset(C.st, C.a[1], C.ex.vec(C.st, el))
    V(r"(?:QVector|QList|QVarLengthArray)\((?:QVector|QList|QVarLengthArray)<.*>&&\)", vmove)
    V(r"~(?:QVector|QList|QVarLengthArray)\(\)", lambda C, el: C.ex.release(C.st, C.ex.vget(C.st, C.a[0])))
    def vassign(C, el):
        v = C.ex.vecval(C.st, C.a[1], el); old = C.ex.vecval(C.st, C.a[0], el)
        if v.oid != old.oid:
            nv = C.ex.copy_of(C.st, v); C.ex.release(C.st, old); C.ex.vset(C.st, C.a[0], nv)
        return C.a[0]
    V(r"operator=\((?:QVector|QList)<.*> const&\)", vassign)
    def vmassign(C, el):
        a, b = C.ex.vecval(C.st, C.a[0], el), C.ex.vecval(C.st, C.a[1], el)
        C.ex.vset(C.st, C.a[0], b); C.ex.vset(C.st, C.a[1], a); return C.a[0]
    V(r"operator=\((?:QVector|QList)<.*>&&\)", vmassign)
    def vn(C, el): return C.st.mem[C.ex.vecval(C.st, C.a[0], el).oid].n
    V(r"(?:size|count|length)\(\) const", vn)
    V(r"(?:isEmpty|empty)\(\) const", lambda C, el: eq(vn(C, el), 0))
    def vat(C, el):
        v = C.ex.vecval(C.st, C.a[0], el); n = C.st.mem[v.oid].n
        C.ex.prove(C.st, and_(le(0, C.a[1]), lt(C.a[1], n)), "bounds-read", "element %s of %s" % (C.a[1], n))
        return Ptr(v.oid, 0, C.a[1])
    V(r"(?:at\(int\) const|operator\[\]\(int\) const)", vat)
    def vatm(C, el):
        C.ex.vec_detach(C.st, C.a[0], el); return vat(C, el)
    V(r"operator\[\]\(int\)", vatm)
    V(r"(?:(?:constBegin|cbegin|begin|data|constData)\(\) const)", lambda C, el: Ptr(C.ex.vecval(C.st, C.a[0], el).oid, 0, 0))
    def vend(C, el):
        v = C.ex.vecval(C.st, C.a[0], el); return Ptr(v.oid, 0, C.st.mem[v.oid].n)
    V(r"(?:(?:constEnd|cend|end)\(\) const)", vend)
    V(r"(?:begin|data)\(\)", lambda C, el: Ptr(C.ex.vec_detach(C.st, C.a[0], el).oid, 0, 0))
    def vendm(C, el):
        v = C.ex.vec_detach(C.st, C.a[0], el); return Ptr(v.oid, 0, C.st.mem[v.oid].n)
    V(r"end\(\)", vendm)
    def vfirst(C, el, last=False):
        v = C.ex.vecval(C.st, C.a[0], el); n = C.st.mem[v.oid].n
        C.ex.prove(C.st, lt(0, n), "bounds-read", "first/last of an empty list")
        return Ptr(v.oid, 0, sub(n, 1) if last else 0)
    V(r"(?:first|front|constFirst)\(\)(?: const)?", vfirst); V(r"(?:last|back|constLast)\(\)(?: const)?", lambda C, el: vfirst(C, el, True))
    def vappend(C, el):
        item = C.ex.read_item(C.st, C.a[1], el); C.ex.vec_push(C.st, C.a[0], el, item); return C.a[0]
    V(r"(?:append|push_back|operator<<|operator\+=)\((?!QVector|QList).*\)", vappend)
    def vjoin(C, el):
        """the elements of the other list are appended (it may be the same list)"""
        ex, st = C.ex, C.st
        a, b = st.mem[ex.vecval(st, C.a[0], el).oid], st.mem[ex.vecval(st, C.a[1], el).oid]
        oa, ob = a.copy(), b.copy(); n0 = oa.n
        v = ex.vec_mut(st, C.a[0], el); o = st.w(v.oid)
        def base(ex2, st2, idx, off, t, size):
            c0 = lt(idx, n0)
            if c0 is True or (c0 is not False and ex2.holds(st2, c0)): return ex2.elem_value(st2, oa, idx, off, t, size)
            x = sub(idx, n0)
            if c0 is False or ex2.holds(st2, not_(c0)): return ex2.elem_value(st2, ob, x, off, t, size)
            return ("FORK", [(c0, ex2.elem_value(st2, oa, idx, off, t, size)), (not_(c0), ex2.elem_value(st2, ob, x, off, t, size))])
        o.base = base; o.log = (); o.apps = None; o.n = add(n0, ob.n)
        return C.a[0]
    V(r"(?:append|operator<<|operator\+=)\((?:QVector|QList)<.*> const&\)", vjoin)
    def vpop(C, el):
        ex, st = C.ex, C.st
        v = ex.vecval(st, C.a[0], el); n = st.mem[v.oid].n
        ex.prove(st, lt(0, n), "bounds-write", "remove from an empty list")
        v = ex.vec_mut(st, C.a[0], el); o = st.w(v.oid)
        if o.apps is not None and o.apps[1]:
            if o.apps[1][-1][0] != "item": raise Unsupported("pop from folded list")
            o.apps = (o.apps[0], o.apps[1][:-1])
        elif o.apps is not None: o.apps = None
        o.n = sub(n, 1)
    V(r"(?:pop_back|removeLast)\(\)", vpop)
    def vtakelast(C, el):
        ex, st = C.ex, C.st
        v = ex.vecval(st, C.a[0], el); o = st.mem[v.oid]
        ex.prove(st, lt(0, o.n), "bounds-read", "takeLast of an empty list")
        x = ex.elem_value(st, o, sub(o.n, 1), 0, ir.PTR, 8); vpop(C, el); return x
    V(r"takeLast\(\)", vtakelast)
    def vtakefirst(C, el):
        ex, st = C.ex, C.st
        v = ex.vecval(st, C.a[0], el); o = st.mem[v.oid]
        ex.prove(st, lt(0, o.n), "bounds-read", "takeFirst of an empty list")
        x = ex.elem_value(st, o, 0, 0, ir.PTR, 8)
        if o.log or o.apps is not None and o.apps[1]: raise Unsupported("takeFirst of a list that was changed")
        v = ex.vec_mut(st, C.a[0], el); o = st.w(v.oid); o.base = Shift(o.base); o.n = sub(o.n, 1); o.apps = None; return x
    V(r"takeFirst\(\)", vtakefirst); V(r"(?:pop_front|removeFirst)\(\)", lambda C, el: (vtakefirst(C, el), None)[1])
    def vclear(C, el): C.ex.release(C.st, C.ex.vget(C.st, C.a[0])); C.ex.vset(C.st, C.a[0], C.ex.vec(C.st, el))
    V(r"clear\(\)", vclear)
    V(r"reserve\(int\)", lambda C, el: None)
    V(r"squeeze\(\)", lambda C, el: None)
    def vcap(C, el):
        n = vn(C, el); x = fint("vcap"); C.st.pc.append(And(x >= Z(n), x <= 2147483647)); return x
    V(r"capacity\(\) const", vcap)
    def vresize(C, el):
        ex, st, n = C.ex, C.st, C.a[1]
        v = ex.vecval(st, C.a[0], el); o0 = st.mem[v.oid]
        ex.prove(st, le(0, n), "allocation-size", "resize(%s)" % n)
        v = ex.vec_mut(st, C.a[0], el); o = st.w(v.oid)
        oldn, oldo = o0.n, o0
        dflt = ex.default_elem(el)
        def base(ex2, st2, idx, off, t, size):
            c0 = lt(idx, oldn)
            if c0 is True or (c0 is not False and ex2.holds(st2, c0)): return ex2.elem_value(st2, oldo, idx, off, t, size)
            if c0 is False or ex2.holds(st2, not_(c0)): return dflt(off)
            return ("FORK", [(c0, ex2.elem_value(st2, oldo, idx, off, t, size)), (not_(c0), dflt(off))])
        o.base = base; o.log = (); o.apps = None; o.n = n
        return None
    V(r"resize\(int\)", vresize)
    # QList iterators: a pointer into the element array
    it = r"(?:QList|QVector)<.*>::(?:const_)?iterator::"
    P(it + r"operator\*\(\) const", lambda C: C.ex.load(C.st, C.a[0], ir.PTR, C.mod))
    P(it + r"operator->\(\) const", lambda C: C.ex.load(C.st, C.a[0], ir.PTR, C.mod))
    def itinc(C):
        p = C.ex.load(C.st, C.a[0], ir.PTR, C.mod); C.ex.store(C.st, C.a[0], Ptr(p.oid, p.off, add(p.idx, 1)), 8); return C.a[0]
    P(it + r"operator\+\+\(\)", itinc)
    def itcmp(pred):
        def h(C):
            a, b = C.ex.load(C.st, C.a[0], ir.PTR, C.mod), C.ex.load(C.st, C.a[1], ir.PTR, C.mod) if isinstance(C.a[1], Ptr) and C.st.mem[C.a[1].oid].kind == "cells" else C.a[1]
            if C.ex.cmplog is not None: C.ex.cmplog.append((a, b))
            return C.ex.ptr_cmp(C.st, pred, a, b)
        return h
    P(it + r"operator!=\(.*\) const", itcmp("ne")); P(it + r"operator==\(.*\) const", itcmp("eq"))
    def itctor(C): C.ex.store(C.st, C.a[0], C.ex.load(C.st, C.a[1], ir.PTR, C.mod), 8)
    P(it + r"(?:const_)?iterator\(.*iterator const&\)", itctor)

    # ---- allocation, static destructors
    c["__cxa_atexit"] = lambda C: 0
    def opnew(C): return Ptr(C.ex.new_cells(C.st, "heap", C.a[0]))
    c["operator new(unsigned long)"] = opnew
    def opdel(C):
        p = C.a[0]
        if isinstance(p, Ptr) and p.oid is not None:
            if C.st.mem[p.oid].freed: C.ex.prove(C.st, False, "double-free", C.st.mem[p.oid].name)
            C.st.w(p.oid).freed = True
    c["operator delete(void*)"] = opdel; c["operator delete(void*, unsigned long)"] = opdel
    # ---- logging: no effect
    P(r"QMessageLogger::.*", lambda C: log_noop(C)); P(r"QDebug::.*|operator<<\(QDebug.*", lambda C: log_noop(C))
    P(r"QNoDebug::.*", lambda C: log_noop(C)); P(r"QMessageLogger::QMessageLogger.*", log_noop)

def log_noop(C):
    # QDebug& results: return the stream argument
    r = C.fn.ret.k
    if C.fn.sret: C.ex.store(C.st, C.a[0], 0, 8) if False else C.ex.vset(C.st, C.a[0], Tm("qdebug")); return None
    if r == "void": return None
    return C.a[0]

def _ba_len(ex, C): return ex.bget(C.st, C.a[0]).len()
QEx.ba_len = _ba_len
def _ba_get(ex, st, v, i):
    if v.k == "pure": return v.rope.get(i)
    o = st.mem[v.oid]
    if o.freed: ex.prove(st, False, "use-after-free", o.name)
    return o.content.get(add(v.off, i))
QEx.ba_get = _ba_get
def ropes_eq_term(ex, st, a, b):
    """Bool term for byte string equality"""
    if a.key() == b.key(): return True
    c = ex.rope_cond(a, b)
    if c is not None:
        la, lb = a.lit(), b.lit()
        if (la is not None or lb is not None) and max(len(la or b""), len(lb or b"")) <= 64: return c
    i, j = ex.rope_id(st, a), ex.rope_id(st, b)
    t = bs_eq(i, j)
    st.pc.append(z3.Implies(t, Z(a.len()) == Z(b.len())))
    st.pc.append(t == bs_eq(j, i))
    st.pc.append(z3.Implies(Z(i) == Z(j), t))
    # exactness: equal iff equal lengths and no differing position (witness)
    w = ex.tms.setdefault(("wit", vkey(i), vkey(j)), fint("dif"))
    st.pc.append(z3.Implies(Not(t), z3.Or(Z(a.len()) != Z(b.len()), And(w >= 0, w < Z(a.len()), Z(a.get(w)) != Z(b.get(w))))))
    return t
QEx.ropes_eq_term = ropes_eq_term
def ntbytes(ex, st, p, n):
    """bytes compared by strncmp(p, ., n): [p,p+n) provided they contain no NUL"""
    if not isz(n) and n == 0: return Rope()
    r = ex.rope_at(st, p, n)
    return r
QEx.ntbytes = ntbytes
def default_elem(ex, el):
    if el in ("QByteArray", "Pillow::HttpHeader", "QPair<QByteArray, QByteArray>"): return lambda off: EMPTY_BA()
    if el in ("QString", "QPair<QString, QString>"): return lambda off: QSNULL
    if el.endswith("*"): return lambda off: NULL
    return lambda off: 0
QEx.default_elem = default_elem
QSNULL = Tm("qs_null")
