"""Terms: python ints / z3 Int for machine integers (mathematical, canonical signed), python bool / z3 Bool for i1,
byte strings as ropes of literal and symbolic slices."""
import z3, itertools
from z3 import Int, IntVal, If, And, Or, Not, Implies, BoolVal, Function, IntSort, BoolSort, ForAll, Exists

_fresh = itertools.count()
def fresh_name(p): return "%s!%d" % (p, next(_fresh))
def fint(p="i"): return z3.Int(fresh_name(p))
def fbool(p="b"): return z3.Bool(fresh_name(p))
def ffun(p="f"): return z3.Function(fresh_name(p), IntSort(), IntSort())

def isz(x): return isinstance(x, z3.ExprRef)
def isint(x): return (isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and z3.is_int(x))
def isbool(x): return isinstance(x, bool) or (isz(x) and z3.is_bool(x))
def Z(x):
    if isinstance(x, bool): return BoolVal(x)
    if isinstance(x, int): return IntVal(x)
    return x
def B(x): return BoolVal(x) if isinstance(x, bool) else x

def simp(x):
    if not isz(x): return x
    s = z3.simplify(x)
    if z3.is_int_value(s): return s.as_long()
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return s

def _const(s):
    if isz(s):
        if z3.is_int_value(s): return s.as_long()
        if z3.is_true(s): return True
        if z3.is_false(s): return False
    return s
def add(a, b):
    if not isz(a) and not isz(b): return a + b
    if not isz(a) and a == 0: return b
    if not isz(b) and b == 0: return a
    return simp(a + b)
def sub(a, b):
    if not isz(a) and not isz(b): return a - b
    if not isz(b) and b == 0: return a
    return simp(a - b)
def mul(a, b):
    if not isz(a) and not isz(b): return a * b
    if (not isz(a) and a == 0) or (not isz(b) and b == 0): return 0
    return simp(a * b)
def neg(a): return sub(0, a)
def eq(a, b):
    if not isz(a) and not isz(b): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    return _const(z3.simplify(Z(a) == Z(b)))
def lt(a, b):
    if not isz(a) and not isz(b): return a < b
    return _const(z3.simplify(Z(a) < Z(b)))
def le(a, b):
    if not isz(a) and not isz(b): return a <= b
    return _const(z3.simplify(Z(a) <= Z(b)))
def not_(a):
    return (not a) if isinstance(a, bool) else _const(z3.simplify(Not(a)))
def and_(*a):
    r = []
    for x in a:
        if isinstance(x, bool):
            if not x: return False
        else: r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else And(*r)
def or_(*a):
    r = []
    for x in a:
        if isinstance(x, bool):
            if x: return True
        else: r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else Or(*r)
def implies(a, b): return or_(not_(a), b)
def iff(a, b):
    if isinstance(a, bool): return b if a else not_(b)
    if isinstance(b, bool): return a if b else not_(a)
    return a == b
def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if not isz(a) and not isz(b) and type(a) == type(b) and a == b: return a
    if isz(a) and isz(b) and a.eq(b): return a
    return If(c, Z(a), Z(b))

def wrap(n, x):
    """canonical signed n-bit value of mathematical x"""
    if not isz(x):
        x &= (1 << n) - 1
        return x - (1 << n) if x >= (1 << (n - 1)) else x
    h = 1 << (n - 1)
    return simp((x + h) % (1 << n) - h)
def uns(n, x):
    """unsigned reading of canonical signed n-bit x"""
    if not isz(x): return x & ((1 << n) - 1)
    return If(x < 0, x + (1 << n), x)
def inrange(n, x): return and_(le(-(1 << (n - 1)), x), le(x, (1 << (n - 1)) - 1))
def sb(c): return c - 256 if c >= 128 else c

# ------------------------------------------------------------ byte strings
bget = Function("bget", IntSort(), IntSort(), IntSort())
blen = Function("blen", IntSort(), IntSort())

class Src:
    """infinite byte sequence; key identifies it"""
    def get(s, i): raise NotImplementedError
class UFSrc(Src):
    def __init__(s, f): s.f, s.key = f, ("uf", f.name())
    def get(s, i): return s.f(Z(i))
class AtomSrc(Src):
    def __init__(s, id): s.id, s.key = id, ("atom", str(id) if isz(id) else id)
    def get(s, i): return bget(Z(s.id), Z(i))
class ConstSrc(Src):
    """one repeated byte term"""
    def __init__(s, t): s.t, s.key = t, ("const", str(t))
    def get(s, i): return s.t
class FnSrc(Src):
    def __init__(s, f, key=None): s.fn, s.key = f, key or ("fn", fresh_name("k"))
    def get(s, i): return s.fn(i)
class LitSrc(Src):
    def __init__(s, b): s.b, s.key = bytes(b), ("lit", bytes(b))
    def get(s, i):
        if not isz(i): return sb(s.b[i]) if 0 <= i < len(s.b) else 0
        r = IntVal(0)
        for j in range(len(s.b) - 1, -1, -1): r = If(i == j, IntVal(sb(s.b[j])), r)
        return r

class Lit:
    __slots__ = ("b",)
    def __init__(s, b): s.b = bytes(b)
    @property
    def n(s): return len(s.b)
    def get(s, i): return LitSrc(s.b).get(i)
    def key(s): return ("lit", s.b)
    def __repr__(s): return repr(s.b)
class Sl:
    __slots__ = ("src", "off", "n")
    def __init__(s, src, off, n): s.src, s.off, s.n = src, off, n
    def get(s, i): return s.src.get(add(s.off, i))
    def key(s): return ("sl", s.src.key, str(s.off), str(s.n))
    def __repr__(s): return "%s[%s+%s]" % (s.src.key[1:], s.off, s.n)
class FoldP:
    """piece: concatenation over 0<=i<hi of fold.pieces(i)"""
    __slots__ = ("fold", "hi")
    def __init__(s, fold, hi): s.fold, s.hi = fold, hi
    @property
    def n(s): return s.fold.lenf(Z(s.hi))
    def get(s, i): return s.fold.getf(Z(s.hi), Z(i))
    def key(s): return ("fold", s.fold.name, str(s.hi))
    def __repr__(s): return "Fold(%s,%s)" % (s.fold.name, s.hi)

class Rope:
    __slots__ = ("p",)
    def __init__(s, p=()):
        out = []
        for x in p:
            if isinstance(x, Lit):
                if not x.b: continue
                if out and isinstance(out[-1], Lit): out[-1] = Lit(out[-1].b + x.b); continue
            elif isinstance(x, Sl):
                if not isz(x.n) and x.n == 0: continue
                if isinstance(x.src, LitSrc) and not isz(x.n) and not isz(x.off):
                    y = Lit(x.src.b[x.off:x.off + x.n])
                    if out and isinstance(out[-1], Lit): out[-1] = Lit(out[-1].b + y.b)
                    else: out.append(y)
                    continue
                if isinstance(x.src, ConstSrc) and not isz(x.src.t) and not isz(x.n):
                    y = Lit(bytes([x.src.t & 255]) * x.n)
                    if out and isinstance(out[-1], Lit): out[-1] = Lit(out[-1].b + y.b)
                    else: out.append(y)
                    continue
                if out and isinstance(out[-1], Sl) and out[-1].src.key == x.src.key and eq(add(out[-1].off, out[-1].n), x.off) is True:
                    out[-1] = Sl(x.src, out[-1].off, add(out[-1].n, x.n)); continue
            elif isinstance(x, FoldP):
                if not isz(x.hi) and x.hi == 0: continue
            out.append(x)
        s.p = tuple(out)
    def len(s):
        r = 0
        for x in s.p: r = add(r, x.n)
        return r
    def get(s, i):
        if len(s.p) == 1: return s.p[0].get(i)
        if not s.p: return 0
        off = 0; parts = []
        for x in s.p: parts.append((off, x)); off = add(off, x.n)
        r = parts[-1][1].get(sub(i, parts[-1][0]))
        for k in range(len(parts) - 2, -1, -1):
            r = ite(lt(i, parts[k + 1][0]), parts[k][1].get(sub(i, parts[k][0])), r)
        return r
    def __add__(s, o): return Rope(s.p + o.p)
    def key(s): return ("rope",) + tuple(x.key() for x in s.p)
    def lit(s):
        """literal bytes or None"""
        if not s.p: return b""
        if len(s.p) == 1 and isinstance(s.p[0], Lit): return s.p[0].b
        return None
    def __repr__(s): return "<" + " ".join(map(repr, s.p)) + ">"
def rlit(b): return Rope([Lit(b if isinstance(b, bytes) else b.encode("latin-1"))])
def rbyte(t): return rlit(bytes([t & 255])) if not isz(t) else Rope([Sl(ConstSrc(t), 0, 1)])
def ratom(id): return Rope([Sl(AtomSrc(id), 0, blen(Z(id)))])

# ------------------------------------------------------------ opaque values
class Tm:
    """opaque value of a Qt value class: structural term"""
    __slots__ = ("op", "a", "_k")
    def __init__(s, op, *a): s.op, s.a, s._k = op, a, None
    def key(s):
        if s._k is None: s._k = (s.op,) + tuple(vkey(x) for x in s.a)
        return s._k
    def __repr__(s): return "%s(%s)" % (s.op, ", ".join(map(repr, s.a))) if s.a else s.op
def vkey(x):
    if isinstance(x, (Tm, Rope)): return x.key()
    if isz(x): return ("z", x.sexpr() if x.num_args() < 50 else str(x.hash()))
    if hasattr(x, "key"): return x.key() if callable(x.key) else x.key
    if isinstance(x, (list, tuple)): return tuple(vkey(y) for y in x)
    return x
