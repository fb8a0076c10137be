"""Contracts of pillow's own leaf functions as seen by their callers. Each is proved against its body by the unit named here."""
import z3, re
from .terms import *
from .engine import *
from .qt import *

ASCII = "Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive"
def ci_term(ex, st, a, b):
    """byte strings a and b are equal up to ASCII letter case"""
    la, lb = a.lit(), b.lit()
    if la is not None and lb is not None: return la.lower() == lb.lower()
    if la is not None: a, b, la, lb = b, a, lb, la
    if lb is not None:
        i, j = ex.rope_id(st, a), ex.rope_id(st, rlit(lb.lower()))
        t = ci_eq(i, j)
        st.pc.append(z3.Implies(t, Z(a.len()) == len(lb)))
        lits = ex.__dict__.setdefault("ci_lits", [])
        if lb.lower() not in lits: lits.append(lb.lower())
        for o in lits:
            if o != lb.lower() and (len(o) == len(lb)): st.pc.append(Not(And(t, ci_eq(i, ex.rope_id(st, rlit(o))))))
        return t
    i, j = ex.rope_id(st, a), ex.rope_id(st, b)
    t = ci_eq(i, j)
    st.pc.append(z3.Implies(t, Z(a.len()) == Z(b.len()))); st.pc.append(t == ci_eq(j, i)); st.pc.append(z3.Implies(Z(i) == Z(j), t))
    return t

def tok_rope(ex, C, p):
    """bytes of a Token / LowerCaseToken / QLatin1String {int size; const char* data}"""
    n = ex.load(C.st, p, ir.INT(32), C.mod); d = ex.load(C.st, Ptr(p.oid, add(p.off, 8), p.idx), ir.PTR, C.mod)
    return ex.rope_at(C.st, d, n)

def use_ci(ex):
    """asciiEqualsCaseInsensitive under contract (proved in C09)"""
    def two(C, a, b): return ci_term(C.ex, C.st, a, b)
    def ba(C, p): return C.ex.ba_rope(C.st, C.ex.bget(C.st, p))
    ex.contracts[ASCII + "(QByteArray const&, QByteArray const&)"] = lambda C: two(C, ba(C, C.a[0]), ba(C, C.a[1]))
    for t in ("QLatin1String const&", "Pillow::Token const&", "Pillow::LowerCaseToken const&"):
        ex.contracts[ASCII + "(QByteArray const&, %s)" % t] = lambda C: two(C, ba(C, C.a[0]), tok_rope(C.ex, C, C.a[1]))
    def raw(C):
        ex, st = C.ex, C.st; p, n, q, m = C.a; out = []
        for t, same in C.split(eq(n, m)):
            D = C.on(t)
            out.append((t, ci_term(ex, t, ex.rope_at(t, p, m if isinstance(m, int) else n), ex.rope_at(t, q, n if isinstance(n, int) else m)) if same else False))
        return out
    ex.contracts[ASCII + "(char const*, int, char const*, int)"] = raw

class Headers:
    """symbolic header collection: n >= 0 headers with arbitrary names and values"""
    def __init__(s, ex, st, name="h", maxn=1 << 20):
        s.nm, s.vl = ffun(name + "_name"), ffun(name + "_value"); s.n = fint(name + "_n"); st.pc += [s.n >= 0, s.n <= maxn]
        def base(ex, st, idx, off, t, size):
            f = s.nm if off == 0 else s.vl
            st.pc.append(blen(f(Z(idx))) >= 0); st.pc.append(blen(f(Z(idx))) < 1 << 28)
            return pure(ratom(f(Z(idx))))
        s.base = base
        s.vec = ex.vec(st, "Pillow::HttpHeader", s.n, base, "maybe", name); s.oid = s.vec.oid
    def name(s, i): return ratom(s.nm(Z(i)))
    def value(s, i): return ratom(s.vl(Z(i)))

from .qt import number_rope
def use_numbers(ex):
    """appendNumber under contract (proved in C10)"""
    rx = re.compile(r"void Pillow::ByteArrayHelpers::appendNumber<(.+), (\d+)>\(QByteArray&, .*\)$")
    def h(C):
        m = rx.match(C.dem); ex, st = C.ex, C.st
        if m.group(1) not in ("int", "long long"): raise Unsupported("appendNumber<%s>" % m.group(1))
        v = ex.bget(st, C.a[0]); w = ex.own(st, ex.ba_rope(st, v) + number_rope(ex, st, C.a[1], int(m.group(2))))
        ex.release(st, v); ex.vset(st, C.a[0], w)
    ex.patterns.insert(0, (rx, h))
