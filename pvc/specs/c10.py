"""C10: appendNumber<Integer, Base> appends exactly the canonical numeral."""
from ..unit import *
import re
NOTE = "All values of int and qint64, bases 10 and 16, any target length and sharing state: proved (loops unrolled with unwinding obligation: complete for the type width). Assumes the QByteArray contracts."

def appendnumber(ty, bits, base):
    def run(ex):
        ex.unroll_rx = re.compile("appendNumber")
        fn = target(ex, "void Pillow::ByteArrayHelpers::appendNumber<%s, %d>(QByteArray&, %s)" % (ty, base, ty))
        for kind in ("own", "raw-or-shared"):
            st = State()
            n0 = fint("len"); src = UFSrc(ffun("prefix"))
            st.pc += [n0 >= 0, n0 <= 1 << 30]
            P = Rope([Sl(src, 0, n0)])
            cell = ex.new_cells(st, "target", 8)
            if kind == "own":
                v = ex.own(st, P)
            else: v = pure(P)
            ex.vset(st, Ptr(cell), v)
            N = fint("number")
            st.pc.append(And(N >= -(1 << (bits - 1)), N < (1 << (bits - 1))))
            cover(ex, st, "precondition")
            ndig = 0
            for f in ex.run(st, fn, [Ptr(cell), N]):
                ndig += 1
                post(ex, f, cell, P, n0, N, base)
            if ndig < 2: raise Unsupported("no path reaches the postcondition")
    return run

def post(ex, st, cell, P, n0, N, base):
    w = "post"
    v = ex.bget(st, Ptr(cell)); n = v.len()
    d = sub(n, n0)
    if isz(d):
        m = None
        for c in range(0, 24):
            if ex.holds(st, eq(d, c)): m = c; break
        if m is None: raise Unsupported("number of appended characters not determined on the path")
        d = m
    i = fint("pt")
    ex.prove(st, implies(and_(le(0, i), lt(i, n0)), eq(ex.ba_get(st, v, i), P.get(i))), "prefix-unchanged", where=w)
    out = [simp(ex.ba_get(st, v, add(n0, k))) for k in range(d)]
    for neg in (False, True):
        t = st.fork(); t.pc.append(N < 0 if neg else N >= 0)
        if ex.check(t) == z3.unsat: continue
        ds = out
        if neg:
            ex.prove(t, eq(out[0], 45) if out else False, "minus-sign", where=w); ds = out[1:]
        ex.prove(t, len(ds) >= 1, "at-least-one-digit", where=w)
        tot = 0; A = Z(-N if neg else N)
        vals = []
        for k, b in enumerate(ds):
            okb = or_(and_(le(48, b), le(b, 48 + min(base, 10) - 1)), and_(le(97, b), le(b, 97 + base - 11)) if base > 10 else False)
            ex.prove(t, okb, "digit-%d-valid" % k, where=w)
            x = ite(le(b, 57), sub(b, 48), sub(b, 87))
            if isz(x):      # lemma: the digit is one of the remainders computed on the path (keeps the sum linear)
                x = next((y for q in ex.qr.values() if str(q[1]) in names(x) for y in (q[1], -q[1]) if ex.holds(t, x == y)), x)
            vals.append(x)
        for k, x in enumerate(vals): tot = add(tot, mul(x, base ** (len(ds) - 1 - k)))
        ex.prove(t, eq(tot, A), "value", "sum of digits times powers of the base equals |number|", where=w)
        if len(ds) > 1: ex.prove(t, not_(eq(vals[0], 0)), "no-leading-zero", where=w)

def names(x):
    from ..loops import z3_vars
    return {str(v) for v in z3_vars(x)}

UNITS = [Unit("appendNumber<%s,%d>" % (t, b), ["helpers.cpp"], appendnumber(t, n, b), budget=500)
         for t, n in (("int", 32), ("long long", 64)) for b in (10, 16)]
