"""C23: every Pillow::ByteArray::append overload leaves exactly old bytes ++ argument, inside the storage it owns."""
from ..unit import *
NOTE = "All overloads, any target of any size/capacity (owned unshared, raw view or null), any argument: proved. Precondition unshared target (its class comment); the callers' side of it is proved in the response-head units (C05)."

def sym_bytes(ex, st, name, maxlen=1 << 29):
    n = fint(name + "_len"); st.pc += [n >= 0, n <= maxlen]
    return Rope([Sl(UFSrc(ffun(name)), 0, n)])

def targets(ex):
    for kind in ("own", "raw", "null"):
        st = State(); P = sym_bytes(ex, st, "old")
        cell = ex.new_cells(st, "target", 8)
        if kind == "own": v = ex.own(st, P)
        elif kind == "raw":
            o = ex.new_bytes(st, "foreign", P, const=True); v = BA("raw", o, 0, P.len(), 0)
        else:
            P = Rope(); v = pure(P, True)
        ex.vset(st, Ptr(cell), v)
        yield kind, st, P, Ptr(cell)

def arg_ba(ex, st):
    R = sym_bytes(ex, st, "arg"); c = ex.new_cells(st, "arg", 8); ex.vset(st, Ptr(c), pure(R)); return Ptr(c), R
def arg_header(ex, st):
    c = ex.new_cells(st, "header", 16); A, B_ = sym_bytes(ex, st, "name", 1 << 28), sym_bytes(ex, st, "value", 1 << 28)
    ex.vset(st, Ptr(c), pure(A)); ex.vset(st, Ptr(c, 8), pure(B_))
    return Ptr(c), A + rlit(": ") + B_ + rlit("\r\n")
def arg_token(ex, st):
    R = sym_bytes(ex, st, "tok"); o = ex.new_bytes(st, "tokdata", R, const=True); c = ex.new_cells(st, "token", 16)
    ex.store(st, Ptr(c), R.len(), 4); ex.store(st, Ptr(c, 8), Ptr(o), 8)
    return Ptr(c), R

def run_append(fname, mk):
    def run(ex):
        fn = target(ex, fname); n = 0
        for kind, st, P, cell in targets(ex):
            args, R = mk(ex, st)
            cover(ex, st, kind)
            others = {oid: o for oid, o in st.mem.items() if oid != cell.oid and not (kind == "own" and oid == st.mem[cell.oid].cells[0][1].oid)}
            for f in ex.run(st, fn, [cell] + args):
                n += 1
                got = ex.bget(f, cell)
                ex.prove_rope(f, ex.ba_rope(f, got), P + R, "post", kind)
                same = all(f.mem[o] is v or (f.mem[o].kind == "bytes" and f.mem[o].content is v.content) or f.mem[o].cells == v.cells for o, v in others.items())
                ex.prove(f, same, "frame", "argument or foreign storage changed", where="post")
                if got.k == "own": ex.prove(f, le(ex.ba_rope(f, got).len(), got.cap), "size-within-capacity", where="post")
        if n < 3: raise Unsupported("postcondition not reached")
    return run

def one(mk):
    def g(ex, st):
        a, R = mk(ex, st); return [a], R
    return g
def a_ptr(ex, st):
    R = sym_bytes(ex, st, "arg"); o = ex.new_bytes(st, "argdata", R, const=True); return [Ptr(o), R.len()], R
def a_char(ex, st):
    c = fint("c"); st.pc += [c >= -128, c <= 127]; return [c], rbyte(c)
def a_lit(ex, st):
    o = ex.new_bytes(st, "lit", rlit(b"\r\n\0"), const=True); return [Ptr(o)], rlit(b"\r\n")

A = "Pillow::ByteArray::append"
UNITS = [Unit("append(HttpHeader)", ["helpers.cpp"], run_append(A + "(Pillow::HttpHeader const&)", one(arg_header))),
         Unit("append(QLatin1Literal)", ["helpers.cpp"], run_append(A + "(QLatin1String const&)", one(arg_token))),
         Unit("append(Token)", ["helpers.cpp"], run_append(A + "(Pillow::Token const&)", one(arg_token))),
         Unit("append(LowerCaseToken)", ["helpers.cpp"], run_append(A + "(Pillow::LowerCaseToken const&)", one(arg_token))),
         Unit("append(QByteArray)", ["helpers.cpp"], run_append(A + "(QByteArray const&)", one(arg_ba))),
         Unit("append(char[N])", ["helpers.cpp"], run_append("Pillow::ByteArray& Pillow::ByteArray::append<3>(char const (&) [3])", a_lit)),
         Unit("append(char*,int)", ["helpers.cpp"], run_append(A + "(char const*, int)", a_ptr)),
         Unit("append(char)", ["helpers.cpp"], run_append(A + "(char)", a_char))]

def run_eq(op, tok):
    def run(ex):
        fn = target(ex, "Pillow::ByteArray::operator%s(%s const&) const" % (op, tok)); n = 0
        for kind, st, P, cell in targets(ex):
            t, R = arg_token(ex, st)
            st.pc.append(P.len() == R.len()) if not isinstance(P.len(), int) else None
            # equal lengths: the answer is byte equality; different lengths: not equal
            cover(ex, st, kind)
            for f in ex.run(st, fn, [cell, t]):
                n += 1
                e = and_(eq(P.len(), R.len()), ex.ropes_eq_term(f, P, R))
                ex.prove(f, iff(f.ret, e if op == "==" else not_(e)), "post", kind, where="post")
        for kind, st, P, cell in targets(ex):
            t, R = arg_token(ex, st)
            st.pc.append(Z(P.len()) != Z(R.len()))
            if ex.check(st) == z3.unsat: continue
            for f in ex.run(st, fn, [cell, t]):
                ex.prove(f, iff(f.ret, op != "=="), "post-lengths", kind, where="post")
        if n < 2: raise Unsupported("postcondition not reached")
    return run
UNITS += [Unit("operator%s(%s)" % (op, t.split("::")[-1]), ["helpers.cpp"], run_eq(op, t)) for op in ("==", "!=") for t in ("QLatin1String", "Pillow::Token", "Pillow::LowerCaseToken")]
