"""C09: case-insensitive header lookup, lossless appending, raw header splitting."""
from ..unit import *
from ..pillow import *
from ..folds import *
from ..loops import StructCand
NOTE = "All collections of any length with any names and values: proved. asciiEqualsCaseInsensitive is proved against its definition (all sizes) and used as a contract by the lookups."
ASSUMPTIONS = ["a LowerCaseToken holds no upper-case letters (its documented precondition; every literal in the sources is checked by the tokens unit)"]

def lower(c): return ite(and_(le(65, c), le(c, 90)), add(c, 32), c)
def cieq(a, b): return eq(lower(a), lower(b))

def arg_ba(ex, st, nm):
    n = fint(nm + "_n"); st.pc += [n >= 0, n <= 1 << 29]; g = ffun(nm)
    c = ex.new_cells(st, nm, 8); ex.vset(st, Ptr(c), pure(Rope([Sl(UFSrc(g), 0, n)]))); return [Ptr(c)], g, n
def arg_raw(ex, st, nm):
    n = fint(nm + "_n"); st.pc += [n >= 0, n <= 1 << 29]; g = ffun(nm)
    o = ex.new_bytes(st, nm, Rope([Sl(UFSrc(g), 0, n)]), const=True); return [Ptr(o), n], g, n
def arg_tok(ex, st, nm):
    (p, n), g, _ = arg_raw(ex, st, nm); c = ex.new_cells(st, nm + "tok", 16)
    ex.store(st, Ptr(c), n, 4); ex.store(st, Ptr(c, 8), p, 8); return [Ptr(c)], g, n

def ascii(sig, a1, a2, low=False):
    def run(ex):
        fn = target(ex, ASCII + sig); st = State(); n = 0
        x, f, fl = a1(ex, st, "first"); y, g, gl = a2(ex, st, "second")
        st.pc += [z3.ForAll([j_], And(f(j_) >= -128, f(j_) <= 127, g(j_) >= -128, g(j_) <= 127)) for j_ in [z3.Int("j")]]
        if low: st.pc += [z3.ForAll([j_], Not(And(g(j_) >= 65, g(j_) <= 90))) for j_ in [z3.Int("j")]]
        fo = ValFold("all_equal", True, lambda i, v: and_(v, cieq(f(Z(i)), g(Z(i)))), claim=True, mono=fl)
        ex.foldlist.append(fo)
        cover(ex, st, "precondition")
        for r in ex.run(st, fn, x + y):
            n += 1
            r.pc += fo.axioms(IntVal(0))
            ex.prove(r, iff(r.ret, and_(eq(fl, gl), fo.f(fl))), "post", "equal sizes and equal up to ASCII case", where="post")
        if n < 2: raise Unsupported("postcondition not reached")
    return run

def lookup(which):
    def run(ex):
        use_ci(ex)
        st = State(); H = Headers(ex, st); cell = ex.new_cells(st, "collection", 8); ex.vset(st, Ptr(cell), H.vec)
        N = fint("want"); st.pc.append(blen(N) >= 0); st.pc.append(blen(N) < 1 << 28); o = ex.new_bytes(st, "fieldname", ratom(N), const=True)
        M = fint("wantv"); st.pc.append(blen(M) >= 0); st.pc.append(blen(M) < 1 << 28); ov = ex.new_bytes(st, "value", ratom(M), const=True)
        def is_(i): return ci_eq(H.nm(Z(i)), N)
        def isv(i): return And(ci_eq(H.nm(Z(i)), N), ci_eq(H.vl(Z(i)), M))
        C = "Pillow::HttpHeaderCollection::"
        # two names equal up to case have equal lengths (C09 ascii units)
        j = z3.Int("j")
        st.pc += [z3.ForAll([j], z3.Implies(ci_eq(H.nm(j), N), blen(H.nm(j)) == blen(N)), patterns=[ci_eq(H.nm(j), N)]),
                  z3.ForAll([j], z3.Implies(ci_eq(H.vl(j), M), blen(H.vl(j)) == blen(M)), patterns=[ci_eq(H.vl(j), M)])]
        cover(ex, st, "precondition"); n = 0
        if which in ("getFieldValue", "getFieldValue(token)"):
            none = ValFold("no_match", True, lambda i, v: and_(v, not_(is_(i))), claim=True); ex.foldlist.append(none)
            if which == "getFieldValue": fn = target(ex, C + "getFieldValue(char const*, int) const"); args = [Ptr(cell), Ptr(o), blen(N)]
            else:
                fn = target(ex, C + "getFieldValue(Pillow::LowerCaseToken const&) const")
                c = ex.new_cells(st, "tok", 16); ex.store(st, Ptr(c), blen(N), 4); ex.store(st, Ptr(c, 8), Ptr(o), 8); args = [Ptr(cell), Ptr(c)]
            found = missing = 0
            for r in ex.run(st, fn, args):
                n += 1; p = r.ret
                if isinstance(p, Ptr) and p.oid == H.oid:
                    found += 1
                    ex.prove(r, and_(eq(p.off, 8), le(0, p.idx), lt(p.idx, H.n), is_(p.idx), none.f(Z(p.idx))), "post", "value of the first matching header", where="found")
                else:
                    missing += 1
                    ex.prove(r, none.f(H.n), "post", "empty only when no header matches", where="missing")
                    ex.prove(r, eq(ex.bget(r, p).len(), 0), "post", "empty value", where="missing")
            if not (found and missing): raise Unsupported("postcondition not reached")
        elif which == "getFieldValues":
            lf = ListFold("matching values", lambda i: [(is_(i), [("item", {0: (8, pure(H.value(i)))})]), (not_(is_(i)), [])]); ex.foldlist.append(lf)
            fn = target(ex, C + "getFieldValues(char const*, int) const"); out = ex.new_cells(st, "result", 8)
            for r in ex.run(st, fn, [Ptr(out), Ptr(cell), Ptr(o), blen(N)]):
                n += 1; v = ex.vget(r, Ptr(out)); ps = ex.list_pieces(r, v.oid)
                ex.prove(r, ps is not None and ex.list_eq(r, ps, (("fold", lf, H.n),)), "post", "all matching values in order: %r" % (ps,), where="post")
        else:
            none = ValFold("no_match", True, lambda i, v: and_(v, not_(isv(i))), claim=True, mono=H.n); ex.foldlist.append(none)
            fn = target(ex, C + "testFieldValue(char const*, int, char const*, int) const")
            for r in ex.run(st, fn, [Ptr(cell), Ptr(o), blen(N), Ptr(ov), blen(M)]):
                n += 1; ex.prove(r, iff(r.ret, not_(none.f(H.n))), "post", "some header has the name and the value", where="post")
        if n < 1: raise Unsupported("postcondition not reached")
        for r_ in [r]:
            ex.prove(r_, r_.mem[H.oid].log == () and r_.mem[H.oid].n is st.mem[H.oid].n, "frame", "collection unchanged", where="post")
    return run

class FillCand(StructCand):
    """elements below `low` are the old ones, those in [low, low+idx) are copies of the source's"""
    def __init__(s, ex, key, hs, k, idx, init, low, n, old, src):
        s.key, s.hs, s.k, s.idx, s.init_, s.low, s.n, s.old, s.src, s.name = key, hs, k, idx, init, low, n, old, src, "elements copied"
    def fn(s, hi):
        def base(ex, st, i, off, t, size):
            a, b = lt(i, s.low), lt(i, add(s.low, hi))
            if a is not False and ex.holds(st, a): return s.old(ex, st, i, off, t, size)
            if b is not False and ex.holds(st, and_(not_(a), b)): return s.src(ex, st, sub(i, s.low), off, t, size)
            if ex.holds(st, not_(b)): return EMPTY_BA()
            raise Unsupported("element position not determined")
        return base
    def check_init(s, ex, init): return ex.holds(init, and_(eq(s.at(init, 0), 0), eq(init.mem[s.key[1]].n, s.n)))
    def assume(s, ex, st):
        o = st.w(s.key[1]); o.base = s.fn(s.idx); o.log = (); o.apps = None; st.pc.append(Z(o.n) == Z(s.n))
    def check_step(s, ex, b):
        hi = s.at(b, s.k + 1)
        return same_elems(ex, b, s.key[1], s.n, s.low, hi, s.fn(hi))

def same_elems(ex, st, oid, n, low, hi, want):
    """the element object holds, at every index, what `want` says (pointwise, by cases on the position)"""
    if not ex.holds(st, eq(st.mem[oid].n, n)): return False
    i = fint("pt")
    for c in (lt(i, low), and_(le(low, i), lt(i, sub(add(low, hi), 1))), and_(eq(i, sub(add(low, hi), 1)), le(low, i))):
        t = st.fork(); t.pc += [B(and_(le(0, i), lt(i, n))), B(c)]
        if ex.check(t) == z3.unsat: continue
        for off in (0, 8):
            try: a, b = ex.elem_value(t, t.mem[oid], i, off, ir.PTR, 8), want(ex, t, i, off, ir.PTR, 8)
            except Unsupported: return False
            if isinstance(a, tuple): return False
            if not ex.val_eq(t, a, b): return False
    return True

def plus(self_append):
    def run(ex):
        st = State(); H = Headers(ex, st, "old"); L = H if self_append else Headers(ex, st, "added")
        cell = ex.new_cells(st, "collection", 8); ex.vset(st, Ptr(cell), H.vec)
        if self_append: arg = cell
        else: arg = ex.new_cells(st, "l", 8); ex.vset(st, Ptr(arg), L.vec)
        fn = target(ex, "Pillow::HttpHeaderCollection::operator+=(QVector<Pillow::HttpHeader> const&)")
        tot = add(H.n, L.n)
        def cands(ex, hs, k, init):
            from ..loops import index_terms
            return [FillCand(ex, key, hs, k, x, init, H.n, tot, H.base, L.base) for key in hs.structs if key[0] == "elems" for x in index_terms(hs, k)]
        ex.structcands.append(cands)
        class Copies(ListFold):              # loops that append instead of growing first
            lenf = staticmethod(lambda i: i)
        lf = Copies("copied headers", lambda i: [(True, [("item", {0: (8, pure(L.name(i))), 8: (8, pure(L.value(i)))})])]); ex.foldlist.append(lf)
        cover(ex, st, "precondition"); n = 0
        for r in ex.run(st, fn, [Ptr(cell), Ptr(arg)]):
            n += 1; v = ex.vget(r, Ptr(cell)); o = r.mem[v.oid]
            ex.prove(r, eq(o.n, tot), "post-count", where="post")
            ps = ex.list_pieces(r, v.oid)
            if ps is not None and len(ps) and ex.list_eq(r, ps, (("base", H.base, H.n), ("fold", lf, L.n))):
                ex.prove(r, True, "post", "old headers, then the added ones, in order", where="post"); continue
            fc = FillCand(ex, None, None, None, None, None, H.n, tot, H.base, L.base)
            ex.prove(r, same_elems(ex, r, v.oid, tot, H.n, L.n, fc.fn(L.n)), "post", "old headers, then the added ones, in order", where="post")
            if not self_append:
                ex.prove(r, ex.vget(r, Ptr(arg)).oid == L.oid and r.mem[L.oid].log == (), "frame", "source unchanged", where="post")
        if n < 1: raise Unsupported("postcondition not reached")
    return run

def rawheader(ex):
    st = State(); g = ffun("raw"); n = fint("len"); st.pc += [n >= 0, n <= 1 << 28]
    j = z3.Int("j"); st.pc.append(z3.ForAll([j], And(g(j) >= -128, g(j) <= 127)))
    o = ex.new_bytes(st, "rawheader", Rope([Sl(UFSrc(g), 0, n)]), const=True)
    h = ex.new_cells(st, "header", 16); ex.vset(st, Ptr(h), EMPTY_BA()); ex.vset(st, Ptr(h, 8), EMPTY_BA())
    nocolon = ValFold("no_colon_before", True, lambda i, v: and_(v, not_(eq(g(Z(i)), 58))), claim=True)
    cpos = fint("colon")                     # position of the first colon (n if none): specification constant
    st.pc += [cpos >= 0, cpos <= n, z3.Implies(cpos < n, g(cpos) == 58), z3.ForAll([j], z3.Implies(And(0 <= j, j < cpos), g(j) != 58))]
    spos = fint("start"); st.pc += [z3.Implies(cpos < n, And(spos > cpos, spos <= n, z3.Implies(spos < n, g(spos) != 32), z3.ForAll([j], z3.Implies(And(cpos < j, j < spos), g(j) == 32))))]
    ex.loopcands.append(lambda ex, hs, k, init: [(x <= cpos, "<=colon") for _, p, _, x in hs.parts if isz(x) and z3.is_int(x)] + [(x < spos, "<start") for _, p, _, x in hs.parts if isz(x) and z3.is_int(x)] + [(x <= spos, "<=start") for _, p, _, x in hs.parts if isz(x) and z3.is_int(x)])
    fn = target(ex, "Pillow::HttpHeader::setFromRawHeader(char const*, int)"); cover(ex, st, "precondition"); cnt = 0
    for r in ex.run(st, fn, [Ptr(h), Ptr(o), n]):
        cnt += 1
        a, b = ex.bget(r, Ptr(h)), ex.bget(r, Ptr(h, 8)); src = UFSrc(g)
        ex.prove_rope(r, ex.ba_rope(r, a), Rope([Sl(src, 0, cpos)]), "post", "name up to the first colon")
        for t, has in ((r.fork(), True), (r.fork(), False)):
            t.pc.append(cpos < n if has else cpos == n)
            if ex.check(t) == z3.unsat: continue
            ex.prove_rope(t, ex.ba_rope(t, b), Rope([Sl(src, spos, sub(n, spos))]) if has else Rope(), "post", "value after the colon and the blanks")
    if cnt < 2: raise Unsupported("postcondition not reached")

Q = "(QByteArray const&, %s)"
UNITS = [Unit("ascii(ba,ba)", ["helpers.cpp"], ascii(Q % "QByteArray const&", arg_ba, arg_ba)),
         Unit("ascii(ba,latin1)", ["helpers.cpp"], ascii(Q % "QLatin1String const&", arg_ba, arg_tok)),
         Unit("ascii(raw)", ["helpers.cpp"], ascii("(char const*, int, char const*, int)", arg_raw, arg_raw)),
         Unit("ascii(ba,token)", ["helpers.cpp"], ascii(Q % "Pillow::Token const&", arg_ba, arg_tok)),
         Unit("ascii(ba,lowertoken)", ["helpers.cpp"], ascii(Q % "Pillow::LowerCaseToken const&", arg_ba, arg_tok, True))]
UNITS += [Unit(w, ["HttpHeader.cpp"], lookup(w)) for w in ("getFieldValue", "getFieldValue(token)", "getFieldValues", "testFieldValue")]
UNITS += [Unit("operator+=(collection)", ["HttpHeader.cpp"], plus(False)), Unit("operator+=(itself)", ["HttpHeader.cpp"], plus(True)),
          Unit("setFromRawHeader", ["HttpHeader.cpp"], rawheader)]

# ---- the inline overloads of HttpHeader.h reduce to the functions above
def overloads(ex):
    C = "Pillow::HttpHeaderCollection::"
    calls = []
    def rec(name, pairs):
        def h(c):
            ex, st = c.ex, c.st
            base = 2 if c.fn.sret else 1
            rs = tuple(ex.rope_at(st, c.a[base + 2 * k], c.a[base + 2 * k + 1]) for k in range(pairs))
            c.ev(name, rs, c.a[base - 1].oid)
            return fbool("r") if name == "test" else (c.a[base - 1] if name == "get" else None)
        return h
    ex.contracts[C + "getFieldValue(char const*, int) const"] = rec("get", 1)
    ex.contracts[C + "getFieldValues(char const*, int) const"] = rec("gets", 1)
    ex.contracts[C + "testFieldValue(char const*, int, char const*, int) const"] = rec("test", 2)
    def coll(st):
        H = Headers(ex, st); c = ex.new_cells(st, "collection", 8); ex.vset(st, Ptr(c), H.vec); return Ptr(c)
    def go(fname, mk, name, want):
        fn = target(ex, fname); st = State(); c = coll(st); args, ropes = mk(st); ret = []
        if fn.sret: ret = [Ptr(ex.new_cells(st, "ret", 8))]
        n = 0
        for r in ex.run(st, fn, ret + [c] + args):
            n += 1; ev = [e for e in r.trace if isinstance(e, tuple) and e[0] == name]
            ex.prove(r, len(ev) == 1 and ev[0][2] == c.oid, "post", "one lookup in this collection", where=fname)
            if len(ev) == 1:
                for g, w in zip(ev[0][1], want(ropes)): ex.prove_rope(r, g, w, "post-argument", fname)
        if n < 1: raise Unsupported("no path")
    none = lambda st: ([], [])
    def one(f):
        def g(st): a, gf, n = f(ex, st, "x"); return a, [Rope([Sl(UFSrc(gf), 0, n)])]
        return g
    def two(f):
        def g(st):
            a, gf, n = f(ex, st, "x"); b, hf, m = f(ex, st, "y"); return a + b, [Rope([Sl(UFSrc(gf), 0, n)]), Rope([Sl(UFSrc(hf), 0, m)])]
        return g
    host, val = rlit("Host"), rlit("val")
    go("pvc::hc_get_ba", one(arg_ba), "get", lambda r: r); go("pvc::hc_get_lit", none, "get", lambda r: [host]); go("pvc::hc_get_tok", one(arg_tok), "get", lambda r: r)
    go("pvc::hc_gets_ba", one(arg_ba), "gets", lambda r: r); go("pvc::hc_gets_lit", none, "gets", lambda r: [host])
    go("pvc::hc_test_ll", none, "test", lambda r: [host, val]); go("pvc::hc_test_tt", two(arg_tok), "test", lambda r: r)
    go("pvc::hc_test_lt", one(arg_tok), "test", lambda r: [host, r[0]]); go("pvc::hc_test_tl", one(arg_tok), "test", lambda r: [r[0], val])

def headers_inline(ex):
    ex.contracts["Pillow::HttpHeader::setFromRawHeader(char const*, int)"] = lambda C: C.ev("raw", C.ex.rope_at(C.st, C.a[1], C.a[2]), C.a[0].oid)
    def hdr(st, nm):
        c = ex.new_cells(st, nm, 16); a, b = fint(nm + "a"), fint(nm + "b"); st.pc += [blen(a) >= 0, blen(b) >= 0]
        ex.vset(st, Ptr(c), pure(ratom(a))); ex.vset(st, Ptr(c, 8), pure(ratom(b))); return Ptr(c), ratom(a), ratom(b)
    def chk(r, p, a, b, w):
        ex.prove_rope(r, ex.ba_rope(r, ex.bget(r, p)), a, "post-name", w); ex.prove_rope(r, ex.ba_rope(r, ex.bget(r, Ptr(p.oid, 8))), b, "post-value", w)
    for name in ("hh_two", "hh_ba", "hh_copy", "hh_pair", "hh_assign", "hh_assign_pair", "hh_raw"):
        fn = target(ex, "pvc::" + name); st = State(); out = ex.new_cells(st, "ret", 16); n = 0
        h, a, b = hdr(st, "h")
        if name == "hh_two": args, a, b = [], rlit("Host"), rlit("val")
        elif name == "hh_raw": args = []
        elif name == "hh_ba":
            x, y = ex.new_cells(st, "x", 8), ex.new_cells(st, "y", 8); ex.vset(st, Ptr(x), pure(a)); ex.vset(st, Ptr(y), pure(b)); args = [Ptr(x), Ptr(y)]
        else: args = [h]
        if "assign" in name:
            ex.vset(st, Ptr(out), pure(ratom(fint("o1")))); ex.vset(st, Ptr(out, 8), pure(ratom(fint("o2"))))
        for r in ex.run(st, fn, [Ptr(out)] + args):
            n += 1
            if name == "hh_raw":
                ev = [e for e in r.trace if isinstance(e, tuple) and e[0] == "raw"]
                ex.prove(r, len(ev) == 1 and ev[0][1].lit() == b"Host: val", "post", "raw text handed over", where=name)
            else: chk(r, Ptr(out), a, b, name)
        if n < 1: raise Unsupported("no path")
    for name in ("hh_eq", "hh_ne"):
        fn = target(ex, "pvc::" + name); st = State(); h, a, b = hdr(st, "h"); g, c, d = hdr(st, "g"); n = 0
        for r in ex.run(st, fn, [h, g]):
            n += 1; w = and_(ex.ropes_eq_term(r, a, c), ex.ropes_eq_term(r, b, d))
            ex.prove(r, iff(r.ret, w if name == "hh_eq" else not_(w)), "post", "equal iff name and value are equal", where=name)
        if n < 1: raise Unsupported("no path")

def appends(ex):
    for name in ("hc_append", "hc_shift"):
        fn = target(ex, "pvc::" + name); st = State(); H = Headers(ex, st); c = ex.new_cells(st, "c", 8); ex.vset(st, Ptr(c), H.vec)
        h = ex.new_cells(st, "h", 16); a, b = fint("a"), fint("b"); st.pc += [blen(a) >= 0, blen(b) >= 0]
        ex.vset(st, Ptr(h), pure(ratom(a))); ex.vset(st, Ptr(h, 8), pure(ratom(b))); n = 0
        for r in ex.run(st, fn, [Ptr(c), Ptr(h)]):
            n += 1; ps = ex.list_pieces(r, ex.vget(r, Ptr(c)).oid)
            ex.prove(r, ps is not None and ex.list_eq(r, ps, (("base", H.base, H.n), ("item", {0: (8, pure(ratom(a))), 8: (8, pure(ratom(b)))}))), "post", "old headers then the new one", where=name)
        if n < 1: raise Unsupported("no path")
UNITS += [Unit("HttpHeaderCollection overloads", ["helpers.cpp"], overloads), Unit("HttpHeader inline", ["helpers.cpp"], headers_inline), Unit("append one header", ["helpers.cpp"], appends)]
