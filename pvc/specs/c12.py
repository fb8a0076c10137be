"""C12: percent decoding and request parameters."""
from ..unit import *
from ..pillow import *
from ..folds import *
from ..loops import StructCand, slot_get, part_of
NOTE = "Any byte string of any size: proved. UTF-8 decoding, QString comparison and QVector of pairs are assumed Qt contracts."

def hexv(c): return ite(and_(le(48, c), le(c, 57)), sub(c, 48), ite(and_(le(97, c), le(c, 102)), sub(c, 87), ite(and_(le(65, c), le(c, 70)), sub(c, 55), 0)))

class OutCand(StructCand):
    """bytes below the write position are decoded, bytes from the read position on are untouched"""
    def __init__(s, ex, key, D, I, out, c0, hs, k, idx): s.key, s.D, s.I, s.out, s.c0, s.hs, s.k, s.idx, s.name = key, D, I, out, c0, hs, k, idx, "decoded prefix"
    def check_init(s, ex, init): return ex.holds(init, eq(s.at(init, 0), 0))
    def assume(s, ex, st):
        j = ffun("junk"); idx, D, I, c0 = s.idx, s.D, s.I, s.c0
        def get(i): return ite(and_(le(0, i), lt(i, idx)), s.out(Z(i)), ite(and_(le(0, i), lt(i, I(idx))), j(Z(i)), c0.get(i)))
        st.w(s.key[1]).content = Content(Rope([Sl(FnSrc(get), 0, c0.base.len())]))
    def check_step(s, ex, b):
        c = slot_get(b, s.key); i = fint("pt"); hi = s.at(b, s.k + 1)
        t = b.fork(); t.pc.append(s.out(Z(i)) == Z(s.D(i)))
        return ex.holds(t, and_(implies(and_(le(0, i), lt(i, hi)), eq(c.get(i), s.out(Z(i)))), implies(or_(lt(i, 0), le(s.I(hi), i)), eq(c.get(i), s.c0.get(i)))), timeout=15000)

def unhex(ex):
    fn = target(ex, "Pillow::ByteArrayHelpers::unhex(char)"); st = State(); c = fint("c"); st.pc += [c >= -128, c <= 127]; cover(ex, st, "precondition"); n = 0
    for r in ex.run(st, fn, [c]):
        n += 1; ex.prove(r, eq(r.ret, hexv(c)), "post", "value of the hexadecimal digit", where="post")
    if n < 1: raise Unsupported("postcondition not reached")

def inplace(ex):
    from ..loops import index_terms
    fn = target(ex, "Pillow::ByteArrayHelpers::percentDecodeInPlace(char*, int)"); st = State()
    g = ffun("data"); n = fint("size"); m = fint("room"); st.pc += [n >= 0, n <= 1 << 30, m >= n, m <= 1 << 30]
    j = z3.Int("j"); st.pc.append(z3.ForAll([j], And(g(j) >= -128, g(j) <= 127), patterns=[g(j)]))
    rope = Rope([Sl(UFSrc(g), 0, m)]); o = ex.new_bytes(st, "buffer", rope); c0 = st.mem[o].content
    pct = lambda i: and_(eq(g(Z(i)), 37), lt(add(i, 2), n))
    I = ValFold("read_position", 0, lambda i, v: add(v, ite(pct(v), 3, 1))); ex.foldlist.append(I)
    D = lambda k: ite(pct(I.f(Z(k))), wrap(8, hexv(g(I.f(Z(k)) + 1)) * 16 + hexv(g(I.f(Z(k)) + 2))), g(I.f(Z(k))))
    out = ffun("decoded")
    P = lambda hs, part: [(key, x) for key, p, x0, x in hs.parts if p == part and isz(x)]
    def lc(ex, hs, k, init):
        l = []
        for x in index_terms(hs, k):
            for _, y in P(hs, "off"): l += [(y == I.f(x), "position=I(index)")]
            for _, y in P(hs, "v"): l += [(y == Z(n) - (I.f(x) - x), "remaining size")]
            l += [(And(I.f(x) <= n, I.f(x) >= x), "I within input")]
        return l
    ex.loopcands.append(lc)
    ex.structcands.append(lambda ex, hs, k, init: [OutCand(ex, key, D, I.f, out, c0, hs, k, x) for key in hs.structs if key == ("bytes", o) for x in index_terms(hs, k)])
    cover(ex, st, "precondition"); cnt = 0
    for r in ex.run(st, fn, [Ptr(o), n]):
        cnt += 1; v = r.ret; r.pc += I.axioms(IntVal(0))
        ex.prove(r, and_(le(0, v), le(v, n), eq(I.f(Z(v)), n)), "post-size", "the returned size is the number of decoded characters", where="post")
        i = fint("pt"); c = r.mem[o].content; r.pc.append(out(i) == Z(D(i)))
        ex.prove(r, implies(and_(le(0, i), lt(i, v)), eq(c.get(i), out(i))), "post", "each output byte is the decoding of its input group", where="post")
        ex.prove(r, implies(or_(lt(i, 0), le(n, i)), eq(c.get(i), g(i))), "frame", "bytes outside [data, data+size) unchanged", where="post")
    if cnt < 1: raise Unsupported("postcondition not reached")

def use_decode(ex):
    """percentDecodeInPlace under contract (proved by the unit above)"""
    def h(C):
        ex, st = C.ex, C.st; p, n = C.a
        r = ex.rope_at(st, p, n); i = ex.tm_atom(st, Tm("percent_decoded", r)); st.pc += [B(le(blen(i), n)), B(implies(lt(0, n), lt(0, blen(i))))]
        o = st.w(p.oid); ex.prove(st, not o.const, "write-to-constant", o.name)
        ex.content_write(st, o, p.off, Rope([Sl(UFSrc(ffun("junk")), 0, n)])); ex.content_write(st, st.w(p.oid), p.off, ratom(i))
        return blen(i)
    ex.contracts["Pillow::ByteArrayHelpers::percentDecodeInPlace(char*, int)"] = h
def decoded(ex, st, rope):
    return Tm("qs", ratom(ex.tm_atom(st, Tm("percent_decoded", rope))))
def is_empty_qs(ex, st, v): return v.op == "QString" or (v.op == "qs" and ex.holds(st, eq(v.a[0].len(), 0)))

def decode(sig, which):
    def run(ex):
        use_decode(ex)
        fn = target(ex, "Pillow::ByteArrayHelpers::percentDecode" + sig); st = State()
        n = fint("n"); st.pc += [n >= 0, n <= 1 << 29]; g = ffun("arg"); R = Rope([Sl(UFSrc(g), 0, n)])
        out = ex.new_cells(st, "result", 8)
        if which == "ba": c = ex.new_cells(st, "arg", 8); ex.vset(st, Ptr(c), pure(R)); args = [Ptr(c)]
        elif which == "null": args = [NULL, n]
        else: o = ex.new_bytes(st, "arg", R, const=True); args = [Ptr(o), n]
        cover(ex, st, "precondition"); cnt = 0
        for r in ex.run(st, fn, [Ptr(out)] + args):
            cnt += 1; v = ex.vget(r, Ptr(out))
            for t, empty in ((r.fork(), True), (r.fork(), False)):
                t.pc.append(n == 0 if empty else n > 0)
                if ex.check(t) == z3.unsat: continue
                if empty or which == "null": ex.prove(t, v.op == "QString" or is_empty_qs(ex, t, v), "post-empty", "empty string for no input", where="post"); continue
                want = decoded(ex, t, R)
                ex.prove(t, isinstance(v, Tm) and v.op == "qs", "post-kind", "%r" % (v,), where="post")
                if isinstance(v, Tm) and v.op == "qs": ex.prove_rope(t, v.a[0], want.a[0], "post", "UTF-8 decoding of the percent-decoded bytes")
        if cnt < 1: raise Unsupported("postcondition not reached")
    return run

UNITS = [Unit("unhex", ["helpers.cpp"], unhex), Unit("percentDecodeInPlace", ["helpers.cpp"], inplace),
         Unit("percentDecode(ba)", ["helpers.cpp"], decode("(QByteArray const&)", "ba")), Unit("percentDecode(ptr)", ["helpers.cpp"], decode("(char const*, int)", "ptr")), Unit("percentDecode(null)", ["helpers.cpp"], decode("(char const*, int)", "null"))]

# ---- parameters of HttpConnection
from ..conn import *
from ..qt2 import qs_ci
SRC = ["HttpConnection.cpp"]
def setup(ex, state="SendingHeaders"):
    use_devices(ex); use_percent_decode(ex)
    st = State(); return st, Conn(ex, st, ex.modules[0], state)

def decoded_cache(name):
    """fieldDecoded(): the decoding of the current bytes, given that the cache is empty or already is that"""
    def run(ex):
        fn = target(ex, HC + "request%sDecoded() const" % name); n = 0
        for kind in ("empty cache", "filled cache"):
            st, K = setup(ex); r = K.f["_request" + name]; want = dec(ex, st, r)
            K.set(st, "_request%sDecoded" % name, Tm("QString") if kind == "empty cache" else want, 8); st0 = st.fork()
            if kind == "filled cache": st.pc.append(Z(r.len()) > 0)
            cover(ex, st, kind)
            for t in ex.run(st, fn, [Ptr(K.q)]):
                n += 1; p = t.ret
                ex.prove(t, isinstance(p, Ptr) and p.oid == K.d and p.off == K.off["_request%sDecoded" % name], "post-field", where="post")
                v = ex.vget(t, p)
                if ex.holds(t, eq(r.len(), 0)): ex.prove(t, is_empty_qs(ex, t, v), "post-empty", "%r" % (v,), where="post")
                else: ex.prove(t, vkey(v) == vkey(want), "post", "decoding of the current field: %r" % (v,), where="post")
                ex.prove(t, not K.unchanged(st0, t, ["_request%sDecoded" % name]), "frame", "%s" % K.unchanged(st0, t, ["_request%sDecoded" % name]), where="post")
        if n < 3: raise Unsupported("postcondition not reached")
    return run

def params(ex):
    from ..loops import index_terms
    st, K = setup(ex); fn = target(ex, HC + "requestParams()")
    g = ffun("query"); n = fint("querylen"); st.pc += [n >= 0, n <= 1 << 28]
    R = Rope([Sl(UFSrc(g), 0, n)]); ex.vset(st, K.p("_requestQueryString"), pure(R))
    pe = ScanFold("param_end", lambda i: or_(le(n, i), eq(g(Z(i)), 38)), lambda i: i)         # first '&' from i, or the end
    ke = ScanFold("key_end", lambda i: or_(le(n, i), eq(g(Z(i)), 38), eq(g(Z(i)), 61)), lambda i: i)   # first '=' or '&' from i, or the end
    PE, KE = pe.f, ke.f; ex.foldlist += [pe, ke]
    P = ValFold("start", 0, lambda i, v: PE(Z(v)) + 1); ex.foldlist.append(P)
    def cases(i):
        c = P.f(Z(i)); out = []
        Q = lambda off, ln: dec(ex, st_of[0], Rope([Sl(UFSrc(g), off, ln)]))
        for has in (True, False):
            for e1 in (True, False):
                for e2 in ((True, False) if has else (True,)):
                    end = KE(c) if has else PE(c)
                    cond = [KE(c) < PE(c) if has else KE(c) == PE(c), (end == c) if e1 else (end > c)]
                    if has: cond.append((PE(c) == KE(c) + 1) if e2 else (PE(c) > KE(c) + 1))
                    out.append((And(*cond), [("item", {0: (8, Tm("QString") if e1 else Q(c, sub(end, c))), 8: (8, Tm("QString") if e2 else Q(KE(c) + 1, sub(PE(c), KE(c) + 1)))})]))
        return out
    st_of = [st]
    class PF(ListFold):
        def piece(s, ex, st, i):
            st_of[0] = st; return ListFold.piece(s, ex, st, i)
    lf = PF("params", cases); ex.foldlist.append(lf)
    def lc(ex, hs, k, init):
        l = []; offs = [(x0, x) for key, p, x0, x in hs.parts if p == "off" and isz(x)]
        for x0, x in offs:
            for y in index_terms(hs, k): l += [(x == P.f(y), "position=start(index)")]
            l += [(x <= KE(Z(x0)), "<=key end"), (x >= 0, ">=0"), (x <= n + 1, "<=n+1")]
            for y in [x0] + [z for _, p2, _, z in hs.parts if p2 == "off" and isz(z)]: l += [(x <= PE(Z(y)), "<=param end")]
        return l
    ex.loopcands.append(lc)
    st0 = st.fork(); cover(ex, st, "precondition"); cnt = parsed = 0
    for t in ex.run(st, fn, [Ptr(K.q)]):
        cnt += 1; p = t.ret; st_of[0] = t
        ex.prove(t, isinstance(p, Ptr) and p.oid == K.d and p.off == K.off["_requestParams"], "post-field", where="post")
        v = ex.vget(t, p); bad = K.unchanged(st0, t, ["_requestParams"]); ex.prove(t, not bad, "frame", str(bad), where="post")
        if ex.holds(t, or_(K.np > 0, eq(n, 0))):
            ex.prove(t, v.oid == K.params.oid and t.mem[v.oid].log == () and t.mem[v.oid].apps is None and t.mem[v.oid].n is st0.mem[v.oid].n, "post-cached", "already parsed or no query: unchanged", where="post"); continue
        parsed += 1; ps = ex.list_pieces(t, v.oid)
        ps = None if ps is None else [q for q in ps if not (q[0] == "base" and ex.holds(t, eq(q[2], 0)))]
        ok = ps is not None and len(ps) == 1 and ps[0][0] == "fold" and ps[0][1] is lf
        ex.prove(t, ok, "post", "one item per '&'-separated part, in order: %r" % (ps,), where="post")
        if ok: ex.prove(t, and_(le(n, P.f(Z(ps[0][2])))), "post-all", "the whole query is consumed", where="post")
    if not parsed: raise Unsupported("postcondition not reached")

def use_params(ex, K):
    """requestParams() under contract: the collection is there (arbitrary), nothing else changes"""
    def h(C): C.ev("requestParams"); return K.p("_requestParams")
    ex.contracts[HC + "requestParams()"] = h

def lookup(ex):
    st, K = setup(ex); use_params(ex, K); fn = target(ex, HC + "requestParamValue(QString const&)")
    w = fint("name"); c = ex.new_cells(st, "name", 8); ex.vset(st, Ptr(c), Tm("val", w)); out = ex.new_cells(st, "result", 8)
    is_ = lambda i: qs_ci(K.pn(Z(i)), w)
    none = ValFold("no_match", True, lambda i, v: and_(v, not_(is_(i))), claim=True); ex.foldlist.append(none)
    st0 = st.fork(); cover(ex, st, "precondition"); found = missing = 0
    for t in ex.run(st, fn, [Ptr(out), Ptr(K.q), Ptr(c)]):
        v = ex.vget(t, Ptr(out)); ex.prove(t, not K.unchanged(st0, t), "frame", "%s" % K.unchanged(st0, t), where="post")
        ex.prove(t, bool(events(t, "requestParams")), "post-parsed", "parameters parsed first", where="post")
        if v.op == "val":
            found += 1; i = v.a[0]
            ok = isz(i) and i.decl().name() == K.pv.name()
            ex.prove(t, ok, "post-value", "%r" % (v,), where="found")
            if ok:
                ix = i.arg(0); ex.prove(t, and_(le(0, ix), lt(ix, K.np), is_(ix), none.f(ix)), "post", "value of the first parameter with that name", where="found")
        else:
            missing += 1; ex.prove(t, v.op == "QString", "post-empty", where="missing"); ex.prove(t, none.f(K.np), "post", "empty only when none has that name", where="missing")
    if not (found and missing): raise Unsupported("postcondition not reached")

def setparam(ex):
    st, K = setup(ex); use_params(ex, K); fn = target(ex, HC + "setRequestParam(QString const&, QString const&)")
    w, x = fint("name"), fint("value"); c, d = ex.new_cells(st, "name", 8), ex.new_cells(st, "value", 8); ex.vset(st, Ptr(c), Tm("val", w)); ex.vset(st, Ptr(d), Tm("val", x))
    is_ = lambda i: qs_ci(K.pn(Z(i)), w)
    none = ValFold("no_match", True, lambda i, v: and_(v, not_(is_(i))), claim=True); ex.foldlist.append(none)
    st0 = st.fork(); cover(ex, st, "precondition"); rep = app = 0
    item = {0: (8, Tm("val", w)), 8: (8, Tm("val", x))}
    for t in ex.run(st, fn, [Ptr(K.q), Ptr(c), Ptr(d)]):
        v = ex.vget(t, K.p("_requestParams")); o = t.mem[v.oid]; bad = K.unchanged(st0, t, ["_requestParams"]); ex.prove(t, not bad, "frame", str(bad), where="post")
        ex.prove(t, bool(events(t, "requestParams")), "post-parsed", "parameters parsed first", where="post")
        if o.log:
            rep += 1; ix = o.log[0][0]
            ex.prove(t, and_(le(0, ix), lt(ix, K.np), is_(ix), none.f(Z(ix)), eq(o.n, K.np)), "post", "the first parameter with that name is replaced", where="replace")
            ex.prove(t, all(ex.holds(t, eq(l[0], ix)) for l in o.log) and {l[1] for l in o.log} == {0, 8} and all(vkey(l[3]) == vkey(item[l[1]][1]) for l in o.log), "post-value", where="replace")
        else:
            app += 1; ex.prove(t, none.f(K.np), "post", "appended only when none has that name", where="append")
            ps = ex.list_pieces(t, v.oid)
            ex.prove(t, ps is not None and ex.list_eq(t, ps, (("base", st0.mem[K.params.oid].base, K.np), ("item", item))), "post-appended", "%r" % (ps,), where="append")
    if not (rep and app): raise Unsupported("postcondition not reached")

UNITS += [Unit("request%sDecoded" % n, SRC, decoded_cache(n)) for n in ("Uri", "Fragment", "Path", "QueryString")]
UNITS += [Unit("requestParams", SRC, params), Unit("requestParamValue", SRC, lookup), Unit("setRequestParam", SRC, setparam)]
