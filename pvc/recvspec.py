"""Contracts of the receiving half of HttpConnectionPrivate, proved against the bodies."""
from .connspec import *
from .qt import numv, numok
MAXHEAD, MAXBODY = 32 * 1024, 128 * 1024 * 1024

def init_parser_contracts(ex, K):
    """the request head parser as its callers see it (C01 decides its behaviour): reads the given bytes from `off`, may change its own fields and record headers"""
    def upd(st, refs=True):
        o = st.w(K.d)
        for k, v in K.poff.items():
            off = K.off["_parser"] + v
            if k in K.pv0:
                sz = o.cells[off][0]; x = fint("parser." + k); st.pc += [x >= -(1 << (8 * sz - 1)), x < 1 << (8 * sz - 1)]; o.cells[off] = (sz, x)
        if refs:
            n = fint("nref"); st.pc += [n >= 0, n <= 1 << 20]; rf = [ffun("ref%d" % k) for k in range(4)]
            ex.vset(st, K.p("_requestHeadersRef"), ex.vec(st, "Pillow::HttpHeaderRef", n, lambda ex, st, i, off, t, size: rf[off // 4](Z(i)), False, "headerRefs"))
            x = fint("clindex"); st.pc += [x >= -1, x < 1 << 20]; K.set(st, "_requestContentLengthHeaderIndex", x, 4)
    def isp(C): C.ex.prove(C.st, C.a[0].oid == K.d and eq(C.a[0].off, K.off["_parser"]) is True, "pre-parser", "this connection's parser")
    def execute(C):
        isp(C); r = C.ex.rope_at(C.st, C.a[1], add(C.a[2], 1)); body = C.ex.subrope(C.st, r, 0, C.a[2])      # the terminator must be readable
        term = C.ex.byte_at(C.st, r, C.a[2]) if hasattr(C.ex, "byte_at") else None
        C.ev("parse", body, C.a[2], C.a[3], C.a[1]); upd(C.st); return fint("nread")
    def err(C): isp(C); b = fint("has_error"); C.ev("has_error", b); return b
    def fin(C): isp(C); b = fint("is_finished"); C.ev("is_finished", b); return b
    def ini(C): isp(C); C.ev("parser_init"); upd(C.st, False); return 1
    ex.contracts["thin_http_parser_execute"] = execute; ex.contracts["thin_http_parser_has_error"] = err; ex.contracts["thin_http_parser_is_finished"] = fin; ex.contracts["thin_http_parser_init"] = ini

def use_read(ex, K):
    def rd(C):
        ex, st = C.ex, C.st; d = devid(C.a[0]); ex.nonnull(st, C.a[0]); p, n = C.a[1], C.a[2]; p = ex.nonnull(st, p); o = st.mem[p.oid]
        ex.prove(st, and_(le(0, n), le(0, p.off), le(add(p.off, n), o.size)), "bounds-write", "QIODevice::read of %s bytes at %s of %s (size %s)" % (n, p.off, o.name, o.size))
        ex.prove(st, not o.const and not o.shared and not o.freed, "write-to-shared", o.name)
        r = fint("bytesRead"); st.pc += [r >= -1, r <= Z(n)]
        out = []
        for t, pos in C.split(lt(0, r)):
            if not pos: t.trace.append(("read", d, Rope(), n)); out.append((t, r)); continue
            g = Rope([Sl(UFSrc(ffun("input")), 0, r)]); ex.content_write(t, t.w(p.oid), p.off, g); t.trace.append(("read", d, g, n)); out.append((t, r))
        return out
    ex.contracts["QIODevice::read(char*, long long)"] = rd
    def avail(C):
        C.ex.nonnull(C.st, C.a[0]); x = fint("bytesAvailable"); C.st.pc += [x >= 0, x <= 1 << 29]; C.ev("avail", devid(C.a[0]), x); return x
    ex.vmethods[("QIODevice", QIO["bytesAvailable"])] = ("QIODevice::bytesAvailable()", avail)
QUIET = ("devflush", "bytesToWrite", "avail", "read", "parse", "has_error", "is_finished")
def evs(t, *k): return [e for e in t.trace if isinstance(e, tuple) and e[0] in k]

def no_buffer(K, st):
    """the buffer was released (shared null): possible whenever no request has been begun"""
    K.ex.vset(st, K.p("_requestBuffer"), EMPTY_BA(True)); K.f["_requestBuffer"] = Rope()
def process_input(state, nobuf=False):
    def run(ex):
        st, K = base(ex, state); use_read(ex, K); (no_buffer(K, st) if nobuf else None); init_parser_contracts(ex, K); calling(K, others("processInput")); signals(K)
        n = K.f["_requestBuffer"].len(); fn = target(ex, CP + "processInput()")
        if state is None: st.pc += [K.state0 != S["ReceivingHeaders"], K.state0 != S["ReceivingContent"]]
        cl = K.v["_requestContentLength"]; bs = K.pv0["body_start"]
        if state == "ReceivingContent": st.pc += [bs >= 0, Z(bs) <= n, cl >= 0, cl <= MAXBODY]
        st0 = st.fork(); cover(ex, st, "precondition"); N = 0
        for r in ex.run(st, fn, [Ptr(K.d)]):
            N += 1
            for t, _ in cases(ex, r):
                a = acts(t, QUIET)
                if state is None: only(ex, t, [], a, "not receiving"); frame(ex, K, st0, t, [], "not receiving"); ex.prove(t, not evs(t, "read", "avail"), "post-no-read", where="not receiving"); continue
                av = evs(t, "avail"); rd = evs(t, "read")
                ex.prove(t, len(av) == 1 and idis(ex, t, av[0][1], K.idev), "post-asked", "the input device is asked once what is available", where="post")
                if len(av) != 1: continue
                if ex.holds(t, eq(av[0][2], 0)): ex.prove(t, not rd, "post-read", "nothing to read", where="post"); got = Rope()
                else:
                    ok = len(rd) == 1 and idis(ex, t, rd[0][1], K.idev); ex.prove(t, ok, "post-read", "read once, from the input device", where="post")
                    if not ok: continue
                    ex.prove(t, eq(rd[0][3], av[0][2]), "post-read-all", "everything available is asked for", where="post"); got = rd[0][2]
                q = a[-1][3] if a and a[-1][0] == "call" else t
                full = K.f["_requestBuffer"] + got
                ex.prove_rope(q, K.rope(q, "_requestBuffer"), full, "post-buffer", "bytes read are appended, none lost or changed")
                if state == "ReceivingHeaders":
                    pe = evs(t, "parse"); he = evs(t, "has_error"); fi = evs(t, "is_finished")
                    emptybuf = ex.holds(t, eq(full.len(), 0))
                    ex.prove(t, len(pe) == (0 if emptybuf else 1), "post-parse", "the parser runs exactly once on a non-empty buffer", where="post")
                    if pe:
                        ex.prove_rope(t, pe[0][1], full, "post-parse-bytes", "the whole buffer"); ex.prove(t, eq(pe[0][3], K.pv0["nread"]), "post-parse-resume", "resumes where it stopped", where="post")
                    frame_all = ["_requestBuffer", "_requestHeadersRef", "_requestContentLengthHeaderIndex", "_parser"]
                    bad = [x for x in K.unchanged(st0, q, frame_all)]; ex.prove(q, not bad, "frame", "changed: %s" % bad, where="post")
                    nread = q.mem[K.d].cells[K.off["_parser"] + K.poff["nread"]][1]
                    # has_error is only consulted when the head is not already too long; is_finished only when there is no error
                    big = simp(Z(nread) > MAXHEAD) if isz(nread) else nread > MAXHEAD
                    for u, (over,) in cases(ex, t, uns_gt(nread)):
                        refuse = over or (he and ex.holds(u, not_(eq(he[0][1], 0))))
                        if not over: ex.prove(u, bool(he), "post-error-asked", where="post")
                        if refuse:
                            if only(ex, u, [("call", "writeRequestErrorResponse")], a, "refused"): ex.prove(u, eq(a[0][2][0], 400), "post-status", where="refused"); last_call(ex, K, u, "refused")
                            continue
                        ex.prove(u, bool(he) and ex.holds(u, eq(he[0][1], 0)) and bool(fi), "post-finish-asked", where="post")
                        if not fi: continue
                        for w, (done,) in cases(ex, u, Z(fi[0][1]) != 0):
                            if done:
                                if only(ex, w, [("call", "transitionToReceivingContent")], a, "head complete"): last_call(ex, K, w, "head complete")
                            else: only(ex, w, [], a, "head incomplete")
                else:
                    ex.prove(t, not evs(t, "parse"), "post-no-parse", "content is not parsed", where="post"); frame(ex, K, st0, q, ["_requestBuffer"], "post")
                    for u, (done,) in cases(ex, t, Z(full.len()) - bs >= cl):
                        if done:
                            if only(ex, u, [("call", "transitionToSendingHeaders")], a, "content complete"): last_call(ex, K, u, "content complete")
                        else: only(ex, u, [], a, "content incomplete")
        if N < (1 if state is None else 3): raise Unsupported("postcondition not reached")
    return run
def uns_gt(x):
    """(size_t) x > MAXHEAD"""
    return Or(Z(x) > MAXHEAD, Z(x) < 0)

def receiving_headers(ex):
    st, K = base(ex); init_parser_contracts(ex, K); calling(K, others("transitionToReceivingHeaders")); signals(K); fn = target(ex, CP + "transitionToReceivingHeaders()")
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for r in ex.run(st, fn, [Ptr(K.d)]):
        for t, (already,) in cases(ex, r, K.state0 == S["ReceivingHeaders"]):
            N += 1; a = acts(t)
            if already: only(ex, t, [], a, "already"); frame(ex, K, st0, t, [], "already"); continue
            only(ex, t, [("parser_init",)], a, "post"); ex.prove(t, eq(K.state(t), S["ReceivingHeaders"]), "post-state", where="post")
            for f, v in (("_requestContentLength", 0), ("_requestContentLengthHeaderIndex", -1), ("_requestHttp11", 0)): ex.prove(t, eq(K.get(t, f), v), "post-reset", "%s forgotten between requests" % f, where="post")
            frame(ex, K, st0, t, [ST, "_requestContentLength", "_requestContentLengthHeaderIndex", "_requestHttp11", "_parser"], "post")
    if N < 2: raise Unsupported("postcondition not reached")

def receiving_content(ex):
    st, K = base(ex); use_read(ex, K)
    fn = target(ex, CP + "transitionToReceivingContent()"); H2 = Headers(ex, st, "reqh2")
    def setup(C):
        """headers are rebuilt from the recorded positions (setupRequestHeaders)"""
        C.st.pc.append(H2.n == Z(C.st.mem[ex.vget(C.st, K.p("_requestHeadersRef")).oid].n)); ex.vset(C.st, K.p("_requestHeaders"), H2.vec)
    calling(K, others("transitionToReceivingContent"), {"setupRequestHeaders": setup}); signals(K)
    cl0, ix = K.v["_requestContentLength"], K.v["_requestContentLengthHeaderIndex"]; bs = K.pv0["body_start"]
    st.pc += [cl0 == 0, ix >= -1, ix < K.nref, bs >= 0, bs <= Z(K.f["_requestBuffer"].len())]      # reset by transitionToReceivingHeaders; recorded by parser_http_field; set by the parser
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    from .qt import number_of
    for r in ex.run(st, fn, [Ptr(K.d)]):
        for t, (already, has) in cases(ex, r, K.state0 == S["ReceivingContent"], ix >= 0):
            N += 1; a = acts(t, QUIET)
            if already: only(ex, t, [], a, "already"); frame(ex, K, st0, t, [], "already"); continue
            ok = bool(a) and a[0][:2] == ("call", "setupRequestHeaders"); ex.prove(t, ok, "post-headers", "headers are set up first: %s" % [e[:2] for e in a], where="post")
            if not ok: continue
            ex.prove(a[0][3], eq(K.state(a[0][3]), S["ReceivingContent"]), "post-state", where="post"); frame(ex, K, st0, a[0][3], [ST], "post"); rest = a[1:]
            if has:
                v = H2.vl(ix); num, okn = numv(IntVal(32), IntVal(10), v), numok(IntVal(32), IntVal(10), v)
            else: num, okn = 0, True
            for u, (neg, toobig, some) in cases(ex, t, And(Z(num) < 0) if has else False, Or(Z(num) > MAXBODY, Not(okn)) if has else False, (Z(num) > 0) if has else False):
                q = rest[-1][3] if rest and rest[-1][0] == "call" else u
                if not neg or has: ex.prove(q, eq(K.get(q, "_requestContentLength"), num), "post-length", "length announced by the client", where="post")
                bad = [f for f in K.unchanged(a[0][4], q, ["_requestContentLength", "_requestHeaders", "_requestBuffer"])]; ex.prove(q, not bad, "frame", "changed %s" % bad, where="post")
                if neg or toobig:
                    if only(ex, u, [("call", "writeRequestErrorResponse")], rest, "refused"): ex.prove(u, eq(rest[0][2][0], 400 if neg else 413), "post-status", where="refused"); last_call(ex, K, u, "refused")
                    continue
                if not some:
                    if only(ex, u, [("call", "transitionToSendingHeaders")], rest, "no content"): last_call(ex, K, u, "no content"); ex.prove_rope(rest[0][3], K.rope(rest[0][3], "_requestBuffer"), K.f["_requestBuffer"], "post-buffer", "no content")
                    continue
                exp = ex.rope_id(u, first_value(ex, u, H2.vec.oid, "expect")); w100 = ci_eq(exp, ex.rope_id(u, rlit(b"100-continue")))
                for w, (cont,) in cases(ex, u, w100):
                    want = ([("write",)] if cont else []) + [("call", "processInput")]
                    if not only(ex, w, want, rest, "content"): continue
                    if cont: ex.prove_rope(w, rest[0][2], rlit("HTTP/1.1 100 Continue\r\n\r\n"), "post-continue", "expectation answered"); ex.prove(w, idis(ex, w, rest[0][1], K.odev), "post-device", where="content")
                    q = rest[-1][3]; ex.prove_rope(q, K.rope(q, "_requestBuffer"), K.f["_requestBuffer"], "post-buffer", "bytes already received are kept"); last_call(ex, K, w, "content")
                    hn = q.mem[ex.vget(q, K.p("_requestHeaders")).oid].n
                    ex.prove(q, Z(hn) < Z(H2.n), "post-headers-invalid", "the views into the old buffer are marked to be set up again", where="content")
    if N < 4: raise Unsupported("postcondition not reached")

def sending_headers(ex):
    """request fields are views of exactly the parsed ranges; NUL terminators only overwrite delimiters"""
    st, K = base(ex); init_parser_contracts(ex, K); fn = target(ex, CP + "transitionToSendingHeaders()")
    resetup = []
    def setup(C):
        H2 = Headers(ex, C.st, "reqh2"); C.st.pc.append(H2.n == K.nref); ex.vset(C.st, K.p("_requestHeaders"), H2.vec)
    calling(K, others("transitionToSendingHeaders"), {"setupRequestHeaders": setup}); signals(K)
    P = K.pv0; n = K.f["_requestBuffer"].len(); R = K.f["_requestBuffer"]
    # what a successfully parsed head guarantees about the recorded positions (C01): ranges in order, separated by delimiters
    m0, ml, u0, ul, f0, fl, p0, pl, q0, ql, v0, vl = [P[k] for k in ("request_method_start", "request_method_len", "request_uri_start", "request_uri_len", "fragment_start", "fragment_len", "request_path_start", "request_path_len", "query_string_start", "query_string_len", "http_version_start", "http_version_len")]
    bs, cl = P["body_start"], K.v["_requestContentLength"]
    st.pc += [m0 == 0, ml >= 1, u0 == m0 + ml + 1, ul >= 1, p0 == u0, pl >= 0, pl <= ul, fl >= 0, ql >= 0,
              z3.Or(And(pl == ul, ql == 0), And(pl < ul, q0 == p0 + pl + 1, ql == ul - pl - 1), And(pl == 0, ql == 0)),
              z3.Or(And(fl == 0, v0 >= u0 + ul + 1), And(f0 == u0 + ul + 1, v0 == f0 + fl + 1)), vl >= 8, v0 + vl + 2 <= bs, bs + cl <= n, cl >= 0, bs >= 0]
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for r in ex.run(st, fn, [Ptr(K.d)]):
        for t, (already,) in cases(ex, r, K.state0 == S["SendingHeaders"]):
            N += 1; a = acts(t)
            if already: only(ex, t, [], a, "already"); frame(ex, K, st0, t, [], "already"); continue
            em = a[-1] if a else None; ok = bool(a) and em[:2] == ("emit", "requestReady") and all(e[:2] == ("call", "setupRequestHeaders") for e in a[:-1]) and len(a) <= 2
            ex.prove(t, ok, "post-announced", "the request is announced exactly once, last: %s" % [e[:2] for e in a], where="post")
            if not ok: continue
            last_call(ex, K, t, "post"); q = em[3]; ex.prove(t, is_q(ex, t, K, em), "post-sender", where="post")
            ex.prove(q, eq(K.state(q), S["SendingHeaders"]), "post-state", where="post")
            ex.prove(q, eq(q.mem[ex.vget(q, K.p("_requestHeaders")).oid].n, K.nref), "post-headers", "one header per recorded position", where="post")
            for f, (s, l) in {"_requestMethod": (m0, ml), "_requestUri": (u0, ul), "_requestFragment": (f0, fl), "_requestPath": (p0, pl), "_requestQueryString": (q0, ql), "_requestHttpVersion": (v0, vl), "_requestContent": (bs, cl)}.items():
                for w, (em_,) in cases(ex, q, eq(l, 0)):
                    got = K.rope(w, f)
                    if em_: ex.prove(w, eq(got.len(), 0), "post-field", f + " empty", where=f)
                    else: ex.prove_rope(w, got, ex.subrope(w, R, s, l), "post-field", f)
            h11 = ex.ropes_eq_term(q, ex.subrope(q, R, v0, vl), rlit(b"HTTP/1.1"))
            ex.prove(q, eq(K.get(q, "_requestHttp11"), ite(h11, 1, 0)), "post-http11", where="post")
            for f, v in (("_responseContentLength", -1), ("_responseContentBytesSent", 0), ("_responseConnectionKeepAlive", 1), ("_responseChunkedTransferEncoding", 0)): ex.prove(q, eq(K.get(q, f), v), "post-reset", f + " forgotten between requests", where="post")
            for nm in ("Uri", "Fragment", "Path", "QueryString"):
                v = K.get(q, "_request%sDecoded" % nm); ex.prove(q, isinstance(v, Tm) and (v.op == "QString" or ex.holds(q, ex.tm_bool(Tm("QString::isEmpty", v)))), "post-cache", "decoded %s of the previous request dropped: %r" % (nm, v), where="post")
    if N < 2: raise Unsupported("postcondition not reached")

def error_response(ex):
    st, K = base(ex); fn = target(ex, CP + "writeRequestErrorResponse(int)"); calling(K, others("writeRequestErrorResponse")); signals(K)
    code = fint("status"); st.pc += [code >= -(1 << 31), code < 1 << 31, known_status(code)]      # called with 400 and 413 only, both in the table (C11)
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for r in ex.run(st, fn, [Ptr(K.d), code]):
        for t, (closed,) in cases(ex, r, K.state0 == S["Closed"]):
            N += 1; a = acts(t)
            if closed: only(ex, t, [], a, "closed"); frame(ex, K, st0, t, [], "closed"); continue
            if only(ex, t, [("write",), ("call", "transitionToFlushing")], a, "post"):
                ex.prove_rope(t, a[0][2], rlit("HTTP/1.0 ") + status_text(ex, t, code) + rlit("\r\nConnection: close\r\n\r\n"), "post-wire", "refusal"); ex.prove(t, idis(ex, t, a[0][1], K.odev), "post-device", where="post")
                last_call(ex, K, t, "post"); frame(ex, K, st0, a[1][3], [], "post")
    if N < 2: raise Unsupported("postcondition not reached")

def http_field(ex):
    st, K = base(ex); fn = target(ex, CP + "parser_http_field(void*, char const*, unsigned long, char const*, unsigned long)"); calling(K, ALL); signals(K)
    b = ex.bget(st, K.p("_requestBuffer")); n = Z(K.f["_requestBuffer"].len()); f0, fl, v0, vl = [fint(x) for x in ("fpos", "flen", "vpos", "vlen")]
    st.pc += [f0 >= 0, fl >= 0, v0 >= 0, vl >= 0, f0 + fl <= n, v0 + vl <= n, fl <= MAXHEAD * 1024, vl <= MAXHEAD * 1024]
    st.pc.append(K.nref < 1 << 19)
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for r in ex.run(st, fn, [Ptr(K.d), Ptr(b.oid, f0), fl, Ptr(b.oid, v0), vl]):
        name = ex.subrope(r, K.f["_requestBuffer"], f0, fl) if False else None
        N += 1; t = r; only(ex, t, [], acts(t), "post"); frame(ex, K, st0, t, ["_requestHeadersRef", "_requestContentLengthHeaderIndex"], "post")
        o = t.mem[ex.vget(t, K.p("_requestHeadersRef")).oid]; ex.prove(t, eq(o.n, K.nref + 1), "post-one-more", where="post")
        for off, v in ((0, f0), (4, fl), (8, v0), (12, vl)): ex.prove(t, eq(ex.elem_value(t, o, K.nref, off, ir.INT(32), 4), v), "post-ref", "position %d" % off, where="post")
        k = fint("k"); t2 = t.fork(); t2.pc += [k >= 0, k < K.nref]
        for off in (0, 4, 8, 12): ex.prove(t2, eq(ex.elem_value(t2, t2.mem[o.oid] if hasattr(o, "oid") else o, k, off, ir.INT(32), 4), K.rf[off // 4](k)), "post-old-refs", where="post")
        for u, (l14,) in cases(ex, t, fl == 14):
            ci = ci_term(ex, u, ex.subrope(u, K.f["_requestBuffer"], f0, 14), rlit(b"content-length")) if l14 else False
            for w, (iscl,) in cases(ex, u, ci):
                ex.prove(w, eq(K.get(w, "_requestContentLengthHeaderIndex"), K.nref if iscl else K.v["_requestContentLengthHeaderIndex"]), "post-index", "the last content-length header is remembered", where="post")
    if N < 2: raise Unsupported("postcondition not reached")

def initialize(ex):
    for nobuf in (False, True): initialize_(ex, nobuf)
def initialize_(ex, nobuf):
    st, K = base(ex); use_read(ex, K); (no_buffer(K, st) if nobuf else None); fn = target(ex, CP + "initialize()"); signals(K)
    calling(K, others("initialize"), {"transitionToReceivingHeaders": lambda C: K.set(C.st, "_state", S["ReceivingHeaders"], 4)})
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for t in ex.run(st, fn, [Ptr(K.d)]):
        N += 1; a = acts(t, QUIET); av = evs(t, "avail")
        ok = bool(a) and a[0][:2] == ("call", "transitionToReceivingHeaders"); ex.prove(t, ok, "post-first", "%s" % [e[:2] for e in a], where="post")
        if not ok: continue
        q = a[0][3]
        ex.prove(q, eq(K.rope(q, "_requestBuffer").len(), 0), "post-empty", "nothing left of a previous client's request", where="post")
        ex.prove(q, eq(q.mem[ex.vget(q, K.p("_requestHeadersRef")).oid].n, 0), "post-refs", where="post"); ex.prove(q, eq(q.mem[ex.vget(q, K.p("_requestParams")).oid].n, 0), "post-params", where="post")
        for k in K.pv0: ex.prove(q, eq(ex.load(q, K.pp(k), ir.INT(8 * st0.mem[K.d].cells[K.off["_parser"] + K.poff[k]][0]), K.mod), 0), "post-parser", k, where="post")
        dp = ex.load(q, K.pp("data"), ir.PTR, K.mod); ex.prove(q, isinstance(dp, Ptr) and dp.oid == K.d and eq(dp.off, 0) is True, "post-parser", "callback object %r" % (dp,), where="post")
        hf = ex.load(q, K.pp("http_field"), ir.PTR, K.mod); ex.prove(q, "parser_http_field" in repr(hf), "post-parser", "header callback %r" % (hf,), where="post")
        bad = K.unchanged(st0, q, ["_parser", "_requestBuffer", "_requestHeadersRef", "_requestParams"]); ex.prove(q, not bad, "frame", "changed %s" % bad, where="post")
        ex.prove(t, len(av) == 1, "post-asked", where="post")
        if len(av) != 1: continue
        for u, (some,) in cases(ex, t, Z(av[0][2]) > 0):
            if some:
                if only(ex, u, [("call", "transitionToReceivingHeaders"), ("singleShot",)], a, "data waiting"): ex.prove(u, a[1][2] == ("o", K.q) and a[1][3] == "1processInput()", "post-scheduled", "%s" % (a[1],), where="data waiting")
            else: only(ex, u, [("call", "transitionToReceivingHeaders")], a, "no data")
    if N < 2: raise Unsupported("postcondition not reached")

PROCESS = [U("processInput(receiving the head)", process_input("ReceivingHeaders")), U("processInput(first bytes, no buffer)", process_input("ReceivingHeaders", True)), U("processInput(receiving the content)", process_input("ReceivingContent")), U("processInput(otherwise)", process_input(None))]
RECV_HEADERS, RECV_CONTENT, SEND_HEADERS = U("transitionToReceivingHeaders", receiving_headers), U("transitionToReceivingContent", receiving_content), U("transitionToSendingHeaders", sending_headers)
ERROR_RESPONSE, HTTP_FIELD, INITIALIZE = U("writeRequestErrorResponse", error_response), U("parser_http_field", http_field), U("initialize(private)", initialize)

def setup_headers(k, old):
    """k recorded headers (bounded): every header is a view of its recorded range, terminators only overwrite delimiters"""
    def run(ex):
        st, K = base(ex); fn = target(ex, CP + "setupRequestHeaders()"); calling(K, others("setupRequestHeaders")); signals(K)
        ov = ex.vec(st, "Pillow::HttpHeader", old, K.H.base, "maybe", "old headers"); ex.vset(st, K.p("_requestHeaders"), ov)
        R = K.f["_requestBuffer"]; n = Z(R.len()); pos = []; cur = fint("first"); st.pc.append(cur >= 0)
        for i in range(k):
            f0, fl, v0, vl = [fint(x) for x in ("fpos", "flen", "vpos", "vlen")]
            st.pc += [f0 >= cur, fl >= 1, v0 >= f0 + fl + 1, vl >= 0]; cur = v0 + vl + 2; pos.append((f0, fl, v0, vl))
        st.pc.append(cur <= n)
        refs = ex.vec(st, "Pillow::HttpHeaderRef", k, lambda ex, st, i, off, t, size: pos[i][off // 4], False, "headerRefs"); ex.vset(st, K.p("_requestHeadersRef"), refs)
        ex.unroll_rx = re.compile("setupRequestHeaders")
        st0 = st.fork(); cover(ex, st, "precondition"); N = 0
        for t in ex.run(st, fn, [Ptr(K.d)]):
            N += 1; only(ex, t, [], acts(t), "post"); frame(ex, K, st0, t, ["_requestHeaders", "_requestBuffer"], "post")
            hv = ex.vget(t, K.p("_requestHeaders")); o = t.mem[hv.oid]; ex.prove(t, eq(o.n, k), "post-count", where="post")
            for i in range(k):
                for off, (s, l) in ((0, pos[i][:2]), (8, pos[i][2:])):
                    for w, (e,) in cases(ex, t, eq(l, 0)):
                        got = ex.ba_rope(w, ex.elem_value(w, w.mem[hv.oid], i, off, ir.PTR, 8))
                        if e: ex.prove(w, eq(got.len(), 0), "post-empty", where="post")
                        else: ex.prove_rope(w, got, ex.subrope(w, R, s, l), "post-view", "header %d" % i)
            bs = fint("body"); t2 = t.fork(); t2.pc += [bs >= cur, bs <= n]
            if ex.feasible(t2): ex.prove_rope(t2, ex.subrope(t2, ex.ba_rope(t2, ex.bget(t2, K.p("_requestBuffer"))), bs, n - bs), ex.subrope(t2, R, bs, n - bs), "post-rest", "bytes after the head are unchanged")
        if N < 1: raise Unsupported("postcondition not reached")
    return run
SETUP = [Unit("setupRequestHeaders(%d headers, %d before)" % (k, m), SRC, setup_headers(k, m), bounded="exactly %d recorded headers of any position, %d left from before" % (k, m)) for k, m in ((0, 0), (0, 2), (1, 0), (1, 1), (1, 3), (2, 0), (2, 1), (3, 2))]

def init_public(ex):
    st, K = base(ex, devs=False); calling(K, ALL, {"initialize": lambda C: None}); signals(K); fn = target(ex, HC + "initialize(QIODevice*, QIODevice*)")
    i, o = fint("newInput"), fint("newOutput"); st.pc += [i > 0, o > 0]; st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for r in ex.run(st, fn, [Ptr(K.q), OPtr(i, "QIODevice"), OPtr(o, "QIODevice")]):
        isa = lambda t: ex.tm_bool(Tm("isa", t, i))
        for t, (same, tcp, local) in cases(ex, r, i == K.idev, isa("QAbstractSocket"), isa("QLocalSocket")):
            N += 1; a = acts(t); ok = bool(a) and a[-1][:2] == ("call", "initialize") and all(e[0] == "connect" for e in a[:-1])
            ex.prove(t, ok, "post-actions", "%s" % [e[:2] for e in a], where="post")
            if not ok: continue
            q = a[-1][3]; ex.prove(q, and_(eq(devid(K.get(q, "_inputDevice")), i), eq(devid(K.get(q, "_outputDevice")), o)), "post-devices", where="post"); frame(ex, K, st0, q, ["_inputDevice", "_outputDevice"], "post"); last_call(ex, K, t, "post")
            want = [] if same else [("2readyRead()", "1processInput()")] + ([("2disconnected()", "1close()")] if tcp else [("2disconnected()", "1close()"), ("2aboutToClose()", "1close()"), ("2readChannelFinished()", "1close()")] if local else [("2aboutToClose()", "1close()")])
            got = [(e[2], e[4]) for e in a[:-1]]
            ex.prove(t, sorted(got) == sorted(want) and all(idis(ex, t, e[1], i) and e[3] == ("o", K.q) for e in a[:-1]), "post-connected", "connected %s, expected %s" % (got, want), where="post")
    if N < 4: raise Unsupported("postcondition not reached")

def decoded(name):
    def run(ex):
        st, K = base(ex); use_percent_decode(ex); calling(K, ALL); signals(K); f = "_request" + name; v0 = K.get(st, f + "Decoded"); fn = target(ex, HC + "request%sDecoded() const" % name)
        st0 = st.fork(); cover(ex, st, "precondition"); N = 0
        for r in ex.run(st, fn, [Ptr(K.q)]):
            for t, (cached, none) in cases(ex, r, ex.tm_bool(Tm("QString::isEmpty", v0)), eq(K.f[f].len(), 0)):
                N += 1; only(ex, t, [], acts(t), "post"); frame(ex, K, st0, t, [f + "Decoded"], "post")
                ex.prove(t, isinstance(t.ret, Ptr) and t.ret.oid == K.d and eq(t.ret.off, K.off[f + "Decoded"]) is True, "post-result", "the cached text is returned", where="post")
                v = K.get(t, f + "Decoded"); want = dec(ex, t, K.f[f]) if cached and not none else v0
                ex.prove(t, ex.val_eq(t, v, want), "post-decoded", "%r expected %r" % (v, want), where="post")
        if N < 3: raise Unsupported("postcondition not reached")
    return run
INIT_PUBLIC = U("HttpConnection::initialize", init_public)
DECODED = [U("request%sDecoded" % n, decoded(n)) for n in ("Uri", "Path", "QueryString", "Fragment")]
