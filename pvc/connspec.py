"""Contracts of HttpConnectionPrivate's functions, proved against their bodies. C04 to C08 select from these units."""
from .unit import *
from .conn import *
from .folds import *
SRC = ["HttpConnection.cpp"]
ST = "_state"

def base(ex, state=None, same=False, devs=True, reqbuf=None):
    use_devices(ex); use_ci(ex); use_numbers(ex); use_status(ex); use_append(ex); use_lookup(ex); use_builder_eq(ex)
    st = start(ex); K = Conn(ex, st, ex.modules[0], state, same)
    if devs: st.pc += [K.idev > 0, K.odev > 0]       # invariant: set in every state but Uninitialized and Closed
    return st, K

def only(ex, t, want, got, label):
    """the observable actions are exactly these kinds"""
    ok = [tuple(x[:len(w)]) for x, w in zip(got, want)] == [tuple(w) for w in want] and len(got) == len(want)
    ex.prove(t, ok, "post-actions", "expected %s, did %s" % (want, [e[:2] for e in got]), where=label)
    return ok
def frame(ex, K, st0, t, but, label):
    bad = K.unchanged(st0, t, but); ex.prove(t, not bad, "frame", "changed: %s" % bad, where=label)
def last_call(ex, K, t, label):
    """nothing observable happens after the last call event: no further action, no field of the connection written since the call returned"""
    a = acts(t); ex.prove(t, bool(a) and a[-1][0] in ("call", "emit"), "post-last", "the last action is not the hand-over", where=label)
    if a and a[-1][0] in ("call", "emit") and a[-1][-1] is not None:
        bad = K.unchanged(a[-1][-1], t); ex.prove(t, not bad, "post-last-frame", "fields changed after %s: %s" % (a[-1][1], bad), where=label)
def calling(K, names, post=None, ret=None):
    """contract of own functions: event (name, args, state before, state after); may change everything, or what post[name] does"""
    ex = K.ex; post = post or {}
    rx = re.compile(r"^" + re.escape(CP) + r"(%s)\(.*\)$" % "|".join(names))
    def h(C):
        n = rx.match(C.dem).group(1); before = C.st.fork()
        if n in post: rs = post[n](C)
        else: havoc(K, C.st); rs = None
        if not isinstance(rs, list): rs = [(C.st, rs)]
        out = []
        for s, r in rs: s.trace.append(("call", n, tuple(C.a[1:]), before, s.fork())); out.append((s, r))
        return out
    ex.patterns.insert(0, (rx, h))
def signals(K, post=None):
    """emission of a signal: connected slots run; post[name](C) describes what they may do to the connection (default: anything)"""
    ex = K.ex; post = post or {}
    for n in ("requestReady", "requestCompleted", "closed"):
        def h(C, n=n):
            before = C.st.fork(); arg = C.a[1:]
            rs = post[n](C) if n in post else (havoc(K, C.st), None)[1]
            if not isinstance(rs, list): rs = [(C.st, rs)]
            out = []
            for s, r in rs: s.trace.append(("emit", n, (C.a[0],) + tuple(arg), before, s.fork())); out.append((s, r))
            return out
        ex.contracts[HC + n + "(Pillow::HttpConnection*)"] = h
def is_q(ex, t, K, e): return all(isinstance(x, Ptr) and x.oid == K.q for x in e[2])
def written(ex, t, K, a):
    r = Rope()
    for e in a:
        if e[0] == "write": r = r + e[2]; ex.prove(t, idis(ex, t, e[1], K.odev), "post-device", "written to the output device", where="post")
    return r
def is_head(ex, t, K): return ex.ropes_eq_term(t, K.f["_requestMethod"], rlit(b"HEAD"))

ALL = ["transitionToCompleted", "transitionToSendingContent", "transitionToFlushing", "transitionToClosed", "transitionToReceivingHeaders", "transitionToReceivingContent", "transitionToSendingHeaders",
       "processInput", "flush", "drain", "writeRequestErrorResponse", "setupRequestHeaders", "initialize", "writeHeaders", "writeContent", "endContent", "writeResponse", "writeResponseString", "close"]
def others(*mine): return [x for x in ALL if x not in mine]

# ---------------------------------------------------------------- writeContent / endContent
def write_content(ex):
    st, K = base(ex); calling(K, others("writeContent")); signals(K); fn = target(ex, CP + "writeContent(QByteArray const&)")
    n = fint("n"); st.pc += [n >= 0, n <= 1 << 30]; R = Rope([Sl(UFSrc(ffun("content")), 0, n)]); c = ex.new_cells(st, "content", 8); ex.vset(st, Ptr(c), pure(R))
    L, sent = K.v["_responseContentLength"], K.v["_responseContentBytesSent"]; st.pc += [sent >= 0, sent <= 1 << 62]
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for r in ex.run(st, fn, [Ptr(K.d), Ptr(c)]):
        for t, (sc, over, emp, head, chunk, done) in cases(ex, r, K.state0 == S["SendingContent"], Or(L == 0, And(L > 0, n + sent > L)), n == 0, is_head(ex, r, K), K.v["_responseChunkedTransferEncoding"] == 1, sent + n == L):
            N += 1; a = acts(t); w = [e for e in a if e[0] == "write"]
            if not sc or over or emp or head:
                lb = "out of turn" if not sc else "dropped"
                only(ex, t, [], a, lb); frame(ex, K, st0, t, [], lb); continue
            want = (number_rope(ex, t, n, 16) + rlit("\r\n") + R + rlit("\r\n")) if chunk else R
            ex.prove_rope(t, written(ex, t, K, a), want, "post-wire", "chunk" if chunk else "plain")
            rest = [e for e in a if e[0] != "write"]
            if only(ex, t, [("call", "transitionToCompleted")] if done else [], rest, "done" if done else "more to come") and done:
                last_call(ex, K, t, "done"); q = rest[0][3]
                frame(ex, K, st0, q, ["_responseContentBytesSent"], "done"); ex.prove(q, eq(K.get(q, "_responseContentBytesSent"), add(sent, n)), "post-sent", where="done")
            elif not done:
                frame(ex, K, st0, t, ["_responseContentBytesSent"], "more to come"); ex.prove(t, eq(K.get(t, "_responseContentBytesSent"), add(sent, n)), "post-sent", where="more to come")
    if N < 8: raise Unsupported("postcondition not reached")

def end_content(ex):
    st, K = base(ex); calling(K, others("endContent")); signals(K); fn = target(ex, CP + "endContent()"); L = K.v["_responseContentLength"]
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for r in ex.run(st, fn, [Ptr(K.d)]):
        for t, (sc, known, chunk) in cases(ex, r, K.state0 == S["SendingContent"], L >= 0, K.v["_responseChunkedTransferEncoding"] == 1):
            N += 1; a = acts(t)
            if not sc or known: lb = "out of turn" if not sc else "length known"; only(ex, t, [], a, lb); frame(ex, K, st0, t, [], lb); continue
            ex.prove_rope(t, written(ex, t, K, a), rlit("0\r\n\r\n") if chunk else Rope(), "post-wire", "end")
            rest = [e for e in a if e[0] != "write"]
            if only(ex, t, [("call", "transitionToCompleted")], rest, "end"):
                last_call(ex, K, t, "end"); q = rest[0][3]; frame(ex, K, st0, q, ["_responseConnectionKeepAlive"], "end")
                ex.prove(q, eq(K.get(q, "_responseConnectionKeepAlive"), K.v["_responseConnectionKeepAlive"] if chunk else 0), "post-keep-alive", "a body of unknown length ends with the connection", where="end")
    if N < 3: raise Unsupported("postcondition not reached")

# ---------------------------------------------------------------- writeResponse and the public entry points
def write_response(ex):
    st, K = base(ex)
    fn = target(ex, CP + "writeResponse(int, Pillow::HttpHeaderCollection const&, QByteArray const&)")
    more = []
    def wh(C): x = fbool("content_expected"); more.append(x); havoc(K, C.st); return x
    calling(K, others("writeResponse"), {"writeHeaders": wh}); signals(K)
    n = fint("n"); st.pc += [n >= 0, n <= 1 << 30]; R = Rope([Sl(UFSrc(ffun("content")), 0, n)]); c = ex.new_cells(st, "content", 8); ex.vset(st, Ptr(c), pure(R))
    code = fint("status"); st.pc += [code >= -(1 << 31), code < 1 << 31]; h = ex.new_cells(st, "headers", 8)
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for r in ex.run(st, fn, [Ptr(K.d), code, Ptr(h), Ptr(c)]):
        for t, (sh, emp) in cases(ex, r, K.state0 == S["SendingHeaders"], n == 0):
            N += 1; a = acts(t)
            if not sh: only(ex, t, [], a, "out of turn"); frame(ex, K, st0, t, [], "out of turn"); continue
            ok = bool(a) and a[0][:2] == ("call", "writeHeaders"); ex.prove(t, ok, "post-head", "the head is written first: %s" % [e[:2] for e in a], where="post")
            if not ok: continue
            q = a[0][3]; frame(ex, K, st0, q, ["_responseContentLength"], "head"); ex.prove(q, eq(K.get(q, "_responseContentLength"), n), "post-length", "the content's size is the announced length", where="head")
            ex.prove(t, eq(a[0][2][0], code), "post-status", where="head"); ex.prove(t, a[0][2][1] == Ptr(h) or (a[0][2][1].oid == h), "post-headers", "the caller's headers", where="head")
            go = ex.holds(t, more[0]) if more else False
            if go and not emp:
                if only(ex, t, [("call", "writeHeaders"), ("call", "writeContent")], a, "content"):
                    p = a[1][2][0]; ex.prove_rope(t, ex.ba_rope(a[1][3], ex.bget(a[1][3], p)), R, "post-content", "the content"); last_call(ex, K, t, "content")
            else: only(ex, t, [("call", "writeHeaders")], a, "no content"); last_call(ex, K, t, "no content")
    if N < 3: raise Unsupported("postcondition not reached")

def public(name, sig, mk):
    """a public function hands its arguments to the private one and does nothing else"""
    def run(ex):
        st, K = base(ex); fn = target(ex, HC + name + sig); calling(K, ALL); signals(K)
        args, check, callee = mk(ex, st, K); st0 = st.fork(); cover(ex, st, "precondition"); N = 0
        for t in ex.run(st, fn, [Ptr(K.q)] + args):
            N += 1; a = acts(t)
            if only(ex, t, [("call", callee)], a, "post"): frame(ex, K, st0, a[0][3], [], "post"); check(t, a[0]); last_call(ex, K, t, "post")
        if N < 1: raise Unsupported("postcondition not reached")
    return run
def mk_plain(callee):
    return lambda ex, st, K: ([], lambda t, e: None, callee)
def mk_content(ex, st, K):
    R = ratom(fint("content")); st.pc.append(Z(R.len()) >= 0); c = ex.new_cells(st, "content", 8); ex.vset(st, Ptr(c), pure(R))
    return [Ptr(c)], lambda t, e: ex.prove_rope(t, ex.ba_rope(e[3], ex.bget(e[3], e[2][0])), R, "post-args", "content"), "writeContent"
def mk_headers(ex, st, K):
    code = fint("status"); h = ex.new_cells(st, "headers", 8); st.pc += [code >= -(1 << 31), code < 1 << 31]
    def check(t, e): ex.prove(t, and_(eq(e[2][0], code), e[2][1].oid == h), "post-args", where="post")
    return [code, Ptr(h)], check, "writeHeaders"
def mk_response(ex, st, K):
    a, c1, _ = mk_headers(ex, st, K); b, c2, _ = mk_content(ex, st, K)
    def check(t, e): c1(t, e); ex.prove_rope(t, ex.ba_rope(e[3], ex.bget(e[3], e[2][2])), ex.ba_rope(t, ex.bget(t, b[0])), "post-args", "content")
    return a + b, check, "writeResponse"
def mk_response_string(ex, st, K):
    a, c1, _ = mk_headers(ex, st, K); s = Tm("val", fint("text")); c = ex.new_cells(st, "text", 8); ex.vset(st, Ptr(c), s)
    def check(t, e): c1(t, e); ex.prove_rope(t, ex.ba_rope(e[3], ex.bget(e[3], e[2][2])), ratom(ex.tm_atom(t, Tm("toUtf8", s))), "post-args", "UTF-8 of the text")
    return a + [Ptr(c)], check, "writeResponse"
PUB = {"writeResponse": ("(int, Pillow::HttpHeaderCollection const&, QByteArray const&)", mk_response), "writeResponseString": ("(int, Pillow::HttpHeaderCollection const&, QString const&)", mk_response_string),
       "writeHeaders": ("(int, Pillow::HttpHeaderCollection const&)", mk_headers), "writeContent": ("(QByteArray const&)", mk_content), "endContent": ("()", mk_plain("endContent")),
       "close": ("()", mk_plain("close")), "flush": ("()", mk_plain("flush")), "drain": ("()", mk_plain("drain")), "processInput": ("()", mk_plain("processInput"))}
def public_units(*names): return [Unit("HttpConnection::" + n, SRC, public(n, *PUB[n])) for n in names]

# ---------------------------------------------------------------- transitions
def sending_content(ex):
    st, K = base(ex); calling(K, others("transitionToSendingContent")); signals(K); fn = target(ex, CP + "transitionToSendingContent()"); L = K.v["_responseContentLength"]
    v = ex.bget(st, K.p("_responseHeadersBuffer")); st.w(v.oid).shared = "maybe"       # the device may hold on to it
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for r in ex.run(st, fn, [Ptr(K.d)]):
        for t, (sc, none) in cases(ex, r, K.state0 == S["SendingContent"], Or(L == 0, is_head(ex, r, K))):
            N += 1; a = acts(t)
            if sc: only(ex, t, [], a, "already"); frame(ex, K, st0, t, [], "already"); ex.prove(t, t.ret, "post-result", where="already"); continue
            if none:
                if not only(ex, t, [("call", "transitionToCompleted")], a, "no body"): continue
                ex.prove(t, not_(t.ret), "post-result", "no content to send", where="no body"); last_call(ex, K, t, "no body"); q = a[0][3]
            else:
                if not only(ex, t, [], a, "body"): continue
                ex.prove(t, t.ret, "post-result", "content to send", where="body"); q = t
            frame(ex, K, st0, q, [ST, "_responseHeadersBuffer", "_responseConnectionKeepAlive"], "post")
            ex.prove(q, eq(K.state(q), S["SendingContent"]), "post-state", where="post")
            b = ex.bget(q, K.p("_responseHeadersBuffer")); ex.prove(q, eq(ex.ba_rope(q, b).len(), 0), "post-builder-empty", where="post")
            ex.prove(q, (b.k == "pure" and b.null is True) or (b.k == "own" and q.mem[b.oid].shared is False), "post-builder-unshared", "the next response's head must not touch bytes the device still holds", where="post")
            k0 = K.v["_responseConnectionKeepAlive"]
            ex.prove(q, eq(K.get(q, "_responseConnectionKeepAlive"), ite(And(L < 0, K.v["_responseChunkedTransferEncoding"] == 0), 0, k0)), "post-keep-alive", where="post")
    if N < 4: raise Unsupported("postcondition not reached")

def completed_slot(K):
    """what slots connected to requestCompleted may do: use accessors and parameters, call response functions (no effect in this state), or close"""
    def post(C):
        ex, st = C.ex, C.st; t = st.fork()
        for n in ("Uri", "Fragment", "Path", "QueryString"): K.set(st, "_request%sDecoded" % n, Tm("val", fint("cache")), 8)
        v = K.get(st, "_requestParams"); o = st.mem[v.oid]; np = fint("nparams"); st.pc += [np >= 0, np <= 1 << 20]
        ex.vset(st, K.p("_requestParams"), ex.vec(st, v.el, np, o.base, "maybe", "params"))
        K.set(t, "_state", S["Closed"], 4); K.set(t, "_inputDevice", NULL, 8); K.set(t, "_outputDevice", NULL, 8)
        return [(st, None), (t, None)]
    return post
def maybe_closed(K, st_ok=None):
    """flush may find the peer gone, which closes the connection"""
    def post(C):
        st = C.st; t = st.fork()
        K.set(t, "_state", S["Closed"], 4); K.set(t, "_inputDevice", NULL, 8); K.set(t, "_outputDevice", NULL, 8)
        return [(st, None), (t, None)]
    return post

def completed(kind):
    def run(ex):
        st, K = base(ex, None if kind == "any" else "SendingContent")
        signals(K, {"requestCompleted": completed_slot(K)}); calling(K, others("transitionToCompleted"), {"flush": maybe_closed(K)})
        fn = target(ex, CP + "transitionToCompleted()")
        st.pc.append(K.state0 == S["Completed"] if kind == "any" else B(True))
        bs = K.pv0["body_start"]; cl = K.v["_requestContentLength"]; rb = K.f["_requestBuffer"]; n = rb.len()
        st.pc += [bs >= 0, cl >= 0, bs + cl <= Z(n)]        # the request had completely arrived
        if kind == "no content": st.pc.append(cl == 0); K.set(st, "_requestContent", pure(Rope()), 8)      # the content is a view into the request buffer
        else: K.set(st, "_requestContent", BA("raw", ex.bget(st, K.p("_requestBuffer")).oid, bs, cl, 0), 8)
        st0 = st.fork(); cover(ex, st, "precondition"); N = 0
        for r in ex.run(st, fn, [Ptr(K.d)]):
            for t, (already, keep, rem) in cases(ex, r, eq(K.state0, S["Completed"]), K.v["_responseConnectionKeepAlive"] == 1, Z(n) - bs - cl > 0):
                N += 1; a = acts(t)
                if already: only(ex, t, [], a, "already"); frame(ex, K, st0, t, [], "already"); continue
                ok = bool(a) and a[0][:2] == ("emit", "requestCompleted"); ex.prove(t, ok and len(events(t, "emit")) == 1, "post-announced", "completion announced exactly once, first: %s" % [e[:2] for e in a], where="post")
                if not ok: continue
                e = a[0]; ex.prove(t, is_q(ex, t, K, e), "post-sender", where="post"); frame(ex, K, st0, e[3], [ST], "announce"); ex.prove(e[3], eq(K.state(e[3]), S["Completed"]), "post-state", where="announce")
                if ex.holds(t, eq(K.state(e[4]), S["Closed"])):
                    only(ex, t, [("emit", "requestCompleted")], a, "closed by a slot"); frame(ex, K, e[4], t, ["_requestBuffer"], "closed by a slot"); continue
                rest = a[1:]
                if not rest: ex.prove(t, False, "post-actions", "nothing follows the completion", where="post"); continue
                q = rest[0][3]       # state when the next phase starts
                want = ex.subrope(q, rb, add(bs, cl), sub(sub(n, bs), cl)) if rem else Rope()
                ex.prove_rope(q, K.rope(q, "_requestBuffer"), want, "post-buffer", "bytes after the request are kept, its own are dropped")
                ex.prove(q, eq(q.mem[ex.vget(q, K.p("_requestHeadersRef")).oid].n, 0), "post-refs", "positions of the old request dropped", where="post")
                ex.prove(q, eq(q.mem[ex.vget(q, K.p("_requestParams")).oid].n, 0), "post-params", "parameters of the old request dropped", where="post")
                ex.prove(q, eq(ex.bget(q, K.p("_requestContent")).len(), 0), "post-content", where="post")
                bad = [x for x in K.unchanged(st0, q, [ST, "_requestBuffer", "_requestHeadersRef", "_requestParams", "_requestContent"]) if not x.endswith("Decoded")]
                ex.prove(q, not bad, "frame", "changed: %s" % bad, where="post")
                if not keep: only(ex, t, [("call", "transitionToFlushing")], rest, "close"); last_call(ex, K, t, "close"); continue
                if ex.holds(t, eq(K.state(rest[0][4]), S["Closed"])) and rest[0][1] == "flush": only(ex, t, [("call", "flush")], rest, "peer gone"); last_call(ex, K, t, "peer gone"); continue
                if only(ex, t, [("call", "flush"), ("call", "transitionToReceivingHeaders"), ("call", "processInput")], rest, "keep"): last_call(ex, K, t, "keep"); frame(ex, K, rest[0][4], rest[1][3], [], "keep")
        if N < 1: raise Unsupported("postcondition not reached")
    return run

def flushing(ex):
    st, K = base(ex); fn = target(ex, CP + "transitionToFlushing()"); signals(K); calling(K, others("transitionToFlushing"), {"drain": maybe_closed(K)})
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for r in ex.run(st, fn, [Ptr(K.d)]):
        for t, (already,) in cases(ex, r, K.state0 == S["Flushing"]):
            N += 1; a = acts(t)
            if already: only(ex, t, [], a, "already"); frame(ex, K, st0, t, [], "already"); continue
            ok = bool(a) and a[0][:2] == ("call", "drain"); ex.prove(t, ok, "post-drain", "drained at once: %s" % [e[:2] for e in a], where="post")
            if not ok: continue
            q = a[0][3]; frame(ex, K, st0, q, [ST], "post"); ex.prove(q, eq(K.state(q), S["Flushing"]), "post-state", where="post"); frame(ex, K, a[0][4], t, [], "post")
            if ex.holds(t, eq(K.state(a[0][4]), S["Closed"])): only(ex, t, [("call", "drain")], a, "drained")
            elif only(ex, t, [("call", "drain"), ("connect",)], a, "pending"):
                c = a[1]; ex.prove(t, idis(ex, t, c[1], K.odev), "post-signal", "output device", where="pending")
                ex.prove(t, c[2] == "2bytesWritten(qint64)" and c[3] == ("o", K.q) and c[4] == "1drain()", "post-signal", "bytesWritten drains further: %s" % (c,), where="pending")
    if N < 3: raise Unsupported("postcondition not reached")

def drain(ex):
    st, K = base(ex); fn = target(ex, CP + "drain()"); signals(K); calling(K, others("drain"), {"flush": maybe_closed(K)})
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for r in ex.run(st, fn, [Ptr(K.d)]):
        for t, (fl,) in cases(ex, r, K.state0 == S["Flushing"]):
            N += 1; a = acts(t)
            if not fl: only(ex, t, [], a, "not flushing"); frame(ex, K, st0, t, [], "not flushing"); continue
            ok = bool(a) and a[0][:2] == ("call", "flush"); ex.prove(t, ok, "post-flush", "flushed first: %s" % [e[:2] for e in a], where="post")
            if not ok: continue
            frame(ex, K, st0, a[0][3], [], "post")
            if ex.holds(t, eq(K.state(a[0][4]), S["Closed"])): only(ex, t, [("call", "flush")], a, "closed meanwhile"); frame(ex, K, a[0][4], t, [], "closed meanwhile"); continue
            bw = [e for e in t.trace if isinstance(e, tuple) and e[0] == "bytesToWrite"]
            ex.prove(t, bool(bw) and idis(ex, t, bw[-1][1], K.odev), "post-asked", "the output device is asked what is left", where="post")
            if not bw: continue
            for u, (zero,) in cases(ex, t, eq(bw[-1][2], 0)):
                if zero:
                    if only(ex, u, [("call", "flush"), ("call", "transitionToClosed")], a, "drained"): last_call(ex, K, u, "drained"); frame(ex, K, st0, a[1][3], [], "drained")
                else: only(ex, u, [("call", "flush")], a, "pending"); frame(ex, K, st0, u, [], "pending")
    if N < 3: raise Unsupported("postcondition not reached")

def flush(ex):
    st, K = base(ex, devs=False); fn = target(ex, CP + "flush()"); signals(K); calling(K, others("flush"))
    st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for t in ex.run(st, fn, [Ptr(K.d)]):
        N += 1; only(ex, t, [], acts(t), "post"); frame(ex, K, st0, t, [], "post"); f = events(t, "devflush")
        ex.prove(t, len(f) <= 1 and all(idis(ex, t, e[1], K.odev) for e in f), "post-flush", "at most one flush, of the output device", where="post")
    if N < 2: raise Unsupported("postcondition not reached")

def to_closed(same):
    def run(ex):
        st, K = base(ex, same=same, devs=False); fn = target(ex, CP + "transitionToClosed()"); calling(K, others("transitionToClosed"))
        if not same: st.pc.append(K.idev != K.odev)
        # slots of closed() see the connection closed; response calls then do nothing and the object is not initialised again from inside the slot
        signals(K, {"closed": lambda C: None})
        # both devices are there, or neither (never initialised)
        st.pc += [(K.idev > 0) == (K.odev > 0)]; st.pc.append(z3.Implies(And(K.state0 != S["Closed"], K.state0 != S["Uninitialized"]), K.idev > 0))
        st0 = st.fork(); cover(ex, st, "precondition"); N = 0
        for r in ex.run(st, fn, [Ptr(K.d)]):
            for t, (already, dev) in cases(ex, r, K.state0 == S["Closed"], K.idev > 0):
                N += 1; a = acts(t)
                if already: only(ex, t, [], a, "already"); frame(ex, K, st0, t, [], "already"); continue
                em = [e for e in a if e[0] == "emit"]; dc = [e for e in a if e[0] == "devclose"]; di = [e for e in a if e[0] == "disconnect"]
                ex.prove(t, len(em) == 1 and em[0][1] == "closed" and is_q(ex, t, K, em[0]), "post-announced", "closed announced exactly once: %s" % [e[:2] for e in em], where="post")
                ex.prove(t, len(em) + len(dc) + len(di) == len(a), "post-actions", "%s" % [e[:2] for e in a], where="post")
                if em: ex.prove(em[0][3], eq(K.state(em[0][3]), S["Closed"]), "post-state-first", "closed before it is announced", where="post")
                if em: frame(ex, K, st0, em[0][3], [ST], "announce")
                opens = K.__dict__.get("opens")
                ex.prove(t, sum(idis(ex, t, e[1], K.idev) for e in dc) <= 1 and (same or sum(idis(ex, t, e[1], K.odev) for e in dc) <= 1), "post-device-once", "each device closed at most once", where="post")
                io = [x for x in t.g.get("_isopen", ())]
                want = [d for d, b in io if ex.holds(t, b)]
                ex.prove(t, len(dc) == len(want), "post-devices", "every open device is closed: asked %s, closed %s" % (io, dc), where="post")
                if dev:
                    ex.prove(t, any(idis(ex, t, d, K.idev) for d, b in io) and any(idis(ex, t, d, K.odev) for d, b in io), "post-devices", "both devices are looked at", where="post")
                    for what, d in (("input", K.idev), ("output", K.odev)):
                        ex.prove(t, any(idis(ex, t, e[1], d) and e[2] in (None, 0) and e[3] == ("o", K.q) for e in di), "post-disconnected", what + " device: %s" % di, where="post")
                for f in ("_inputDevice", "_outputDevice"): ex.prove(t, eq(devid(K.get(t, f)), 0), "post-released", f, where="post")
                ex.prove(t, eq(K.state(t), S["Closed"]), "post-state", where="post"); frame(ex, K, st0, t, [ST, "_inputDevice", "_outputDevice"], "post")
        if N < 3: raise Unsupported("postcondition not reached")
    return run

def close_(ex):
    st, K = base(ex, devs=False); fn = target(ex, CP + "close()"); signals(K); calling(K, others("close")); st0 = st.fork(); cover(ex, st, "precondition"); N = 0
    for t in ex.run(st, fn, [Ptr(K.d)]):
        N += 1; a = acts(t)
        if only(ex, t, [("call", "transitionToClosed")], a, "post"): frame(ex, K, st0, a[0][3], [], "post"); last_call(ex, K, t, "post")
    if N < 1: raise Unsupported("postcondition not reached")

U = lambda n, f: Unit(n, SRC, f)
WRITE_CONTENT, END_CONTENT, WRITE_RESPONSE = U("writeContent", write_content), U("endContent", end_content), U("writeResponse", write_response)
SENDING_CONTENT = U("transitionToSendingContent", sending_content)
COMPLETED = [U("transitionToCompleted(no content)", completed("no content")), U("transitionToCompleted(content delivered)", completed("raw content")), U("transitionToCompleted(again)", completed("any"))]
FLUSHING, DRAIN, FLUSH = U("transitionToFlushing", flushing), U("drain", drain), U("flush", flush)
CLOSED = [U("transitionToClosed(one device)", to_closed(True)), U("transitionToClosed(two devices)", to_closed(False))]
CLOSE = U("close", close_)
