"""C21: the client's life cycle, function by function (see lifespec)."""
from .lifespec import *
from .qt2 import term_eq
from .loops import index_terms
def own(K, name, handler):
    """a function of the client under contract: called on this client"""
    ex = K.ex; dem = CL + name
    def h(C): ex.prove(C.st, isinstance(C.a[0], Ptr) and C.a[0].oid == K.o, "pre-this", name, where="post"); return handler(C)
    ex.contracts[dem] = h
def turn(K, name, *ev):
    """the call is the last thing that happens: control goes to a function that keeps the invariant itself"""
    def h(C): K.settled(C.st, "before " + name); C.ev(name, *([f(C) for f in ev] + [keep(K, C.st)]))
    return h
def use_send(K): own(K, "sendRequest()", lambda C: (K.ex.prove(C.st, eq(K.pending(C.st), 1), "pre-pending", "sendRequest", where="post"), turn(K, "send")(C))[1])
REQ = CL + "request(Pillow::HttpClientRequest const&)"
def use_request(K):
    """request() under contract: its argument is taken as it is at the call"""
    def h(C):
        ex, st = K.ex, C.st; p = C.a[1]; f = lay(ex, NS + "HttpClientRequest"); q = lambda n: Ptr(p.oid, p.off + f[n])
        ex.prove(st, isinstance(C.a[0], Ptr) and C.a[0].oid == K.o, "pre-this", "request", where="post"); K.settled(st, "before request")
        C.ev("request", ex.ba_rope(st, ex.bget(st, q("method"))), ex.vget(st, q("url")), ex.vecval(st, q("headers"), "Pillow::HttpHeader"), ex.ba_rope(st, ex.bget(st, q("data"))), keep(K, st))
    K.ex.contracts[REQ] = h
def is_request(ex, t, e, R, label, url=None):
    ex.prove_rope(t, e[1], R.method, "post-request", label + ": method"); ex.prove(t, url(e[2]) if url else isinstance(e[2], Tm) and e[2].key() == R.url.key(), "post-request", label + ": url %r" % (e[2],), where="post"); same_vec(ex, t, e[3], R.H, label + ": headers"); ex.prove_rope(t, e[4], R.data, "post-request", label + ": data")
def url_get(op, url): return lambda v: isinstance(v, Tm) and v.op == op and isinstance(v.a[0], Tm) and v.a[0].key() == url.key()
def port80(ex, st, url): x = ex.tm_int(st, Tm("QUrl::port", url, 80), -(1 << 31), (1 << 31) - 1); st.pc += [x >= 0, x <= 65535]; return x
def connects(K, t, e, url, label):
    """connects to the host and port of the url"""
    ex = K.ex; ex.prove(t, e[1] == "connect" and url_get("QUrl::host", url)(e[2]) and eq(e[3], port80(ex, t, url)), "post-connect", "%s: to host and port of the request: %s" % (label, e[1:]), where="post")
def as_new(K, t, label):
    """the response members and the parser are those of a client that has not received anything"""
    ex = K.ex; assembled(K, t, label, C=Rope(), H=0); c = ex.new_cells(t, "fresh parser", 64); f = ex.find("http_parser_init"); q = t.fork(); ex.store(q, Ptr(c, K.pl["data"]), NULL, 8)
    r = ex.run(q, f, [Ptr(c), 1]); assert len(r) == 1; q = r[0]; n = K.pl["data"]
    for off, (sz, x) in sorted(q.mem[c].cells.items()):
        if not isinstance(off, int) or off >= n: continue
        ty = ir.INT(8 * sz); ex.prove(t, eq(ex.load(t, Ptr(K.o, K.L["parser"] + off), ty, K.m), ex.load(q, Ptr(c, off), ty, K.m)), "post-reset", "%s: the parser is as new (offset %d)" % (label, off), where="post")
    d = ex.load(t, Ptr(K.o, K.dp), ir.PTR, K.m); ex.prove(t, isinstance(d, Ptr) and d.oid == K.o and eq(d.off, K.L["parser"] - 8) is True, "post-data", "the events still reach this client", where="post")

# ---------------------------------------------------------------- starting a request
def request(parsing):
    def run(ex):
        st = cworld(ex); K = Client(ex, st); use_send(K); old = K.req; N = Req(ex, st, "new"); c = ex.new_cells(st, "new request", 32); N.put(st, Ptr(c)); st.pc += [eq(K.int(st, "_parsing"), 1 if parsing else 0)]
        if not parsing: st.w(K.G).cells[0] = (8, 1)      # a request taken now is started; one already under way stays so
        host = lambda u: Tm("QUrl::host", u, 133169152); port = lambda u: ex.tm_int(st, Tm("QUrl::port", u, -1), -(1 << 31), (1 << 31) - 1)
        same = and_(term_eq(ex, st, host(N.url), host(old.url)), eq(port(N.url), port(old.url))); state = ex.tm_int(st, Tm("state", 0), 0, 6); valid, exp = ex.tm_bool(Tm("timer valid")), ex.tm_bool(Tm("timer expired", K.timeout))
        expired = and_(le(0, K.timeout), valid, exp); reuse = and_(eq(state, CONNECTED), same, not_(expired)); hand = K.int(st, "_handlingDeviceError"); o = keep(K, st); fn = target(ex, REQ); cover(ex, st, "precondition"); seen = set()
        for r in ex.run(st, fn, [Ptr(K.o), Ptr(c)]):
            for t, (pend, re_, off, han) in cases(ex, r, eq(K.pending(o["st"]), 1), reuse, state == UNCONNECTED, eq(hand, 1)):
                ev = does(t)
                if pend or parsing:
                    seen.add((pend, parsing)); seq(ex, t, ev, [], "nothing happens yet"); frame(K, o, t, "refused" if pend else "queued", () if pend else ("_pendingRequest",)); K.settled(t, "refused")
                    if not pend: N.same(t, K.p("_pendingRequest"), "queued for after the parse")
                    continue
                seen.add((re_, off, han)); want = ["send"] if re_ else ([] if off else ["dev"]) + (["singleShot"] if han else ["dev"])
                if not seq(ex, t, ev, want, "reused" if re_ else "connected anew"): continue
                e = ev[-1]
                if re_: s = e[-1]["st"]
                else:
                    s = t
                    if not off: ex.prove(t, ev[0][1] == "disconnect", "post-disconnect", "the other connection is given up", where="post")
                    if han: ex.prove(t, and_(eq(e[1], 0), ideq(e[2], ("o", K.o)), e[3] == "1connectDevice()"), "post-later", "connects once the socket's error has been handled: %s" % (e[1:],), where="post")
                    else: connects(K, t, e, N.url, "request")
                    ex.prove_rope(t, K.rope(t, "_hostHeaderValue"), Rope(), "post-host", "the Host value of another server is forgotten")
                ex.prove(s, and_(eq(K.pending(s), 1), eq(K.int(s, "_error"), NOERR)), "post-started", "the request is pending, without error", where="post"); N.same(s, K.p("_request"), "the request under way"); as_new(K, s, "nothing of an earlier response")
                frame(K, o, s, "request", ("_request", "_responsePending", "_error", "_content", "_headers", "parser") + (() if re_ else ("_hostHeaderValue",)))
        if len(seen) < (2 if parsing else 6): raise Unsupported("postcondition not reached: %s" % (seen,))
    return run
def send_pending(ex):
    st = cworld(ex); K = Client(ex, st); use_request(K); Q = K.queued; o = keep(K, st); fn = target(ex, CL + "sendPendingRequest()"); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(K.o)]):
        for t, (null,) in cases(ex, r, Q.null):
            seen.add(null); ev = does(t)
            if not seq(ex, t, ev, [] if null else ["request"], "the queued request, if any"): continue
            if null: frame(K, o, t, "nothing queued"); continue
            is_request(ex, t, ev[0], Q, "queued"); s = ev[0][-1]["st"]; frame(K, o, s, "queued", ("_pendingRequest",)); b = ex.bget(s, Ptr(K.o, K.L["_pendingRequest"] + Q.f["method"])); ex.prove(s, ex.ba_null(b) if hasattr(ex, "ba_null") else b.null is True or ex.holds(s, b.null), "post-taken", "taken from the queue first", where="post")
    if len(seen) < 2: raise Unsupported("postcondition not reached")
def connect_device(ex):
    st = cworld(ex); K = Client(ex, st); o = keep(K, st); state = ex.tm_int(st, Tm("state", 0), 0, 6); fn = target(ex, CL + "connectDevice()"); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(K.o)]):
        for t, (go,) in cases(ex, r, and_(eq(K.pending(st), 1), state == UNCONNECTED)):
            seen.add(go); ev = does(t); K.settled(t, "connect"); frame(K, o, t, "connect")
            if seq(ex, t, ev, ["dev"] if go else [], "connects while a request waits for it") and go: connects(K, t, ev[0], K.req.url, "later")
    if len(seen) < 2: raise Unsupported("postcondition not reached")
def connected(ex):
    st = cworld(ex); K = Client(ex, st); o = keep(K, st); own(K, "sendRequest()", lambda C: C.ev("send", keep(K, C.st))); fn = target(ex, CL + "device_connected()"); cover(ex, st, "precondition"); n = 0
    for t in ex.run(st, fn, [Ptr(K.o)]):
        n += 1; ev = does(t)
        if seq(ex, t, ev, ["send"], "the request is sent"): frame(K, o, t, "connected")
    if n < 1: raise Unsupported("postcondition not reached")

# ---------------------------------------------------------------- ending one
def abort(ex):
    st = cworld(ex); K = Client(ex, st); o = keep(K, st); fn = target(ex, CL + "abort()"); cover(ex, st, "precondition"); seen = set(); p0 = K.pending(st)
    for r in ex.run(st, fn, [Ptr(K.o)]):
        for t, (pend,) in cases(ex, r, eq(p0, 1)):
            seen.add(pend); ev = does(t)
            if not seq(ex, t, ev, ["dev", "emit"] if pend else ["dev"], "aborted"): continue
            ex.prove(t, ev[0][1] == "abort", "post-socket", "the connection is aborted: %s" % (ev[0][1],), where="post")
            if not pend: K.settled(t, "abort"); frame(K, o, t, "nothing to abort"); continue
            e = ev[1]; s = e[2]; ex.prove(s, e[1] == "finished" and and_(eq(K.int(s, "_error"), ABORTED), eq(K.err(s), PAUSED)), "post-outcome", "finished: aborted, and nothing more is parsed", where="post"); frame(K, o, s, "aborted", ("_error", "_responsePending", "parser")); ex.prove(s, eq(K.status(s), K.status(o["st"])), "frame", "status", where="post"); frame(K, e[3], t, "after finished()"); K.settled(t, "abort")
    if len(seen) < 2: raise Unsupported("postcondition not reached")
def parser_runs(K, C, label):
    """what a run of the parser (proved: inject, the handlers, request and abort from inside a parse) may do to the client: slots get called, a request is queued at most, finished() is emitted at most once; the receive buffer is left alone"""
    ex, st = K.ex, C.st; par, p0 = K.int(st, "_parsing"), K.pending(st); ex.prove(st, eq(par, 0), "pre-parsing", label + ": not from inside a parse", where="post"); K.settled(st, label)
    ex.prove(st, eq(p0, 1), "pre-pending", label + ": only while a response is pending", where="post"); ex.prove(st, eq(K.err(st), 0), "pre-sound", label + ": by a parser ready to go on", where="post")
    hand = K.int(st, "_handlingDeviceError"); old = K.snapshot(); K.arbitrary(st, parsing=0, sound=False); st.pc += [Implies_(eq(K.pending(st), 1), eq(K.int(st, "_error"), NOERR)), Z(K.err(st)) != PAUSED]; K.set(st, "_handlingDeviceError", hand, 1); post = keep(K, st); C.ev(label, post)
    for k, v in old.items(): setattr(K, k, v)
    return post
def use_inject(K):
    ex = K.ex
    def inj(C):
        p, n = C.a[1], C.a[2]; st = C.st; b = ex.bget(st, K.p("_buffer")); ok = isinstance(p, Ptr) and b.k in ("own", "raw") and p.oid == b.oid; c0 = st.mem[K.R].cells[0][1]
        ex.prove(st, ok and and_(eq(p.off, add(b.off, c0)), eq(n, sub(b.len(), c0)), lt(0, n)), "pre-input", "inject: the bytes received and not yet consumed", where="post")
        if not ok: raise Unsupported("input of the parser")
        parser_runs(K, C, "inject"); c = fint("consumed"); st.pc += [c >= 0, c <= Z(n)]; g = st.w(K.R).cells; g[0] = (8, add(c0, c)); g[8] = (8, ite(or_(eq(K.pending(st), 0), not_(eq(K.err(st), 0))), 1, 0)); return c
    ex.contracts[RP + "inject(char const*, int)"] = inj
    def eof(C): parser_runs(K, C, "eof")
    ex.contracts[RP + "injectEof()"] = eof
def outcome(K, t, e, err, label, before=None):
    """finished() with the error"""
    ex = K.ex; s = e[2]; ex.prove(s, e[1] == "finished" and eq(K.int(s, "_error"), err), "post-outcome", "%s: %s, error" % (label, e[1]), where="post"); frame(K, before, s, label, ("_error", "_responsePending", "parser", "_handlingDeviceError"))
def device_error(ex):
    st = cworld(ex); K = Client(ex, st); use_inject(K); own(K, "sendPendingRequest()", turn(K, "pend")); x = K.ranged(st, "socket error", -1, 23); o = keep(K, st); p0, par = K.pending(st), K.int(st, "_parsing")
    K.R = ex.new_cells(st, "consumed", 8); st.w(K.R).cells[0] = (8, 0)
    fn = target(ex, CL + "device_error(QAbstractSocket::SocketError)"); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(K.o), x]):
        av = [e for e in does(r) if e[0] == "avail"]; 
        for t, (pend, closed, parsing, none) in cases(ex, r, eq(p0, 1), x == 1, eq(par, 1), eq(av[0][1], 0) if av else False):
            ev = [e for e in does(t) if e[0] != "avail"]; K.settled(t, "socket error")
            if not pend: seen.add("idle"); seq(ex, t, ev, [], "an error of an idle connection is ignored"); frame(K, o, t, "idle"); continue
            eof = closed and not parsing and (not av or none); base = o; label = "closed" if closed else "failed"; 
            if closed and not parsing and not av: ex.prove(t, False, "post-read-first", "the end counts once everything received has been read", where="post"); continue
            if eof:
                ex.prove(t, bool(ev) and ev[0][0] == "eof", "post-eof", "the parser is told of the end first: %s" % [e[0] for e in ev], where="post")
                if not ev or ev[0][0] != "eof": continue
                base = ev[0][1]; q = base["st"]
                for u, (still,) in cases(ex, t, eq(K.pending(q), 1)):
                    rest = [e for e in does(u) if e[0] != "avail"][1:]; seen.add(("eof", still))
                    if not still:
                        if seq(ex, u, rest, ["pend"], "the response was complete: a queued request is next"): frame(K, base, rest[0][1]["st"], "complete"); ex.prove(u, eq(K.int(u, "_handlingDeviceError"), 0), "post-handled", "no longer handling the error", where="post"); ex.prove(u, eq(K.int(rest[0][1]["st"], "_handlingDeviceError"), 1), "post-handling", "the socket is still in its error signal", where="post")
                        continue
                    ended(K, u, rest, CLOSED, base, "closed", False)
                continue
            seen.add((closed, parsing)); ended(K, t, ev, CLOSED if closed else NETERR, base, label, parsing)
    if len(seen) < 7: raise Unsupported("postcondition not reached: %s" % (seen,))
def ended(K, t, ev, err, base, label, parsing):
    ex = K.ex
    if not seq(ex, t, ev, ["dev", "emit"], "%s: the connection is closed, then finished()" % label): return
    ex.prove(t, ev[0][1] == "close", "post-close", label, where="post"); outcome(K, t, ev[1], err, label, base); s = ev[1][2]; ex.prove(s, eq(K.int(s, "_handlingDeviceError"), 1), "post-handling", "the socket is still in its error signal", where="post")
    if parsing: ex.prove(s, eq(K.err(s), PAUSED), "post-paused", label + ": nothing more is parsed", where="post")
    frame(K, ev[1][3], t, "after finished()", ("_handlingDeviceError",)); ex.prove(t, eq(K.int(t, "_handlingDeviceError"), 0), "post-handled", "no longer handling the error", where="post")
def ready_read(null):
    def run(ex):
        st = cworld(ex); K = Client(ex, st); use_inject(K); own(K, "sendPendingRequest()", turn(K, "pend")); K.R = ex.new_cells(st, "consumed", 16); g = st.w(K.R).cells; g[0] = (8, 0); g[8] = (8, 0)
        if null: ex.vset(st, K.p("_buffer"), EMPTY_BA(True))
        p0, par, C0 = K.pending(st), K.int(st, "_parsing"), K.C.len(); lim = ex.tm_int(st, Tm("readBufferSize"), -(1 << 40), 1 << 40)
        def rd(C):
            s = C.st; K.isdev(C); p, n = ex.nonnull(s, C.a[1]), C.a[2]; o = s.mem[p.oid]; ex.prove(s, and_(lt(0, n), le(0, p.off), le(add(p.off, n), o.size)), "bounds-write", "read of %s bytes at %s of %s (size %s)" % (n, p.off, o.name, o.size)); ex.prove(s, not o.const and not o.shared and not o.freed, "write-to-shared", o.name)
            b = ex.bget(s, K.p("_buffer")); ex.prove(s, b.k == "own" and p.oid == b.oid and eq(p.off, 0), "pre-read", "into the empty buffer", where="post"); av = [e[1] for e in s.trace if isinstance(e, tuple) and e[0] == "avail"][0]; room = sub(lim, C0)
            ex.prove(s, eq(n, ite(and_(lt(0, lim), lt(room, av)), room, av)), "pre-read", "as much as there is, and room for", where="post"); r = fint("bytesRead"); s.pc += [r >= -1, r <= Z(n)]; out = []
            for t, pos in C.split(lt(0, r)):
                if pos: ex.content_write(t, t.w(p.oid), p.off, Rope([Sl(UFSrc(ffun("input")), 0, r)]))
                t.trace.append(("read", r)); out.append((t, r))
            return out
        ex.contracts["QIODevice::read(char*, long long)"] = rd
        def inv(ex, hs, k, init):
            q = hs.state.fork(); c = q.mem[K.R].cells[0][1]; out = [(eq(x, c), "consumed so far") for key, p, x0, x in hs.parts if p == "v" and isint(x) and isz(x)]
            out += [(eq(K.ghost(q), K.pending(q)), "started is pending"), (and_(le(0, K.pending(q)), le(K.pending(q), 1)), "pending or not"), (Implies_(eq(K.pending(q), 1), eq(K.int(q, "_error"), NOERR)), "no error"), (not_(eq(K.err(q), PAUSED)), "not paused"), (eq(K.int(q, "_parsing"), 0), "not parsing")]
            b = ex.bget(q, K.p("_buffer")); out += [(and_(le(0, c), le(c, b.len())), "within the buffer"), (lt(c, b.len()), "more to parse"), (eq(K.pending(q), 1), "still pending"), (eq(K.err(q), 0), "still sound")] + [(eq(sub(b.len(), x), c), "left") for key, p, x0, x in hs.parts if p == "v" and isint(x) and isz(x)] + [(eq(x.off, add(b.off, c)), "position") for x in (st_.frames[-1].env.get(k[1]) for st_ in (hs.state,) for k, p, _, _ in hs.parts if k[0] == "phi" and p == "off") if isinstance(x, Ptr) and x.oid == b.oid]; stop = or_(eq(K.pending(q), 0), not_(eq(K.err(q), 0))); out += [(eq(q.mem[K.R].cells[8][1], ite(stop, 1, 0)), "stopped when over")]
            return [(x, y) for x, y in out if isz(x)]
        ex.loopcands.append(inv); o = keep(K, st); fn = target(ex, CL + "device_readyRead()"); cover(ex, st, "precondition"); seen = set()
        for r in ex.run(st, fn, [Ptr(K.o)]):
            rd_, av = [e for e in does(r) if e[0] == "read"], [e for e in does(r) if e[0] == "avail"]
            for t, (pend, parsing, some) in cases(ex, r, eq(p0, 1), eq(par, 1), eq(av[0][1], 0) if av else False):
                ev = [e for e in does(t) if e[0] not in ("avail", "read", "inject")]; got = rd_[0][1] if rd_ else None
                if not pend:
                    seen.add("idle"); K.settled(t, "idle")
                    if seq(ex, t, ev, ["dev"], "nothing is expected: the connection is closed"): ex.prove(t, ev[0][1] == "close", "post-close", "idle", where="post")
                    frame(K, o, t, "idle"); continue
                if parsing: seen.add("parsing"); seq(ex, t, ev, [], "read later"); ex.prove(t, not rd_, "post-later", "read later", where="post"); frame(K, o, t, "parsing"); K.settled(t, "parsing"); continue
                if not rd_:
                    seen.add("nothing"); room = sub(lim, C0); ex.prove(t, len(av) > 0 and or_(eq(av[0][1], 0), and_(lt(0, lim), le(room, 0))), "post-read", "left unread only without room for it", where="post"); seq(ex, t, ev, [], "nothing to read"); frame(K, o, t, "nothing read"); K.settled(t, "nothing"); continue
                ij = [e for e in does(t) if e[0] == "inject"]
                if not ij: seen.add("failed"); ex.prove(t, le(got, 0), "post-parsed", "what is read is parsed", where="post"); seq(ex, t, ev, [], "nothing could be read"); frame(K, o, t, "nothing read"); K.settled(t, "failed"); continue
                ex.prove_rope(t, K.rope(t, "_buffer"), Rope(), "post-buffer", "the buffer is empty for the next read"); em = [e for e in ev if e[0] == "emit"]; inv_ = any(e[0] == "dev" for e in ev); c, stop = t.mem[K.R].cells[0][1], t.mem[K.R].cells[8][1]
                s = em[0][2] if em else ev[0][1]["st"] if ev and ev[0][0] == "pend" else t
                ex.prove(t, or_(eq(c, got), eq(stop, 1)), "post-all", "all of it is parsed, unless the response was over", where="post")
                if em:
                    ex.prove(t, [e[0] for e in ev[:2]] == ["dev", "emit"] and ev[0][1] == "close" and em[0][1] == "finished", "post-invalid", "an invalid response: closed, then finished(): %s" % [e[:2] for e in ev], where="post"); ex.prove_rope(s, K.rope(s, "_buffer"), Rope(), "post-buffer", "empty before the slots are called"); ex.prove(s, and_(eq(K.int(s, "_error"), INVALID), not_(eq(K.err(s), 0))), "post-outcome", "invalid response", where="post"); ev = ev[2:]
                else: ex.prove(t, not inv_, "post-quiet", "the connection is left alone", where="post"); ex.prove(s, or_(eq(K.pending(s), 0), eq(K.err(s), 0)), "post-reported", "an invalid response is reported", where="post")
                last = av[-1] if len(av) > 1 else None
                if ev and ev[0][0] == "pend": seen.add(("pend", bool(em))); seq(ex, t, ev, ["pend"], "a queued request is next"); ex.prove(t, eq(K.pending(ev[0][1]["st"]), 0), "post-over", "the response is over", where="post"); continue
                K.settled(t, "read"); ex.prove(t, eq(K.pending(t), 1) if last else False, "post-pending", "the response is still pending", where="post")
                if not last: continue
                for u, (more,) in cases(ex, t, lt(0, last[1])):
                    seen.add((more, bool(em)))
                    if seq(ex, u, ev, ["singleShot"] if more else [], "reading goes on if there is more") and more: readlater(K, u, ev[0])
        if len(seen) < 10: raise Unsupported("postcondition not reached: %s" % (seen,))
    return run
def use_keepalive(K):
    def h(C): K.ex.prove(C.st, isinstance(C.a[0], Ptr) and C.a[0].oid == K.o and eq(C.a[0].off, K.L["parser"]) is True, "pre-parser", "its own parser", where="post"); return ite(K.ka, 1, 0) if C.fn.ret.n > 1 else K.ka
    K.ka = fbool("keepalive"); K.ex.contracts["http_should_keep_alive"] = h
def handler_state(ex, st):
    """inside a parse, the response under way, the parser ready to go on"""
    K = Client(ex, st); st.pc += [eq(K.pending(st), 1), eq(K.int(st, "_parsing"), 1), eq(K.err(st), 0)]; return K
def message_complete(ex):
    st = cworld(ex); K = Client(ex, st); st.pc += [eq(K.pending(st), 1), eq(K.int(st, "_parsing"), 1)]; use_keepalive(K); o = keep(K, st); dec, T = K.dec, K.timeout; hundred = eq(K.status(st), 100); fn = target(ex, CL + "messageComplete()"); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(K.o)]):
        for t, (has, hun, never, alive) in cases(ex, r, Z(dec) != 0, hundred, eq(T, 0), K.ka):
            ev = does(t); seen.add((has, hun, never, alive)); K.settled(t, "complete"); d = ["undecoder"] if has else []
            if hun:
                if seq(ex, t, ev, d, "an interim response goes unnoticed"): as_new_but_paused(K, t, "interim"); frame(K, o, t, "interim", ("_content", "_headers", "_contentDecoder", "parser"))
                ex.prove(t, eq(K.decoder(t), 0), "post-decoder", "no decoder left", where="post"); continue
            ev = ev[:len(d)] + sorted(ev[len(d):-1], key=lambda e: e[0]) + ev[-1:]      # closing the connection and starting the keep-alive period: in any order
            if not seq(ex, t, ev, d + (["dev", "timer.start", "emit"] if not alive and not never else ["dev", "emit"] if never else ["timer.start", "emit"]), "complete: %s" % ("never kept" if never else "kept" if alive else "closed")): continue
            if has: ex.prove(t, eq(ev[0][1], dec), "post-decoder", "its decoder", where="post")
            if never or not alive: ex.prove(t, ev[len(d)][1] == "close", "post-close", "the connection is closed", where="post")
            e = ev[-1]; s = e[2]; ex.prove(s, e[1] == "finished" and and_(eq(K.int(s, "_error"), NOERR), eq(K.decoder(s), 0)), "post-outcome", "finished, without error", where="post"); frame(K, o, s, "complete", ("_responsePending", "_contentDecoder")); frame(K, e[3], t, "after finished()")
    if len(seen) < 8: raise Unsupported("postcondition not reached: %s" % (seen,))
def as_new_but_paused(K, t, label):
    q = t.fork(); K.ex.prove(q, eq(K.err(q), PAUSED), "post-paused", label + ": the rest is parsed as another response", where="post"); c = q.w(K.o).cells; x = c[K.dp - 1]; c[K.dp - 1] = (x[0], 0); as_new(K, q, label)
HEADTOK = rlit(b"head")
def headers_complete(ex):
    st = cworld(ex); K = handler_state(ex, st); st.pc += [eq(K.dec, 0)]; H = K.H; m0 = K.req.method; o = keep(K, st); ex.vmethods[("HttpClient", 15)] = ("Pillow::HttpClient::messageComplete()", lambda C: turn(K, "complete")(C)); own(K, "messageComplete()", turn(K, "complete"))
    K.newdec = []
    def gz(i, F): return and_(ci_term(ex, F["st"], F["H"].name(i), rlit(b"content-encoding")), ci_term(ex, F["st"], F["H"].value(i), rlit(b"gzip")))
    F = {"st": st, "H": H}; some = ValFold("gzip_before", False, lambda i, v: or_(v, gz(i, F))); ex.foldlist.append(some)
    fn = target(ex, CL + "headersComplete()"); cover(ex, st, "precondition"); seen = set(); hundred = eq(K.status(st), 100)
    e0 = K.emit
    def emit(C, name):
        e0(C, name); post = [e for e in C.st.trace if isinstance(e, tuple) and e[0] == "emit"][-1][3]; F["H"] = post["H"]
    K.emit = emit; ex.contracts[CL + "headersCompleted()"] = lambda C: emit(C, "headersCompleted"); K.F = F
    GZ = z3.Function(fresh_name("is_decoder"), IntSort(), BoolSort())
    def new(C): x = fint("decoder"); C.st.pc.append(x > 0); return OPtr(x, "ContentTransformer")
    def made(C): C.ex.prove(C.st, isinstance(C.a[0], OPtr), "pre-this", "decoder", where="post"); C.st.pc.append(GZ(objid(C.a[0])))
    ex.contracts["operator new(unsigned long)"] = new; ex.contracts[NS + "GunzipContentTransformer::GunzipContentTransformer()"] = made
    def decoders(ex, hs, k, init):
        d = K.decoder(hs.state.fork()); return [(and_(iff(Z(d) != 0, some.at(x)), Implies_(Z(d) != 0, GZ(Z(d)))), "a decoder when a header so far asks for one") for x in index_terms(hs, k)]
    ex.loopcands.append(decoders)
    for r in ex.run(st, fn, [Ptr(K.o)]):
        e = next((e for e in does(r) if e[0] == "emit"), None)
        for t, (hun, on, head) in cases(ex, r, hundred, eq(K.pending(e[3]["st"]), 1) if e else False, ci_term(ex, r, e[3]["req"].method, HEADTOK) if e else False):
            ev = does(t)
            if hun: seen.add("100"); seq(ex, t, ev, [], "an interim response goes unnoticed"); frame(K, o, t, "interim"); K.settled(t, "interim"); continue
            if not seq(ex, t, ev, ["emit"] + (["complete"] if on and head else []), "headers complete"): continue
            ex.prove(t, ev[0][1] == "headersCompleted", "post-signal", ev[0][1], where="post"); frame(K, o, ev[0][2], "headers complete"); a = ev[0][3]
            if not on: seen.add("aborted"); frame(K, a, t, "aborted by a slot"); K.settled(t, "aborted"); continue
            if head:
                seen.add("head"); s = ev[1][1]["st"]; frame(K, a, s, "HEAD: the response is complete", ("parser",)); ex.prove(s, eq(K.err(s), PAUSED), "post-paused", "HEAD: nothing more is parsed", where="post"); continue
            K.settled(t, "headers"); frame(K, a, t, "headers", ("_contentDecoder",)); n = a["H"].n; d = ex.load(t, K.p("_contentDecoder"), ir.PTR, K.m)
            for u, (some_,) in cases(ex, t, some.at(n)):
                seen.add(("gzip", some_))
                if some_: ex.prove(u, GZ(objid(d)) if isinstance(d, OPtr) else False, "post-decoder", "a compressed content gets a decoder: %r" % (d,), where="post")
                else: ex.prove(u, eq(objid(d), 0), "post-decoder", "no decoder: %r" % (d,), where="post")
    if len(seen) < 5: raise Unsupported("postcondition not reached: %s" % (seen,))
def consume(ex):
    st = cworld(ex); K = Client(ex, st); o = keep(K, st); C0 = K.C; res = ex.new_cells(st, "result", 8); fn = target(ex, CL + "consumeContent()"); cover(ex, st, "precondition"); seen = set(); p0 = K.pending(st)
    for r in ex.run(st, fn, [Ptr(res), Ptr(K.o)]):
        av = [e for e in does(r) if e[0] == "avail"]
        for t, (pend, more) in cases(ex, r, eq(p0, 1), Z(av[0][1]) > 0 if av else False):
            ev = [e for e in does(t) if e[0] != "avail"]; seen.add((pend, more)); K.settled(t, "consume"); ex.prove_rope(t, ex.ba_rope(t, ex.bget(t, Ptr(res))), C0, "post-content", "the content received so far"); ex.prove_rope(t, K.rope(t, "_content"), Rope(), "post-consumed", "none of it is left"); frame(K, o, t, "consume", ("_content",))
            if pend and not av: ex.prove(t, False, "post-resume", "room in the buffer lets reading go on", where="post"); continue
            if seq(ex, t, ev, ["singleShot"] if pend and more else [], "reading goes on if there is more") and pend and more: readlater(K, t, ev[0])
    if len(seen) < 3: raise Unsupported("postcondition not reached: %s" % (seen,))
def readlater(K, t, e): K.ex.prove(t, and_(eq(e[1], 0), ideq(e[2], ("o", K.o)), e[3] == "1device_readyRead()"), "post-later", "what is left is read later: %s" % (e[1:],), where="post")
REDIRECTS = (300, 301, 302, 303, 307)
def redirected(ex):
    st = cworld(ex); K = Client(ex, st); o = keep(K, st); x = K.status(st); fn = target(ex, CL + "redirected() const"); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(K.o)]):
        for t, (yes,) in cases(ex, r, or_(*[eq(x, c) for c in REDIRECTS])): seen.add(yes); ex.prove(t, eq(ite(r.ret, 1, 0) if isbool(r.ret) else r.ret, 1 if yes else 0), "post-result", "redirected", where="post"); frame(K, o, t, "redirected"); seq(ex, t, does(t), [], "redirected")
    if len(seen) < 2: raise Unsupported("postcondition not reached")
def location(ex):
    st = cworld(ex); K = Client(ex, st); o = keep(K, st); H = K.H; res = ex.new_cells(st, "result", 8); isloc = lambda i: ci_term(ex, st, H.name(i), rlit(b"location")); f = ScanFold("location_from", lambda i: or_(le(H.n, i), isloc(i)), lambda i: i, 0); ex.foldlist.append(f); f.unfold(ex, st, [0])
    none = ValFold("no_location_before", True, lambda i, v: and_(v, not_(isloc(i))), claim=True); ex.foldlist.append(none)
    fn = target(ex, CL + "redirectionLocation() const"); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(res), Ptr(K.o)]):
        frame(K, o, r, "location"); seq(ex, r, does(r), [], "location"); got = ex.ba_rope(r, ex.bget(r, Ptr(res)))
        w = simp(f.f(IntVal(0)))
        for t, (found,) in cases(ex, r, Z(w) < H.n): seen.add(found); ex.prove_rope(t, got, H.value(w) if found else Rope(), "post-result", "the first Location header" if found else "empty without one")
    if len(seen) < 2: raise Unsupported("postcondition not reached")
def follow(ex):
    st = cworld(ex); K = Client(ex, st); use_request(K); x = K.status(st); o = keep(K, st); loc = atom(ex, st, "location"); R = K.req
    def rl(C): ex.prove(C.st, isinstance(C.a[1], Ptr) and C.a[1].oid == K.o, "pre-this", "redirectionLocation", where="post"); ex.vset(C.st, C.a[0], pure(loc))
    ex.contracts[CL + "redirectionLocation() const"] = rl; fn = target(ex, CL + "followRedirection()"); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(K.o)]):
        for t, (yes,) in cases(ex, r, or_(*[eq(x, c) for c in REDIRECTS])):
            seen.add(yes); ev = does(t)
            if not seq(ex, t, ev, ["request"] if yes else [], "a redirection is followed"): continue
            if yes: is_request(ex, t, ev[0], R, "redirection", lambda v: isinstance(v, Tm) and v.op == "QUrl::fromEncoded" and isinstance(v.a[0], Rope) and ex.ropes_same(t, v.a[0], loc) if hasattr(ex, "ropes_same") else isinstance(v, Tm) and v.op == "QUrl::fromEncoded" and v.a[0].key() == loc.key()); frame(K, o, ev[0][-1]["st"], "redirection")
            else: frame(K, o, t, "no redirection"); K.settled(t, "no redirection")
    if len(seen) < 2: raise Unsupported("postcondition not reached")
def wrapper(name, verb, data):
    def run(ex):
        st = cworld(ex); K = Client(ex, st); use_request(K); o = keep(K, st); N = Req(ex, st, "new"); u, h, d, m = [ex.new_cells(st, n, 8) for n in ("url", "headers", "data", "method")]; ex.vset(st, Ptr(u), N.url); ex.vset(st, Ptr(h), N.H.vec); ex.vset(st, Ptr(d), pure(N.data)); ex.vset(st, Ptr(m), pure(N.method, N.null))
        sig = "(" + ("QByteArray const&, " if verb is None else "") + "QUrl const&, Pillow::HttpHeaderCollection const&" + (", QByteArray const&" if data else "") + ")"
        fn = target(ex, CL + name + sig); cover(ex, st, "precondition"); n = 0; args = [Ptr(K.o)] + ([Ptr(m)] if verb is None else []) + [Ptr(u), Ptr(h)] + ([Ptr(d)] if data else [])
        for t in ex.run(st, fn, args):
            n += 1; ev = does(t)
            if not seq(ex, t, ev, ["request"], "one request"): continue
            e = list(ev[0]); frame(K, o, ev[0][-1]["st"], name)
            if verb is not None: ex.prove_rope(t, e[1], rlit(verb), "post-request", name + ": method"); e[1] = N.method
            if not data: ex.prove_rope(t, e[4], Rope(), "post-request", name + ": no data"); e[4] = N.data
            is_request(ex, t, e, N, name)
        if n < 1: raise Unsupported("postcondition not reached")
    return run
def client_ctor(ex):
    """a new client: nothing pending, its parser as new, wired to its own socket"""
    st = cworld(ex); K = Client(ex, st); fresh_ = ex.new_cells(st, "HttpClient", 448); st.w(fresh_).vcls = "HttpClient"; sock = fint("new socket"); st.pc.append(sock > 0); par = fint("parent"); st.pc.append(par >= 0); made = []
    def new(C): made.append(1); return OPtr(sock, "QTcpSocket")
    ex.contracts["operator new(unsigned long)"] = new; ex.patterns.insert(0, (re.compile(r"QTcpSocket::QTcpSocket\(QObject\*\)$"), lambda C: C.ev("socket", objid(C.a[0]), C.a[1])))
    ex.patterns.insert(0, (re.compile(r"QElapsedTimer::QElapsedTimer\(\)$"), lambda C: C.ev("timer.none"))); ex.patterns.insert(0, (re.compile(r"QElapsedTimer::invalidate\(\)$"), lambda C: C.ev("timer.none")))
    fn = target(ex, CL + "HttpClient(QObject*)"); cover(ex, st, "precondition"); n = 0; K.o = fresh_; K.dev = sock; wl = lay(ex, NS + "HttpRequestWriter"); K.wp = Ptr(fresh_, K.L["_requestWriter"])
    for t in ex.run(st, fn, [Ptr(fresh_), OPtr(par, "QObject")]):
        n += 1; ev = does(t); so = [e for e in ev if e[0] == "socket"]; ex.prove(t, len(so) == 1 and len(made) == 1 and eq(so[0][1], sock) and isinstance(so[0][2], Ptr) and so[0][2].oid == fresh_, "post-socket", "one socket, owned by the client", where="post")
        d, w = sock, ("o", fresh_)
        for sig, slot in (("2error(QAbstractSocket::SocketError)", "1device_error(QAbstractSocket::SocketError)"), ("2connected()", "1device_connected()"), ("2readyRead()", "1device_readyRead()")): wired(ex, t, ev, d, sig, w, slot, "socket %s -> %s" % (sig[1:], slot[1:]))
        ex.prove(t, sum(1 for e in ev if e[0] == "connect") == 3, "post-wiring", "nothing else", where="post")
        for f, v in (("_responsePending", 0), ("_error", NOERR), ("_keepAliveTimeout", -1), ("_handlingDeviceError", 0), ("_parsing", 0), ("_lastWasValue", 0)): ex.prove(t, eq(K.int(t, f), v), "post-fields", f, where="post")
        for f in ROPES: ex.prove_rope(t, K.rope(t, f), Rope(), "post-fields", f)
        for p, tag in ((K.p("_device"), "socket"), (Ptr(fresh_, K.wp.off + wl["_device"]), "socket of the writer")): ex.prove(t, eq(objid(ex.load(t, p, ir.PTR, K.m)), sock), "post-fields", tag, where="post")
        ex.prove(t, eq(objid(ex.load(t, K.p("_contentDecoder"), ir.PTR, K.m)), 0), "post-fields", "no decoder", where="post"); ex.prove(t, any(e[0] == "timer.none" for e in ev), "post-timer", "no keep-alive period is running", where="post")
        q = K.queued.f; b = ex.bget(t, Ptr(fresh_, K.L["_pendingRequest"] + q["method"])); ex.prove(t, b.k == "pure" and b.null is True, "post-queue", "no request queued", where="post"); as_new(K, t, "new")
        for m in K.sound(t): ex.prove(t, m, "post-sound", "new", where="post")
    if n < 1: raise Unsupported("postcondition not reached")
def accessor(name, f=None, arg=None, size=4, limit=False):
    def run(ex):
        st = cworld(ex); K = Client(ex, st); o = keep(K, st); fn = target(ex, CL + name); cover(ex, st, "precondition"); n = 0; x = None
        if arg: x = K.ranged(st, "value", -(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1)
        for t in ex.run(st, fn, [Ptr(K.o)] + ([x] if arg else [])):
            n += 1; ev = does(t)
            if limit and arg:
                if seq(ex, t, ev, ["dev"], "passed to the socket"): ex.prove(t, ev[0][1] == "limit" and eq(ev[0][2], x), "post-limit", name, where="post")
            else: seq(ex, t, ev, [], name)
            if limit and not arg: ex.prove(t, eq(t.ret, ex.tm_int(t, Tm("readBufferSize"), -(1 << 40), 1 << 40)), "post-result", name, where="post")
            elif f and not arg: v = t.ret; ex.prove(t, eq(ite(v, 1, 0) if isbool(v) else v, K.int(o["st"], f)), "post-result", name, where="post")
            elif f: ex.prove(t, eq(K.int(t, f), x), "post-set", name, where="post")
            frame(K, o, t, name, (f,) if arg and f else ())
        if n < 1: raise Unsupported("postcondition not reached")
    return run
ACC = [("keepAliveTimeout() const", "_keepAliveTimeout"), ("setKeepAliveTimeout(int)", "_keepAliveTimeout", True), ("responsePending() const", "_responsePending"), ("error() const", "_error"), ("readBufferSize() const", None, None, 8, True), ("setReadBufferSize(long long)", None, True, 8, True)]
C21 = [Unit("HttpClient::request", RS, request(False)), Unit("HttpClient::request(from inside a parse)", RS, request(True)), Unit("HttpClient::sendPendingRequest", RS, send_pending), Unit("HttpClient::connectDevice", RS, connect_device), Unit("HttpClient::device_connected", RS, connected), Unit("HttpClient::abort", RS, abort), Unit("HttpClient::device_error", RS, device_error), Unit("HttpClient::device_readyRead", RS, ready_read(False)), Unit("HttpClient::device_readyRead(first use of the buffer)", RS, ready_read(True)), Unit("HttpClient::messageComplete", RS, message_complete), Unit("HttpClient::headersComplete", RS, headers_complete), Unit("HttpClient::consumeContent", RS, consume), Unit("HttpClient::redirected", RS, redirected), Unit("HttpClient::redirectionLocation", RS, location), Unit("HttpClient::followRedirection", RS, follow)] + \
    [Unit("HttpClient::" + n, RS, wrapper(n, v, d)) for n, v, d in (("get", b"GET", False), ("head", b"HEAD", False), ("post", b"POST", True), ("put", b"PUT", True), ("deleteResource", b"DELETE", False), ("request", None, True))]
C21 += [Unit("HttpClient::HttpClient", RS, client_ctor)] + [Unit("HttpClient::" + a[0].split("(")[0], RS, accessor(*a)) for a in ACC]
