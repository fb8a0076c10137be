"""Contracts of the client's life cycle (C21) and of the request it sends (C19), function by function.

A ghost cell `started` counts the requests that were started and have not been reported finished. Every function is proved to
keep `started == _responsePending` whenever control leaves the client: when it returns and when a signal is emitted, at which
point the slots may call back into the client (the state is then arbitrary, subject to the same invariant)."""
from .respspec import *
CL = NS + "HttpClient::"
SLOT = {"connectToHost": 29, "disconnectFromHost": 31, "setReadBufferSize": 32}
CONNECTED, UNCONNECTED = 3, 0
NOERR, NETERR, INVALID, CLOSED, ABORTED = range(5)

class Req:
    """a HttpClientRequest: arbitrary method, url, headers, data"""
    def __init__(s, ex, st, name):
        s.ex = ex; s.method, s.data = atom(ex, st, name + ".method"), atom(ex, st, name + ".data", 1 << 29); s.null = fbool(name + ".null"); s.url = Tm("val", fint(name + ".url")); s.H = Headers(ex, st, name + ".header")
        st.pc.append(Implies_(s.null, s.method.len() == 0)); s.f = lay(ex, NS + "HttpClientRequest")
    def put(s, st, p):
        ex = s.ex; q = lambda f: Ptr(p.oid, p.off + s.f[f])
        ex.vset(st, q("method"), pure(s.method, s.null)); ex.vset(st, q("url"), s.url); ex.vset(st, q("headers"), s.H.vec); ex.vset(st, q("data"), pure(s.data))
    def same(s, t, p, label):
        ex = s.ex; q = lambda f: Ptr(p.oid, p.off + s.f[f])
        ex.prove_rope(t, ex.ba_rope(t, ex.bget(t, q("method"))), s.method, "post-request", label + ": method"); ex.prove_rope(t, ex.ba_rope(t, ex.bget(t, q("data"))), s.data, "post-request", label + ": data")
        v = ex.vget(t, q("url")); ex.prove(t, isinstance(v, Tm) and v.key() == s.url.key(), "post-request", label + ": url %r" % (v,), where="post"); same_vec(ex, t, ex.vecval(t, q("headers"), "Pillow::HttpHeader"), s.H, label + ": headers")
def Implies_(a, b): return z3.Implies(B(a), B(b))

class Client:
    def __init__(s, ex, st, writer=True):
        s.ex, s.L = ex, lay(ex, NS + "HttpClient"); s.pl = {k: v for k, v in lay(ex, "http_parser").items()}; s.m = ex.modules[0]
        s.o = ex.new_cells(st, "HttpClient", 448); st.w(s.o).vcls = "HttpClient"; s.G = ex.new_cells(st, "ghost", 8)
        s.dev = fint("socket"); st.pc.append(s.dev > 0); s.dec = fint("decoder"); st.pc.append(s.dec >= 0)
        ex.store(st, s.p("_device"), OPtr(s.dev, "QTcpSocket"), 8); wl = lay(ex, NS + "HttpRequestWriter"); s.wp = s.p("_requestWriter"); ex.store(st, Ptr(s.o, s.wp.off + wl["_device"]), OPtr(s.dev, "QTcpSocket"), 8); ex.vset(st, Ptr(s.o, s.wp.off + wl["_builder"]), ex.own(st, Rope()))
        s.buf = ex.own(st, Rope()); ex.vset(st, s.p("_buffer"), s.buf); ex.vset(st, s.p("_keepAliveTimeoutTimer"), Tm("timer"))
        s.dp = s.L["parser"] + s.pl["data"]; s.set(st, "_keepAliveTimeout", s.ranged(st, "timeout", -(1 << 31), (1 << 31) - 1), 4); s.timeout = s.int(st, "_keepAliveTimeout")
        s.arbitrary(st); s.install()
    def p(s, f): return Ptr(s.o, s.L[f])
    def ranged(s, st, n, lo, hi): x = fint(n); st.pc += [x >= lo, x <= hi]; return x
    def set(s, st, f, v, size): st.w(s.o).cells[s.L[f]] = (size, v)
    def int(s, st, f): return st.mem[s.o].cells[s.L[f]][1]
    def rope(s, st, f): return s.ex.ba_rope(st, s.ex.bget(st, s.p(f)))
    def decoder(s, st): return objid(s.ex.load(st, s.p("_contentDecoder"), ir.PTR, s.m))
    def ghost(s, st): return st.mem[s.G].cells[0][1]
    def err(s, st): return s.ex.load(st, Ptr(s.o, s.dp - 1), ir.INT(8), s.m) % 128
    def status(s, st): return s.int2(st, s.L["parser"] + s.pl["status_code"])
    def int2(s, st, off): return uns(16, s.ex.load(st, Ptr(s.o, off), ir.INT(16), s.m))
    def pending(s, st): return s.int(st, "_responsePending")
    def arbitrary(s, st, pending=None, parsing=None, sound=True):
        """any state between two operations"""
        ex = s.ex; r = Req(ex, st, "request"); r.put(st, s.p("_request")); s.req = r; q = Req(ex, st, "queued"); q.put(st, s.p("_pendingRequest")); s.queued = q
        p = s.ranged(st, "pending", 0, 1) if pending is None else pending; s.set(st, "_responsePending", p, 1); st.w(s.G).cells[0] = (8, p)
        e = s.ranged(st, "error", 0, 4); s.set(st, "_error", e, 4); s.set(st, "_handlingDeviceError", s.ranged(st, "handling", 0, 1), 1)
        s.set(st, "_parsing", s.ranged(st, "parsing", 0, 1) if parsing is None else parsing, 1)
        s.host = atom(ex, st, "host", 1 << 20); ex.vset(st, s.p("_hostHeaderValue"), pure(s.host)); s.dec = s.ranged(st, "decoder", 0, 1 << 62); ex.store(st, s.p("_contentDecoder"), OPtr(s.dec, "ContentTransformer"), 8)
        s.F, s.V, s.C = [atom(ex, st, n, 1 << 27) for n in ("field", "value", "content")]; s.H = Headers(ex, st, "header"); s.last = s.ranged(st, "last", 0, 1)
        for f, v in (("_field", s.F), ("_value", s.V), ("_content", s.C)): ex.vset(st, s.p(f), pure(v))
        ex.vset(st, s.p("_headers"), s.H.vec); s.set(st, "_lastWasValue", s.last, 1); s.parser(st)
        if sound: st.pc += s.sound(st)
    def sound(s, st):
        """a request is only pending, without error, while the parser is sound; between parses it is ready to go on"""
        p, e = s.pending(st), s.err(st); return [Implies_(eq(p, 1), and_(eq(s.int(st, "_error"), NOERR), or_(eq(e, 0), eq(e, PAUSED)))), Implies_(and_(eq(p, 1), eq(s.int(st, "_parsing"), 0)), eq(e, 0))]
    def parser(s, st):
        c = st.w(s.o).cells
        for f, sz in (("status_code", 2), ("state", 1)):
            x = s.ranged(st, f, 0, (1 << (8 * sz)) - 1); c[s.L["parser"] + s.pl[f]] = (sz, wrap(8 * sz, x))
        c[s.L["parser"]] = (1, s.ranged(st, "flags", -128, 127)); c[s.dp - 1] = (1, s.ranged(st, "errno", -128, 127)); ex = s.ex; ex.store(st, Ptr(s.o, s.dp), Ptr(s.o, s.L["parser"] - 8), 8)
    def snapshot(s): return dict(req=s.req, queued=s.queued, host=s.host, dec=s.dec, F=s.F, V=s.V, C=s.C, H=s.H, last=s.last)
    # -- contracts of what the client talks to
    def install(s):
        ex = s.ex; v = ex.vmethods; P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h))
        def dev(name, ret=None):
            def h(C): s.isdev(C); return C.ev("dev", name, *[a for a in C.a[1:]])
            return h
        v[("QTcpSocket", QIO["close"])] = ("QAbstractSocket::close()", dev("close")); v[("QTcpSocket", SLOT["disconnectFromHost"])] = ("QAbstractSocket::disconnectFromHost()", dev("disconnect"))
        def conn(C): s.isdev(C); C.ev("dev", "connect", argval(C, C.a[1], "QString const&"), uns(16, C.a[2]))
        v[("QTcpSocket", SLOT["connectToHost"])] = ("QAbstractSocket::connectToHost()", conn); v[("QTcpSocket", SLOT["setReadBufferSize"])] = ("QAbstractSocket::setReadBufferSize()", dev("limit"))
        def avail(C): s.isdev(C); x = s.ranged(C.st, "bytesAvailable", 0, 1 << 29); C.ev("avail", x); return x
        v[("QTcpSocket", QIO["bytesAvailable"])] = ("QAbstractSocket::bytesAvailable()", avail)
        P(r"QAbstractSocket::abort\(\)", dev("abort"))
        def state(C): s.isdev(C); return ex.tm_int(C.st, Tm("state", s.acts(C.st)), 0, 6)
        P(r"QAbstractSocket::state\(\) const", state)
        def limit(C): s.isdev(C); x = ex.tm_int(C.st, Tm("readBufferSize"), -(1 << 40), 1 << 40); return x
        P(r"QAbstractSocket::readBufferSize\(\) const", limit)
        def tm(C): ex.prove(C.st, isinstance(C.a[0], Ptr) and C.a[0].oid == s.o and eq(C.a[0].off, s.L["_keepAliveTimeoutTimer"]) is True, "pre-timer", "its own timer", where="post")
        P(r"QElapsedTimer::isValid\(\) const", lambda C: (tm(C), ex.tm_bool(Tm("timer valid")))[1]); P(r"QElapsedTimer::hasExpired\(long long\) const", lambda C: (tm(C), ex.tm_bool(Tm("timer expired", C.a[1])))[1])
        P(r"QElapsedTimer::start\(\)", lambda C: (tm(C), C.ev("timer"))[1]); P(r"QElapsedTimer::invalidate\(\)", lambda C: C.ev("notimer"))
        v[("ContentTransformer", 1)] = ("ContentTransformer::~ContentTransformer()", lambda C: C.ev("undecoder", objid(C.a[0])))
        def transform(C):
            r = atom(ex, C.st, "decoded", 1 << 27); C.ev("transform", objid(C.a[1]), C.a[2], C.a[3], r); ex.vset(C.st, C.a[0], pure(r))
        v[("ContentTransformer", 2)] = ("ContentTransformer::transform(char const*, int)", transform)
        for n in ("finished", "headersCompleted", "contentReadyRead"): ex.contracts[CL + n + "()"] = (lambda n: lambda C: s.emit(C, n))(n)
        use_assert(ex)
    def acts(s, st): return sum(1 for e in st.trace if isinstance(e, tuple) and e[0] in ("dev", "emit"))
    def isdev(s, C): s.ex.nonnull(C.st, C.a[0]); s.ex.prove(C.st, eq(objid(C.a[0]), s.dev), "pre-device", "its own socket", where="post")
    def emit(s, C, name):
        """control leaves the client: the invariant holds; afterwards the state is arbitrary"""
        st, ex = C.st, s.ex; ex.prove(st, isinstance(C.a[0], Ptr) and C.a[0].oid == s.o, "post-sender", name, where="post"); g, p = s.ghost(st), s.pending(st)
        if name == "finished":
            ex.prove(st, eq(g, 1), "post-once", "finished is emitted once for a request that was started", where="post"); ex.prove(st, eq(p, 0), "post-over", "no response is pending when finished is emitted", where="post")
            st.w(s.G).cells[0] = (8, 0); g = 0
        else: ex.prove(st, eq(p, 1), "post-turn", name + " only while the response is pending", where="post")
        ex.prove(st, eq(g, p), "post-ghost", "%s: a started request is pending until it is finished" % name, where="post")
        for x in s.sound(st): ex.prove(st, x, "post-sound", "%s: a request is pending without error, its parser sound" % name, where="post")
        pre = st.fork(); par = s.int(st, "_parsing"); before = p
        buf = s.ex.bget(st, s.p("_buffer")); old = s.snapshot(); dec = s.decoder(st)
        s.arbitrary(st, parsing=par)
        st.pc.append(Implies_(eq(par, 1), eq(s.dec, dec)))     # only the parser's events change the decoder, and a parse is not entered twice
        st.pc += [Implies_(eq(par, 1), le(s.pending(st), before)), Implies_(and_(eq(par, 1), eq(before, 1), eq(s.pending(st), 0)), eq(s.err(st), PAUSED))]
        C.ev("emit", name, pre, keep(s, st))
        for k, v in old.items(): setattr(s, k, v)
    def settled(s, t, label):
        for x in s.sound(t): s.ex.prove(t, x, "post-sound", label + ": a request is pending without error, its parser sound", where="post")
        s.ex.prove(t, eq(s.ghost(t), s.pending(t)), "post-ghost", label + ": a started request is pending until it is finished", where="post")
def cworld(ex):
    st = world(ex); use_socket_write(ex); return statics(ex, st)
def emits(t): return [e for e in does(t) if e[0] == "emit"]
def devs(t): return [e for e in does(t) if e[0] == "dev"]

# ---------------------------------------------------------------- the request as sent (C19)
def send_request(cached):
    def run(ex):
        st = cworld(ex); K = Client(ex, st); use_write(ex); u = K.req.url; b = Tm
        st0 = st; host = ratom(ex.tm_atom(st, Tm("QUrl::encodedHost", u))); port = ex.tm_int(st, Tm("QUrl::port", u, 80), -(1 << 31), (1 << 31) - 1); st.pc += [port >= 0, port <= 65535]
        path, query = [ratom(ex.tm_atom(st, Tm("QUrl::encoded" + x, u))) for x in ("Path", "Query")]; st.pc += [Z(host.len()) >= 1, Z(host.len()) <= 1 << 20] + [Z(x.len()) <= 1 << 26 for x in (path, query)]
        fn = target(ex, CL + "sendRequest()"); n = 0; H = K.req.H; lf = ListFold("copied headers", lambda i: [(True, [("item", {0: (8, pure(H.name(i))), 8: (8, pure(H.value(i)))})])]); ex.foldlist.append(lf)
        if cached:      # invariant of the kept value: that of the current host and port, or empty
            st.pc.append(port == 80 if cached == "std" else port != 80); ex.vset(st, K.p("_hostHeaderValue"), pure(host if cached == "std" else host + rlit(":") + number_rope(ex, st, port)))
        else: ex.vset(st, K.p("_hostHeaderValue"), ex.own(st, Rope()))
        cover(ex, st, "precondition")
        for r in ex.run(st, fn, [Ptr(K.o)]):
            for t, (pend, std, hasq, nopath) in cases(ex, r, eq(K.pending(r), 1), port == 80, Z(query.len()) > 0, Z(path.len()) == 0):
                n += 1; ev = does(t); K.settled(t, "sent")
                if not pend: seq(ex, t, ev, [], "nothing to send"); continue
                if not seq(ex, t, ev, ["request"], "one request"): continue
                e = ev[0]; upath = rlit("/") if nopath else path; hv = host if std else host + rlit(":") + number_rope(ex, t, port); ex.prove(t, ideq(e[1], ("o", K.o)), "post-writer", "its own writer", where="post")
                ex.prove_rope(t, e[2], K.req.method, "post-method", "method"); ex.prove_rope(t, e[3], upath + rlit("?") + query if hasq else upath, "post-uri", "path and query"); ex.prove_rope(t, e[5], K.req.data, "post-data", "data")
                ps = ex.list_pieces(t, e[4].oid); ok = ps is not None and len(ps) == 2 and ps[0][0] == "item"
                ex.prove(t, ok, "post-headers", "Host, then the headers of the request: %s" % [p[0] for p in ps or ()], where="post")
                if not ok: continue
                ex.prove_rope(t, ex.ba_rope(t, ps[0][1][0][1]), rlit("Host"), "post-host", "name"); ex.prove_rope(t, ex.ba_rope(t, ps[0][1][8][1]), hv, "post-host", "value")
                ex.prove(t, ps[1][0] == "base" and ps[1][1] is K.req.H.base and ex.holds(t, eq(ps[1][2], K.req.H.n)) or ps[1][0] == "fold" and ps[1][1] is lf and ex.holds(t, eq(ps[1][2], H.n)), "post-headers", "the headers of the request, in order: %s" % (ps[1],), where="post")
                ex.prove_rope(t, K.rope(t, "_hostHeaderValue"), hv, "post-kept", "the value is kept for the connection")
                K.req.same(t, K.p("_request"), "request")
        if n < 3 and not cached or n < 2: raise Unsupported("postcondition not reached")
    return run
C19S = [Unit("HttpClient::sendRequest(host to be determined)", RS, send_request(False)), Unit("HttpClient::sendRequest(host known)", RS, send_request("std")), Unit("HttpClient::sendRequest(host and port known)", RS, send_request("other"))]

# ---------------------------------------------------------------- frames
SCALARS = {"_responsePending": 1, "_error": 4, "_handlingDeviceError": 1, "_parsing": 1, "_keepAliveTimeout": 4, "_lastWasValue": 1}
ROPES = ("_field", "_value", "_content", "_hostHeaderValue", "_buffer")
def keep(K, st):
    """the state at this point, to compare with"""
    return dict(st=st.fork(), req=K.req, queued=K.queued, H=K.H)
def frame(K, o, t, label, but=()):
    """everything but the named members is as it was"""
    ex = K.ex; s = o["st"]
    for f, sz in SCALARS.items():
        if f not in but: ex.prove(t, eq(K.int(t, f), K.int(s, f)), "frame", "%s: %s" % (label, f), where="post")
    for f in ROPES:
        if f not in but: ex.prove_rope(t, K.rope(t, f), K.rope(s, f), "frame", "%s: %s" % (label, f))
    if "_headers" not in but: same_vec(ex, t, ex.vecval(t, K.p("_headers"), "Pillow::HttpHeader"), o["H"], label + ": headers")
    if "_contentDecoder" not in but: ex.prove(t, eq(K.decoder(t), K.decoder(s)), "frame", label + ": decoder", where="post")
    if "_request" not in but: o["req"].same(t, K.p("_request"), label)
    if "_pendingRequest" not in but: o["queued"].same(t, K.p("_pendingRequest"), label)
    for p, tag in ((K.p("_device"), "socket"), (Ptr(K.o, K.wp.off + lay(ex, NS + "HttpRequestWriter")["_device"]), "socket of the writer")): ex.prove(t, eq(objid(ex.load(t, p, ir.PTR, K.m)), K.dev), "frame", "%s: %s" % (label, tag), where="post")
    if "parser" not in but:
        ex.prove(t, and_(eq(K.status(t), K.status(s)), eq(K.err(t), K.err(s))), "frame", label + ": parser", where="post")
def assembled(K, t, label, F=None, V=None, C=None, last=None, H=None):
    ex = K.ex
    for f, v in (("_field", F), ("_value", V), ("_content", C)):
        if v is not None: ex.prove_rope(t, K.rope(t, f), v, "post-assembly", "%s: %s" % (label, f))
    if last is not None: ex.prove(t, eq(K.int(t, "_lastWasValue"), last), "post-assembly", label + ": flag", where="post")
    if H == 0: o = t.mem[ex.vecval(t, K.p("_headers"), "Pillow::HttpHeader").oid]; ex.prove(t, eq(o.n, 0), "post-assembly", label + ": no header left", where="post")

# ---------------------------------------------------------------- the overrides of the event handlers (C20)
def client_begin(ex):
    st = cworld(ex); K = Client(ex, st); o = keep(K, st); dec = K.dec; fn = target(ex, CL + "messageBegin()"); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(K.o)]):
        for t, (has,) in cases(ex, r, Z(dec) != 0):
            seen.add(has); ev = does(t); K.settled(t, "begin")
            if seq(ex, t, ev, ["undecoder"] if has else [], "the decoder of an interrupted response is dropped") and has: ex.prove(t, eq(ev[0][1], dec), "post-decoder", "that one", where="post")
            ex.prove(t, eq(K.decoder(t), 0), "post-decoder", "no decoder", where="post"); assembled(K, t, "nothing of an earlier message", Rope(), Rope(), Rope(), 0, 0)
            frame(K, o, t, "begin", ("_field", "_value", "_content", "_lastWasValue", "_headers", "_contentDecoder"))
    if len(seen) < 2: raise Unsupported("postcondition not reached")
def client_content(ex):
    st = cworld(ex); K = Client(ex, st); st.pc += [K.pending(st) == 1]; o = keep(K, st); dec, C0 = K.dec, K.C; n = fint("length"); st.pc += [n >= 0, n <= 1 << 27]; D = Rope([Sl(UFSrc(ffun("piece")), 0, n)]); src = Ptr(ex.new_bytes(st, "input", D, const=True))
    fn = [f for f in ex.modules[0].funcs.values() if f.defined and f.dem.startswith(CL + "messageContent(")][0]; ex.targets.append(fn.dem); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(K.o), src, n]):
        for t, (has,) in cases(ex, r, Z(dec) != 0):
            seen.add(has); ev = does(t)
            if not seq(ex, t, ev, ["transform", "emit"] if has else ["emit"], "one notification, after the content"): continue
            e = ev[-1]; ex.prove(t, e[1] == "contentReadyRead", "post-signal", e[1], where="post"); u = e[2]; new = D
            if has:
                x = ev[0]; ex.prove(t, and_(eq(x[1], dec), isinstance(x[2], Ptr) and x[2].oid == src.oid and eq(x[2].off, 0), eq(x[3], n)), "post-decoded", "the piece as it was received, by its decoder", where="post"); new = x[4]
            assembled(K, u, "content so far", C=C0 + new); frame(K, o, u, "content", ("_content",)); frame(K, e[3], t, "after the notification")
    if len(seen) < 2: raise Unsupported("postcondition not reached")
C20C = [Unit("HttpClient::messageBegin", RS, client_begin), Unit("HttpClient::messageContent", RS, client_content)]
