"""Contracts of HttpServer.cpp (C18): the connection pool behind both servers, proved through the functions the system calls."""
from .handlerspec import *
SRC = ["HttpServer.cpp"]
READY, CLOSED = "requestReady(Pillow::HttpConnection*)", "closed(Pillow::HttpConnection*)"
LIMIT = 25

class Pool:
    """a server whose reserve holds any number of connections up to the limit; `cls` is HttpServer or HttpLocalServer"""
    def __init__(s, ex, st, cls, full=False):
        s.ex, s.cls = ex, cls; base = "QTcpServer" if cls == "HttpServer" else "QLocalServer"; s.P = lay(ex, NS + "HttpServerPrivate"); s.dp = lay(ex, NS + cls)["d_ptr"]
        s.o = ex.new_cells(st, cls, 64); st.w(s.o).vcls = base; s.d = ex.new_cells(st, "HttpServerPrivate", 16); ex.store(st, Ptr(s.o, s.dp), Ptr(s.d), 8)
        ex.store(st, Ptr(s.d, s.P["q_ptr"]), Ptr(s.o), 8)
        s.n = fint("reserve"); st.pc += [s.n >= 0, s.n <= LIMIT]; f = ffun("reserved"); s.f = f
        def el(ex2, st2, idx, off, t, size): st2.pc.append(f(Z(idx)) > 0); return OPtr(f(Z(idx)), "HttpConnection")
        s.base = el; s.v = ex.vec(st, "Pillow::HttpConnection*", s.n, el, False, "reserve"); ex.vset(st, Ptr(s.d, s.P["reservedConnections"]), s.v)
    def reserve(s, t):
        """(how many of the connections reserved before are still there, the connections put behind them); None when it is anything else"""
        v = s.ex.vget(t, Ptr(s.d, s.P["reservedConnections"])); ps = s.ex.list_pieces(t, v.oid); k = 0
        if ps and ps[0][0] == "base":
            b = ps[0][1]; s.first = isinstance(b, Shift) and b.of is s.base and b.by == 1
            if b is not s.base and not s.first: return None
            k = ps[0][2]; ps = ps[1:]
        else: s.first = False
        out = []
        for p in ps:
            if p[0] != "item": return None
            out.append(objid(p[1][0][1]))
        return k, out
    def taken(s, t, o, label):
        """o was in reserve, the others still are, in their order"""
        s.reserve(t); f = s.first or s.ex.holds(t, eq(s.n, 1)) and isz(o) and s.ex.holds(t, o == s.f(Z(0)))
        same_ids(s.ex, t, o, s.f(Z(0) if f else Z(s.n - 1)), label); s.kept(t, s.n - 1, [], label, f)
    def kept(s, t, keep, put, label, first=False):
        r = s.reserve(t)
        if s.first and not first: return s.ex.prove(t, False, "post-reserve", label + ": the first of the reserve is gone", where="post")
        if r is None: return s.ex.prove(t, False, "post-reserve", label + ": not an initial part of the reserve", where="post")
        s.ex.prove(t, eq(r[0], keep), "post-reserve", label, where="post"); s.ex.prove(t, len(r[1]) == len(put), "post-reserve", "%s: %d connections put, expected %d" % (label, len(r[1]), len(put)), where="post")
        for a, b in zip(r[1], put): same_ids(s.ex, t, a, b, label)

def server_world(ex):
    st = world(ex); ex.unroll_rx = __import__("re").compile("."); P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h))
    def ctor(C): C.st.w(C.a[0].oid).vcls = "HttpConnection"; C.ev("newconn", objid(C.a[0]), objid(C.a[1]))
    P(NS + r"HttpConnection::HttpConnection\(QObject\*\)", ctor)
    P(NS + r"HttpConnection::initialize\(QIODevice\*, QIODevice\*\)", lambda C: (C.ex.nonnull(C.st, C.a[0]), C.ev("initialize", objid(C.a[0]), objid(C.a[1]), objid(C.a[2])))[1])
    def sctor(C): C.st.w(C.a[0].oid).vcls = "QTcpSocket"; C.ev("newsocket", objid(C.a[0]), objid(C.a[1]))
    P(r"QTcpSocket::QTcpSocket\(QObject\*\)", sctor)
    P(r"QTcpServer::addPendingConnection\(QTcpSocket\*\)", lambda C: C.ev("pending", objid(C.a[0]), objid(C.a[1])))
    P(r"Q(?:Tcp|Local)Server::setMaxPendingConnections\(int\)", lambda C: None)
    def dtor(C): C.base = 0; C.ev("delete", objid(C.a[0])); (C.st.w(C.a[0].oid).__setattr__("freed", True) if isinstance(C.a[0], Ptr) else None)
    for c in ("HttpConnection", "QTcpSocket"): ex.vmethods[(c, 4)] = ("QObject::~QObject()", dtor)
    def nextp(C):
        i = fint("accepted"); C.st.pc.append(i > 0); C.ev("next", objid(C.a[0]), i); return OPtr(i, "QLocalSocket")
    for c in ("QTcpServer", "QLocalServer"): ex.vmethods[(c, 13)] = ("%s::nextPendingConnection()" % c, nextp)
    def setd(C): b = fbool("adopted"); C.ev("adopt", objid(C.a[0]), C.a[1], b); return b
    ex.vmethods[("QTcpSocket", 14)] = ("QAbstractSocket::close()", lambda C: ex.nonnull(C.st, C.a[0]))
    P(r"QAbstractSocket::abort\(\)", lambda C: ex.nonnull(C.st, C.a[0]))
    ex.vmethods[("QTcpSocket", 34)] = ("QAbstractSocket::setSocketDescriptor()", setd)
    def base(C): C.st.w(C.a[0].oid).vcls = C.dem.split("::")[0]; C.ev("base", objid(C.a[0]), objid(C.a[1]))
    P(r"Q(?:Tcp|Local)Server::Q(?:Tcp|Local)Server\(QObject\*\)", base)
    P(r"Q(?:Tcp|Local)Server::~Q(?:Tcp|Local)Server\(\)", lambda C: C.ev("basegone", objid(C.a[0])))
    P(r"Q(?:Tcp|Local)Server::listen\(.*\)", lambda C: (C.ev("listen", objid(C.a[0]), *[argval(C, a, "QString const&") if "Local" in C.dem else a for a in C.a[1:]]), fbool("listening"))[1])
    P(r"Q(?:Tcp|Local)Server::errorString\(\) const", lambda C: C.ex.vset(C.st, C.a[0], Tm("val", fint("error"))))
    return st
def evs(t, *names): return [e for e in does(t) if e[0] in names]
def others(ex, t, names, label): ex.prove(t, not [e for e in does(t) if e[0] not in names], "post-events", "%s: also %s" % (label, [e[0] for e in does(t) if e[0] not in names]), where="post")
def only1(ex, t, name, label):
    e = evs(t, *name) if isinstance(name, tuple) else evs(t, name); ex.prove(t, len(e) == 1, "post-events", "%s (%d times)" % (label, len(e)), where="post"); return e[0] if len(e) == 1 else None
def fresh(ex, t, pool, o, label):
    """a connection the code created: child of the server and wired to its notifications, each exactly once"""
    mk = [e for e in evs(t, "newconn") if ideq(e[1], o)]; ex.prove(t, len(mk) == 1 and ideq(mk[0][2], ("o", pool.o)), "post-owner", label + ": created once, owned by the server", where="post")
    mine = [e for e in evs(t, "connect") if ideq(e[1], o)]; ex.prove(t, len(mine) == 2, "post-wiring", "%s: two notifications (%d)" % (label, len(mine)), where="post")
    wired(ex, t, mine, o, "2" + READY, ("o", pool.o), "2" + READY, label + ": request ready is forwarded"); wired(ex, t, mine, o, "2" + CLOSED, ("o", pool.o), "1connection_closed(Pillow::HttpConnection*)", label + ": closing is noticed")
def given(ex, t, pool, n0, dev, label):
    """the device is handed to exactly one connection: one of the reserve, which leaves it, or a fresh one when there is none"""
    e = only1(ex, t, "initialize", label + ": one connection initialised")
    if e is None: return
    same_ids(ex, t, e[2], dev, label + ": input device"); same_ids(ex, t, e[3], dev, label + ": output device")
    ex.prove(t, not evs(t, "delete"), "post-events", label + ": nothing is deleted", where="post")
    for s, (some,) in cases(ex, t, B(lt(0, n0))):
        if some: pool.taken(s, e[1], label + ": a reserved connection leaves the reserve"); ex.prove(s, not evs(s, "connect", "newconn"), "post-wiring", label + ": not wired again", where="post")
        else: fresh(ex, s, pool, e[1], label); pool.kept(s, 0, [], label + ": the reserve stays empty"); ex.prove(s, len(evs(s, "newconn")) == 1, "post-owner", label + ": one is created", where="post")

def incoming(ex):
    st = server_world(ex); pool = Pool(ex, st, "HttpServer"); fd = fint("descriptor"); st.pc += [fd >= -(1 << 63), fd < 1 << 63]
    fn = target(ex, NS + "HttpServer::incomingConnection(long long)"); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(pool.o), fd]):
        a = only1(ex, r, "adopt", "the descriptor is offered to one socket"); s0 = only1(ex, r, "newsocket", "one socket")
        if a is None or s0 is None: continue
        ex.prove(r, and_(eq(a[2], fd), ideq(a[1], s0[1])), "post-socket", "the new socket gets the descriptor", where="post"); ex.prove(r, ideq(s0[2], ("o", pool.o)), "post-owner", "the socket belongs to the server", where="post")
        for t, (ok,) in cases(ex, r, a[3]):
            seen.add(ok)
            if ok:
                given(ex, t, pool, pool.n, s0[1], "accepted socket"); p = only1(ex, t, "pending", "announced once"); q = only1(ex, t, "next", "taken off the pending list once")
                if p: ex.prove(t, and_(ideq(p[1], ("o", pool.o)), ideq(p[2], s0[1])), "post-socket", "the socket is announced at the server", where="post")
            else:
                d = only1(ex, t, ("delete", "deleteLater"), "the unusable socket is deleted")
                if d: same_ids(ex, t, d[1], s0[1], "the unusable socket")
                others(ex, t, ("newsocket", "adopt", "delete", "deleteLater"), "no connection for an unusable descriptor"); pool.kept(t, pool.n, [], "the reserve is untouched")
    if seen != {True, False}: raise Unsupported("postcondition not reached")
def local_new(ex):
    st = server_world(ex); pool = Pool(ex, st, "HttpLocalServer"); fn = target(ex, NS + "HttpLocalServer::this_newConnection()"); cover(ex, st, "precondition"); n = 0
    for t in ex.run(st, fn, [Ptr(pool.o)]):
        n += 1; e = only1(ex, t, "next", "one pending socket is taken")
        if e: given(ex, t, pool, pool.n, e[2], "accepted socket")
    if n < 1: raise Unsupported("postcondition not reached")
def create(ex):
    st = server_world(ex); pool = Pool(ex, st, "HttpServer"); fn = target(ex, NS + "HttpServer::createHttpConnection()"); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(pool.o)]):
        o = objid(r.ret); ex.prove(r, not evs(r, "delete", "initialize"), "post-events", "nothing is deleted or initialised", where="post")
        for t, (some,) in cases(ex, r, B(lt(0, pool.n))):
            seen.add(some)
            if some: pool.taken(t, o, "a reserved connection leaves the reserve"); others(ex, t, (), "not wired again")
            else: fresh(ex, t, pool, o, "a new connection"); pool.kept(t, 0, [], "the reserve stays empty"); others(ex, t, ("newconn", "connect"), "nothing else")
    if seen != {True, False}: raise Unsupported("postcondition not reached")
def closed(cls):
    def run(ex):
        st = server_world(ex); pool = Pool(ex, st, cls); c = fint("closing"); st.pc.append(c > 0); k = z3.Int(fresh_name("k"))
        fn = target(ex, NS + cls + "::connection_closed(Pillow::HttpConnection*)"); cover(ex, st, "precondition"); seen = set()
        dev = ex.tm_int(st, conn_tm(ex, st, c, "inputDevice"), 0); st.pc.append(dev > 0)
        for r in ex.run(st, fn, [Ptr(pool.o), OPtr(c, "HttpConnection")]):
            e = only1(ex, r, "deleteLater", "its socket is scheduled for deletion")
            if e: same_ids(ex, r, e[1], dev, "the socket of the connection that closed")
            for t, (full,) in cases(ex, r, B(eq(pool.n, LIMIT))):
                seen.add(full); d = evs(t, "delete"); others(ex, t, ("deleteLater", "delete"), "nothing else"); pool.reserve(t); first = full and pool.first; pool.kept(t, LIMIT - 1 if full else pool.n, [c], "it joins the reserve once, which stays within its limit", first)
                ex.prove(t, len(d) == (1 if full else 0), "post-events", "%d reserved connections deleted" % len(d), where="post")
                if full and len(d) == 1: same_ids(ex, t, d[0][1], pool.f(Z(0 if first else LIMIT - 1)), "the connection that makes room was in reserve")
        if seen != {True, False}: raise Unsupported("postcondition not reached")
    return run
def server_ctor(cls, args):
    """a new server has a full reserve of distinct connections, all wired to it; the local server also listens to its own notification"""
    def run(ex):
        st = server_world(ex); o = ex.new_cells(st, cls, 64); pa = fint("parent"); st.pc.append(pa >= 0); a = [Ptr(o)]
        if "QHostAddress" in args: c = ex.new_cells(st, "address", 8); ex.vset(st, Ptr(c), Tm("val", fint("address"))); p = fint("port"); st.pc += [p >= 0, p < 1 << 16]; a += [Ptr(c), p]
        if "QString" in args: c = ex.new_cells(st, "name", 8); ex.vset(st, Ptr(c), Tm("val", fint("name"))); a += [Ptr(c)]
        fn = target(ex, NS + cls + "::" + cls + "(" + args + ")"); cover(ex, st, "precondition"); n = 0; L = lay(ex, NS + "HttpServerPrivate"); dp = lay(ex, NS + cls)["d_ptr"]
        for t in ex.run(st, fn, a + [OPtr(pa, "QObject")]):
            n += 1; b = only1(ex, t, "base", "base class constructed"); d = ex.load(t, Ptr(o, dp), ir.PTR, ex.modules[0]); v = ex.vget(t, Ptr(d.oid, L["reservedConnections"])); ps = ex.list_pieces(t, v.oid)
            if b: same_ids(ex, t, b[2], pa, "its parent")
            ok = bool(ps) and all(p[0] == "item" for p in ps); ids = [objid(p[1][0][1]) for p in ps] if ok else []
            class Self: pass
            me = Self(); me.o = o
            ex.prove(t, ok and len(ids) <= LIMIT and len(set(ids)) == len(ids), "post-reserve", "a reserve of %d distinct connections" % len(ids), where="post")
            for i in ids: fresh(ex, t, me, i, "a reserved connection")
            ex.prove(t, len(evs(t, "newconn")) == len(ids), "post-owner", "every connection created is in reserve", where="post"); ex.prove(t, not evs(t, "delete", "initialize"), "post-events", "none is in use", where="post")
            rest = [e for e in evs(t, "connect") if e[1] not in ids]
            if cls == "HttpLocalServer": wired(ex, t, rest, ("o", o), "2newConnection()", ("o", o), "1this_newConnection()", "its own notification")
            ex.prove(t, len(rest) == (1 if cls == "HttpLocalServer" else 0), "post-wiring", "no other notification", where="post")
            l = evs(t, "listen"); ex.prove(t, len(l) == (0 if len(a) == 1 else 1), "post-listen", "listens exactly when told where", where="post")
            q = ex.load(t, Ptr(d.oid, L["q_ptr"]), ir.PTR, ex.modules[0]); ex.prove(t, isinstance(q, Ptr) and q.oid == o, "post-owner", "the pool belongs to the server", where="post")
        if n < 1: raise Unsupported("postcondition not reached")
    return run
def server_dtor(ex):
    """the idle connections are deleted exactly once"""
    st = server_world(ex); pool = Pool(ex, st, "HttpServer"); fn = target(ex, NS + "HttpServer::~HttpServer()"); cover(ex, st, "precondition"); n = 0
    for t in ex.run(st, fn, [Ptr(pool.o)]):
        n += 1; d = evs(t, "delete"); ex.prove(t, eq(len(d), pool.n), "post-deleted", "as many as there were in reserve", where="post")
        left = list(range(len(d)))
        for i, e in enumerate(d):
            j = next((j for j in [len(d) - 1 - i, i] + left if j in left and isz(e[1]) and ex.holds(t, e[1] == pool.f(Z(j)))), None)
            ex.prove(t, j is not None, "post-deleted", "each idle connection once: %r" % (e[1],), where="post")
            if j is None: break
            left.remove(j)
    if n < 2: raise Unsupported("postcondition not reached")

C18 = [Unit("HttpServer::incomingConnection", SRC, incoming), Unit("HttpLocalServer::this_newConnection", SRC, local_new), Unit("HttpServer::createHttpConnection", SRC, create),
       Unit("HttpServer::connection_closed", SRC, closed("HttpServer")), Unit("HttpLocalServer::connection_closed", SRC, closed("HttpLocalServer")),
       Unit("HttpServer::HttpServer(QObject*)", SRC, server_ctor("HttpServer", "QObject*")), Unit("HttpServer::HttpServer(QHostAddress const&, ...)", SRC, server_ctor("HttpServer", "QHostAddress const&, unsigned short, QObject*")),
       Unit("HttpLocalServer::HttpLocalServer(QObject*)", SRC, server_ctor("HttpLocalServer", "QObject*")), Unit("HttpLocalServer::HttpLocalServer(QString const&, ...)", SRC, server_ctor("HttpLocalServer", "QString const&, QObject*")),
       Unit("HttpServer::~HttpServer", SRC, server_dtor)]
