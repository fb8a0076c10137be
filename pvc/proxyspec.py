"""Contracts of the proxy (C17): HttpHandlerProxy, HttpHandlerProxyPipe and ElasticNetworkAccessManager, function by function.

Pipe invariant: _broken <=> both pointers are null; a pipe that is not broken has a connection and a reply. Every operation on the
connection may complete or close it, which runs teardown: after it the pipe is broken or unchanged."""
from .adaptspec import *
from .routerspec import use_cstr
PX, PP, EN = NS + "HttpHandlerProxy::", NS + "HttpHandlerProxyPipe::", NS + "ElasticNetworkAccessManager::"
class View(BA):
    """a value that refers to the buffer of the connection"""
    __slots__ = ()
def view(rope): return View("pure", rope=rope)
def isview(v): return isinstance(v, View)

# ---------------------------------------------------------------- the pipe
SLOT = {"teardown": 12, "sendHeaders": 13, "pump": 14}
class Pipe:
    def __init__(s, ex, st, broken=False, sent=None):
        s.ex, s.L = ex, lay(ex, PP[:-2]); s.o = ex.new_cells(st, "HttpHandlerProxyPipe", 40); st.w(s.o).vcls = "HttpHandlerProxyPipe"; s.m = ex.modules[0]
        s.conn, s.reply = fint("connection"), fint("reply"); st.pc += [s.conn > 0, s.reply > 0]; s.sent = fbool("sent") if sent is None else sent; s.broken = broken
        ex.store(st, s.p("_request"), NULL if broken else OPtr(s.conn, "HttpConnection"), 8); ex.store(st, s.p("_proxiedReply"), NULL if broken else OPtr(s.reply, "QNetworkReply"), 8)
        s.flag(st, "_headersSent", s.sent); s.flag(st, "_broken", broken)
    def p(s, f): return Ptr(s.o, s.L[f])
    def flag(s, st, f, v): st.w(s.o).cells[s.L[f]] = (1, ite(v, 1, 0) if isz(v) else int(v))
    def get(s, st, f):
        v = st.mem[s.o].cells[s.L[f]][1]; return v if isbool(v) else not_(eq(v, 0))
    def ptr(s, st, f): return s.ex.load(st, s.p(f), ir.PTR, s.m)
    def tear(s, st): s.ex.store(st, s.p("_request"), NULL, 8); s.ex.store(st, s.p("_proxiedReply"), NULL, 8); s.flag(st, "_broken", True)
    def torn(s, st): return isnull(s.ptr(st, "_request"))
    def inv(s, t, label):
        r, p = s.ptr(t, "_request"), s.ptr(t, "_proxiedReply"); b = s.get(t, "_broken")
        if isnull(r): s.ex.prove(t, and_(b, isnull(p)), "post-invariant", label + ": broken for good", where="post")
        else: s.ex.prove(t, and_(not_(b), not isnull(p) and same_obj(s.ex, t, objid(r), s.conn) and same_obj(s.ex, t, objid(p), s.reply)), "post-invariant", label + ": still joined", where="post")
def may_tear(ex, P):
    """what is done to the connection may end it: then teardown has run"""
    def wrap(h):
        def f(C):
            n = len(C.st.trace); r = h(C)
            if len(C.st.trace) == n: return r
            t = C.st.fork(); P.tear(t); t.trace = t.trace + [("torn",)] if isinstance(t.trace, list) else t.trace + (("torn",),); return [(C.st, r), (t, r)]
        return f
    ex.patterns[:] = [(rx, wrap(h) if rx.pattern.startswith(r"Pillow::HttpConnection::") else h) for rx, h in ex.patterns]
def reply_calls(ex, R=None):
    Pt = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h)); tm = lambda C, n, b=0, *a: Tm("reply." + n, okey(objid(C.a[b])), *a)
    def err(C): ex.nonnull(C.st, C.a[0]); return ex.tm_int(C.st, tm(C, "error"), 0, 499)
    Pt(r"QNetworkReply::error\(\) const", err)
    def attr(C): ex.nonnull(C.st, C.a[1]); ex.vset(C.st, C.a[0], tm(C, "attribute", 1, C.a[2]))
    Pt(r"QNetworkReply::attribute\(.*\) const", attr)
    def toint(C): v = argval(C, C.a[0], "QVariant const&"); return ex.tm_int(C.st, Tm("QVariant::toInt", v), -(1 << 31), (1 << 31) - 1)
    Pt(r"QVariant::toInt\(bool\*\) const|int QVariant::value<int>\(\) const", toint)
    def all_(C): ex.nonnull(C.st, C.a[1]); C.ev("readAll", objid(C.a[1])); ex.vset(C.st, C.a[0], pure(ratom(ex.tm_atom(C.st, Tm("read", okey(objid(C.a[1])))))))
    Pt(r"QIODevice::readAll\(\)", all_)
def status(ex, st, P): return ex.tm_int(st, Tm("QVariant::toInt", Tm("reply.attribute", okey(P.reply), 0)), -(1 << 31), (1 << 31) - 1)
def pipe_world(ex, **k):
    st = world(ex); st = statics(ex, st); P = Pipe(ex, st, **k); reply_calls(ex); own = ex.vmethods
    def virt(name, h): own[("HttpHandlerProxyPipe", SLOT[name])] = (PP + name + "()", h); ex.contracts[PP + name + {"pump": "(QByteArray const&)"}.get(name, "()")] = h
    def headers(C):      # contract of sendHeaders (proved below)
        st = C.st
        if P.torn(st): return None
        out = []
        for t, sent in C.split(P.get(st, "_headersSent")):
            if sent: out.append((t, None)); continue
            P.flag(t, "_headersSent", True); C.on(t).ev("sendHeaders", objid(C.a[0])); u = t.fork(); P.tear(u); C.on(u).ev("torn"); out += [(t, None), (u, None)]
        return out
    virt("sendHeaders", headers)
    def pump(C):
        C.ev("pump", objid(C.a[0]), ba_of(ex, C.st, C.a[1])); u = C.st.fork(); P.tear(u); C.on(u).ev("torn"); return [(C.st, None), (u, None)]
    virt("pump", pump)
    def teardown(C): C.ev("teardown", objid(C.a[0])); P.tear(C.st)
    virt("teardown", teardown)
    may_tear(ex, P); return st, P
def undo(ex, name):
    """the function itself is under contract"""
    ex.vmethods.pop(("HttpHandlerProxyPipe", SLOT[name]), None); ex.contracts.pop(PP + name + {"pump": "(QByteArray const&)"}.get(name, "()"), None)

def pipe_ctor(ex):
    st = world(ex); st = statics(ex, st); L = lay(ex, PP[:-2]); o = ex.new_cells(st, "HttpHandlerProxyPipe", 40); c, r = fint("connection"), fint("reply"); st.pc += [c > 0, r > 0]; n = 0
    fn = target(ex, PP + "HttpHandlerProxyPipe(Pillow::HttpConnection*, QNetworkReply*)"); cover(ex, st, "precondition")
    for t in ex.run(st, fn, [Ptr(o), OPtr(c, "HttpConnection"), OPtr(r, "QNetworkReply")]):
        n += 1; ev = does(t); G = lambda f: ex.load(t, Ptr(o, L[f]), ir.PTR, ex.modules[0])
        for sig in ("requestCompleted(Pillow::HttpConnection*)", "closed(Pillow::HttpConnection*)", "destroyed()"): wired(ex, t, ev, c, "2" + sig, ("o", o), "1teardown()", "the pipe ends when the connection is done: " + sig)
        for sig, slot in (("readyRead()", "proxiedReply_readyRead()"), ("finished()", "proxiedReply_finished()"), ("destroyed()", "teardown()")): wired(ex, t, ev, r, "2" + sig, ("o", o), "1" + slot, "reply " + sig)
        ex.prove(t, all(e[0] == "connect" and e[5] in (0, 1) for e in ev) and len(ev) == 6, "post-wiring", "at once, and nothing else: %s" % (ev,), where="post")
        ex.prove(t, same_obj(ex, t, objid(G("_request")), c) and same_obj(ex, t, objid(G("_proxiedReply")), r), "post-invariant", "joined", where="post")
        for f in ("_headersSent", "_broken"): ex.prove(t, eq(t.mem[o].cells[L[f]][1], 0) if isint(t.mem[o].cells[L[f]][1]) else not_(t.mem[o].cells[L[f]][1]), "post-invariant", f, where="post")
    if n < 1: raise Unsupported("postcondition not reached")

def teardown(ex):
    for rq, rp in ((1, 1), (0, 0), (1, 0), (0, 1)):
        st, P = pipe_world(ex); undo(ex, "teardown"); own_calls(ex); alive = fbool("alive"); seen = set()
        if not rq: ex.store(st, P.p("_request"), NULL, 8)
        if not rp: ex.store(st, P.p("_proxiedReply"), NULL, 8)
        def cast(C): return [(t, C.a[-1] if y else NULL) for t, y in C.split(alive)]
        ex.patterns.insert(0, (re.compile(r"QNetworkReply\* qobject_cast<QNetworkReply\*>\(QObject\*\)$"), cast)); ex.contracts["QMetaObject::cast(QObject*) const"] = cast
        fn = target(ex, PP + "teardown()"); cover(ex, st, "precondition")
        for r in ex.run(st, fn, [Ptr(P.o)]):
            for t, (al,) in cases(ex, r, alive):
                seen.add(al); ev = does(t); P.inv(t, "teardown"); ex.prove(t, P.torn(t), "post-broken", "broken", where="post"); dis = [e for e in ev if e[0] == "disconnect"]; dl = [e for e in ev if e[0] == "deleteLater"]
                for have, o, w in ((rq, P.conn, "connection"), (rp, P.reply, "reply")):
                    n = [e for e in dis if same_obj(ex, t, e[1], o)]; ex.prove(t, len(n) == have and all(isnull(e[2]) and ideq(e[3], ("o", P.o)) and isnull(e[4]) for e in n), "post-disconnected", "no later signal of the %s: %s" % (w, dis), where="post")
                ex.prove(t, sum(1 for e in dl if ideq(e[1], ("o", P.o))) >= 1, "post-deleted", "the pipe goes", where="post")
                ex.prove(t, sum(1 for e in dl if not isinstance(e[1], tuple) and same_obj(ex, t, e[1], P.reply)) == (1 if rp and al else 0), "post-reply", "the reply goes, unless it is gone already: %s" % dl, where="post")
                ex.prove(t, all(e[0] in ("disconnect", "deleteLater") for e in ev), "post-events", "nothing else: nothing more is written to the connection: %s" % [e[0] for e in ev], where="post")
        if rp and len(seen) < 2: raise Unsupported("postcondition not reached")

def pump(ex):
    for broken in (False, True):
        st, P = pipe_world(ex, broken=broken); undo(ex, "pump"); d = atom(ex, st, "data"); fn = target(ex, PP + "pump(QByteArray const&)"); cover(ex, st, "precondition"); n = 0
        for t in ex.run(st, fn, [Ptr(P.o), cellof(ex, st, "data", pure(d))]):
            n += 1; ev = [e for e in does(t) if e[0] != "torn"]; P.inv(t, "pump")
            if broken: ex.prove(t, not ev, "post-quiet", "nothing is written once the client is done: %s" % ev, where="post"); continue
            ok = len(ev) == 1 and ev[0][:2] == ("do", "writeContent") and same_obj(ex, t, ev[0][2], P.conn); ex.prove(t, ok, "post-content", "written once: %s" % ev, where="post")
            if ok: ex.prove_rope(t, ev[0][3], d, "post-content", "the bytes received")
        if n < 1: raise Unsupported("postcondition not reached")

def ready(ex):
    for broken in (False, True):
        st, P = pipe_world(ex, broken=broken); fn = target(ex, PP + "proxiedReply_readyRead()"); cover(ex, st, "precondition"); seen = set()
        for r in ex.run(st, fn, [Ptr(P.o)]):
            for t, (sent,) in cases(ex, r, P.sent):
                ev = does(t); names = [e[0] for e in ev]; P.inv(t, "readyRead")
                if broken: ex.prove(t, not ev, "post-quiet", "nothing: %s" % ev, where="post"); seen.add(0); continue
                want = [] if sent else ["sendHeaders"]
                if names[:2] == ["sendHeaders", "torn"]: ex.prove(t, not sent and names == ["sendHeaders", "torn"], "post-quiet", "nothing after the client is done: %s" % names, where="post"); seen.add(1); continue
                names = [x for x in names if x != "torn"]; ex.prove(t, names == want + ["readAll", "pump"], "post-events", "headers first, then what came: %s" % names, where="post"); seen.add((2, sent))
                if names != want + ["readAll", "pump"]: continue
                e = next(e for e in ev if e[0] == "pump"); ex.prove_rope(t, e[2], ratom(ex.tm_atom(t, Tm("read", okey(P.reply)))), "post-content", "all that can be read"); ex.prove(t, P.get(t, "_headersSent"), "post-sent", "headers are sent", where="post")
        if len(seen) < (1 if broken else 3): raise Unsupported("postcondition not reached %s" % seen)

SENDHEAD, SENDCONTENT = 3, 4
def finished_(ex):
    st, P = pipe_world(ex); fn = target(ex, PP + "proxiedReply_finished()"); cover(ex, st, "precondition"); seen = set(); E = ex.tm_int(st, Tm("reply.error", okey(P.reply)), 0, 499); S = status(ex, st, P)
    known = [E == 0, And(E >= 1, E <= 99), And(E >= 201, E <= 299), E == 302, E == 399, And(E >= 401, E <= 499)]; st.pc.append(z3.Or(*known))
    resp = z3.Or(E == 0, And(S >= 400, z3.Or(And(E >= 201, E <= 299), E == 302, And(E >= 401, E <= 499)))); SH, SC = SENDHEAD, SENDCONTENT
    for r in ex.run(st, fn, [Ptr(P.o)]):
        for t, (ok, sent) in cases(ex, r, resp, lambda t, *b: B(P.sent)):
            ev = does(t); names = [e[1] if e[0] == "do" else e[0] for e in ev]; P.inv(t, "finished"); 
            if ok and not sent:
                ex.prove(t, names[:1] == ["sendHeaders"], "post-headers", "a response without content has its headers sent: %s" % names, where="post"); names = names[1:]
                if names[:1] == ["torn"]: seen.add("torn"); ex.prove(t, names == ["torn"], "post-quiet", "nothing after the client is done: %s" % names, where="post"); continue
            names = [x for x in names if x != "torn"]; do_ = [e for e in ev if e[0] == "do"]; ex.prove(t, len(do_) == len(names) and len(names) <= 1 and all(same_obj(ex, t, e[2], P.conn) for e in do_), "post-events", "one step at most, on the connection: %s" % names, where="post")
            for t2, (cont, head, open_) in cases(ex, t, lambda t, *b: eq(cstate(ex, t, P), SC), lambda t, *b: eq(cstate(ex, t, P), SH), lambda t, *b: lt(clen(ex, t, P), 0)):
                if cont: 
                    want = [["endContent"]] if ok and open_ else [["close"]]; ex.prove(t2, names in want, "post-ended", "content under way is brought to its end: %s, expected %s" % (names, want), where="post"); seen.add((want[0][0]))
                elif head and not ok and not sent:
                    ex.prove(t2, names == ["writeResponse"], "post-503", "nothing had been sent: %s" % names, where="post"); seen.add("503")
                    for e in do_: ex.prove(t2, eq(e[3], 503) if isint(e[3]) else False, "post-503", "status %s" % (e[3],), where="post"); ex.prove(t2, e[4] == [] and ex.rope_eq(t2, e[5], Rope()) if len(e) > 5 else False, "post-503", "headers and content: %s" % (e[4:],), where="post")
                elif not head: ex.prove(t2, not names, "post-quiet", "a completed or closed connection is left alone: %s" % names, where="post"); seen.add("quiet")
    for k in ("torn", "endContent", "close", "503", "quiet"):
        if k not in seen: raise Unsupported("postcondition not reached: " + k)
def cstate(ex, t, P): return ex.tm_int(t, Tm("HttpConnection.state", okey(P.conn), 0), 0, 7)
def clen(ex, t, P): return ex.tm_int(t, Tm("HttpConnection.responseContentLength", okey(P.conn), 0), -(1 << 63), (1 << 63) - 1)

HV = "QPair<QByteArray, QByteArray>"
def send_headers(ex):
    for broken in (False, True):
        ex.strict_concrete = True; st, P = pipe_world(ex, broken=broken); undo(ex, "sendHeaders"); Pt = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h)); n_ = fint("pairs_n"); st.pc += [n_ >= 0, n_ < 1 << 20]; nm, vl = ffun("pair_name"), ffun("pair_value")
        def base(ex, st, idx, off, t, size):
            f = nm if off == 0 else vl; st.pc += [blen(f(Z(idx))) >= 0, blen(f(Z(idx))) < 1 << 28]; return pure(ratom(f(Z(idx))))
        def pairs(C):
            b = 1 if C.fn.sret else 0; ex.nonnull(C.st, C.a[b]); C.ev("pairs", objid(C.a[b])); c = Ptr(ex.new_cells(C.st, "pairs", 8)) if not b else C.a[0]; ex.vset(C.st, c, C.ex.vec(C.st, HV, n_, base, False, "raw header pairs")); return None if b else c
        Pt(r"QNetworkReply::rawHeaderPairs\(\) const", pairs)
        cnt, piece = z3.Function(fresh_name("pieces"), IntSort(), IntSort()), z3.Function(fresh_name("piece"), IntSort(), IntSort(), IntSort()); memo = {}
        def inner(i):
            """one header for each line of the value of pair i"""
            k = z3.simplify(Z(i)).sexpr()
            if k not in memo:
                v = vl(Z(i)); memo[k] = F = ListFold("cookies of one value", lambda j: [(True, [("item", {0: (8, pure(ratom(nm(Z(i))))), 8: (8, pure(ratom(piece(v, Z(j)))))})])]); ex.foldlist.append(F)
            return memo[k]
        def split(C):
            ch = C.a[-1]; r = ex.ba_rope(C.st, ex.bget(C.st, C.a[1])); v = ex.rope_id(C.st, r); C.ex.prove(C.st, not isz(ch) and ch == 10, "post-cookies", "split at line breaks", where="post"); C.st.pc += [cnt(Z(v)) >= 1, cnt(Z(v)) < 1 << 20]
            def b2(ex, st, idx, off, t, size): p = piece(Z(v), Z(idx)); st.pc += [blen(p) >= 0, blen(p) < 1 << 28]; return pure(ratom(p))
            z = z3.simplify(Z(v))
            if z.num_args() == 1 and z.decl().eq(vl): inner(z.arg(0))
            ex.vset(C.st, C.a[0], C.ex.vec(C.st, "QByteArray", cnt(Z(v)), b2, False, "lines"))
        Pt(r"QByteArray::split\(char\) const", split)
        lit = ex.rope_id(st, rlit(b"set-cookie")); ck = lambda i: And(ci_eq(nm(Z(i)), Z(lit)), blen(nm(Z(i))) == 10)
        all_ = ListFold("relayed headers", lambda i: [(ck(i), [("fold", inner(i), cnt(vl(Z(i))))]), (not_(ck(i)), [("item", {0: (8, pure(ratom(nm(Z(i))))), 8: (8, pure(ratom(vl(Z(i)))))})])]); ex.foldlist.append(all_)
        def stricmp(C):
            from .pillow import ci_term
            ra, rb = ex.cstr(C.st, C.a[0]), ex.cstr(C.st, C.a[1]); v = ex.tm_int(C.st, Tm("stricmp", ra, rb), -(1 << 31), (1 << 31) - 1); C.st.pc.append((v == 0) == B(ci_term(ex, C.st, ra, rb))); return v
        ex.contracts["qstricmp(char const*, char const*)"] = stricmp; use_cstr(ex)
        fn = target(ex, PP + "sendHeaders()"); cover(ex, st, "precondition"); seen = set()
        for r in ex.run(st, fn, [Ptr(P.o)]):
            for t, (sent,) in cases(ex, r, P.sent):
                ev = does(t); seen.add(sent); P.inv(t, "sendHeaders"); w = [e for e in ev if e[:2] == ("do", "writeHeaders")]; rest = [e for e in ev if e not in w and e[0] not in ("torn", "pairs")]
                if broken or sent: ex.prove(t, not ev, "post-once", "headers are sent once, to a client that is there: %s" % (ev,), where="post"); continue
                ex.prove(t, len(w) == 1 and not rest and same_obj(ex, t, w[0][2], P.conn), "post-headers", "written once: %s" % (ev,), where="post"); ex.prove(t, P.get(t, "_headersSent"), "post-sent", "remembered", where="post")
                for e in w:
                    ex.prove(t, eq(e[3], status(ex, t, P)), "post-status", "the status code of the reply", where="post"); g = e[4]; got = g[2] if isinstance(g, tuple) else None
                    ex.prove(t, (got is not None and ex.list_eq(t, got, (("fold", all_, n_),))) or (g == [] and ex.holds(t, n_ == 0)), "post-headers", "the headers of the reply in order, one for each cookie: %r" % (g,), where="post")
        if len(seen) < 2 and not broken: raise Unsupported("postcondition not reached")

# ---------------------------------------------------------------- forwarding
class Url:
    """an URL and what was set on it: the components are independent of each other"""
    def __init__(s, base, **kw): s.base, s.kw = base, kw
    def key(s): return ("url", s.base.key(), tuple((k, s.kw[k].key()) for k in sorted(s.kw)))
def use_url(ex):
    Pt = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h))
    def up(C, part, v):
        u = ex.vget(C.st, C.a[0]); b, kw = (u.base, dict(u.kw)) if isinstance(u, Url) else (u, {}); kw[part] = v; ex.vset(C.st, C.a[0], Url(b, **kw))
    for part in ("Path", "Query", "Fragment"):
        Pt(r"QUrl::set%s\(QString const&, QUrl::ParsingMode\)" % part, lambda C, p=part: up(C, p, Tm("text", argval(C, C.a[1], "QString const&"), C.a[2])))
        # Qt 5: QUrl::setEncodedPath sets the decoded path to the text as it is (its percent signs are escaped again); the other two parse it
        Pt(r"QUrl::setEncoded%s\(QByteArray const&\)" % part, lambda C, p=part: up(C, p, Tm("text", Tm("qs", ba_of(ex, C.st, C.a[1])), 2 if p == "Path" else 0)))
def use_bytes(ex, st, con):
    """the parts of the request are views of the connection's buffer"""
    Pt = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h))
    def get(C):
        n = re.match(r"Pillow::HttpConnection::(\w+)", C.dem).group(1); b = 1 if C.fn.sret else 0; p = C.a[b]; ex.nonnull(C.st, p); r = conn_bytes(ex, C.st, objid(p), n); C.st.pc += [Z(r.len()) >= 0, Z(r.len()) < 1 << 28]
        if b: ex.vset(C.st, C.a[0], view(r)); return None
        c = ex.new_cells(C.st, n, 8); ex.vset(C.st, Ptr(c), view(r)); return Ptr(c)
    Pt(r"Pillow::HttpConnection::(?:requestMethod|requestContent|requestPath|requestQueryString|requestFragment|requestUri)\(\) const", get)
def byte_arg(ex, C, p, label):
    v = ex.bget(C.st, p); ex.prove(C.st, not isview(v), "post-copy", label + " outlives the request: handed over by value", where="post"); return ex.ba_rope(C.st, v)

class Outbound:
    """the header list of the client's request and what the outgoing request shows after the first g of them"""
    def __init__(s, ex, st, con):
        Pt = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h)); s.ex = ex; s.n = fint("headers_n"); st.pc += [s.n >= 0, s.n < 1 << 20]; nm, vl = ffun("req_name"), ffun("req_value"); s.nm, s.vl = nm, vl
        def base(ex, st, idx, off, t, size):
            f = nm if off == 0 else vl; st.pc += [blen(f(Z(idx))) >= 0, blen(f(Z(idx))) < 1 << 28]; return view(ratom(f(Z(idx))))
        def headers(C):
            b = 1 if C.fn.sret else 0; ex.nonnull(C.st, C.a[b]); c = C.a[0] if b else Ptr(ex.new_cells(C.st, "request headers", 8)); ex.vset(C.st, c, ex.vec(C.st, "Pillow::HttpHeader", s.n, base, False, "request headers")); return None if b else c
        Pt(r"Pillow::HttpConnection::requestHeaders\(\) const", headers)
        s.G = G = ex.new_cells(st, "ghost", 16); st.w(G).cells[0] = (8, 0)
        def g(st): return st.mem[G].cells[0][1]
        def shown(C, p): n = ba_of(ex, C.st, p); return n, ex.tm_bool(Tm("shown", n, g(C.st))), ratom(ex.tm_atom(C.st, Tm("shown value", n, g(C.st))))
        Pt(r"QNetworkRequest::hasRawHeader\(QByteArray const&\) const", lambda C: shown(C, C.a[1])[1])
        def raw(C): n, h, v = shown(C, C.a[2]); C.st.pc += [Z(v.len()) >= 0, Z(v.len()) < 1 << 28, z3.Implies(Not(B(h)), Z(v.len()) == 0)]; ex.vset(C.st, C.a[0], pure(v, not_(h)))
        Pt(r"QNetworkRequest::rawHeader\(QByteArray const&\) const", raw)
        def setraw(C):
            st = C.st; out = []; k = g(st)
            for t, more in C.split(lt(k, s.n)):
                D = C.on(t)
                if not more:
                    D.ev("extra", ba_of(ex, t, D.a[1]), ba_of(ex, t, D.a[2]), ex.tm_bool(Tm("shown", ba_of(ex, t, D.a[1]), k))); out.append((t, None)); continue
                n = byte_arg(ex, D, D.a[1], "header name"); v = byte_arg(ex, D, D.a[2], "header value"); sh = ex.tm_bool(Tm("shown", n, k)); old = ratom(ex.tm_atom(t, Tm("shown value", n, k)))
                ex.prove_rope(t, n, ratom(nm(Z(k))), "post-header-name", "the next header's name"); t.pc += [Z(old.len()) >= 0, Z(old.len()) < 1 << 28]
                for u, (y,) in cases(ex, t.fork(), sh): ex.prove_rope(u, v, (old + rlit(", ") if y else Rope()) + ratom(vl(Z(k))), "post-header-value", "all values of that name" if y else "its value")
                t.w(G).cells[0] = (8, add(k, 1)); out.append((t, None))
            return out
        Pt(r"QNetworkRequest::setRawHeader\(QByteArray const&, QByteArray const&\)", setraw)
        def attr(C): v = argval(C, C.a[2], "QVariant const&"); C.ev("attribute", C.a[1], v)
        Pt(r"QNetworkRequest::setAttribute\(.*\)", attr)
        def new(C): u = ex.vget(C.st, C.a[1]); ex.vset(C.st, C.a[0], Tm("request to", C.a[0].oid)); C.ev("request", u, C.a[0].oid)
        Pt(r"QNetworkRequest::QNetworkRequest\(QUrl const&\)", new)
        def copy(C): ex.vset(C.st, C.a[0], Tm("request", C.a[1].oid))
        Pt(r"QNetworkRequest::QNetworkRequest\(QNetworkRequest const&\)", copy); Pt(r"QNetworkRequest::~QNetworkRequest\(\)", lambda C: None)
    def at(s, st): return st.mem[s.G].cells[0][1]
PSLOT = {"createProxiedReply": 13, "createPipe": 14}
def handle(ex):
    ex.strict_concrete = True; st = world(ex); st = statics(ex, st); L = lay(ex, PX[:-2]); o = ex.new_cells(st, "HttpHandlerProxy", 40); st.w(o).vcls = "HttpHandlerProxy"; con = fint("connection"); st.pc.append(con > 0); base = Tm("val", fint("proxied url")); ex.vset(st, Ptr(o, L["_proxiedUrl"]), base)
    use_url(ex); use_bytes(ex, st, con); O = Outbound(ex, st, con); empty = ex.tm_bool(Tm("QUrl::isEmpty", base)); ex.patterns.insert(0, (re.compile(r"QUrl::isEmpty\(\) const$"), lambda C: ex.tm_bool(Tm("QUrl::isEmpty", ex.vget(C.st, C.a[0])))))
    rep = fint("new reply"); st.pc.append(rep > 0)
    def reply(C): C.ev("reply", objid(C.a[0]), objid(C.a[1]), ex.vget(C.st, C.a[2]), O.at(C.st)); return OPtr(rep, "QNetworkReply")
    ex.vmethods[("HttpHandlerProxy", PSLOT["createProxiedReply"])] = ("createProxiedReply", reply); ex.contracts[PX + "createProxiedReply(Pillow::HttpConnection*, QNetworkRequest)"] = reply
    def pipe(C): C.ev("pipe", objid(C.a[0]), objid(C.a[1]), objid(C.a[2])); return OPtr(fint("pipe"), "HttpHandlerProxyPipe")
    ex.vmethods[("HttpHandlerProxy", PSLOT["createPipe"])] = ("createPipe", pipe); ex.contracts[PX + "createPipe(Pillow::HttpConnection*, QNetworkReply*)"] = pipe
    fn = target(ex, PX + "handleRequest(Pillow::HttpConnection*)"); cover(ex, st, "precondition"); seen = set(); part = lambda t, n: conn_bytes(ex, t, con, n)
    for r in ex.run(st, fn, [Ptr(o), OPtr(con, "HttpConnection")]):
        for t, (em, q, f) in cases(ex, r, empty, lambda t, *b: eq(part(t, "requestQueryString").len(), 0), lambda t, *b: eq(part(t, "requestFragment").len(), 0)):
            ev = does(t); names = [e[0] for e in ev]; seen.add((em, q, f))
            if em: ex.prove(t, not ev and ex.holds(t, not_(B(t.ret))), "post-declined", "no server, not handled: %s" % names, where="post"); continue
            ex.prove(t, ex.holds(t, B(t.ret)), "post-handled", "handled", where="post"); ex.prove(t, sum(1 for n in names if n == "reply") == 1 and names[-2:] == ["reply", "pipe"] and names.count("pipe") == 1 and set(names) <= {"request", "extra", "attribute", "reply", "pipe"}, "post-once", "one request, one pipe: %s" % names, where="post")
            if names[-2:] != ["reply", "pipe"]: continue
            rq, pp = ev[-2], ev[-1]; ex.prove(t, same_obj(ex, t, rq[2], con) and same_obj(ex, t, pp[2], con) and same_obj(ex, t, pp[3], rep), "post-pipe", "the pipe joins the connection and the reply", where="post"); ex.prove(t, eq(rq[4], O.n), "post-headers", "every header is forwarded", where="post")
            made = [e for e in ev if e[0] == "request"]; ok = isinstance(rq[3], Tm) and rq[3].op == "request" and [e[2] for e in made] == [rq[3].a[0]]; ex.prove(t, ok, "post-request", "%r" % (rq[3],), where="post")
            for e in made:
                u = e[1]; ok = isinstance(u, Url) and u.base.key() == base.key(); ex.prove(t, ok, "post-url", "the configured server: %r" % (u,), where="post")
                if not ok: continue
                want = {"Path": "requestPath"}
                if not q: want["Query"] = "requestQueryString"
                if not f: want["Fragment"] = "requestFragment"
                ex.prove(t, set(u.kw) - set(want) <= set() or all(k in want for k in u.kw), "post-url", "parts %s" % sorted(u.kw), where="post")
                for k, m in want.items():
                    v = u.kw.get(k); good = isinstance(v, Tm) and isint(v.a[1]) and not isz(v.a[1]) and v.a[1] == 0 and isinstance(v.a[0], Tm) and v.a[0].op == "qs" and isinstance(v.a[0].a[0], Rope); ex.prove(t, good, "post-" + k.lower(), "%s as the client sent it, escapes and all: %r" % (k.lower(), v), where="post")
                    if good: ex.prove_rope(t, v.a[0].a[0], part(t, m), "post-" + k.lower(), "the client's")
            for e in ev:
                if e[0] == "extra": ex.prove(t, ex.rope_eq(t, e[1], rlit(b"Accept-Encoding")) and ex.rope_eq(t, e[2], rlit(b"identity")) and ex.holds(t, not_(e[3])), "post-extra", "added by the proxy: %r: %r" % (e[1], e[2]), where="post")
                if e[0] == "attribute": ex.prove(t, not isz(e[1]) and e[1] in (11, 13), "post-attribute", "attribute %s %r" % (e[1], e[2]), where="post")
            asked = ex.tm_bool(Tm("shown", rlit(b"Accept-Encoding"), O.at(t))); ex.prove(t, or_(B("extra" in names), B(asked)) if isz(asked) else True, "post-identity", "the answer is not decompressed: the client's own Accept-Encoding, or none", where="post")
            for a in (11, 13): ex.prove(t, any(e[0] == "attribute" and e[1] == a and variant1(e[2]) for e in ev), "post-cookies", "no client's cookies are kept for another: attribute %d" % a, where="post")
    if len(seen) < 5: raise Unsupported("postcondition not reached %s" % seen)
def variant1(v): return isinstance(v, Tm) and v.op == "QVariant" and len(v.a) >= 1 and not isz(v.a[0]) and v.a[0] == 1

def proxied(ex):
    ex.strict_concrete = True; st = world(ex); st = statics(ex, st); L = lay(ex, PX[:-2]); o = ex.new_cells(st, "HttpHandlerProxy", 40); st.w(o).vcls = "HttpHandlerProxy"; con, nam, rep = fint("connection"), fint("manager"), fint("new reply"); st.pc += [con > 0, nam > 0, rep > 0]; ex.store(st, Ptr(o, L["_networkAccessManager"]), OPtr(nam, "QNetworkAccessManager"), 8)
    use_bytes(ex, st, con); Pt = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h)); q = ex.new_cells(st, "request", 8); ex.vset(st, Ptr(q), Tm("request", 0))
    def buf(C):
        C.st.w(C.a[0].oid).vcls = "QBuffer"; over = len(C.a) > 2 or "QByteArray" in C.dem.split("(")[1]
        if over: C.ev("over", objid(C.a[0]))
    Pt(r"QBuffer::QBuffer\(.*\)", buf)
    def data(C):
        r = ex.rope_at(C.st, C.a[1], C.a[2]) if len(C.a) > 2 else byte_arg(ex, C, C.a[1], "content"); C.ev("data", objid(C.a[0]), r)
    Pt(r"QBuffer::setData\(.*\)", data)
    def opened(C): C.ev("open", objid(C.a[0]), C.a[1]); return True
    ex.vmethods[("QBuffer", QIO["open"])] = ("QBuffer::open()", opened); Pt(r"QBuffer::open\(.*\)|QIODevice::open\(.*\)", opened)
    dev = lambda p: None if isnull(p) else objid(p)
    def send(C): C.ev("send", objid(C.a[0]), ex.vget(C.st, C.a[1]), byte_arg(ex, C, C.a[2], "method"), dev(C.a[3])); return OPtr(rep, "QNetworkReply")
    Pt(r"QNetworkAccessManager::sendCustomRequest\(QNetworkRequest const&, QByteArray const&, QIODevice\*\)", send)
    def head(C): C.ev("head", objid(C.a[0]), ex.vget(C.st, C.a[1])); return OPtr(rep, "QNetworkReply")
    Pt(r"QNetworkAccessManager::head\(QNetworkRequest const&\)", head)
    fn = target(ex, PX + "createProxiedReply(Pillow::HttpConnection*, QNetworkRequest)"); cover(ex, st, "precondition"); seen = set(); part = lambda t, n: conn_bytes(ex, t, con, n)
    for r in ex.run(st, fn, [Ptr(o), OPtr(con, "HttpConnection"), Ptr(q)]):
        for t, (none, hd) in cases(ex, r, lambda t, *b: eq(part(t, "requestContent").len(), 0), lambda t, *b: B(ropes_eq_term(ex, t, part(t, "requestMethod"), rlit(b"HEAD")))):
            ev = does(t); names = [e[0] for e in ev]; seen.add((none, hd)); ex.prove(t, same_obj(ex, t, objid(t.ret), rep), "post-reply", "the reply of the manager", where="post")
            if none: ex.prove(t, names == (["head"] if hd else ["send"]), "post-sent", "sent once, without content: %s" % names, where="post")
            else: ex.prove(t, names == ["data", "open", "send", "parent"], "post-sent", "a copy of the content is sent, and goes with the reply: %s" % names, where="post")
            for e in ev:
                if e[0] in ("send", "head"): ex.prove(t, same_obj(ex, t, e[1], nam) and isinstance(e[2], Tm) and e[2].key() == Tm("request", 0).key(), "post-request", "the request, to the manager of the handler", where="post")
                if e[0] == "send":
                    ex.prove_rope(t, e[3], part(t, "requestMethod"), "post-method", "the client's method"); b = [x[1] for x in ev if x[0] == "data"]; ex.prove(t, (e[4] is None) if none else (len(b) == 1 and e[4] is not None and ideq(e[4], b[0])), "post-content", "the content: %s" % (e[4],), where="post")
                if e[0] == "data": ex.prove_rope(t, e[2], part(t, "requestContent"), "post-content", "the client's content")
                if e[0] == "open": ex.prove(t, not isz(e[2]) and e[2] & 1 == 1, "post-open", "readable", where="post")
                if e[0] == "parent": b = [x[1] for x in ev if x[0] == "data"]; ex.prove(t, ideq(e[1], b[0]) and same_obj(ex, t, e[2], rep), "post-parent", "the buffer goes with the reply", where="post")
    if len(seen) < 4: raise Unsupported("postcondition not reached %s" % seen)

def built(ex):
    for sig, url in (("(QObject*)", False), ("(QUrl const&, QObject*)", True)):
        st = world(ex); st = statics(ex, st); own_calls(ex); L = lay(ex, PX[:-2]); o = ex.new_cells(st, "HttpHandlerProxy", 40); st.w(o).cells[L["_proxiedUrl"]] = (8, NULL); u = Tm("val", fint("u")); par = fint("parent"); st.pc.append(par >= 0); n = 0
        def nam(C): C.ev("manager", objid(C.a[0]), objid(C.a[1]))
        ex.patterns.insert(0, (re.compile(r"QNetworkAccessManager::QNetworkAccessManager\(QObject\*\)$"), nam)); ex.patterns.insert(0, (re.compile(r"Pillow::HttpHandler::HttpHandler\(QObject\*\)$"), lambda C: C.ev("handler", objid(C.a[0]), objid(C.a[1]))))
        fn = target(ex, PX + "HttpHandlerProxy" + sig); cover(ex, st, "precondition")
        for t in ex.run(st, fn, [Ptr(o)] + ([cellof(ex, st, "url", u)] if url else []) + [OPtr(par, "QObject")]):
            n += 1; ev = does(t); ex.prove(t, [e[0] for e in ev] == ["handler", "manager"] and ideq(ev[1][2], ("o", o)) and same_obj(ex, t, ev[0][2], par), "post-manager", "its own network access manager, deleted with it: %s" % (ev,), where="post")
            p = ex.load(t, Ptr(o, L["_networkAccessManager"]), ir.PTR, ex.modules[0]); ex.prove(t, len(ev) > 1 and ideq(objid(p), ev[1][1]), "post-manager", "the one it uses", where="post")
            v = ex.vget(t, Ptr(o, L["_proxiedUrl"])); ex.prove(t, isinstance(v, Tm) and v.key() == (u if url else Tm("QUrl")).key(), "post-url", "%r" % (v,), where="post")
        if n < 1: raise Unsupported("postcondition not reached")
def set_url(ex):
    st = world(ex); st = statics(ex, st); L = lay(ex, PX[:-2]); o = ex.new_cells(st, "HttpHandlerProxy", 40); old, new = Tm("val", fint("old")), Tm("val", fint("new")); ex.vset(st, Ptr(o, L["_proxiedUrl"]), old); n = 0; fn = target(ex, PX + "setProxiedUrl(QUrl const&)"); cover(ex, st, "precondition"); same = term_eq(ex, st, old, new)
    for r in ex.run(st, fn, [Ptr(o), cellof(ex, st, "url", new)]):
        for t, (s,) in cases(ex, r, same): n += 1; v = ex.vget(t, Ptr(o, L["_proxiedUrl"])); ex.prove(t, isinstance(v, Tm) and (v.key() == new.key() or (s and v.key() == old.key())), "post-url", "%r" % (v,), where="post"); ex.prove(t, not does(t), "frame", "nothing else", where="post")
    if n < 2: raise Unsupported("postcondition not reached")
def piped(ex):
    st = world(ex); st = statics(ex, st); o = ex.new_cells(st, "HttpHandlerProxy", 40); c, r = fint("connection"), fint("reply"); st.pc += [c > 0, r > 0]; n = 0
    ex.contracts[PP + "HttpHandlerProxyPipe(Pillow::HttpConnection*, QNetworkReply*)"] = lambda C: C.ev("new pipe", objid(C.a[0]), objid(C.a[1]), objid(C.a[2])); fn = target(ex, PX + "createPipe(Pillow::HttpConnection*, QNetworkReply*)"); cover(ex, st, "precondition")
    for t in ex.run(st, fn, [Ptr(o), OPtr(c, "HttpConnection"), OPtr(r, "QNetworkReply")]): n += 1; ev = does(t); ex.prove(t, [e[0] for e in ev] == ["new pipe"] and ideq(objid(t.ret), ev[0][1]) and same_obj(ex, t, ev[0][2], c) and same_obj(ex, t, ev[0][3], r), "post-pipe", "a pipe of the connection and the reply: %s" % (ev,), where="post")
    if n < 1: raise Unsupported("postcondition not reached")

# ---------------------------------------------------------------- ElasticNetworkAccessManager
def nam_common(ex, st):
    own_calls(ex); Pt = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h)); jar = fint("jar"); st.pc.append(jar >= 0)
    def cj(C): ex.nonnull(C.st, C.a[0]); return OPtr(jar, "QNetworkCookieJar")
    Pt(r"QNetworkAccessManager::cookieJar\(\) const", cj)
    def setjar(C): ex.nonnull(C.st, C.a[0]); C.ev("jar", objid(C.a[0]), objid(C.a[1]))
    Pt(r"QNetworkAccessManager::setCookieJar\(QNetworkCookieJar\*\)", setjar); Pt(r"QNetworkAccessManager::QNetworkAccessManager\(QObject\*\)", lambda C: C.ev("manager", objid(C.a[0]), objid(C.a[1])))
    return jar
class Found:
    """invariant candidates of a search: nothing found while the loop goes on, what it looked for once it stopped"""
    kind, name = "val", "found"
    def __init__(s, ok): s.ok = ok
    def cands(s, ex, hs, k):
        out = []
        for key, part, x0, y in hs.parts:
            if part != "id" or not isz(y): continue
            out.append((Or(y == 0, s.ok(y)), "nothing or found"))
            for key2, p2, c0, c in hs.parts:
                if p2 == "v" and isz(c): on = c if isbool(c) else c != 0; out.append((And(z3.Implies(on, y == 0), z3.Implies(Not(on), s.ok(y))), "found ends the search"))
        return out
    def unfold(s, ex, st, idxs): pass
    def axioms(s, i): return []
def elastic(ex):
    ex.strict_concrete = True; st = world(ex); st = statics(ex, st); o = ex.new_cells(st, "ElasticNetworkAccessManager", 16); st.w(o).vcls = "ElasticNetworkAccessManager"; jar = nam_common(ex, st); Pt = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h))
    n, kid, cnt, isn = fint("children_n"), ffun("child"), z3.Function(fresh_name("load"), IntSort(), IntSort()), z3.Function(fresh_name("is_manager"), IntSort(), BoolSort()); st.pc += [n >= 0, n < 1 << 20]
    def base(ex, st, idx, off, t, size): st.pc += [kid(Z(idx)) > 0]; return OPtr(kid(Z(idx)), "QObject")
    def children(C):
        b = 1 if C.fn.sret else 0; p = C.a[b]; ex.nonnull(C.st, p); c = C.a[0] if b else Ptr(ex.new_cells(C.st, "children", 8))
        if ideq(objid(p), ("o", o)): ex.vset(C.st, c, ex.vec(C.st, "QObject*", n, base, False, "children"))
        else: m = objid(p); C.st.pc += [cnt(Z(m)) >= 0, cnt(Z(m)) < 1 << 20]; ex.vset(C.st, c, ex.vec(C.st, "QObject*", cnt(Z(m)), lambda ex, st, idx, off, t, size: OPtr(fint("grandchild"), "QObject"), False, "requests"))
        return None if b else c
    Pt(r"QObject::children\(\) const", children)
    def cast(C): i = objid(C.a[-1]); return [(t, OPtr(i, "QNetworkAccessManager") if y else NULL) for t, y in C.split(isn(Z(i)))]
    Pt(r"QNetworkAccessManager\* qobject_cast<QNetworkAccessManager\*>\(QObject\*\)", cast); ex.contracts["QMetaObject::cast(QObject*) const"] = cast
    op, dev = fint("op"), fint("outgoing"); st.pc += [op >= 0, op <= 6, dev >= 0]; req = Tm("val", fint("req")); rep = fint("new reply"); st.pc.append(rep > 0)
    def send(C): ex.nonnull(C.st, C.a[0]); C.ev("send", objid(C.a[0]), C.a[1], ex.vget(C.st, C.a[2]), objid(C.a[3])); return OPtr(rep, "QNetworkReply")
    ex.contracts["QNetworkAccessManager::createRequest(QNetworkAccessManager::Operation, QNetworkRequest const&, QIODevice*)"] = send
    fn = target(ex, EN + "createRequest(QNetworkAccessManager::Operation, QNetworkRequest const&, QIODevice*)"); cover(ex, st, "precondition"); seen = set()
    ex.foldlist.append(Found(lambda c: And(isn(c), cnt(c) < 6)))
    for r in ex.run(st, fn, [Ptr(o), op, cellof(ex, st, "request", req), OPtr(dev, "QIODevice")]):
        for t, (j,) in cases(ex, r, jar != 0):
            ev = does(t); s = [e for e in ev if e[0] == "send"]; new = [e for e in ev if e[0] == "manager"]; rest = [e for e in ev if e[0] not in ("send", "manager", "jar", "parent")]; ok = len(s) == 1 and ev[-1][0] == "send" and not rest; ex.prove(t, ok, "post-sent", "sent once, at last: %s" % [e[0] for e in ev], where="post")
            if not ok: continue
            e = s[0]; ex.prove(t, eq(e[2], op) is True or ex.holds(t, eq(e[2], op)), "post-operation", "operation", where="post"); ex.prove(t, isinstance(e[3], Tm) and e[3].key() == req.key() and same_obj(ex, t, e[4], dev), "post-request", "the request and its content", where="post"); ex.prove(t, same_obj(ex, t, objid(t.ret), rep), "post-reply", "its reply", where="post")
            jars = [x for x in ev if x[0] == "jar"]; pars = [x for x in ev if x[0] == "parent"]
            if isinstance(e[1], tuple):
                seen.add("new"); ex.prove(t, len(new) == 1 and ideq(new[0][1], e[1]) and ideq(new[0][2], ("o", o)), "post-manager", "a new manager, deleted with this one", where="post")
                ex.prove(t, len(jars) == (1 if j else 0) and all(ideq(x[1], e[1]) and same_obj(ex, t, x[2], jar) for x in jars), "post-jar", "one cookie jar for all: %s" % jars, where="post"); ex.prove(t, not j or (pars and all(same_obj(ex, t, x[1], jar) for x in pars) and pars[-1][2] == 0 and [x[0] for x in ev].index("jar") < max(i for i, x in enumerate(ev) if x[0] == "parent")), "post-jar", "the jar goes with none of them: %s" % pars, where="post")
            else: seen.add("child"); ex.prove(t, not new and not jars and not pars, "post-manager", "nothing is made", where="post"); ex.prove(t, and_(isn(Z(e[1])), cnt(Z(e[1])) < 6), "post-manager", "a manager with fewer than six requests under way", where="post")
    if seen != {"new", "child"}: raise Unsupported("postcondition not reached %s" % seen)
def elastic_end(ex):
    st = world(ex); st = statics(ex, st); o = ex.new_cells(st, "ElasticNetworkAccessManager", 16); st.w(o).vcls = "ElasticNetworkAccessManager"; jar = nam_common(ex, st); ex.patterns.insert(0, (re.compile(r"QNetworkAccessManager::~QNetworkAccessManager\(\)$"), lambda C: C.ev("gone"))); n = 0
    fn = target(ex, EN + "~ElasticNetworkAccessManager()"); cover(ex, st, "precondition")
    for r in ex.run(st, fn, [Ptr(o)]):
        for t, (j,) in cases(ex, r, jar != 0): n += 1; ev = does(t); ex.prove(t, [e[0] for e in ev] == (["parent"] if j else []) + ["gone"] and (not j or (same_obj(ex, t, ev[0][1], jar) and ideq(ev[0][2], ("o", o)))), "post-jar", "the jar is deleted with it: %s" % (ev,), where="post")
    if n < 2: raise Unsupported("postcondition not reached")
