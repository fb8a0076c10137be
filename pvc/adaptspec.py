"""Contracts of the network access adaptor (C22): NetworkReply and NetworkAccessManager, function by function.

Class invariant of a reply: 0 <= _contentPos <= size of _content; what was handed to the reader is the first _contentPos bytes
of everything the client delivered. Pool invariant: a client stored under an authority was created for it and is idle (it is
stored only when it has finished, and taken out before it is used)."""
from .lifespec import *
NR, NM = NS + "NetworkReply::", NS + "NetworkAccessManager::"
CALLS = {"get": b"GET", "head": b"HEAD", "post": b"POST", "put": b"PUT", "deleteResource": b"DELETE"}

class Reply:
    def __init__(s, ex, st, client=None):
        s.ex, s.L = ex, lay(ex, NR[:-2]); s.o = ex.new_cells(st, "NetworkReply", 40); st.w(s.o).vcls = "NetworkReply"; s.m = ex.modules[0]
        s.n, s.pos = fint("content_n"), fint("pos"); st.pc += [s.n >= 0, s.n <= 1 << 29, s.pos >= 0, s.pos <= s.n]
        s.src = UFSrc(ffun("content")); s.rope = Rope([Sl(s.src, 0, s.n)]); ex.vset(st, s.p("_content"), pure(s.rope)); st.w(s.o).cells[s.L["_contentPos"]] = (4, s.pos)
        ex.store(st, s.p("_client"), client if client is not None else NULL, 8)
    def p(s, f): return Ptr(s.o, s.L[f])
    def at(s, st): return st.mem[s.o].cells[s.L["_contentPos"]][1]
    def content(s, st): return s.ex.ba_rope(st, s.ex.bget(st, s.p("_content")))
    def client(s, st): return s.ex.load(st, s.p("_client"), ir.PTR, s.m)
    def unchanged(s, t, label):
        s.ex.prove_rope(t, s.content(t), s.rope, "frame", label + ": content"); s.ex.prove(t, eq(s.at(t), s.pos), "frame", label + ": position", where="post")

def own_calls(ex):
    """members of QNetworkReply called on the reply itself: events"""
    P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h))
    def ev(name): return lambda C: C.ev("reply", name, objid(C.a[0]), *C.a[1:])
    for n in ("setFinished", "setOperation", "finished", "readyRead", "metaDataChanged", "error", "errorOccurred"): P(r"(?:QNetworkReply|QIODevice)::%s\(.*\)" % n, ev(n))
    P(r"QNetworkReply::setError\(.*\)", lambda C: C.ev("reply", "setError", objid(C.a[0]), C.a[1]))
    P(r"QNetworkReply::setRequest\(.*\)", lambda C: C.ev("reply", "setRequest", objid(C.a[0]), argval(C, C.a[1], "QNetworkRequest const&")))
    P(r"QNetworkReply::setUrl\(.*\)", lambda C: C.ev("reply", "setUrl", objid(C.a[0]), argval(C, C.a[1], "QUrl const&")))
    P(r"QNetworkReply::errorString\(\) const|QIODevice::errorString\(\) const", lambda C: C.ex.vset(C.st, C.a[0], Tm("errorString")))
    P(r"QNetworkReply::QNetworkReply\(QObject\*\)|QNetworkReply::~QNetworkReply\(\)", lambda C: None)
    def dis(C): C.ev("disconnect", objid(C.a[0]), C.a[1], objid(C.a[2]), C.a[3])
    ex.contracts["QObject::disconnect(QObject const*, char const*, QObject const*, char const*)"] = lambda C: (dis(C), True)[1]
    def opened(C): C.ev("reply", "open", objid(C.a[0]), C.a[1]); return True
    ex.vmethods[("NetworkReply", QIO["open"])] = ("QIODevice::open()", opened); P(r"QIODevice::open\(.*\)", opened)
    P(r"QNetworkReply::request\(\) const", lambda C: C.ex.vset(C.st, C.a[0], Tm("request of the reply")))
    ex.contracts[NS + "HttpClient::abort()"] = lambda C: C.ev("abort", objid(C.a[0]))
    def cmp(C):
        l = lat1(C, C.a[1:]); return qs_compare(C2(C), None, [argval(C, C.a[0], "QString const&"), l])
    P(r"QString::compare\(QLatin1String, Qt::CaseSensitivity\) const", cmp)
class C2:
    """a comparison whose case sensitivity is the last argument"""
    def __init__(s, C): s.ex, s.st, s.fn, s.a = C.ex, C.st, C.fn, [C.a[0], None, C.a[-1]]
def isnull(p): return isinstance(p, Ptr) and p.oid is None or (not isz(p) and p == 0)
def reply_world(ex, client=True):
    st = world(ex); st = statics(ex, st); K = Client(ex, st) if client else None; own_calls(ex); R = Reply(ex, st, Ptr(K.o) if K else None); return st, K, R

def construct(ex):
    st, K, R = reply_world(ex); q = ex.new_cells(st, "request", 8); req = Tm("val", fint("req")); ex.vset(st, Ptr(q), req); op = fint("op"); st.pc += [op >= 0, op <= 6]; o = ex.new_cells(st, "NetworkReply", 40); n = 0
    fn = target(ex, NR + "NetworkReply(Pillow::HttpClient*, QNetworkAccessManager::Operation, QNetworkRequest const&)"); cover(ex, st, "precondition")
    for t in ex.run(st, fn, [Ptr(o), Ptr(K.o), op, Ptr(q)]):
        n += 1; ev = does(t); made(ex, t, ev, ("o", o), ("o", K.o), op, req)
        ex.prove_rope(t, ex.ba_rope(t, ex.bget(t, Ptr(o, R.L["_content"]))), Rope(), "post-invariant", "no content"); ex.prove(t, eq(t.mem[o].cells[R.L["_contentPos"]][1], 0), "post-invariant", "position", where="post")
        c = ex.load(t, Ptr(o, R.L["_client"]), ir.PTR, R.m); ex.prove(t, isinstance(c, Ptr) and c.oid == K.o, "post-client", "its client", where="post")
    if n < 1: raise Unsupported("postcondition not reached")
def made(ex, t, ev, o, client, op, req):
    """the reply follows the client and shows operation, request and url"""
    for sig, slot in (("headersCompleted", "client_headersCompleted"), ("contentReadyRead", "client_contentReadyRead"), ("finished", "client_finished")):
        wired(ex, t, ev, client, "2%s()" % sig, o, "1%s()" % slot, sig)
    for name, want in (("setOperation", op), ("setRequest", req), ("setUrl", Tm("QNetworkRequest::url", req))):
        e = [x for x in ev if x[0] == "reply" and x[1] == name and ideq(x[2], o)]; ex.prove(t, len(e) == 1, "post-events", name, where="post")
        for x in e: ex.prove(t, (x[3].key() == want.key()) if isinstance(want, Tm) and isinstance(x[3], Tm) else eq(x[3], want) if not isinstance(want, Tm) else False, "post-" + name, "%r" % (x[3],), where="post")

def aborted(ex):
    for has in (True, False):
        st, K, R = reply_world(ex); n = 0
        if not has: ex.store(st, R.p("_client"), NULL, 8)
        fn = target(ex, NR + "abort()"); cover(ex, st, "precondition")
        for t in ex.run(st, fn, [Ptr(R.o)]):
            n += 1; ev = does(t)
            if has: ex.prove(t, [e[0] for e in ev] == ["abort"] and ideq(ev[0][1], ("o", K.o)), "post-abort", "its client's request is given up: %s" % ev, where="post")
            else: ex.prove(t, not ev, "post-abort", "nothing is left to give up", where="post")
            R.unchanged(t, "abort")
        if n < 1: raise Unsupported("postcondition not reached")

def available(ex):
    st, K, R = reply_world(ex); b = fint("buffered"); st.pc += [b >= 0, b <= 1 << 40]; n = 0
    ex.patterns.insert(0, (re.compile(r"(?:QNetworkReply|QIODevice)::bytesAvailable\(\) const$"), lambda C: b))
    fn = target(ex, NR + "bytesAvailable() const"); cover(ex, st, "precondition")
    for t in ex.run(st, fn, [Ptr(R.o)]): n += 1; ex.prove(t, eq(t.ret, add(b, sub(R.n, R.pos))), "post", "what is buffered and what was not read yet", where="post"); R.unchanged(t, "bytesAvailable")
    if n < 1: raise Unsupported("postcondition not reached")

def read(ex):
    st, K, R = reply_world(ex, False); mx = fint("maxSize"); st.pc += [mx >= 0, mx <= 1 << 40]; g = ffun("old"); buf = ex.new_bytes(st, "reader's buffer", Rope([Sl(UFSrc(g), 0, mx)])); fn = target(ex, NR + "readData(char*, long long)"); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(R.o), Ptr(buf), mx]):
        for t, (left, most) in cases(ex, r, R.pos < R.n, lambda t, l: mx < R.n - R.pos):
            seen.add((left, most)); ex.prove_rope(t, R.content(t), R.rope, "frame", "content"); ex.prove(t, not does(t), "frame", "nothing else happens", where="post")
            k = (mx if most else sub(R.n, R.pos)) if left else 0
            ex.prove(t, eq(t.ret, k) if left else or_(eq(t.ret, -1), eq(t.ret, 0)), "post-count", "bytes read", where="post"); ex.prove(t, eq(R.at(t), add(R.pos, k)), "post-position", "the next read goes on behind them", where="post")
            got = ex.rope_at(t, Ptr(buf), mx); ex.prove_rope(t, got, Rope([Sl(R.src, R.pos, k), Sl(UFSrc(g), k, sub(mx, k))]), "post-bytes", "the next bytes of the content, nothing beyond them")
    if len(seen) < 3: raise Unsupported("postcondition not reached")

def content(ex):
    st, K, R = reply_world(ex); x = atom(ex, st, "new content"); n = 0
    def consume(C): C.ev("consume", objid(C.a[1])); C.ex.vset(C.st, C.a[0], pure(x))
    ex.contracts[NS + "HttpClient::consumeContent()"] = consume
    fn = target(ex, NR + "client_contentReadyRead()"); cover(ex, st, "precondition")
    for t in ex.run(st, fn, [Ptr(R.o)]):
        n += 1; ev = does(t)
        ex.prove(t, [e[0] for e in ev] == ["consume", "reply"] and ideq(ev[0][1], ("o", K.o)) and ev[1][1] == "readyRead" and ideq(ev[1][2], ("o", R.o)), "post-events", "the client's content is taken, then readyRead is emitted: %s" % (ev,), where="post")
        ex.prove_rope(t, R.content(t), R.rope + x, "post-content", "the new bytes follow the old ones"); ex.prove(t, eq(R.at(t), R.pos), "frame", "position", where="post")
    if n < 1: raise Unsupported("postcondition not reached")

ERRS = {NETERR: 99, INVALID: 301, CLOSED: 2, ABORTED: 5}      # UnknownNetworkError, ProtocolUnknownError, RemoteHostClosedError, OperationCanceledError
def finished(ex):
    st, K, R = reply_world(ex); fn = target(ex, NR + "client_finished()"); cover(ex, st, "precondition"); seen = set(); err = K.int(st, "_error"); base = ex.patterns[0]
    def fin(C): C.ev("reply", "finished", objid(C.a[0]), isnull(R.client(C.st)))
    ex.patterns.insert(0, (re.compile(r"QNetworkReply::finished\(\)$"), fin))
    for r in ex.run(st, fn, [Ptr(R.o)]):
        for t, es in cases(ex, r, *[lambda t, *a, k=k: eq(err, k) for k in range(5)]):
            e = es.index(True); seen.add(e); ev = does(t); names = [x[1] if x[0] == "reply" else x[0] for x in ev if not (x[0] == "reply" and x[1] == "errorOccurred")]; R.unchanged(t, "finished")
            ok = sorted(names) == sorted(["disconnect", "setFinished", "finished"] + (["setError", "error"] if e else [])); ex.prove(t, ok, "post-events", "finished once, with its error if any: %s" % names, where="post")
            if not ok: continue
            get = lambda n: next(x for x in ev if (x[1] if x[0] == "reply" else x[0]) == n)
            d = get("disconnect"); ex.prove(t, ideq(d[1], ("o", K.o)) and isnull(d[2]) and ideq(d[3], ("o", R.o)) and isnull(d[4]), "post-disconnected", "the client's later signals are not for this reply", where="post")
            f = get("finished"); ex.prove(t, names[-1] == "finished" and f[3], "post-last", "finished comes last, the client is let go before", where="post"); ex.prove(t, eq(get("setFinished")[3], 1) if isint(get("setFinished")[3]) else B(get("setFinished")[3]), "post-finished", "isFinished()", where="post")
            for x in ev:
                if x[0] == "reply": ex.prove(t, ideq(x[2], ("o", R.o)), "post-sender", x[1], where="post")
            if e:
                ex.prove(t, names.index("setError") < names.index("error"), "post-order", "error() is right when the signal is emitted", where="post")
                for x in ("setError", "error"): ex.prove(t, eq(get(x)[3], ERRS[e]), "post-error", "%s(%s), expected %d" % (x, get(x)[3], ERRS[e]), where="post")
                for x in ev:
                    if x[0] == "reply" and x[1] == "errorOccurred": ex.prove(t, eq(x[3], ERRS[e]), "post-error", "errorOccurred", where="post")
            else: ex.prove(t, not any(x[0] == "reply" and x[1] == "errorOccurred" for x in ev), "post-error", "no error", where="post")
    if len(seen) < 5: raise Unsupported("postcondition not reached")

COOK = r"QList<QNetworkCookie>::"
def use_cookies(ex):
    """cookie lists: one item per Set-Cookie value (the cookies parsed from it)"""
    P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h)); el = "QNetworkCookie"; ex.cookievals, ex.nocookies = {}, []
    def join(C):
        x = C.ex.vget(C.st, C.a[1])
        if not isinstance(x, Tm): raise Unsupported("cookie list %r" % (x,))
        C.ex.vec_push(C.st, C.a[0], el, {0: (8, x)}); return C.a[0]
    P(COOK + r"(?:operator\+=|append|operator<<)\(QList<QNetworkCookie> const&\)", join); P(COOK + r"~QList\(\)", lambda C: None)
    def empty(C):
        v = C.ex.vecval(C.st, C.a[0], el); b = C.ex.tm_bool(Tm("no cookies", v.oid, C.st.mem[v.oid].n)); C.st.pc.append(z3.Implies(B(eq(C.st.mem[v.oid].n, 0)), B(b))); ex.nocookies.append(b); return b
    P(COOK + r"(?:isEmpty|empty)\(\) const", empty)
    def parse(C): C.ex.vset(C.st, C.a[0], Tm("parsed", C.ex.rope_id(C.st, C.ex.ba_rope(C.st, C.ex.bget(C.st, C.a[1])))))
    P(r"QNetworkCookie::parseCookies\(QByteArray const&\)", parse)
    def var(C):
        v = C.ex.vecval(C.st, C.a[1], el); i = len(ex.cookievals); ex.cookievals[i] = C.ex.list_pieces(C.st, v.oid); C.ex.vset(C.st, C.a[0], Tm("cookie list", i))
    P(r"(?:QVariant )?QVariant::(?:fromValue|QVariant)<QList<QNetworkCookie> ?>\(.*\)", var)

def headers(ex):
    st, K, R = reply_world(ex); use_cookies(ex); P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h)); ex.strict_concrete = True
    H = K.H; nf, vn = ffun("is_name"), z3.Function(fresh_name("null"), IntSort(), BoolSort())
    def base(ex, st, idx, off, t, size):
        f = H.nm if off == 0 else H.vl; st.pc += [blen(f(Z(idx))) >= 0, blen(f(Z(idx))) < 1 << 28]
        if off == 0: return pure(ratom(f(Z(idx))))
        st.pc.append(z3.Implies(vn(Z(idx)), blen(f(Z(idx))) == 0)); return pure(ratom(f(Z(idx))), vn(Z(idx)))
    st.w(H.oid).base = base
    G = ex.new_cells(st, "ghost", 24); st.w(G).cells[0] = (8, 0); st.w(G).cells[8] = (8, -1)
    lit = lambda b: ex.rope_id(st, rlit(b)); named = lambda i, b, k=None: And(ci_eq(H.nm(Z(i)), Z(lit(b))), blen(H.nm(Z(i))) == len(b))
    sc, loc = (lambda i: named(i, b"set-cookie")), (lambda i: named(i, b"location"))
    cookies = ListFold("cookies", lambda i: [(sc(i), [("item", {0: (8, Tm("parsed", H.vl(Z(i))))})]), (not_(sc(i)), [])]); ex.foldlist.append(cookies)
    last = ValFold("last location", -1, lambda i, v: ite(loc(i), H.vl(Z(i)), v)); ex.foldlist.append(last)
    def has(C): n = C.ex.ba_rope(C.st, C.ex.bget(C.st, C.a[1])); return ex.tm_bool(Tm("shown", n, C.st.mem[G].cells[0][1]))
    P(r"QNetworkReply::hasRawHeader\(QByteArray const&\) const", has)
    def rawname(C): n = C.ex.ba_rope(C.st, C.ex.bget(C.st, C.a[2] if C.fn.sret else C.a[1])); return n, ex.tm_bool(Tm("shown", n, C.st.mem[G].cells[0][1])), ratom(ex.tm_atom(C.st, Tm("shown value", n, C.st.mem[G].cells[0][1])))
    def raw(C):
        n, h, v = rawname(C); C.st.pc += [v.len() < 1 << 28, z3.Implies(Not(B(h)), Z(v.len()) == 0)]; ex.vset(C.st, C.a[0], pure(v, not_(h)))
    P(r"QNetworkReply::rawHeader\(QByteArray const&\) const", raw)
    def setraw(C):
        st, c = C.st, C.st.w(G).cells; g = c[0][1]; n = ex.ba_rope(st, ex.bget(st, C.a[1])); v = ex.bget(st, C.a[2]); shown = ex.tm_bool(Tm("shown", n, g)); old = ratom(ex.tm_atom(st, Tm("shown value", n, g)))
        ex.prove(st, lt(g, H.n), "post-headers", "one call for each header", where="post"); ex.prove_rope(st, n, H.name(g), "post-header-name", "the next header's name")
        st.pc += [old.len() < 1 << 28]
        for t, (s,) in cases(ex, st.fork(), shown):
            ex.prove_rope(t, ex.ba_rope(t, v), (old + rlit(", ") if s else Rope()) + H.value(g), "post-header-value", "all values of that name" if s else "its value"); ex.prove(t, v.k != "pure" or not_(v.null), "post-header-shown", "an empty value is not a removed header", where="post")
        c[0] = (8, add(g, 1))
    P(r"QNetworkReply::setRawHeader\(QByteArray const&, QByteArray const&\)", setraw)
    def attr(C):
        st = C.st; a = C.a[1]; v = argval(C, C.a[2], "QVariant const&")
        if not isz(a) and a == 0: C.ev("reply", "status", objid(C.a[0]), v.a[0] if isinstance(v, Tm) and v.op == "QVariant" and len(v.a) == 1 else None)
        elif not isz(a) and a == 2:
            u = v.a[0] if isinstance(v, Tm) and v.op == "QVariant" and len(v.a) == 1 else None
            if not (isinstance(u, Tm) and u.op == "QUrl::fromEncoded" and isinstance(u.a[0], Rope) and (len(u.a) == 1 or eq(u.a[1], 0) is True)): ex.prove(st, False, "post-redirect", "redirect target %r" % (v,), where="post"); return
            st.w(G).cells[8] = (8, ex.rope_id(st, u.a[0]))
        else: C.ev("reply", "attribute", objid(C.a[0]), a)
    P(r"QNetworkReply::setAttribute\(.*\)", attr)
    def sethdr(C):
        v = argval(C, C.a[2], "QVariant const&"); C.ev("reply", "setHeader", objid(C.a[0]), C.a[1], ex.cookievals.get(v.a[0]) if isinstance(v, Tm) and v.op == "cookie list" else v)
    P(r"QNetworkReply::setHeader\(.*\)", sethdr)
    nam, jar = fint("manager"), fint("jar"); st.pc += [nam >= 0, jar >= 0]
    P(r"QNetworkReply::manager\(\) const", lambda C: OPtr(nam, "QNetworkAccessManager"))
    def cj(C): ex.nonnull(C.st, C.a[0]); return OPtr(jar, "QNetworkCookieJar")
    P(r"QNetworkAccessManager::cookieJar\(\) const", cj)
    def setc(C): v = ex.vecval(C.st, C.a[1], "QNetworkCookie"); C.ev("jar", objid(C.a[0]), ex.list_pieces(C.st, v.oid), argval(C, C.a[2], "QUrl const&")); return fbool("set")
    ex.vmethods[("QNetworkCookieJar", 13)] = ("QNetworkCookieJar::setCookiesFromUrl()", setc)
    fn = target(ex, NR + "client_headersCompleted()"); cover(ex, st, "precondition"); seen = set(); want = (("fold", cookies, H.n),); U = Tm("QNetworkRequest::url", Tm("request of the reply"))
    for r in ex.run(st, fn, [Ptr(R.o)]):
        c = r.mem[G].cells; ev = does(r); R.unchanged(r, "headersCompleted"); names = [e[1] if e[0] == "reply" else e[0] for e in ev]
        ex.prove(r, eq(c[0][1], H.n), "post-headers", "every header is shown", where="post"); ex.prove(r, eq(c[8][1], last.at(H.n)), "post-redirect", "the redirect target is the location", where="post")
        s = [e for e in ev if e[:2] == ("reply", "status")]; ex.prove(r, len(s) == 1 and isint(s[0][3]) and ex.holds(r, eq(s[0][3], K.status(st))), "post-status", "the status code", where="post")
        ex.prove(r, names.count("open") == 1 and names.count("metaDataChanged") == 1 and names[-1] == "metaDataChanged", "post-order", "open, then the signal: %s" % names, where="post")
        for e in ev:
            if e[:2] == ("reply", "open"): ex.prove(r, not isz(e[3]) and e[3] & 3 == 1, "post-open", "readable, not writable: %r" % (e[3:],), where="post")
            if e[:2] == ("reply", "setHeader"): ex.prove(r, not isz(e[3]) and e[3] == 5 and isinstance(e[4], tuple) and ex.list_eq(r, e[4], want), "post-cookies", "the cookies of all Set-Cookie headers", where="post")
            if e[:2] == ("reply", "attribute"): ex.prove(r, not isz(e[3]) and e[3] not in (0, 2), "post-attribute", "attribute %s" % e[3], where="post")
        for t, (m, j) in cases(ex, r, nam != 0, jar != 0):
            js = [e for e in ev if e[0] == "jar"]; ex.prove(t, len(js) == (1 if m and j else 0) or (not js and ex.holds(t, eq(cookies.lenf(Z(H.n)), 0))), "post-jar", "the cookies go to the manager's jar", where="post"); seen.add((m, j))
            for e in js: ex.prove(t, eq(e[1], jar) if isz(e[1]) else False, "post-jar", "the jar", where="post"); ex.prove(t, e[2] is not None and ex.list_eq(t, e[2], want), "post-jar", "all cookies: %r" % (e[2],), where="post"); ex.prove(t, isinstance(e[3], Tm) and U.key() in (e[3].key(), e[3].a[0].key() if e[3].op == "QUrl::setPath" else None), "post-jar", "under the request's url: %r" % (e[3],), where="post")
        seen.add(names.count("setHeader")); ex.prove(r, names.count("setHeader") <= 1, "post-cookies", "at most once", where="post")
        if "setHeader" not in names: ex.prove(r, or_(eq(cookies.lenf(Z(H.n)), 0), *ex.nocookies), "post-cookies", "cookies are shown unless there are none", where="post")
    if not {0, 1} <= seen: raise Unsupported("postcondition not reached")

# ---------------------------------------------------------------- the manager
KEYED = r"Q(?:Multi)?Hash<QString, Pillow::HttpClient\*>::"
class Texts(Bounded):
    """no text is empty"""
    def facts(s, ex, st, i): Bounded.facts(s, ex, st, i); st.pc += [s.lenf(Z(i)) >= Z(i)]
class Manager:
    """pool: idle clients by authority; owner: the authority a client was made for"""
    def __init__(s, ex, st):
        s.ex, s.L = ex, lay(ex, NM[:-2]); s.entries = {}; s.o = ex.new_cells(st, "NetworkAccessManager", 32); st.w(s.o).vcls = "NetworkAccessManager"; s.m = ex.modules[0]
        P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h)); s.pool, s.map = (Ptr(s.o, s.L[f]) for f in ("_urlToClientsMap", "_clientToUrlMap")); own_calls(ex)
        def is_(C, p, want): C.ex.prove(C.st, isinstance(p, Ptr) and p.oid == s.o and eq(p.off, want.off) is True, "pre-this", C.dem, where="post")
        def entry(C, k): return s.pooled(C.st, k), s.idle(C.st, k)
        def find(C):
            is_(C, C.a[0], s.pool); k = argval(C, C.a[1], "QString const&"); p, c = entry(C, k); out = []
            for t, yes in C.split(p):
                if not yes: out.append((t, NULL)); continue
                e = C.ex.new_cells(t, "pool entry", 8); C.ex.store(t, Ptr(e), c, 8); s.entries[e] = k; out.append((t, Ptr(e)))
            return out
        for n in ("find", "constFind"): P(KEYED + n + r"\(QString const&\)(?: const)?", find)
        for n in ("end", "cend", "constEnd"): P(KEYED + n + r"\(\)(?: const)?", lambda C: NULL)
        def it(C, p): v = C.ex.load(C.st, p, ir.PTR, C.mod); return v if isinstance(v, Ptr) else NULL
        same = lambda C: it(C, C.a[0]).oid == it(C, C.a[1]).oid
        IT = KEYED + r"(?:const_)?iterator::"
        P(IT + r"operator!=\(.*\) const", lambda C: not same(C)); P(IT + r"operator==\(.*\) const", same); P(IT + r"(?:const_)?iterator\(.*\)", lambda C: C.ex.store(C.st, C.a[0], it(C, C.a[1]), 8))
        def val(C): v = it(C, C.a[0]); C.ex.prove(C.st, v.oid is not None, "pre-valid", C.dem + " of end()", where="post"); return v
        for n in ("value", r"operator\*"): P(IT + n + r"\(\) const", val)
        def gone(C, v): C.ex.prove(C.st, v.oid is not None, "pre-valid", "erase(end())", where="post"); C.ev("pool", "out", s.entries[v.oid], C.ex.load(C.st, v, ir.PTR, C.mod)); return NULL
        P(KEYED + r"erase\(.*\)", lambda C: (is_(C, C.a[0], s.pool), gone(C, C.a[1] if not isinstance(C.a[1], Ptr) or C.st.mem[C.a[1].oid].name == "pool entry" else it(C, C.a[1])))[1])
        def get(take):
            def h(C):
                is_(C, C.a[0], s.pool); k = argval(C, C.a[1], "QString const&"); p, c = entry(C, k); d = C.ex.load(C.st, C.a[2], ir.PTR, C.mod) if len(C.a) > 2 else NULL; out = []
                for t, yes in C.split(p):
                    if yes and take: C.on(t).ev("pool", "out", k, c)
                    out.append((t, c if yes else d))
                return out
            return h
        P(KEYED + r"value\(.*\) const", get(False)); P(KEYED + r"take\(QString const&\)", get(True)); P(KEYED + r"contains\(QString const&\) const", lambda C: entry(C, argval(C, C.a[1], "QString const&"))[0])
        def put(C): is_(C, C.a[1 if C.fn.sret else 0], s.pool); i = 1 if C.fn.sret else 0; C.ev("pool", "in", argval(C, C.a[i + 1], "QString const&"), C.ex.load(C.st, C.a[i + 2], ir.PTR, C.mod)); return NULL
        P(KEYED + r"insert\(.*\)", put)
        OWN = r"QHash<Pillow::HttpClient\*, QString>::"
        def ins(C): is_(C, C.a[0], s.map); C.ev("owner", C.ex.load(C.st, C.a[1], ir.PTR, C.mod), argval(C, C.a[2], "QString const&")); return NULL
        P(OWN + r"insert\(.*\)", ins)
        def owner(C): is_(C, C.a[1], s.map); c = C.ex.load(C.st, C.a[2], ir.PTR, C.mod); C.ex.vset(C.st, C.a[0], Tm("authority of", okey(objid(c))))
        P(OWN + r"value\(Pillow::HttpClient\* const&\) const", owner)
        ex.contracts[NS + "HttpClient::HttpClient(QObject*)"] = lambda C: C.ev("new client", objid(C.a[0]), objid(C.a[1]) if isinstance(C.a[1], (Ptr, OPtr)) else None)
    def pooled(s, st, k): return s.ex.tm_bool(Tm("pooled", k))
    def idle(s, st, k): c = s.ex.tm_int(st, Tm("pooled client", k), 1); return OPtr(c, "HttpClient")
def nam_world(ex): ex.strict_concrete = True; st = world(ex); st = statics(ex, st); return st, Manager(ex, st)

class Outgoing:
    """what the client is asked to send: one item for each raw header of the request, then the cookies"""
    def __init__(s, ex, st, req):
        P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h)); s.ex, s.req = ex, req; s.n, s.ck = fint("raw_headers"), fint("cookies"); st.pc += [s.n >= 0, s.n < 1 << 20, s.ck >= 0, s.ck < 1 << 20]
        s.name, s.value, s.cookie = ffun("raw_name"), ffun("raw_value"), ffun("cookie_text")
        def names(ex, st, idx, off, t, size): return pure(ratom(s.atom(st, s.name(Z(idx)))))
        P(r"QNetworkRequest::rawHeaderList\(\) const", lambda C: C.ex.vset(C.st, C.a[0], C.ex.vec(C.st, "QByteArray", s.n, names, False, "raw header names")))
        def raw(C): n = C.ex.rope_id(C.st, C.ex.ba_rope(C.st, C.ex.bget(C.st, C.a[2]))); C.ex.vset(C.st, C.a[0], pure(ratom(s.atom(C.st, s.value(Z(n))))))
        P(r"QNetworkRequest::rawHeader\(QByteArray const&\) const", raw)
        s.heads = ListFold("raw headers", lambda i: [(True, [("item", {0: (8, pure(ratom(s.name(Z(i))))), 8: (8, pure(ratom(s.value(s.name(Z(i))))))})])]); ex.foldlist.append(s.heads)
        s.jar = fint("jar"); st.pc.append(s.jar >= 0); P(r"QNetworkAccessManager::cookieJar\(\) const", lambda C: OPtr(s.jar, "QNetworkCookieJar")); s.askedfor = []
        def cookies(C): s.askedfor.append(argval(C, C.a[2], "QUrl const&")); C.ex.vset(C.st, C.a[0], C.ex.vec(C.st, "QNetworkCookie", s.ck, lambda ex, st, idx, off, t, size: Tm("cookie", idx), False, "cookies"))
        ex.vmethods[("QNetworkCookieJar", 12)] = ("QNetworkCookieJar::cookiesForUrl()", cookies)
        def form(C):
            f = C.a[2]; c = argval(C, C.a[1], "QNetworkCookie const&"); C.ex.prove(C.st, not isz(f) and f == 0, "post-cookie", "name and value only", where="post")
            if not (isinstance(c, Tm) and c.op == "cookie"): raise Unsupported("cookie %r" % (c,))
            C.ex.vset(C.st, C.a[0], pure(ratom(s.atom(C.st, s.cookie(Z(c.a[0])), 1))))
        P(r"QNetworkCookie::toRawForm\(.*\) const", form)
        s.text = Texts("cookie texts", lambda i: [(Z(i) > 0, rlit("; ") + s.ctext(i)), (Not(Z(i) > 0), s.ctext(i))]); ex.foldlist.append(s.text)
        s.url = Tm("QNetworkRequest::url", req)
        def send(C):
            verb = C.dem.split("(")[0].split("::")[-1]; a = list(C.a[1:]); m = CALLS.get(verb)
            m = rlit(m) if m else C.ex.ba_rope(C.st, C.ex.bget(C.st, a.pop(0))); u = argval(C, a.pop(0), "QUrl const&"); h = C.ex.vecval(C.st, a.pop(0), "Pillow::HttpHeader")
            C.ev("send", C.a[0], m, u, C.ex.list_pieces(C.st, h.oid), C.ex.ba_rope(C.st, C.ex.bget(C.st, a[0])) if a else Rope())
        P(r"Pillow::HttpClient::(?:get|head|post|put|deleteResource|request)\(.*\)", send)
        s.dev = fint("outgoing"); st.pc.append(s.dev >= 0); s.data = atom(ex, st, "outgoing data")
        def all_(C): C.ex.nonnull(C.st, C.a[1]); C.ev("readAll", objid(C.a[1])); C.ex.vset(C.st, C.a[0], pure(s.data))
        P(r"QIODevice::readAll\(\)", all_)
    def atom(s, st, i, least=0): st.pc += [blen(i) >= least, blen(i) < 1 << 10]; return i
    def ctext(s, i): return ratom(s.cookie(Z(i)))
def create(op):
    def run(ex):
        st, M = nam_world(ex); req = Tm("val", fint("req")); q = ex.new_cells(st, "request", 8); ex.vset(st, Ptr(q), req); O = Outgoing(ex, st, req); U = O.url; n = 0; seen = set()
        def basecr(C): C.ev("base", C.a[1], argval(C, C.a[2], "QNetworkRequest const&"), objid(C.a[3])); return OPtr(fint("base reply"), "QNetworkReply")
        ex.contracts["QNetworkAccessManager::createRequest(QNetworkAccessManager::Operation, QNetworkRequest const&, QIODevice*)"] = basecr
        fn = target(ex, NM + "createRequest(QNetworkAccessManager::Operation, QNetworkRequest const&, QIODevice*)"); cover(ex, st, "precondition")
        http = qs_ci(Z(ex.tm_id(Tm("QUrl::scheme", U))), Z(ex.tm_id(Tm("qs", rlit("http"))))); key = None
        for r in ex.run(st, fn, [Ptr(M.o), op, Ptr(q), OPtr(O.dev, "QIODevice")]):
            for t, (h,) in cases(ex, r, http):
                n += 1; ev = does(t); names = [e[0] for e in ev]
                if not h:
                    seen.add("base"); ex.prove(t, names == ["base"] and eq(ev[0][1], op) is True and ev[0][2].key() == req.key() and same_obj(ex, t, ev[0][3], O.dev), "post-base", "other schemes are left to Qt: %s" % names, where="post"); continue
                seen.add("http"); auth = Tm("QUrl::authority", U, QURL_AUTH); sends = [e for e in ev if e[0] == "send"]; news = [e for e in ev if e[0] == "new client"]; outs = [e for e in ev if e[0] == "pool"]; conn = [e for e in ev if e[0] == "connect"]
                ex.prove(t, len(sends) == (1 if op else 0) and "base" not in names, "post-sent", "sent once: %s" % names, where="post"); o = t.ret
                if not isinstance(o, Ptr): ex.prove(t, False, "post-reply", "%r" % (o,), where="post"); continue
                made_ = [e[1] for e in conn if ideq(e[3], ("o", o.oid))]; ex.prove(t, bool(made_), "post-reply", "the reply follows a client", where="post")
                if not made_: continue
                cl = made_[0]; made(ex, t, ev, ("o", o.oid), cl, op, req)
                for t2, (have,) in cases(ex, t, M.pooled(t, auth)):
                    if have: seen.add("reused"); ex.prove(t2, not news and len(outs) == 1 and outs[0][1] == "out" and outs[0][2].key() == auth.key() and same_obj(ex, t2, cl, objid(M.idle(t2, auth))) and same_obj(ex, t2, objid(outs[0][3]), cl), "post-pool", "an idle client of that authority is taken out of the pool and used: %s" % names, where="post")
                    else:
                        seen.add("new"); own = [e for e in ev if e[0] == "owner"]; ex.prove(t2, len(news) == 1 and not outs and ideq(news[0][1], cl) and ideq(news[0][2], ("o", M.o)), "post-new", "a new client of the manager: %s" % names, where="post")
                        ex.prove(t2, len(own) == 1 and same_obj(ex, t2, objid(own[0][1]), cl) and isinstance(own[0][2], Tm) and own[0][2].key() == auth.key(), "post-new", "known by the authority", where="post")
                        wired(ex, t2, ev, cl, "2finished()", ("o", M.o), "1client_finished()", "goes to the pool when it has finished"); ex.prove(t2, all(e[5] in (0, 1) for e in conn if e[4] == "1client_finished()"), "post-wiring", "at once, so that the sender is known", where="post")
                for e in sends:
                    ex.prove(t, all(names.index("send") > i for i, x in enumerate(ev) if x[0] in ("connect", "owner", "new client", "pool")), "post-order", "everything is in place before the request goes out", where="post")
                    ex.prove(t, same_obj(ex, t, objid(e[1]), cl), "post-client", "by the client the reply follows", where="post"); ex.prove(t, e[3].key() == U.key(), "post-url", "%r" % (e[3],), where="post")
                    verb = rlit(VERBS[op]) if op in VERBS else ratom(ex.tm_atom(t, Tm("QVariant::toByteArray", Tm("QNetworkRequest::attribute", req, 10, Tm("QVariant"))))); ex.prove_rope(t, e[2], verb, "post-verb", "method of the operation")
                    for t2, (j, some) in cases(ex, t, O.jar != 0, lambda t, *b: Z(O.text.lenf(Z(O.ck))) > 0):
                        want = (("fold", O.heads, O.n),); 
                        if j and some: want += (("item", {0: (8, pure(rlit("Cookie"))), 8: (8, pure(Rope([FoldP(O.text, O.ck)])))}),)
                        ex.prove(t2, e[4] is not None and ex.list_eq(t2, e[4], want), "post-headers", "the request's headers%s: %r" % (" and the cookies" if j and some else "", e[4]), where="post"); seen.add(("cookies", j and some))
                    for t2, (d,) in cases(ex, t, O.dev != 0): ex.prove_rope(t2, e[5], O.data if d and op in (3, 4, 6) else Rope(), "post-data", "the outgoing data"); ex.prove(t2, names.count("readAll") == (1 if d and op in (3, 4, 6) else 0) or op not in (3, 4, 6), "post-data", "read once: %s" % names, where="post")
        for u in O.askedfor: ex.prove(st, u.key() == U.key(), "post-jar", "cookies for the request's url", where="post")
        if not {"base", "http", "reused", "new"} <= seen or (op and ("cookies", True) not in seen): raise Unsupported("postcondition not reached %s" % seen)
    return run
VERBS = {1: b"HEAD", 2: b"GET", 3: b"PUT", 4: b"POST", 5: b"DELETE"}; QURL_AUTH = 0
def pool(ex):
    st, M = nam_world(ex); c = fint("client"); st.pc.append(c > 0); ex.contracts["QMetaObject::cast(QObject*) const"] = lambda C: C.a[1]; ex.patterns.insert(0, (re.compile(r"QObject::sender\(\) const$"), lambda C: OPtr(c, "HttpClient"))); a = Tm("authority of", okey(c)); seen = set()
    fn = target(ex, NM + "client_finished()"); cover(ex, st, "precondition")
    for r in ex.run(st, fn, [Ptr(M.o)]):
        for t, (none,) in cases(ex, r, lambda t, *b: eq(qs_len(ex, t, a), 0)):
            ev = does(t); seen.add(none); names = [e[:2] for e in ev]
            if none: ex.prove(t, [e[0] for e in ev] == ["deleteLater"] and same_obj(ex, t, ev[0][1], c), "post-dropped", "a client of no authority goes: %s" % names, where="post")
            else: ex.prove(t, names == [("pool", "in")] and isinstance(ev[0][2], Tm) and ev[0][2].key() == a.key() and same_obj(ex, t, objid(ev[0][3]), c), "post-pooled", "the client is kept once, under its authority: %s" % ev, where="post")
    if seen != {True, False}: raise Unsupported("postcondition not reached")
