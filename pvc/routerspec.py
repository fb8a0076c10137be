"""Contracts of the functions of HttpHandlerSimpleRouter.cpp (C15): dispatch over every route table, registration."""
from .handlerspec import *
RSRC = ["HttpHandlerSimpleRouter.cpp"]
RT = "Pillow::HttpHandlerSimpleRouter::"
matches = z3.Function("route_matches", IntSort(), BoolSort())         # the route's pattern matches the decoded path of the request

class Table:
    """router with n >= 0 routes; route i is an opaque object with a method, a pattern and parameter names"""
    def __init__(s, ex, st):
        s.ex = ex; L = lay(ex, "Pillow::HttpHandlerSimpleRouter"); P = s.P = lay(ex, "Pillow::HttpHandlerSimpleRouterPrivate"); R = s.R = lay(ex, "Pillow::Route")
        s.o = ex.new_cells(st, "HttpHandlerSimpleRouter", 64); s.d = ex.new_cells(st, "HttpHandlerSimpleRouterPrivate", 64); ex.store(st, Ptr(s.o, L["d_ptr"]), Ptr(s.d), 8)
        s.meth, s.np = ffun("method_of"), ffun("params_of")
        s.n = fint("routes"); s.route = ffun("route"); st.pc += [s.n >= 0, s.n <= 1 << 20]
        def base(ex2, st2, idx, off, t, size): q = s.np(s.route(Z(idx))); st2.pc += [s.route(Z(idx)) > 0, q >= 0, q <= 1 << 20]; return OPtr(s.route(Z(idx)), "Route")
        s.vec = ex.vec(st, "Pillow::Route*", s.n, base, False, "routes"); ex.vset(st, Ptr(s.d, P["routes"]), s.vec)
        s.mm, s.um, s.mp = fint("methodMismatchAction"), fint("unmatchedRequestAction"), fint("acceptMethodParam"); st.pc += [s.mm >= 0, s.mm <= 1, s.um >= 0, s.um <= 1, s.mp >= 0, s.mp <= 1]
        c = st.w(s.d).cells; c[P["methodMismatchAction"]] = (4, s.mm); c[P["unmatchedRequestAction"]] = (4, s.um); c[P["acceptMethodParam"]] = (1, s.mp)
        def field(st, p):
            if p.off == R["method"]: i = s.meth(Z(p.id)); st.pc.append(And(blen(i) >= 0, blen(i) < 1 << 28)); return pure(ratom(i))
            if p.off == R["regExp"]: return Tm("pattern", p.id)
            if p.off == R["paramNames"]:
                k = s.np(Z(p.id)); st.pc += [k >= 0, k <= 1 << 20]
                return ex.vec(st, "QString", k, lambda ex2, st2, idx, off, t, size: Tm("paramName", p.id, idx), "maybe", "paramNames")
            return Tm("deref", p)
        ex.opaque_value = field
    def accept(s, ex, st, id, reqm):
        """its pattern matches and its method is empty or the request's up to case"""
        from .pillow import ci_term
        m = ratom(s.meth(Z(id))); return and_(matches(Z(id)), or_(eq(m.len(), 0), ci_term(ex, st, m, reqm)))

def use_cstr(ex):
    def cstr_of(s, r):          # assumption: methods hold no NUL
        q = Rope(r.p[:-1]); ex.prove(s, ex.holds(s, eq(Rope(r.p[-1:]).len(), 1)) and ex.holds(s, eq(r.p[-1:] and Rope(r.p[-1:]).get(0), 0)), "c-string", "terminated", where="post"); return q
    ex.cstr_of = cstr_of
def globals_ready(ex, st):
    """runs the module's static initialisers"""
    m = ex.modules[0]; fs = [f for n, f in m.funcs.items() if n.startswith("_GLOBAL__sub_I") and f.defined]
    for f in fs:
        r = ex.run(st, f, [])
        if len(r) != 1: raise Unsupported("static initialisation forks")
        st = r[0]
    st.trace = []; return st

class In(ValFold):
    """fold whose definition adds facts of its own to the state it is unfolded in"""
    def unfold(s, ex, st, idxs):
        s.cur = st; ValFold.unfold(s, ex, st, idxs)
class Bounded(BytesFold):
    """total length below 2^29 (assumption)"""
    def facts(s, ex, st, i): BytesFold.facts(s, ex, st, i); st.pc += [s.lenf(Z(i)) <= 1 << 29, s.lenf(Z(i) + 1) <= 1 << 29]
class Filter(ListFold):
    """at most one item per index"""
    def facts(s, ex, st, i): ListFold.facts(s, ex, st, i); st.pc.append(s.lenf(Z(i)) <= Z(i))
    def unfold(s, ex, st, idxs):
        for i in idxs: s.facts(ex, st, i)

def handle(ex):
    st = world(ex); T = Table(ex, st); con = fint("connection"); st.pc.append(con > 0)
    path = Tm("QUrl::fromPercentEncoding", conn_bytes(ex, st, con, "requestPath"))
    G = ex.new_cells(st, "ghost", 32); g = st.w(G).cells; g[0] = (8, 0); g[8] = (8, 0); g[16] = (8, 0)      # route matched last, parameters set, routes taken
    P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h))
    def index_in(C):
        s = C.st; p = C.a[0]; ok = isinstance(p, OPtr) and p.off == T.R["regExp"]
        ex.prove(s, ok, "post-pattern", "the pattern of a route is matched", where="post")
        v = argval(C, C.a[1], "QString const&"); ex.prove(s, isinstance(v, Tm) and v.key() == path.key() and eq(C.a[2], 0) is True, "post-path", "matched against the decoded path of the request, from its start: %r" % (v,), where="post")
        if not ok: raise Unsupported("pattern of unknown origin")
        s.w(G).cells[0] = (8, p.id); i = ex.tm_int(s, Tm("QRegExp::indexIn", p.id), -1, 1 << 30); s.pc.append((i != -1) == matches(Z(p.id))); return i
    P(r"QRegExp::(?:indexIn|lastIndexIn)\(QString const&, int, QRegExp::CaretMode\) const", index_in)
    def exact(C):
        C.a = list(C.a) + [0]; return index_in(C) != -1
    P(r"QRegExp::exactMatch\(QString const&\) const", exact)
    def cap(C):
        s = C.st; p = C.a[1]; ok = isinstance(p, OPtr) and p.off == T.R["regExp"]
        ex.prove(s, and_(ok, eq(s.mem[G].cells[0][1], p.id) if ok else False), "post-capture", "captures are those of the pattern matched last", where="post")
        ex.vset(s, C.a[0], Tm("capture", p.id, C.a[2]))
    P(r"QRegExp::cap\(int\)(?: const)?", cap)
    def setparam(C):
        s = C.st; k = s.mem[G].cells[8][1]; r = s.mem[G].cells[0][1]; same_ids(ex, s, objid(C.a[0]), con, "parameter of the request")
        n, v = [argval(C, x, "QString const&") for x in C.a[1:3]]
        ok = isinstance(n, Tm) and n.op == "paramName" and isinstance(v, Tm) and v.op == "capture"
        ex.prove(s, ok and and_(eq(n.a[0], r), eq(n.a[1], k), eq(v.a[0], r), eq(v.a[1], add(k, 1))), "post-param", "parameter %s of the route is set to capture %s: %r = %r" % (k, add(k, 1) if not isz(k) else "k+1", n, v), where="post")
        ex.prove(s, and_(lt(k, T.np(Z(r))), eq(s.mem[G].cells[16][1], 0)), "post-param", "parameters are set before the route is invoked", where="post"); s.w(G).cells[8] = (8, add(k, 1))
    ex.contracts["Pillow::HttpConnection::setRequestParam(QString const&, QString const&)"] = setparam
    def cur_index(s, h):
        for c in reversed(s.pc):
            if z3.is_gt(c) and z3.is_app(c.arg(0)) and c.arg(0).decl() == T.route: i = c.arg(0).arg(0); return i if ex.holds(s, T.route(i) == Z(h.id)) else None
    def reqm(s):
        """the method that counts"""
        base = Tm("HttpConnection.requestMethod", okey(con), 0); prm = Tm("HttpConnection.requestParamValue", okey(con), 0, qs_lit(b"_method"))
        empty = ex.tm_bool(Tm("QString::isEmpty", prm)); b, a = ratom(ex.tm_atom(s, base)), ratom(ex.tm_atom(s, Tm("QString::toAscii", prm)))
        return [(and_(eq(T.mp, 1), not_(empty)), a), (not_(and_(eq(T.mp, 1), not_(empty))), b)]
    i0 = z3.Int("i")
    folds = []
    for c, r in reqm(st):
        f = In("none_accepts_before", True, None, claim=True); f.cur = st; f.stepf = lambda i, v, f=f, r=r: and_(v, not_(T.accept(ex, f.cur, T.route(Z(i)), r))); folds.append(f); ex.foldlist.append(f)
    nset = ValFold("set_before", 0, lambda i, x: add(x, 1)); ex.foldlist.append(nset)
    which = fint("match"); mroute = ffun("matched_route")      # the k-th route whose pattern matches
    lf = Filter("matching routes", lambda i: [(matches(T.route(Z(i))), [("item", {0: (8, OPtr(T.route(Z(i)), "Route"))})]), (Not(matches(T.route(Z(i)))), [])])
    def elem(ex2, st2, k, off): st2.pc.append(mroute(Z(k)) > 0); return OPtr(mroute(Z(k)), "Route")
    lf.elem = elem; ex.foldlist.append(lf)
    allow = Bounded("allow", lambda k: [(eq(k, 0), ratom(T.meth(mroute(Z(k))))), (not_(eq(k, 0)), rlit(b", ") + ratom(T.meth(mroute(Z(k)))))]); ex.foldlist.append(allow)
    def stricmp(C):
        from .pillow import ci_term
        ra, rb = ex.cstr(C.st, C.a[0]), ex.cstr(C.st, C.a[1]); v = ex.tm_int(C.st, Tm("stricmp", ra, rb), -(1 << 31), (1 << 31) - 1); C.st.pc.append((v == 0) == B(ci_term(ex, C.st, ra, rb))); return v
    ex.contracts["qstricmp(char const*, char const*)"] = stricmp
    use_cstr(ex)
    def invoke(C):
        s = C.st; h = C.a[0]; same_ids(ex, s, objid(C.a[1]), con, "invoked with the request's connection")
        ex.prove(s, eq(s.mem[G].cells[16][1], 0), "post-once", "one route only", where="post")
        ex.prove(s, eq(s.mem[G].cells[0][1], h.id), "post-matched", "the route matched last is invoked", where="post")
        ex.prove(s, eq(s.mem[G].cells[8][1], T.np(Z(h.id))), "post-params", "all parameters are set before the route is invoked", where="post")
        i = cur_index(s, h); ex.prove(s, i is not None, "post-first", "the invoked route is in the table", where="post")
        if i is not None:
            for (c, r), f in zip(reqm(s), folds):
                u = s.fork(); u.pc.append(B(c))
                if ex.feasible(u, True): ex.prove(u, and_(f.f(Z(i)), T.accept(ex, u, h.id, r)), "post-first", "it is the first route that matches and accepts the method", where="post")
        s.w(G).cells[16] = (8, 1); return fbool("accepted")
    ex.vmethods[("Route", 2)] = ("Route::invoke(HttpConnection*)", invoke)
    ex.strict_concrete = True; st = globals_ready(ex, st)
    fn = target(ex, RT + "handleRequest(Pillow::HttpConnection*)"); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(T.o), OPtr(con, "HttpConnection")]):
        for t, (taken,) in cases(ex, r, eq(r.mem[G].cells[16][1], 1)):
            ev = does(t)
            if taken: seen.add("taken"); ex.prove(t, B(t.ret), "post-result", "handled", where="post"); seq(ex, t, ev, [], "nothing else is done to the request"); continue
            for (c, q), f in zip(reqm(t), folds):
                u = t.fork(); u.pc.append(B(c))
                if ex.feasible(u, True): ex.prove(u, f.f(T.n), "post-none", "no route accepts the request", where="post")
            ex.prove(t, eq(t.mem[G].cells[8][1], 0), "post-untouched", "parameters untouched", where="post")
            for u, (nomatch, e404, e405) in cases(ex, t, lf.lenf(Z(T.n)) == 0, T.um == 0, T.mm == 0):
                ev = does(u)
                if nomatch and e404 or not nomatch and e405:
                    seen.add("404" if nomatch else "405"); ex.prove(u, B(u.ret), "post-result", "handled", where="post")
                    if not seq(ex, u, ev, ["writeResponse"], "one response"): continue
                    same_ids(ex, u, ev[0][2], con, "the request's connection"); ex.prove(u, eq(ev[0][3], 404 if nomatch else 405), "post-status", "status", where="post"); ex.prove_rope(u, ev[0][5], Rope(), "post-content", "no content")
                    same_headers(ex, u, ev[0][4], [] if nomatch else [(rlit(b"Allow"), Rope([FoldP(allow, lf.lenf(Z(T.n)))]))], "404" if nomatch else "405")
                else:
                    seen.add("declined"); ex.prove(u, not_(B(u.ret)), "post-result", "not handled", where="post"); seq(ex, u, ev, [], "left untouched")
    ex.prove(st, seen == {"taken", "404", "405", "declined"}, "cover-cases", "cases seen: %s" % sorted(seen), where="post")
HANDLE = Unit("HttpHandlerSimpleRouter::handleRequest", RSRC, handle, budget=400)
C15 = [HANDLE]

# ---------------------------------------------------------------- registration: what is appended, and what it does when it is invoked
def reg_world(ex):
    st = world(ex); T = Table(ex, st); P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h))
    def p2r(C):
        v = argval(C, C.a[2], "QString const&"); C.ev("pattern"); ex.prove(C.st, C.a[1].oid == T.o, "post-router", "its own pattern translation", where="post")
        if isinstance(C.a[3], Ptr) and C.a[3].oid is not None: ex.vset(C.st, C.a[3], Tm("namesOf", v))
        ex.vset(C.st, C.a[0], Tm("patternOf", v))
    ex.contracts[RT + "pathToRegExp(QString const&, QStringList*)"] = p2r
    ex.vmethods[("HttpHandler", 12)] = ("HttpHandler::handleRequest(HttpConnection*)", lambda C: (C.ev("handle", objid(C.a[0]), objid(C.a[1])), fbool("handled"))[1])
    a = ex.new_cells(st, "method", 8); m = ratom(ex.tm_atom(st, Tm("val", fint("methodArg")))); ex.vset(st, Ptr(a), pure(m))
    b = ex.new_cells(st, "path", 8); path = Tm("val", fint("pathArg")); ex.vset(st, Ptr(b), path)
    con = fint("connection"); st.pc.append(con > 0)
    return st, T, [Ptr(T.o), Ptr(a), Ptr(b)], m, path, con
def appended(ex, t, T):
    """the new last element of the table, everything before it unchanged; None when nothing was added"""
    v = ex.vget(t, Ptr(T.d, T.P["routes"])); ps = ex.list_pieces(t, v.oid)
    if ps is None or not ps or ps[0][0] != "base": ex.prove(t, False, "post-table", "the table keeps its routes", where="post"); return None
    ex.prove(t, and_(eq(ps[0][2], T.n), ps[0][1] is t.mem[T.vec.oid].base), "post-table", "the routes registered before stay", where="post")
    if len(ps) == 1: return None
    ex.prove(t, len(ps) == 2 and ps[1][0] == "item", "post-table", "one route is added", where="post")
    return ps[1][1][0][1]
def route_ok(ex, t, T, p, m, path):
    ex.prove_rope(t, ba_of(ex, t, Ptr(p.oid, T.R["method"])), m, "post-method", "method of the route")
    same_tm(ex, t, ex.vget(t, Ptr(p.oid, T.R["regExp"])), Tm("patternOf", path), "post-pattern", "pattern of the route"); same_tm(ex, t, ex.vget(t, Ptr(p.oid, T.R["paramNames"])), Tm("namesOf", path), "post-names", "parameter names of the route")
def invoked(ex, t, p, con):
    """final states of invoking the route, with the events of that call only"""
    t = t.fork(); t.trace = []; vt = ex.load(t, Ptr(p.oid, 0), ir.PTR, ex.modules[0]); f = ex.load(t, Ptr(vt.oid, vt.off + 16), ir.PTR, ex.modules[0])
    return ex.run(t, f.mod.funcs[f.name] if hasattr(f, "mod") else ex.modules[0].funcs[f.name], [p, OPtr(con, "HttpConnection")])
def reg(which):
    def run(ex):
        st, T, args, m, path, con = reg_world(ex); P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h)); n = 0
        if which == "handler":
            h = fint("handler"); st.pc.append(h >= 0); fn = target(ex, RT + "addRoute(QByteArray const&, QString const&, Pillow::HttpHandler*)"); args = args + [OPtr(h, "HttpHandler")]
        elif which == "function":
            f = ex.new_cells(st, "function", 32); ex.vset(st, Ptr(f), Tm("func", fint("f")), 8); F = r"std::function<void \(Pillow::HttpConnection\*\)>::"; fv = ex.vget(st, Ptr(f))
            P(F + r"function\(\)", lambda C: ex.vset(C.st, C.a[0], Tm("nofunc"))); P(F + r"~function\(\)", lambda C: None)
            P(F + r"operator=\(std::function.*const&\)", lambda C: (ex.vset(C.st, C.a[0], ex.vget(C.st, C.a[1])), C.a[0])[1])
            P(F + r"operator\(\)\(Pillow::HttpConnection\*\) const", lambda C: C.ev("call", ex.vget(C.st, C.a[0]), objid(C.a[1])))
            fn = target(ex, RT + "addRoute(QByteArray const&, QString const&, std::function<void (Pillow::HttpConnection*)> const&)"); args = args + [Ptr(f)]
        else:
            code = fint("statusCode"); st.pc += [code >= -(1 << 31), code < 1 << 31]; H = Headers(ex, st, "hdr"); hc = ex.new_cells(st, "headers", 8); ex.vset(st, Ptr(hc), H.vec)
            c = ex.new_cells(st, "content", 8); content = ratom(ex.tm_atom(st, Tm("val", fint("content")))); ex.vset(st, Ptr(c), pure(content))
            fn = target(ex, RT + "addRoute(QByteArray const&, QString const&, int, Pillow::HttpHeaderCollection const&, QByteArray const&)"); args = args + [code, Ptr(hc), Ptr(c)]
        cover(ex, st, "precondition")
        for t in ex.run(st, fn, args):
            p = appended(ex, t, T); ex.prove(t, p is not None, "post-table", "the route is added", where="post")
            if p is None: continue
            route_ok(ex, t, T, p, m, path)
            for r in invoked(ex, t, p, con):
                for u, (alive,) in cases(ex, r, (h != 0) if which == "handler" else BoolVal(True)):
                    n += 1; ev = does(u)
                    if which == "handler":
                        if seq(ex, u, ev, ["handle"] if alive else [], "the handler is asked") and alive: same_ids(ex, u, ev[0][1], h, "the handler"); same_ids(ex, u, ev[0][2], con, "the connection")
                    elif which == "function":
                        if seq(ex, u, ev, ["call"], "the function is called"): same_tm(ex, u, ev[0][1], fv, "post-function", "the registered function"); same_ids(ex, u, ev[0][2], con, "the connection")
                    elif seq(ex, u, ev, ["writeResponse"], "the response is written"):
                        e = ev[0]; same_ids(ex, u, e[2], con, "the connection"); ex.prove(u, eq(e[3], code), "post-status", "status", where="post"); ex.prove_rope(u, e[5], content, "post-content", "content")
                        hs = e[4]; ok = isinstance(hs, tuple) and hs[2] is not None and len(hs[2]) == 1 and hs[2][0][0] == "base" and hs[2][0][1] is H.base
                        ex.prove(u, ok and eq(hs[2][0][2], H.n), "post-headers", "the configured headers", where="post")
        if n < (2 if which == "handler" else 1): raise Unsupported("postcondition not reached")
    return run
def reg_slot(ex):
    use_cstr(ex)
    st, T, args, m, path, con = reg_world(ex); P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h)); n = 0; seen = set()
    obj = fint("object"); st.pc.append(obj >= 0); mlen = fint("member_n"); st.pc += [mlen >= 0, mlen <= 1 << 20]; g = ffun("member"); st.pc.append(z3.Implies(mlen > 0, g(IntVal(0)) != 0))
    nul = fbool("no_member"); idx = z3.Function("slot_index", IntSort(), IntSort())
    mo = ex.new_bytes(st, "member", Rope([Sl(UFSrc(g), 0, mlen)]) + rlit(b"\0"), const=True)
    st.mem[mo].data = {"cstr": lambda ex2, s, p: ex2.subrope(s, Rope([Sl(UFSrc(g), 0, mlen)]), p.off, sub(mlen, p.off))}
    ex.vmethods[("QObject", 0)] = ("QObject::metaObject() const", lambda C: (ex.nonnull(C.st, C.a[0]), same_ids(ex, C.st, objid(C.a[0]), obj, "meta object of the target"), OPtr(z3.IntVal(77), "QMetaObject"))[2])
    def slot(C):
        p = C.a[1]; out = []
        if not (isinstance(p, Ptr) and p.oid == mo and isz(p.off)): return ex.tm_int(C.st, Tm("indexOfSlot", ex.cstr(C.st, p)), -1, 1 << 20)
        for t, one in C.split(eq(p.off, 1)):
            if not one: ex.prove(t, eq(p.off, 0), "post-member", "the name or the name after the id", where="post")
            out.append((t, ex.tm_int(t, Tm("indexOfSlot", ex.cstr(t, Ptr(p.oid, 1 if one else 0))), -1, 1 << 20)))
        return out
    ex.contracts["QMetaObject::indexOfSlot(char const*) const"] = slot
    ex.contracts["QMetaObject::indexOfMethod(char const*) const"] = lambda C: ex.tm_int(C.st, Tm("indexOfMethod", ex.cstr(C.st, C.a[1])), -1, 1 << 20)
    ex.contracts["QMetaObject::method(int) const"] = lambda C: Agg([OPtr(z3.IntVal(77), "QMetaObject"), C.a[1]])
    ex.contracts["QMetaMethod::QMetaMethod()"] = lambda C: (ex.store(C.st, C.a[0], NULL, 8), ex.store(C.st, Ptr(C.a[0].oid, C.a[0].off + 8), 0, 4))[1]
    def rest(C, k):      # connection type (automatic when not given) and arguments
        return (C.a[k], tuple(C.a[k + 1:])) if "Qt::ConnectionType" in C.dem else (0, tuple(C.a[k:]))
    def dyn(C): C.ev("invokeByName", objid(C.a[0]), ex.cstr(C.st, C.a[1]), *rest(C, 2)); return fbool("invoked")
    P(r"QMetaObject::invokeMethod\(QObject\*, char const\*, .*\)", dyn)
    def stat(C): C.ev("invokeMethod", ex.load(C.st, Ptr(C.a[0].oid, C.a[0].off + 8), ir.INT(32), C.mod), objid(C.a[1]), *rest(C, 2)); return fbool("invoked")
    P(r"QMetaMethod::invoke\(QObject\*, .*\) const", stat)
    fn = target(ex, RT + "addRoute(QByteArray const&, QString const&, QObject*, char const*)"); cover(ex, st, "precondition")
    def carries(u, e, a):
        """one of the arguments is the connection"""
        return any(isinstance(x, Ptr) and x.oid is not None and u.mem[x.oid].kind == "cells" and isinstance(u.mem[x.oid].cells.get(x.off, (0, None))[1], OPtr) and ex.holds(u, eq(u.mem[x.oid].cells[x.off][1].id, con)) for x in a)
    for null in (True, False):
        s0 = st.fork(); s0.pc.append(B(nul) if null else Not(nul))
        for r in ex.run(s0, fn, args + [OPtr(obj, "QObject"), NULL if null else Ptr(mo)]):
            for t, (good,) in cases(ex, r, And(obj > 0, BoolVal(not null), mlen > 0)):
                p = appended(ex, t, T); n += 1
                if not good: ex.prove(t, p is None, "post-refused", "no target or no member: not added", where="post"); seen.add("refused"); continue
                ex.prove(t, p is not None, "post-table", "the route is added", where="post")
                if p is None: continue
                route_ok(ex, t, T, p, m, path)
                for t2, (slotmacro,) in cases(ex, t, eq(g(IntVal(0)), 49)):
                    name = Rope([Sl(UFSrc(g), 1, sub(mlen, 1))]) if slotmacro else Rope([Sl(UFSrc(g), 0, mlen)]); i = ex.tm_int(t2, Tm("indexOfSlot", name), -1, 1 << 20)
                    for t3, (byname,) in cases(ex, t2, eq(i, -1)):
                        for u in invoked(ex, t3, p, con):
                            ev = does(u)
                            if not seq(ex, u, ev, ["invokeByName" if byname else "invokeMethod"], "the member is invoked"): continue
                            e = ev[0]; seen.add(e[0])
                            if byname: same_ids(ex, u, e[1], obj, "on the target"); ex.prove_rope(u, e[2], name, "post-member", "by its name")
                            else: same_ids(ex, u, e[2], obj, "on the target"); ex.prove(u, eq(e[1], i), "post-member", "the slot of that name: %r" % (e[1],), where="post")
                            ex.prove(u, eq(e[3], 0), "post-direct", "in the thread of the target", where="post"); ex.prove(u, carries(u, e, e[4]), "post-argument", "with the request's connection", where="post")
    ex.prove(st, seen == {"refused", "invokeByName", "invokeMethod"}, "cover-cases", "cases seen: %s" % sorted(seen), where="post")
C15 += [Unit("HttpHandlerSimpleRouter::addRoute/" + w, RSRC, reg(w)) for w in ("handler", "function", "static")] + [Unit("HttpHandlerSimpleRouter::addRoute/slot", RSRC, reg_slot)]

def config(ex):
    """each setting is what it was set to, the others stay"""
    st = world(ex); T = Table(ex, st); n = 0; names = [("methodMismatchAction", "setMethodMismatchAction(Pillow::HttpHandlerSimpleRouter::RoutingErrorAction)", T.mm), ("unmatchedRequestAction", "setUnmatchedRequestAction(Pillow::HttpHandlerSimpleRouter::RoutingErrorAction)", T.um), ("acceptsMethodParam", "setAcceptsMethodParam(bool)", T.mp)]
    asint = lambda v: ite(v, 1, 0) if isbool(v) else v
    cover(ex, st, "precondition")
    for name, setter, old in names:
        v = fbool("new") if "bool" in setter else fint("new"); s0 = st.fork()
        if not isbool(v): s0.pc += [v >= 0, v <= 1]
        for r in ex.run(s0, target(ex, RT + setter), [Ptr(T.o), v]):
            for nm, _, o in names:
                for t in ex.run(r, target(ex, RT + nm + "() const"), [Ptr(T.o)]): n += 1; ex.prove(t, eq(asint(t.ret), asint(v) if nm == name else o), "post", "%s after setting %s" % (nm, name), where="post")
    if n < 9: raise Unsupported("postcondition not reached")
C15.append(Unit("HttpHandlerSimpleRouter::settings", RSRC, config))
