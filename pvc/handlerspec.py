"""Contracts of the handlers of HttpHandler.cpp, proved against their bodies (C13, C14, C16, C24)."""
from .unit import *
from .opaque import *
from .folds import *
from .qt import number_at, number_rope
SRC = ["HttpHandler.cpp"]
NS = "Pillow::"
FIN = "Pillow::HttpHandlerFileTransfer::finished()"

def world(ex, *sigs):
    from .conn import start
    use_devices(ex); use_ci(ex); use_numbers(ex); use_connection(ex); use_qpointer(ex); use_hash(ex); use_files(ex); use_objects(ex)
    for s in sigs: signal(ex, s)
    return start(ex)
def mime_of(ex, st, path): return ratom(ex.tm_atom(st, Tm("mime", path)))
def use_mime(ex):
    """HttpMimeHelper under contract (proved in C11): a constant C string determined by the file name"""
    def h(C):
        ex, st = C.ex, C.st; r = mime_of(ex, st, argval(C, C.a[0], "QString const&"))
        o = ex.new_bytes(st, "mime type", r + rlit(b"\0"), const=True); st.mem[o].data = {"cstr": lambda ex, st, p, r=r: r}; return Ptr(o)
    ex.contracts["Pillow::HttpMimeHelper::getMimeTypeForFilename(QString const&)"] = h
def lay(ex, cls): return {k: v[0] for k, v in ex.modules[0].layouts[cls].items()}
def does(st): return [e for e in st.trace if isinstance(e, tuple)]
def seq(ex, t, ev, want, label, anywhere=()):
    """the events are exactly these (names only); those named in anywhere may come at any point"""
    got = [(e[1] if e[0] == "do" else e[0]) for e in ev]; f = lambda l: [x for x in l if x not in anywhere]
    ok = f(got) == f(want) and sorted(got) == sorted(want); ex.prove(t, ok, "post-events", "expected %s, did %s" % (list(want), got), where=label); return ok
def same_headers(ex, t, got, want, label):
    if isinstance(got, tuple) or len(got) != len(want): ex.prove(t, False, "post-headers", "%s headers, expected %d" % (got if isinstance(got, tuple) else len(got), len(want)), where=label); return
    for (n, v), (n2, v2) in zip(got, want):
        ex.prove_rope(t, n, n2, "post-headers", label + ": header name"); ex.prove_rope(t, v, v2, "post-headers", label + ": header value")
def same_tm(ex, t, a, b, kind, label):
    ex.prove(t, isinstance(a, Tm) and isinstance(b, Tm) and a.key() == b.key(), kind, "%s: %r, expected %r" % (label, a, b), where="post")
def same_ids(ex, t, a, b, label): ex.prove(t, ideq(a, b) if isinstance(a, tuple) or isinstance(b, tuple) else eq(a, b), "post-object", label, where="post")

def wired(ex, t, ev, a, sig, b, slot, label, queued=False):
    """signal sig of a is connected to slot of b, once"""
    n = sum(1 for e in ev if e[0] == "connect" and e[2] == sig and e[4] == slot and (not queued or e[5] == 2) and same_obj(ex, t, e[1], a) and same_obj(ex, t, e[3], b))
    ex.prove(t, n == 1, "post-wiring", "%s (%d connections)" % (label, n), where="post")

class FileH:
    def __init__(s, ex, st):
        s.off = lay(ex, "Pillow::HttpHandlerFile"); s.o = ex.new_cells(st, "HttpHandlerFile", 64)
        s.pub = Tm("val", fint("publicPath")); ex.vset(st, Ptr(s.o, s.off["_publicPath"]), s.pub)
        s.buf = fint("bufferSize"); st.pc += [s.buf >= -(1 << 31), s.buf < 1 << 31]; st.w(s.o).cells[s.off["_bufferSize"]] = (4, s.buf)
        s.conn = fint("connection"); st.pc.append(s.conn > 0)
        s.rp = Tm("ba.fromPercentEncoding", conn_bytes(ex, st, s.conn, "requestPath"), 37)
        for t in (s.rp, Tm("qs", s.rp)): pass
        s.path = Tm("qs", s.rp) if QS_WRAP else s.rp
        s.fi = Tm("QFileInfo", plus(s.pub, s.path))
    def args(s): return [Ptr(s.o), OPtr(s.conn, "HttpConnection")]
QS_WRAP = True

def file_world(ex):
    st = world(ex, FIN, NS + "HttpHandlerFile::changed()"); H = FileH(ex, st); use_mime(ex)
    ex.contracts["Pillow::HttpHandlerFileTransfer::writeNextPayload()"] = lambda C: C.ev("payload", objid(C.a[0]))
    return st, H

def contained(ex):
    """C13: whatever is opened or answered is inside the public directory; everything else is left alone"""
    st, H = file_world(ex); fn = target(ex, NS + "HttpHandlerFile::handleRequest(Pillow::HttpConnection*)"); cover(ex, st, "precondition"); n = 0
    b = lambda *a: ex.tm_bool(Tm(*a))
    empty, exists, isfile = b("QString::isEmpty", H.pub), b("QFileInfo::exists", H.fi), b("QFileInfo::isFile", H.fi)
    canon = Tm("QFileInfo::canonicalFilePath", H.fi); ends = b("endsWith", H.pub, Tm("qs", rlit(b"/")), 1); st.pc.append(z3.Implies(B(isfile), B(exists)))      # QFileInfo: what does not exist is not a file
    slash = plus(H.pub, Tm("qs", rlit(b"/")))
    inside = ite(ends, b("QString::startsWith", canon, H.pub, 1), b("QString::startsWith", canon, slash, 1))
    for r in ex.run(st, fn, H.args()):
        n += 1; ev = does(r)
        if ev or ex.holds(r, B(r.ret)):
            ex.prove(r, and_(not_(empty), exists, isfile), "post-regular-file", "served only from a configured directory, an existing regular file", where="post")
            ex.prove(r, inside, "post-inside", "served only when its canonical path is below the public directory", where="post")
            ex.prove(r, B(r.ret), "post-result", "a request acted upon is reported as handled", where="post")
            f = [e for e in ev if e[0] == "newfile"]
            ex.prove(r, len(f) == 1, "post-one-file", "one file is opened", where="post")
            for e in f: ex.prove(r, isinstance(e[2], Tm) and e[2].key() in [x.key() for x in (Tm("QFileInfo::filePath", H.fi), plus(H.pub, H.path), canon, Tm("QFileInfo::absoluteFilePath", H.fi))], "post-file", "the file opened is the one examined: %r" % (e[2],), where="post")
        else:
            ex.prove(r, not_(B(r.ret)), "post-declined", "a declined request is reported as not handled", where="post")
            ex.prove(r, not_(and_(not_(empty), exists, isfile, inside)), "post-serves", "a regular file below the public directory is served", where="post")
    if n < 2: raise Unsupported("postcondition not reached")

def set_path(ex):
    """the public path is stored in canonical form; anything else leaves it empty"""
    st, H = file_world(ex); fn = target(ex, NS + "HttpHandlerFile::setPublicPath(QString const&)"); cover(ex, st, "precondition"); n = 0
    a = ex.new_cells(st, "publicPath", 8); new = Tm("val", fint("newPath")); ex.vset(st, Ptr(a), new)
    same = term_eq(ex, st, H.pub, new); empty = ex.tm_bool(Tm("QString::isEmpty", new))
    for r in ex.run(st, fn, [Ptr(H.o), Ptr(a)]):
        for t, (s, e) in cases(ex, r, same, empty):
            n += 1; v = ex.vget(t, Ptr(H.o, H.off["_publicPath"]))
            want = H.pub if s else new if e else Tm("QFileInfo::canonicalFilePath", Tm("QFileInfo", new))
            same_tm(ex, t, v, want, "post", "public path")
            seq(ex, t, does(t), [] if s else ["emit"], "signal")
    if n < 3: raise Unsupported("postcondition not reached")

def served(ex):
    """C14: the response"""
    st, H = file_world(ex); fn = target(ex, NS + "HttpHandlerFile::handleRequest(Pillow::HttpConnection*)"); cover(ex, st, "precondition"); n = 0
    seen = set(); L = lay(ex, "Pillow::HttpHandlerFileTransfer")
    for r in ex.run(st, fn, H.args()):
        ev = does(r)
        if not ev: continue
        f = [e[1] for e in ev if e[0] == "newfile"]; op = [e for e in ev if e[:2] == ("do", "open")]
        ex.prove(r, len(f) == 1 and len(op) == 1 and ideq(op[0][2], f[0]) and ev.index(op[0]) == 1, "post-open", "the file is opened first", where="post")
        if len(f) != 1 or len(op) != 1: continue
        f = f[0]; ex.prove(r, (not isz(op[0][4])) and op[0][4] in (1, 1 | 2 * 0), "post-readonly", "opened for reading only (%s)" % (op[0][4],), where="post")
        size = ex.tm_int(r, Tm("dev.size", okey(f), 1), 0)
        isconn = lambda t, e: same_ids(ex, t, e[2], H.conn, "the connection of the request")
        ismeth = lambda t, bs: ex.ropes_eq_term(t, conn_bytes_at(ex, t, H.conn, "requestMethod", 0), rlit(b"HEAD"))
        for t, (opened, small, head) in cases(ex, r, op[0][3], le(size, H.buf), ismeth):
            n += 1; rest = ev[2:]; ctype = (rlit(b"Content-Type"), mime_of(ex, t, H.path))
            ex.prove(t, B(t.ret), "post-result", "handled", where="post")
            if not opened:
                seen.add("403")
                if seq(ex, t, rest, ["writeResponse", "delete"], "403", ("delete",)): w = [e for e in rest if e[1] == "writeResponse"][0]; isconn(t, w); ex.prove(t, eq(w[3], 403), "post-status", "403", where="post")
            elif small:
                if [e[1] for e in rest if e[0] == "do"][:1] != ["readAll"]: seq(ex, t, rest, ["readAll", "writeResponse", "delete"], "small file"); continue
                if not seq(ex, t, rest, ["readAll", "writeResponse", "delete"], "small file", ("delete",)): continue
                content = rest[0][4]; w = [e for e in rest if e[1] == "writeResponse"][0]; isconn(t, w)
                H5 = Tm("QCryptographicHash::addData", Tm("QCryptographicHash", 1), content)      # MD5
                etag = Tm("ba.toHex", ratom(ex.tm_atom(t, Tm("QCryptographicHash::result", H5))))
                et = ratom(ex.tm_atom(t, etag)); inm = conn_bytes_at(ex, t, H.conn, "requestHeaderValue", 0, rlit(b"If-None-Match"))
                for u, (m,) in cases(ex, t, ex.ropes_eq_term(t, inm, et)):
                    seen.add("304" if m else "200")
                    ex.prove(u, eq(w[3], 304 if m else 200), "post-status", "304 exactly if the client's tag is the content's", where="post")
                    if m: same_headers(ex, u, w[4], [], "304"); ex.prove_rope(u, w[5], Rope(), "post-content", "304 carries no content")
                    else: same_headers(ex, u, w[4], [ctype, (rlit(b"ETag"), et)], "200"); ex.prove_rope(u, w[5], content, "post-content", "the whole file")
            else:
                num = ratom(number_at(t, 64, Z(size))) if False else None
                nothing = head or ex.holds(t, eq(size, 0))
                if nothing:
                    seen.add("head")
                    if not seq(ex, t, rest, ["writeHeaders", "delete"], "headers only", ("delete",)): continue
                else:
                    seen.add("large")
                    if not seq(ex, t, [e for e in rest if e[0] != "connect"], ["writeHeaders", "parent", "payload"], "large file"): continue
                w = [e for e in rest if e[0] == "do" and e[1] == "writeHeaders"][0]; isconn(t, w); ex.prove(t, eq(w[3], 200), "post-status", "200", where="post")
                cl = number_text(ex, t, size)
                same_headers(ex, t, w[4], [ctype, (rlit(b"Content-Length"), cl)], "large file")
                if nothing: continue
                par = [e for e in rest if e[0] == "parent"][0]; tr = [e for e in rest if e[0] == "payload"][0][1]
                ex.prove(t, ideq(par[1], f) and ideq(par[2], tr) and rest[-1][0] == "payload", "post-transfer", "the transfer owns the file and starts last", where="post")
                ex.prove(t, isinstance(tr, tuple), "post-transfer", "a new transfer object", where="post")
                if isinstance(tr, tuple):
                    p = lambda k: Ptr(tr[1], L[k])
                    same_ids(ex, t, objid(ex.load(t, p("_sourceDevice"), ir.PTR, ex.modules[0])), f, "source of the transfer"); same_ids(ex, t, objid(ex.load(t, p("_connection"), ir.PTR, ex.modules[0])), H.conn, "destination of the transfer")
                    ex.prove(t, eq(ex.load(t, p("_bufferSize"), ir.INT(32), ex.modules[0]), ite(lt(H.buf, 512), 512, H.buf)), "post-buffer", "buffer size of the transfer", where="post")
                    wired(ex, t, rest, tr, "2finished()", tr, "1deleteLater()", "the transfer deletes itself when finished")
                    for sig in ("2requestCompleted(Pillow::HttpConnection*)", "2closed(Pillow::HttpConnection*)", "2destroyed()"): wired(ex, t, rest, H.conn, sig, tr, "1deleteLater()", "the transfer ends with " + sig[1:])
                    wired(ex, t, rest, ex.tm_int(t, Tm("HttpConnection.outputDevice", Tm("val", H.conn), 1), 0), "2bytesWritten(qint64)", tr, "1writeNextPayload()", "the transfer continues, through the event loop, when output has been written", queued=True)
    ex.prove(st, seen >= {"403", "304", "200", "head", "large"}, "cover-cases", "cases seen: %s" % sorted(seen), where="post")
def conn_bytes_at(ex, st, o, name, ep, *a): return ratom(ex.tm_atom(st, Tm("HttpConnection." + name, okey(o), ep, *a)))
def number_text(ex, st, v): return number_rope(ex, st, v)

def transfer_world(ex):
    st = world(ex, FIN); L = lay(ex, "Pillow::HttpHandlerFileTransfer"); o = ex.new_cells(st, "HttpHandlerFileTransfer", 64)
    src, con, buf = fint("source"), fint("connection"), fint("bufferSize"); st.pc += [src >= 0, con >= 0, buf >= 512, buf < 1 << 31]
    ex.store(st, Ptr(o, L["_sourceDevice"]), OPtr(src, "QIODevice"), 8); ex.store(st, Ptr(o, L["_connection"]), OPtr(con, "HttpConnection"), 8); st.w(o).cells[L["_bufferSize"]] = (4, buf)
    return st, o, src, con, buf
def payload(ex):
    """C14: one step of the transfer: what is read next is what is written next, never queueing more than the buffer size"""
    st, o, src, con, buf = transfer_world(ex); fn = target(ex, NS + "HttpHandlerFileTransfer::writeNextPayload()"); cover(ex, st, "precondition"); n = 0
    dev = ex.tm_int(st, Tm("HttpConnection.outputDevice", Tm("val", con), 0), 0)
    i = lambda nm, d, ep=0: ex.tm_int(st, Tm("dev." + nm, Tm("val", d), ep), 0)
    size, pos = i("size", src), i("pos", src); queued = ex.tm_int(st, Tm("dev.bytesToWrite", Tm("val", dev), 0), 0); st.pc += [pos <= size, size <= 1 << 62, queued <= 1 << 40]
    for r in ex.run(st, fn, [Ptr(o)]):
        room = sub(buf, queued); left = sub(size, pos)
        for t, (alive, some) in cases(ex, r, And(src > 0, con > 0, dev > 0), and_(lt(0, room), lt(0, left))):
            n += 1; ev = does(t)
            if not (alive and some): seq(ex, t, ev, [], "nothing to do"); continue
            got = [e for e in ev if e[0] == "do"]
            if not seq(ex, t, got, ["read", "writeContent"], "payload"): continue
            rd, wr = got; same_ids(ex, t, rd[2], src, "read from the source"); same_ids(ex, t, wr[2], con, "written to the connection")
            ex.prove(t, eq(rd[3], ite(lt(left, room), left, room)), "post-amount", "as much as fits the buffer and is left", where="post")
            ex.prove_rope(t, wr[3], rd[4], "post-content", "exactly what was read")
            ex.prove(t, le(add(queued, wr[3].len()), buf), "post-bound", "never more than the buffer size queued", where="post")
            atend = ex.tm_bool(Tm("dev.atEnd", Tm("val", src), 1)); em = [e for e in ev if e[0] == "emit"]
            ex.prove(t, (B(atend) if em else not_(B(atend))), "post-finished", "finished exactly at the end of the source", where="post")
            ex.prove(t, len(em) <= 1 and (not em or em[0][1] == "finished" and ev[-1] is em[0]), "post-finished", "announced once, last", where="post")
    if n < 2: raise Unsupported("postcondition not reached")

CONTAINED = Unit("HttpHandlerFile::handleRequest/containment", SRC, contained)
SETPATH = Unit("HttpHandlerFile::setPublicPath", SRC, set_path)
SERVED = Unit("HttpHandlerFile::handleRequest/response", SRC, served)
PAYLOAD = Unit("HttpHandlerFileTransfer::writeNextPayload", SRC, payload)

# ---------------------------------------------------------------- fixed, not found, function, stack (C16)
def fixed(ex):
    st = world(ex, NS + "HttpHandlerFixed::changed()"); L = lay(ex, "Pillow::HttpHandlerFixed"); o = ex.new_cells(st, "HttpHandlerFixed", 64)
    code = fint("statusCode"); st.pc += [code >= -(1 << 31), code < 1 << 31]; st.w(o).cells[L["_statusCode"]] = (4, code)
    content = ratom(ex.tm_atom(st, Tm("val", fint("content")))); ex.vset(st, Ptr(o, L["_content"]), pure(content))
    con = fint("connection"); st.pc.append(con > 0); fn = target(ex, NS + "HttpHandlerFixed::handleRequest(Pillow::HttpConnection*)"); cover(ex, st, "precondition"); n = 0
    for t in ex.run(st, fn, [Ptr(o), OPtr(con, "HttpConnection")]):
        n += 1; ev = does(t); ex.prove(t, B(t.ret), "post-result", "handled", where="post")
        if seq(ex, t, ev, ["writeResponse"], "one response"):
            same_ids(ex, t, ev[0][2], con, "the request's connection"); ex.prove(t, eq(ev[0][3], code), "post-status", "the configured status", where="post")
            same_headers(ex, t, ev[0][4], [], "no headers"); ex.prove_rope(t, ev[0][5], content, "post-content", "the configured content")
    if n < 1: raise Unsupported("postcondition not reached")
def fixed_set(which):
    def run(ex):
        st = world(ex, NS + "HttpHandlerFixed::changed()"); L = lay(ex, "Pillow::HttpHandlerFixed"); o = ex.new_cells(st, "HttpHandlerFixed", 64)
        old, new = fint("old"), fint("new")
        if which == "status":
            st.pc += [old >= 0, old < 1 << 31, new >= 0, new < 1 << 31]; st.w(o).cells[L["_statusCode"]] = (4, old); arg = new; same = eq(old, new)
            fn = target(ex, NS + "HttpHandlerFixed::setStatusCode(int)")
        else:
            a, b = [ratom(ex.tm_atom(st, Tm("val", x))) for x in (old, new)]; ex.vset(st, Ptr(o, L["_content"]), pure(a)); c = ex.new_cells(st, "content", 8); ex.vset(st, Ptr(c), pure(b)); arg = Ptr(c)
            same = ex.ropes_eq_term(st, a, b); fn = target(ex, NS + "HttpHandlerFixed::setContent(QByteArray const&)")
        cover(ex, st, "precondition"); n = 0
        for r in ex.run(st, fn, [Ptr(o), arg]):
            for t, (s,) in cases(ex, r, same):
                n += 1
                if which == "status": ex.prove(t, eq(ex.load(t, Ptr(o, L["_statusCode"]), ir.INT(32), ex.modules[0]), new), "post", "the status is the new one", where="post")
                else: ex.prove_rope(t, ba_of(ex, t, Ptr(o, L["_content"])), a if s else b, "post", "the content is the new one")
                seq(ex, t, does(t), [] if s else ["emit"], "change signal")
        if n < 2: raise Unsupported("postcondition not reached")
    return run
def notfound(ex):
    st = world(ex); o = ex.new_cells(st, "HttpHandler404", 64); con = fint("connection"); st.pc.append(con > 0)
    fn = target(ex, NS + "HttpHandler404::handleRequest(Pillow::HttpConnection*)"); cover(ex, st, "precondition"); n = 0
    path = Tm("qs", conn_bytes(ex, st, con, "requestPath"))
    for t in ex.run(st, fn, [Ptr(o), OPtr(con, "HttpConnection")]):
        n += 1; ev = does(t); ex.prove(t, B(t.ret), "post-result", "handled", where="post")
        if seq(ex, t, ev, ["writeResponse"], "one response"):
            same_ids(ex, t, ev[0][2], con, "the request's connection"); ex.prove(t, eq(ev[0][3], 404), "post-status", "404", where="post"); same_headers(ex, t, ev[0][4], [], "no headers")
            ks = [k for k in names_in(ex, ev[0][5])]; ex.prove(t, any(vkey(path) in parts_of(k) for k in ks), "post-content", "the text names the requested path: %r" % (ks,), where="post")
    if n < 1: raise Unsupported("postcondition not reached")
def names_in(ex, r):
    """the values a text was made from"""
    out = []
    for p in r.p if isinstance(r, Rope) else ():
        tm = ex.tmrev.get(str(getattr(getattr(p, "src", None), "id", "")))
        if tm is not None: out.append(tm.key())
    return out
def parts_of(k):
    out = {k} if not isinstance(k, list) else set()
    if isinstance(k, tuple):
        for x in k: out |= parts_of(x)
    return out
def function(ex):
    st = world(ex); L = lay(ex, "Pillow::HttpHandlerFunction"); o = ex.new_cells(st, "HttpHandlerFunction", 64); con = fint("connection"); st.pc.append(con > 0); ok = fbool("has_function")
    has = lambda C: (ex.prove(C.st, C.a[0].oid == o and C.a[0].off == L["_function"], "post-function", "its own function", where="post"), ok)[1]
    F = "std::function<void (Pillow::HttpConnection*)>::"
    ex.contracts[F + "operator bool() const"] = has
    def call(C): has(C); ex.prove(C.st, ok, "empty-function", "an empty function is not called"); C.ev("invoke", objid(C.a[1]))
    ex.contracts[F + "operator()(Pillow::HttpConnection*) const"] = call
    fn = target(ex, NS + "HttpHandlerFunction::handleRequest(Pillow::HttpConnection*)"); cover(ex, st, "precondition"); n = 0
    for r in ex.run(st, fn, [Ptr(o), OPtr(con, "HttpConnection")]):
        for t, (h,) in cases(ex, r, ok):
            n += 1; ev = does(t); ex.prove(t, B(t.ret) if h else not_(B(t.ret)), "post-result", "handled exactly if there is a function", where="post")
            if seq(ex, t, ev, ["invoke"] if h else [], "called once") and h: same_ids(ex, t, ev[0][1], con, "with the request's connection")
    if n < 2: raise Unsupported("postcondition not reached")

def stack(ex):
    """for every list of children: offered in order to the handlers among them, up to and including the first that accepts"""
    st = world(ex); o = ex.new_cells(st, "HttpHandlerStack", 64); con = fint("connection"); st.pc.append(con > 0)
    n = fint("children"); st.pc += [n >= 0, n <= 1 << 20]; child = ffun("child")
    ishandler = lambda i: Z(ex_isa(child(Z(i)))) != 0
    ex_isa = z3.Function("is_handler", IntSort(), IntSort()); takes = z3.Function("takes", IntSort(), IntSort())      # what the handler at this position of the list answers when it is asked
    def base(ex2, st2, idx, off, t, size): st2.pc.append(child(Z(idx)) > 0); return OPtr(child(Z(idx)), "HttpHandler")
    v = ex.vec(st, "QObject*", n, base, "maybe", "children"); lst = ex.new_cells(st, "children list", 8); ex.vset(st, Ptr(lst), v)
    ex.contracts["QObject::children() const"] = lambda C: (ex.prove(C.st, C.a[0].oid == o, "post-children", "its own children", where="post"), Ptr(lst))[1]
    def cast(C):
        p = C.a[0]; ex.nonnull(C.st, p); i = fint("cast"); C.st.pc.append(i == If(ex_isa(Z(p.id)) != 0, Z(p.id), 0)); return OPtr(i, "HttpHandler")
    ex.contracts["Pillow::HttpHandler* qobject_cast<Pillow::HttpHandler*>(QObject*)"] = cast
    # ghost: how many handlers have been asked, whether one has accepted
    G = ex.new_cells(st, "ghost", 16); st.w(G).cells[0] = (4, 0); st.w(G).cells[8] = (4, 0)
    cnt = ValFold("handlers_before", 0, lambda i, x: add(x, ite(ishandler(i), 1, 0))); ex.foldlist.append(cnt)
    pos = z3.Function("handler_at", IntSort(), IntSort())      # the k-th handler of the list
    def offered(C):
        s = C.st; h = C.a[0]; k = s.mem[G].cells[0][1]; same_ids(ex, s, objid(C.a[1]), con, "offered the request's connection")
        ex.prove(s, eq(s.mem[G].cells[8][1], 0), "post-stops", "nobody is asked after a handler has accepted", where="post")
        i = ex.cur_index(s, h)
        ex.prove(s, eq(cnt.f(Z(i)), k) if i is not None else False, "post-order", "the next handler of the list is asked", where="post")
        r = fint("accepts"); s.pc += [r >= 0, r <= 1, r == takes(Z(k))]
        g = s.w(G); g.cells[0] = (4, add(k, 1)); g.cells[8] = (4, ite(r == 1, 1, 0)); return r == 1
    def cur_index(s, h):
        """position of the element last read from the list on this path"""
        for c in reversed(s.pc):
            for x in [c]:
                if z3.is_gt(x) and z3.is_app(x.arg(0)) and x.arg(0).decl() == child: i = x.arg(0).arg(0); return i if ex.holds(s, child(i) == Z(h.id)) else None
        return None
    ex.cur_index = cur_index
    ex.vmethods[("HttpHandler", 12)] = ("HttpHandler::handleRequest(HttpConnection*)", offered)
    ex.strict_concrete = True; fn = target(ex, NS + "HttpHandlerStack::handleRequest(Pillow::HttpConnection*)"); cover(ex, st, "precondition"); m = 0; seen = set()
    for r in ex.run(st, fn, [Ptr(o), OPtr(con, "HttpConnection")]):
        for t, (res,) in cases(ex, r, B(r.ret)):
            m += 1; g = t.mem[G].cells; seen.add(res)
            ex.prove(t, eq(g[8][1], 1 if res else 0), "post-result", "accepted exactly if a handler accepted", where="post")
            if not res: ex.prove(t, eq(g[0][1], cnt.f(n)), "post-all", "every handler has been asked", where="post")
    if seen != {True, False}: raise Unsupported("postcondition not reached")

C16 = [Unit("HttpHandlerStack::handleRequest", SRC, stack), Unit("HttpHandlerFixed::handleRequest", SRC, fixed), Unit("HttpHandlerFixed::setStatusCode", SRC, fixed_set("status")), Unit("HttpHandlerFixed::setContent", SRC, fixed_set("content")),
       Unit("HttpHandler404::handleRequest", SRC, notfound), Unit("HttpHandlerFunction::handleRequest", SRC, function)]

# ---------------------------------------------------------------- access log (C24)
MAP = "QHash<Pillow::HttpConnection*, QElapsedTimer*>"
class LogH:
    def __init__(s, ex, st, known=False):
        s.ex = ex; L = s.L = lay(ex, "Pillow::HttpHandlerLog"); s.o = ex.new_cells(st, "HttpHandlerLog", 64)
        s.mode, s.dev, s.con = fint("mode"), fint("device"), fint("connection"); st.pc += [s.mode >= 0, s.mode <= 1, s.dev >= 0, s.con > 0]
        st.w(s.o).cells[L["_mode"]] = (4, s.mode); ex.store(st, Ptr(s.o, L["_device"]), OPtr(s.dev, "QIODevice"), 8)
        s.timers = z3.Function(fresh_name("timer_of"), IntSort(), IntSort())      # 0: no timer
        s.h = HashV(lambda k: s.timers(Z(k))); s.h.cls = "QElapsedTimer"; ex.vset(st, Ptr(s.o, L["_requestTimerMap"]), s.h)
        st.pc.append(s.timers(s.con) >= 0); s.t0 = s.timers(s.con)
    def args(s, cls="HttpConnection"): return [Ptr(s.o), OPtr(s.con, cls)]
    def map(s, st): return s.ex.vget(st, Ptr(s.o, s.L["_requestTimerMap"]))
    def frame(s, t):
        ex, o = s.ex, t.mem[s.o].cells; ex.prove(t, and_(eq(o[s.L["_mode"]][1], s.mode), eq(ex.load(t, Ptr(s.o, s.L["_device"]), ir.PTR, None).id, s.dev)), "frame", "mode and device unchanged", where="post")
    def fields(s, ex, st, tag):
        """arguments common to every line"""
        b = lambda n: Tm("qs", conn_bytes(ex, st, s.con, n))
        return [Tm("QHostAddress::toString", conn_tm(ex, st, s.con, "remoteAddress")), Tm("QDateTime::toString", Tm("QDateTime::currentDateTime"), Tm("qs", rlit(b"dd/MMM/yyyy hh:mm:ss"))), b("requestMethod"), b("requestUri"), b("requestHttpVersion")]
def use_log(ex):
    """HttpHandlerLog::log under contract (proved below): one line"""
    ex.contracts[NS + "HttpHandlerLog::log(QString const&)"] = lambda C: C.ev("line", C.a[0].oid, argval(C, C.a[1], "QString const&"))
def line(ex, t, H, ev, want, label):
    """exactly one line, equal to the specified one"""
    ls = [e for e in ev if e[0] == "line"]
    ex.prove(t, len(ls) == (0 if want is None else 1), "post-lines", "%s: %d lines" % (label, len(ls)), where="post")
    if want is not None and len(ls) == 1:
        ex.prove(t, ls[0][1] == H.o, "post-log", "logged by this handler", where="post"); same_tm(ex, t, ls[0][2], want, "post-line", label)
def log_world(ex):
    st = world(ex); use_log(ex); return st, LogH(ex, st)
def log_handle(ex):
    st, H = log_world(ex); fn = target(ex, NS + "HttpHandlerLog::handleRequest(Pillow::HttpConnection*)"); cover(ex, st, "precondition"); n = 0
    for r in ex.run(st, fn, H.args()):
        for t, (known, trace) in cases(ex, r, H.t0 != 0, H.mode == 1):
            n += 1; ev = does(t); ex.prove(t, not_(B(t.ret)), "post-result", "never takes the request", where="post"); H.frame(t)
            fmt = b'[BEGIN] %1 - - [%2] "%3 %4 %5" - - -'
            line(ex, t, H, ev, Tm("marg", Tm("qs", rlit(fmt)), *H.fields(ex, t, "BEGIN")) if trace else None, "BEGIN line")
            starts = [e for e in ev if e[0] == "timer.start"]; conns = [e for e in ev if e[0] == "connect"]
            ex.prove(t, len(starts) == 1, "post-timer", "the timer is (re)started once", where="post")
            now = entry(ex, t, H.map(t), H.con)
            if known:
                ex.prove(t, not conns, "post-wiring", "no new connections for a known connection", where="post")
                if len(starts) == 1: same_ids(ex, t, starts[0][1], H.t0, "its own timer is restarted")
                ex.prove(t, now == ("base", H.con) if isinstance(now, tuple) else isinstance(now, OPtr) and ex.holds(t, eq(now.id, H.t0)), "post-map", "the timer stays", where="post")
            else:
                ex.prove(t, isinstance(now, Ptr) and now.oid is not None and len(starts) == 1 and ideq(starts[0][1], objid(now)) and not t.mem[now.oid].freed, "post-map", "a new timer is stored for the connection and started", where="post")
                ex.prove(t, len(conns) == 3, "post-wiring", "three connections", where="post"); me = ("o", H.o)
                for sig, slot in (("2requestCompleted(Pillow::HttpConnection*)", "1requestCompleted(Pillow::HttpConnection*)"), ("2closed(Pillow::HttpConnection*)", "1requestClosed(Pillow::HttpConnection*)"), ("2destroyed(QObject*)", "1requestDestroyed(QObject*)")): wired(ex, t, conns, H.con, sig, me, slot, sig[1:])
            others_kept(ex, t, H)
    if n < 4: raise Unsupported("postcondition not reached")
def same_entry(ex, t, H, key, c):
    """the entry holds what it held before"""
    if isinstance(key, tuple): return False
    b = H.h.base(Z(key)); v = NULL if c is None else ex.load(t, Ptr(c), ir.PTR, None)
    return ex.holds(t, eq(b, v.id if isinstance(v, OPtr) else 0 if v == NULL else -1))
def others_kept(ex, t, H):
    """timers of other connections unchanged"""
    k = fint("other"); u = t.fork(); u.pc += [k != H.con]
    hit = [c for key, c in H.map(u).ups if isinstance(key, tuple) or not ex.holds(u, Not(key == k)) and not same_entry(ex, u, H, key, c)]
    ex.prove(u, not hit, "post-map-frame", "timers of other connections unchanged", where="post")
def log_done(which):
    name = {"completed": "requestCompleted(Pillow::HttpConnection*)", "closed": "requestClosed(Pillow::HttpConnection*)"}[which]
    def run(ex):
        st, H = log_world(ex); fn = target(ex, NS + "HttpHandlerLog::" + name); cover(ex, st, "precondition"); n = 0
        for r in ex.run(st, fn, H.args()):
            for t, (known, trace) in cases(ex, r, H.t0 != 0, H.mode == 1):
                n += 1; ev = does(t); H.frame(t); want = None
                if known and (which == "completed" or trace):
                    pre = {("completed", False): b"", ("completed", True): b"[ END ] ", ("closed", True): b"[CLOSE] "}[which, trace]
                    num = lambda nm, cls: Tm("QString::number", ex.tm_int(t, conn_tm(ex, t, H.con, nm), *GETI[nm]), 10)
                    el = ex.tm_int(t, Tm("elapsed", Tm("val", H.t0)), 0, 1 << 60)
                    ls = [e for e in ev if e[0] == "line"]
                    secs = ls[0][2].a[-1] if len(ls) == 1 and isinstance(ls[0][2], Tm) and ls[0][2].op == "marg" else None
                    sw = Tm("QString::number", Tm("fdiv", Tm("sitofp", el), Tm("flt", "1.000000e+03")), 102, 3)
                    ex.prove(t, isinstance(secs, Tm) and secs.key() == sw.key(), "post-elapsed", "seconds of this connection's timer, three decimals: %r" % (secs,), where="post")
                    want = Tm("marg", Tm("qs", rlit(pre + b'%1 - - [%2] "%3 %4 %5" %6 %7 %8')), *H.fields(ex, t, which), num("responseStatusCode", "int"), num("responseContentLength", "qint64"), secs if secs is not None else Tm("none"))
                line(ex, t, H, ev, want, which + " line"); ex.prove(t, all(e[0] == "line" for e in ev), "post-events", "nothing else happens", where="post")
                ex.prove(t, all(same_entry(ex, t, H, k, c) for k, c in H.map(t).ups), "post-map-frame", "the timers are unchanged", where="post")
        if n < 3: raise Unsupported("postcondition not reached")
    return run
def log_destroyed(ex):
    st, H = log_world(ex); fn = target(ex, NS + "HttpHandlerLog::requestDestroyed(QObject*)"); cover(ex, st, "precondition"); n = 0
    ex.contracts["operator delete(void*)"] = lambda C: C.ev("free", objid(C.a[0])); ex.contracts["operator delete(void*, unsigned long)"] = ex.contracts["operator delete(void*)"]
    for r in ex.run(st, fn, H.args("QObject")):
        for t, (known,) in cases(ex, r, H.t0 != 0):
            n += 1; ev = does(t); fr = [e for e in ev if e[0] == "free" and not (not isz(e[1]) and e[1] == 0) and not ex.holds(t, eq(e[1], 0))]
            ex.prove(t, len(fr) == (1 if known else 0) and len([e for e in ev if e[0] != "free"]) == 0, "post-free", "its timer is released once", where="post")
            for e in fr: same_ids(ex, t, e[1], H.t0, "its own timer")
            ex.prove(t, entry(ex, t, H.map(t), H.con) is None or not known and all(same_entry(ex, t, H, k, c) for k, c in H.map(t).ups), "post-map", "no timer is kept for the connection", where="post"); others_kept(ex, t, H); H.frame(t)
    if n < 1: raise Unsupported("postcondition not reached")
def log_entry(ex):
    st = world(ex); H = LogH(ex, st); fn = target(ex, NS + "HttpHandlerLog::log(QString const&)"); c = ex.new_cells(st, "entry", 8); e = Tm("val", fint("entry")); ex.vset(st, Ptr(c), e); cover(ex, st, "precondition"); n = 0
    for r in ex.run(st, fn, [Ptr(H.o), Ptr(c)]):
        for t, (none,) in cases(ex, r, H.dev == 0):
            n += 1; ev = [x for x in does(t)]; H.frame(t)
            if none: seq(ex, t, ev, [], "no device"); continue
            ex.prove(t, all(x[0] == "write" for x in ev), "post-events", "only writes", where="post"); got = Rope()
            for x in ev:
                if x[0] == "write": same_ids(ex, t, x[1], H.dev, "the configured device"); got = got + x[2]
            ex.prove_rope(t, got, ratom(ex.tm_atom(t, Tm("toUtf8", e))) + rlit(b"\n"), "post-written", "the entry and a line feed")
    if n < 2: raise Unsupported("postcondition not reached")

C24 = [Unit("HttpHandlerLog::handleRequest", SRC, log_handle), Unit("HttpHandlerLog::requestCompleted", SRC, log_done("completed")), Unit("HttpHandlerLog::requestClosed", SRC, log_done("closed")),
       Unit("HttpHandlerLog::requestDestroyed", SRC, log_destroyed), Unit("HttpHandlerLog::log", SRC, log_entry)]
