"""Symbolic HttpConnection / HttpConnectionPrivate objects, device and signal contracts, contracts between the connection's
own functions. Field positions come from the record layout of the current source."""
import re, z3
from .terms import *
from .engine import *
from .qt import *
from .pillow import *
from .qt2 import *
from . import ir

CP = "Pillow::HttpConnectionPrivate::"
HC = "Pillow::HttpConnection::"
STATES = ["Uninitialized", "ReceivingHeaders", "ReceivingContent", "SendingHeaders", "SendingContent", "Completed", "Flushing", "Closed"]
S = {n: i for i, n in enumerate(STATES)}
BAS = ["_requestMethod", "_requestHttpVersion", "_requestContent", "_requestUri", "_requestFragment", "_requestPath", "_requestQueryString"]

class Conn:
    """d: the private object, q: the public one"""
    def __init__(s, ex, st, mod, state=None, same=False):
        s.ex, s.mod = ex, mod
        lay = mod.layouts["Pillow::HttpConnectionPrivate"]; s.off = {k: v[0] for k, v in lay.items()}
        s.d = ex.new_cells(st, "HttpConnectionPrivate", 1024); s.q = ex.new_cells(st, "HttpConnection", 24)
        ex.store(st, Ptr(s.q, mod.layouts["Pillow::HttpConnection"]["d_ptr"][0]), Ptr(s.d), 8)
        ex.store(st, s.p("q_ptr"), Ptr(s.q), 8)
        s.state0 = fint("state") if state is None else (S[state] if isinstance(state, str) else state)
        if isz(s.state0): st.pc += [s.state0 >= 0, s.state0 <= 7]
        s.set(st, "_state", s.state0, 4)
        s.idev = fint("inputDevice"); s.odev = s.idev if same else fint("outputDevice")
        st.pc += [s.idev >= 0, s.odev >= 0]
        s.set(st, "_inputDevice", OPtr(s.idev, "QIODevice"), 8); s.set(st, "_outputDevice", OPtr(s.odev, "QIODevice"), 8)
        s.f = {}
        for b in BAS: s.f[b] = s.atom(st, b)
        s.f["_responseHeadersBuffer"] = s.buf(st, "_responseHeadersBuffer")
        s.f["_requestBuffer"] = s.buf(st, "_requestBuffer")
        for n in ("Uri", "Fragment", "Path", "QueryString"):
            s.set(st, "_request%sDecoded" % n, Tm("val", fint("cache")), 8)
        s.H = Headers(ex, st, "reqh"); ex.vset(st, s.p("_requestHeaders"), s.H.vec)
        s.nref = fint("nref"); st.pc += [s.nref >= 0, s.nref <= 1 << 20]; s.rf = [ffun("ref%d" % k) for k in range(4)]
        def rbase(ex, st, idx, off, t, size): return s.rf[off // 4](Z(idx))
        s.refs = ex.vec(st, "Pillow::HttpHeaderRef", s.nref, rbase, False, "headerRefs"); ex.vset(st, s.p("_requestHeadersRef"), s.refs)
        s.np = fint("nparams"); st.pc += [s.np >= 0, s.np <= 1 << 20]; s.pn, s.pv = ffun("pname"), ffun("pvalue")
        def pbase(ex, st, idx, off, t, size): return Tm("val", (s.pn if off == 0 else s.pv)(Z(idx)))
        s.params = ex.vec(st, "QPair<QString, QString>", s.np, pbase, "maybe", "params"); ex.vset(st, s.p("_requestParams"), s.params)
        s.v = {}
        for nm, bits in (("_requestContentLength", 32), ("_requestContentLengthHeaderIndex", 32), ("_responseStatusCode", 32), ("_responseContentLength", 64), ("_responseContentBytesSent", 64)):
            x = fint(nm); st.pc += [x >= -(1 << (bits - 1)), x < 1 << (bits - 1)]; s.v[nm] = x; s.set(st, nm, x, bits // 8)
        for nm in ("_requestHttp11", "_responseConnectionKeepAlive", "_responseChunkedTransferEncoding"):
            x = fint(nm); st.pc += [x >= 0, x <= 1]; s.v[nm] = x; s.set(st, nm, x, 1)
        pl = mod.layouts.get("http_parser") or {}
        s.poff = {k: v[0] for k, v in pl.items()}; s.pv0 = {}
        for k, v in pl.items():
            sz = {"int": 4, "size_t": 8, "unsigned int": 4}.get(v[1], 8)
            if v[1] in ("int", "size_t", "unsigned int", "unsigned long"):
                x = fint("parser." + k); st.pc += [x >= -(1 << (8 * sz - 1)), x < 1 << (8 * sz - 1)]; s.pv0[k] = x
                ex.store(st, Ptr(s.d, s.off["_parser"] + v[0]), x, sz)
    def p(s, f): return Ptr(s.d, s.off[f])
    def pp(s, f): return Ptr(s.d, s.off["_parser"] + s.poff[f])
    def set(s, st, f, v, size): st.w(s.d).cells[s.off[f]] = (size, v)
    def get(s, st, f): return st.mem[s.d].cells[s.off[f]][1]
    def state(s, st): return s.get(st, "_state")
    def atom(s, st, f):
        i = fint(f); st.pc += [blen(i) >= 0, blen(i) < 1 << 28]; v = pure(ratom(i)); s.ex.vset(st, s.p(f), v); return v.rope
    def buf(s, st, f):
        n = fint(f + "_n"); st.pc += [n >= 0, n <= 1 << 29]; r = Rope([Sl(UFSrc(ffun(f)), 0, n)]); s.ex.vset(st, s.p(f), s.ex.own(st, r)); return r
    def rope(s, st, f): return s.ex.ba_rope(st, s.ex.bget(st, s.p(f)))
    def snapshot(s, st):
        """values of all fields (for frame conditions)"""
        return dict((k, v[1]) for k, v in st.mem[s.d].cells.items())
    def unchanged(s, st0, st, but=()):
        """fields of d that differ (syntactically, then semantically)"""
        from .loops import vsame
        a, b = st0.mem[s.d].cells, st.mem[s.d].cells; bad = []
        skip = {s.off[x] for x in but}
        names = {o: n for n, o in s.off.items()}
        for o in sorted(set(a) | set(b)):
            base = max([x for x in names if x <= o])
            if o in skip or base in skip: continue
            va, vb = a.get(o), b.get(o)
            if va is None or vb is None or va[0] != vb[0]: bad.append(names[base]); continue
            if vsame(va[1], vb[1]):
                if isinstance(va[1], Vec):
                    x, y = st0.mem[va[1].oid], st.mem[va[1].oid]
                    if x is not y and not (x.n is y.n and x.log == y.log and x.apps is y.apps and x.base is y.base): bad.append(names[base])
                if isinstance(va[1], BA) and va[1].k == "own" and st0.mem[va[1].oid] is not st.mem[va[1].oid] and not s.ex.rope_eq(st, s.ex.ba_rope(st0, va[1]), s.ex.ba_rope(st, vb[1])): bad.append(names[base])
                continue
            try:
                if s.ex.val_eq(st, va[1], vb[1]): continue
            except Exception: pass
            bad.append(names[base])
        return bad

QIO = {"isSequential": 12, "open": 13, "close": 14, "bytesAvailable": 20, "bytesToWrite": 21}

def io_event(C, what, *a): C.ev(what, *a)
def devid(d):
    if isinstance(d, OPtr): return d.id
    if isinstance(d, Ptr) and d.oid is None: return 0
    raise Unsupported("device %r" % (d,))

def use_devices(ex):
    """QIODevice and socket contracts: every operation is an event; results are arbitrary within the documented ranges."""
    c = ex.contracts
    def nn(C):
        C.ex.nonnull(C.st, C.a[0]); return devid(C.a[0])
    def w_ba(C):
        v = C.ex.bget(C.st, C.a[1]); r = C.ex.ba_rope(C.st, v); d = nn(C)
        if v.k == "own": C.st.w(v.oid).shared = "maybe"      # the device may keep a reference
        C.ev("write", d, r); x = fint("written"); C.st.pc += [x >= -1, x <= 1 << 31]; return x
    c["QIODevice::write(QByteArray const&)"] = w_ba
    def w_p(C):
        d = nn(C); r = C.ex.rope_at(C.st, C.a[1], C.a[2]); C.ev("write", d, r); x = fint("written"); C.st.pc += [x >= -1, x <= 1 << 31]; return x
    c["QIODevice::write(char const*, long long)"] = w_p
    def w_c(C):
        d = nn(C); C.ev("write", d, C.ex.cstr(C.st, C.a[1])); x = fint("written"); C.st.pc += [x >= -1, x <= 1 << 31]; return x
    c["QIODevice::write(char const*)"] = w_c
    def isopen(C):
        d = nn(C); b = fbool("isOpen"); C.st.g["_isopen"] = C.st.g.get("_isopen", ()) + ((d, b),); return b
    c["QIODevice::isOpen() const"] = isopen
    ex.vmethods[("QIODevice", QIO["close"])] = ("QIODevice::close()", lambda C: C.ev("devclose", nn(C)))
    def avail(C):
        nn(C); x = fint("bytesAvailable"); C.st.pc += [x >= 0, x <= 1 << 29]; return x
    ex.vmethods[("QIODevice", QIO["bytesAvailable"])] = ("QIODevice::bytesAvailable()", avail)
    def towrite(C):
        nn(C); x = fint("bytesToWrite"); C.st.pc += [x >= 0, x <= 1 << 40]; C.ev("bytesToWrite", devid(C.a[0]), x); return x
    ex.vmethods[("QIODevice", QIO["bytesToWrite"])] = ("QIODevice::bytesToWrite()", towrite)
    def cast(C):
        t = re.match(r"(\w+)\* qobject_cast<", C.dem).group(1); p = C.a[0]
        if isinstance(p, Ptr) and p.oid is None: return NULL
        b = C.ex.tm_bool(Tm("isa", t, p.id)); C.st.pc.append(z3.Implies(b, p.id > 0))
        if t == "QTcpSocket": C.st.pc.append(z3.Implies(b, C.ex.tm_bool(Tm("isa", "QAbstractSocket", p.id))))
        i = fint("cast"); C.st.pc.append(i == If(b, Z(p.id), 0)); return OPtr(i, p.cls)
    ex.patterns.append((re.compile(r"\w+\* qobject_cast<\w+\*>\(QObject\*\)$"), cast))
    for t in ("QAbstractSocket", "QLocalSocket", "QTcpSocket"):
        def fl(C):
            C.ex.nonnull(C.st, C.a[0]); C.ev("devflush", devid(C.a[0]))
            h = C.ex.__dict__.get("on_flush")
            if h: return h(C)
            return fbool("flushed")
        c[t + "::flush()"] = fl
    def sig(p):
        l = None
        if isinstance(p, Ptr) and p.oid is not None:
            try: return p
            except Exception: pass
        return p
    def cs(C, p):
        if isinstance(p, Ptr) and p.oid is None: return None
        r = C.ex.cstr(C.st, p); l = r.lit(); return (l.decode() if l is not None else r)
    def conn(C):
        b = 1 if C.fn.sret else 0
        a = C.a[b:]; C.ev("connect", objid(a[0]), cs(C, a[1]), objid(a[2]), cs(C, a[3]))
        C.ex.nonnull(C.st, a[0])
        if C.fn.sret: C.ex.vset(C.st, C.a[0], Tm("Connection"))
        return None
    c["QObject::connect(QObject const*, char const*, QObject const*, char const*, Qt::ConnectionType)"] = conn
    def disc(C):
        C.ev("disconnect", objid(C.a[0]), cs(C, C.a[1]), objid(C.a[2]), cs(C, C.a[3])); return fbool("disconnected")      # a null sender is refused with a warning
    c["QObject::disconnect(QObject const*, char const*, QObject const*, char const*)"] = disc
    ex.patterns.append((re.compile(r"QMetaObject::Connection::.*"), lambda C: None))
    def single(C): C.ev("singleShot", C.a[0], objid(C.a[1]), cs(C, C.a[2]))
    c["QTimer::singleShot(int, QObject const*, char const*)"] = single
    def pair(C):
        st, ex = C.st, C.ex
        ex.vset(st, C.a[0], argval(C, C.a[1], "QString const&")); ex.vset(st, Ptr(C.a[0].oid, add(C.a[0].off, 8), C.a[0].idx), argval(C, C.a[2], "QString const&"))
    ex.contracts["QPair<QString, QString>::QPair(QString const&, QString const&)"] = pair
    def pmove(C):
        ex, st = C.ex, C.st
        for k in (0, 8): ex.vset(st, Ptr(C.a[0].oid, add(C.a[0].off, k), C.a[0].idx), ex.vget(st, Ptr(C.a[1].oid, add(C.a[1].off, k), C.a[1].idx)))
        return C.a[0]
    ex.contracts["QPair<QString, QString>::operator=(QPair<QString, QString>&&)"] = pmove
    ex.contracts["QPair<QString, QString>::operator=(QPair<QString, QString> const&)"] = pmove
    for t in ("const&", "&&"):
        ex.contracts["QPair<QString, QString>::QPair(QPair<QString, QString>%s)" % (" const&" if t != "&&" else "&&")] = pmove
    def pnull(C):
        for k in (0, 8): C.ex.vset(C.st, Ptr(C.a[0].oid, add(C.a[0].off, k), C.a[0].idx), Tm("QString"))
    ex.contracts["QPair<QString, QString>::QPair()"] = pnull
    ex.contracts["QPair<QString, QString>::~QPair()"] = lambda C: None

def objid(p):
    if isinstance(p, Ptr): return ("o", p.oid) if p.oid is not None else 0
    if isinstance(p, OPtr): return p.id
    return p

def idis(ex, st, a, b):
    """the two object identities are equal on this path"""
    if isinstance(a, tuple) or isinstance(b, tuple): return isinstance(a, tuple) and isinstance(b, tuple) and a == b
    return ex.holds(st, eq(a, b))

def events(st, *kinds): return [e for e in st.trace if isinstance(e, tuple) and (not kinds or e[0] in kinds)]

def use_percent_decode(ex):
    """percentDecode under contract (proved in C12)"""
    def ba(C): return res(C, C.ex.ba_rope(C.st, C.ex.bget(C.st, C.a[1])))
    def ptr(C):
        if isinstance(C.a[1], Ptr) and C.a[1].oid is None: C.ex.vset(C.st, C.a[0], Tm("QString")); return None
        return res(C, C.ex.rope_at(C.st, C.a[1], C.a[2]))
    def res(C, r):
        out = []
        for t, e in C.split(eq(r.len(), 0)):
            C.ex.vset(t, C.a[0], Tm("QString") if e else dec(C.ex, t, r)); out.append((t, None))
        return out
    ex.contracts["Pillow::ByteArrayHelpers::percentDecode(QByteArray const&)"] = ba
    ex.contracts["Pillow::ByteArrayHelpers::percentDecode(char const*, int)"] = ptr
def dec(ex, st, rope): return Tm("qs", ratom(ex.tm_atom(st, Tm("percent_decoded", rope))))

# ---- static tables
def start(ex, only=None):
    """initial memory: the static constructors of every module of the unit, executed symbolically (Token constants and the like)"""
    noop = lambda C: None
    for n in ("__cxa_atexit", "std::ios_base::Init::Init()", "std::ios_base::Init::~Init()"): ex.contracts.setdefault(n, noop)
    st = State()
    for m in ex.modules:
        for f in list(m.funcs.values()):
            if f.defined and f.name.startswith("_GLOBAL__sub_I"):
                r = ex.run(st, f, [])
                if len(r) != 1: raise Unsupported("static initialisation branches")
                st = r[0]
    st.trace = [] if isinstance(st.trace, list) else ()
    return st

# ---- contracts of leaf functions of the response head
known_status = z3.Function("known_status", IntSort(), BoolSort())
def status_text(ex, st, code): return ratom(ex.tm_atom(st, Tm("status_text", code)))
def use_status(ex):
    """getStatusCodeAndMessage / getStatusMessage under contract (proved in C11)"""
    def h(C):
        ex, st = C.ex, C.st; c = C.a[0]; out = []; st.pc.append(known_status(IntVal(500)))
        for t, k in C.split(known_status(Z(c))):
            if not k: out.append((t, NULL)); continue
            r = status_text(ex, t, c); t.pc.append(Z(r.len()) > 4)
            o = ex.new_bytes(t, "statustext", r + rlit(b"\0"), const=True); t.mem[o].data = {"cstr": lambda ex, st, p, r=r: r}
            out.append((t, Ptr(o)))
        return out
    ex.contracts["Pillow::HttpProtocol::StatusCodes::getStatusCodeAndMessage(int)"] = h
def use_append(ex):
    """Pillow::ByteArray::append overloads under contract (proved in C23): contents followed by the argument; the builder must not share its storage"""
    rx = re.compile(r"(?:Pillow::ByteArray& )?Pillow::ByteArray::append(<\d+>)?\((.*)\)$")
    def h(C):
        m = rx.match(C.dem); ex, st = C.ex, C.st; sig = m.group(2); p = C.a[0]; ex.nonnull(st, p); v = ex.bget(st, p)
        if not ex.probe: ex.prove(st, v.k != "own" or st.mem[v.oid].shared is False, "append-to-shared-builder", "the builder shares its storage with another byte string")
        if m.group(1): r = ex.rope_at(st, C.a[1], int(m.group(1)[1:-1]) - 1)
        elif sig == "char": r = rbyte(C.a[1])
        elif sig == "char const*, int": r = ex.rope_at(st, C.a[1], C.a[2])
        elif sig == "QByteArray const&": r = ex.ba_rope(st, ex.bget(st, C.a[1]))
        elif sig == "Pillow::HttpHeader const&":
            q = C.a[1]; ex.nonnull(st, q); q = Ptr(q.oid, q.off, q.idx)
            r = ex.ba_rope(st, ex.bget(st, q)) + rlit(": ") + ex.ba_rope(st, ex.bget(st, Ptr(q.oid, add(q.off, 8), q.idx))) + rlit("\r\n")
        elif re.search(r"Token const&|QLatin1String const&", sig): r = tok_rope(ex, C, C.a[1])
        else: raise Unsupported("append overload " + C.dem)
        old = ex.ba_rope(st, v); w = ex.own(st, old + r); ex.release(st, v); ex.vset(st, p, w); return p
    ex.patterns.insert(0, (rx, h))
def use_builder_eq(ex):
    """Pillow::ByteArray comparison with a token under contract (proved in C23): equality of the bytes"""
    rx = re.compile(r"Pillow::ByteArray::operator(==|!=)\((QLatin1String|Pillow::Token|Pillow::LowerCaseToken) const&\) const$")
    def h(C):
        ex, st = C.ex, C.st; e = ex.ropes_eq_term(st, ex.ba_rope(st, ex.bget(st, C.a[0])), tok_rope(ex, C, C.a[1]))
        return e if rx.match(C.dem).group(1) == "==" else not_(e)
    ex.patterns.insert(0, (rx, h))
def first_value(ex, st, coll, lit):
    """value of the first header of collection object `coll` named lit (empty when there is none)"""
    i = ex.tm_atom(st, Tm("first_value", coll, lit.lower())); return ratom(i)
def use_lookup(ex):
    """HttpHeaderCollection::getFieldValue under contract (proved in C09)"""
    def res(C, n):
        ex, st = C.ex, C.st; v = ex.vget(st, C.a[0]); l = n.lit()
        if l is None: raise Unsupported("lookup of a non-literal header name")
        k = ex.__dict__.setdefault("fv_cells", {}); key = (v.oid, l.lower())
        if key in k and k[key] in st.mem: return Ptr(k[key])
        c = ex.new_cells(st, "header value", 8); ex.vset(st, Ptr(c), pure(first_value(ex, st, v.oid, l.decode()))); return Ptr(c)
    P = "Pillow::HttpHeaderCollection::getFieldValue"
    ex.contracts[P + "(Pillow::LowerCaseToken const&) const"] = lambda C: res(C, tok_rope(C.ex, C, C.a[1]))
    ex.contracts[P + "(char const*, int) const"] = lambda C: res(C, C.ex.rope_at(C.st, C.a[1], C.a[2]))
    ex.contracts[P + "(QByteArray const&) const"] = lambda C: res(C, C.ex.ba_rope(C.st, C.ex.bget(C.st, C.a[1])))

# ---- contracts between the connection's own functions: an event; the callee may change every field (it can run arbitrary application code)
def use_own(ex, K, rets=None, keep=(), after=None, names=("transitionToCompleted", "transitionToSendingContent", "transitionToFlushing", "transitionToClosed", "transitionToReceivingHeaders", "transitionToReceivingContent",
                                   "transitionToSendingHeaders", "processInput", "flush", "drain", "writeRequestErrorResponse", "setupRequestHeaders", "initialize", "writeHeaders", "writeContent", "endContent", "writeResponse", "close")):
    """names: functions taken at their contract; after[name](C) -> result or None"""
    after = after or {}
    rx = re.compile(r"^" + re.escape(CP) + r"(%s)\(.*\)$" % "|".join(names))
    def h(C):
        n = rx.match(C.dem).group(1); ex, st = C.ex, C.st
        C.ev("call", n, tuple(C.a[1:]), st.fork())
        if n in after: return after[n](C)
        havoc(K, C.st)
        return None
    ex.patterns.insert(0, (rx, h))
def havoc(K, st):
    """anything may have happened to the connection: arbitrary fields"""
    o = st.w(K.d)
    ex = K.ex
    for off, (size, v) in list(o.cells.items()):
        if off == K.off["q_ptr"]: continue
        if isint(v):
            x = fint("h"); b = 8 * size; st.pc += [x >= -(1 << (b - 1)), x < 1 << (b - 1)]; o.cells[off] = (size, x)
            if off == K.off["_state"]: st.pc += [x >= 0, x <= 7]
            if size == 1: st.pc += [x >= 0, x <= 1]
        elif isinstance(v, (OPtr, Ptr)) and off in (K.off["_inputDevice"], K.off["_outputDevice"]):
            x = fint("dev"); st.pc.append(x >= 0); o.cells[off] = (size, OPtr(x, "QIODevice"))
        elif isinstance(v, BA):
            x = fint("hb"); st.pc += [blen(x) >= 0, blen(x) < 1 << 28]; o.cells[off] = (size, pure(ratom(x)))
    K.__dict__["nhavoc"] = K.__dict__.get("nhavoc", 0) + 1
def calls(st, *names): return [e for e in st.trace if isinstance(e, tuple) and e[0] == "call" and (not names or e[1] in names)]
def acts(st, skip=("devflush", "bytesToWrite")): return [e for e in st.trace if isinstance(e, tuple) and e[0] not in skip]

def cases(ex, st, *conds):
    """split st by the truth of the conditions: [(state, [bool...])] of the feasible combinations"""
    out = [(st, [])]
    for c in conds:
        nx = []
        for t, bs in out:
            cc = c(t, bs) if callable(c) else c
            cc = cc if isinstance(cc, bool) else simp(cc)
            if isinstance(cc, bool): nx.append((t, bs + [cc])); continue
            for b in (True, False):
                u = t.fork(); u.pc.append(cc if b else Not(cc))
                if ex.feasible(u): nx.append((u, bs + [b]))
        out = nx
    return out
