"""Contracts of objects the code under contract only talks to (connections, devices, files, handlers): const members are
functions of the object and of what was done to it before; every other member is an event of the trace (name, object,
arguments) after which the object may answer differently. Identity of an object: OPtr id (an Int term) or ("o", n) for one
created by the code itself."""
import re, z3
from .terms import *
from .engine import *
from .qt import *
from .pillow import *
from .qt2 import *
from .conn import objid, events, cases, QIO, use_devices
from . import ir

def ideq(a, b):
    """object identities, at least one of an object the code created"""
    return isinstance(a, tuple) and isinstance(b, tuple) and a == b
def same_obj(ex, st, a, b):
    if isinstance(a, tuple) or isinstance(b, tuple): return ideq(a, b)
    return ex.holds(st, eq(a, b))
def epoch(st, o): return sum(1 for e in st.trace if isinstance(e, tuple) and e[0] == "do")
def cepoch(st):
    """what was done that may change a connection: everything but work on files the code created itself"""
    return sum(1 for e in st.trace if isinstance(e, tuple) and e[0] == "do" and not (e[1] in ("open", "read", "readAll", "delete", "devclose") and isinstance(e[2], tuple)))
def depoch(st, name):
    """what was done that may change this answer of a device"""
    if name == "bytesToWrite": return epoch(st, None)
    return sum(1 for e in st.trace if isinstance(e, tuple) and e[0] == "do" and e[1] in (("open", "devclose") if name == "size" else ("open", "read", "readAll", "devclose")))
def okey(o): return o if isinstance(o, tuple) else Tm("val", o)
def do(C, name, *args):
    """an operation on an object: an event"""
    C.ex.nonnull(C.st, C.a[C.base]); C.ev("do", name, objid(C.a[C.base]), *args)

# ---- HttpConnection
GETB = ("requestMethod", "requestHttpVersion", "requestUri", "requestPath", "requestQueryString", "requestFragment", "requestContent")
GETS = ("requestPathDecoded", "requestUriDecoded", "requestQueryStringDecoded", "requestFragmentDecoded")
GETI = {"responseStatusCode": (-(1 << 31), (1 << 31) - 1), "responseContentLength": (-(1 << 63), (1 << 63) - 1), "state": (0, 7)}
def conn_bytes(ex, st, o, name, *a): return ratom(ex.tm_atom(st, Tm("HttpConnection." + name, okey(o), cepoch(st), *a)))
def conn_tm(ex, st, o, name, *a): return Tm("HttpConnection." + name, okey(o), cepoch(st), *a)
def ba_of(ex, st, p): return ex.ba_rope(st, ex.bget(st, p))
def headers_of(ex, st, p):
    """[(name, value)] of a header collection with a known number of headers"""
    v = ex.vecval(st, p, "Pillow::HttpHeader"); o = st.mem[v.oid]; n = o.n
    if isz(n): return ("vec", v.oid, ex.list_pieces(st, v.oid))
    return [tuple(ex.ba_rope(st, val(ex, st, o, k, off)) for off in (0, 8)) for k in range(n)]
def val(ex, st, o, k, off):
    v = ex.elem_value(st, o, k, off, ir.PTR, 8)
    return v if isinstance(v, BA) else pure(ratom(ex.tm_atom(st, v)))

def use_connection(ex):
    P = r"Pillow::HttpConnection::"
    rx = re.compile(P + r"(\w+)\((.*)\)( const)?$")
    def h(C):
        m = rx.match(C.dem); n = m.group(1); ex, st = C.ex, C.st; C.base = 1 if C.fn.sret else 0
        p = C.a[C.base]; ex.nonnull(st, p); o = objid(p); a = C.a[C.base + 1:]
        if n in GETB and C.fn.sret: ex.vset(st, C.a[0], pure(conn_bytes(ex, st, o, n))); return None
        if n in GETB:
            c = ex.new_cells(st, n, 8); ex.vset(st, Ptr(c), pure(conn_bytes(ex, st, o, n))); return Ptr(c)
        if n in GETS:
            t = conn_tm(ex, st, o, n)
            if C.fn.sret: ex.vset(st, C.a[0], t); return None
            c = ex.new_cells(st, n, 8); ex.vset(st, Ptr(c), t); return Ptr(c)
        if n == "remoteAddress": ex.vset(st, C.a[0], conn_tm(ex, st, o, n)); return None
        if n == "requestHeaderValue":
            v = pure(conn_bytes(ex, st, o, n, ba_of(ex, st, a[0])))
            if C.fn.sret: ex.vset(st, C.a[0], v); return None
            c = ex.new_cells(st, n, 8); ex.vset(st, Ptr(c), v); return Ptr(c)
        if n in ("requestParamValue",): ex.vset(st, C.a[0], conn_tm(ex, st, o, n, argval(C, a[0], "QString const&"))); return None
        if n in GETI: return ex.tm_int(st, conn_tm(ex, st, o, n), *GETI[n])
        if n in ("outputDevice", "inputDevice"):
            i = ex.tm_int(st, conn_tm(ex, st, o, n), 0); return OPtr(i, "QIODevice")
        if n == "writeResponse": return do(C, n, a[0], headers_of(ex, st, a[1]), ba_of(ex, st, a[2]))
        if n == "writeResponseString":      # C05: the same as writing the UTF-8 of the text
            v = argval(C, a[2], "QString const&"); l = v.a[0].lit() if v.op == "qs" and isinstance(v.a[0], Rope) else None
            return do(C, "writeResponse", a[0], headers_of(ex, st, a[1]), rlit(l) if l is not None and all(x < 128 for x in l) else Rope() if v.op == "QString" else ratom(ex.tm_atom(st, Tm("toUtf8", v))))
        if n == "writeHeaders": return do(C, n, a[0], headers_of(ex, st, a[1]))
        if n == "writeContent": return do(C, n, ba_of(ex, st, a[0]))
        if n in ("endContent", "close", "flush"): return do(C, n)
        if n == "setRequestParam": return do(C, n, *[argval(C, x, "QString const&") for x in a])
        raise Unsupported("HttpConnection::" + n)
    ex.patterns.insert(0, (rx, h))

# ---- QPointer: the pointer it was given; it reads as null once the object is gone (never during the run of one function here)
def use_qpointer(ex):
    P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h))
    T = r"QPointer<[\w:]+>::"
    def cls(C): return re.match(r".*?QPointer<([\w:]+)>", C.dem).group(1)
    def setp(C): C.ex.store(C.st, C.a[0], C.a[1], 8); return C.a[0]
    P(T + r"QPointer\([\w:]+\*\)", setp); P(T + r"operator=\([\w:]+\*\)", setp)
    P(T + r"QPointer\(\)", lambda C: C.ex.store(C.st, C.a[0], NULL, 8)); P(T + r"~QPointer\(\)", lambda C: None)
    def get(C): return C.ex.load(C.st, C.a[0], ir.PTR, C.mod)
    P(T + r"(?:operator->\(\)|operator [\w:]+\*\(\)|data\(\)|operator\*\(\)) const", get)
    P(T + r"isNull\(\) const", lambda C: C.ex.ptr_cmp(C.st, "eq", get(C), NULL)); P(T + r"clear\(\)", lambda C: C.ex.store(C.st, C.a[0], NULL, 8))
    P(r"bool operator==<[\w:]+>\(QPointer<[\w:]+> const&, [\w:]+(?: const)?\*\)", lambda C: C.ex.ptr_cmp(C.st, "eq", get(C), C.a[1]))
    P(r"bool operator!=<[\w:]+>\(QPointer<[\w:]+> const&, [\w:]+(?: const)?\*\)", lambda C: not_(C.ex.ptr_cmp(C.st, "eq", get(C), C.a[1])))

# ---- QHash<K*, V*>: base map plus updates, newest last; a stored entry is a cell
class HashV:
    def __init__(s, base, ups=()): s.base, s.ups = base, tuple(ups)
    def key(s): return ("hash", id(s.base), tuple((vkey(k), c) for k, c in s.ups))
def use_hash(ex):
    """QHash from object pointers to pointers"""
    P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h))
    T = r"QHash<.*\*, .*\*>::"
    def hv(C): return C.ex.vget(C.st, C.a[0])
    def kid(C, p): return objid(C.ex.load(C.st, p, ir.PTR, C.mod))
    def find(C, hv_, k):
        """[(state, cell or None, value)]: the entry of key k"""
        ex = C.ex; out = []; todo = [C.st]
        for key, cell in reversed(hv_.ups):
            nx = []
            for s in todo:
                if isinstance(key, tuple) or isinstance(k, tuple):
                    (out if ideq(key, k) else nx).append((s, cell) if ideq(key, k) else s); continue
                for t, e in C.on(s).split(eq(key, k)): (out if e else nx).append((t, cell) if e else t)
            todo = nx
        return out, todo
    def ctor(C):
        if len(C.a) > 1: C.ex.vset(C.st, C.a[0], C.ex.vget(C.st, C.a[1]))
        else: C.ex.vset(C.st, C.a[0], HashV(lambda k: 0))
    P(T + r"QHash\(.*\)", ctor); P(T + r"~QHash\(\)", lambda C: None)
    def value(C):
        h = hv(C); k = kid(C, C.a[1]); d = C.ex.load(C.st, C.a[2], ir.PTR, C.mod) if len(C.a) > 2 else NULL; hits, miss = find(C, h, k); res = []
        for s, cell in hits: res.append((s, d if cell is None else C.ex.load(s, Ptr(cell), ir.PTR, C.mod)))
        for s in miss:
            b = h.base(Z(k)) if not isinstance(k, tuple) else 0
            for t, present in C.on(s).split(not_(eq(b, 0))): res.append((t, OPtr(b, h_cls(h)) if present else d))
        return res
    def h_cls(h): return getattr(h, "cls", None)
    P(T + r"value\(.*\) const", value)
    def index(C):
        h = hv(C); k = kid(C, C.a[1]); hits, miss = find(C, h, k); res = []
        for s, cell in hits:
            if cell is None: miss.append(s)
            else: res.append((s, Ptr(cell)))
        for s in miss:
            c = C.ex.new_cells(s, "hash entry", 8); b = h.base(Z(k)) if not isinstance(k, tuple) else 0
            C.ex.store(s, Ptr(c), OPtr(b, h_cls(h)) if isz(b) else NULL, 8)
            n = HashV(h.base, h.ups + ((k, c),)); n.__dict__.update({x: y for x, y in h.__dict__.items() if x == "cls"}); C.ex.vset(s, C.a[0], n); res.append((s, Ptr(c)))
        return res
    P(T + r"operator\[\]\(.*\)", index)
    def remove(C):
        h = hv(C); k = kid(C, C.a[1]); n = HashV(h.base, h.ups + ((k, None),)); n.__dict__.update({x: y for x, y in h.__dict__.items() if x == "cls"})
        C.ex.vset(C.st, C.a[0], n); return fint("removed")
    P(T + r"remove\(.*\)", remove)
    def put(C, h, k, s, v):
        c = C.ex.new_cells(s, "hash entry", 8); C.ex.store(s, Ptr(c), v, 8)
        n = HashV(h.base, h.ups + ((k, c),)); n.__dict__.update({x: y for x, y in h.__dict__.items() if x == "cls"}); C.ex.vset(s, C.a[1 if C.fn.sret else 0], n); return Ptr(c)
    def insert(C):
        b = 1 if C.fn.sret else 0; h = C.ex.vget(C.st, C.a[b]); p = put(C, h, kid(C, C.a[b + 1]), C.st, C.ex.load(C.st, C.a[b + 2], ir.PTR, C.mod))
        if b: C.ex.store(C.st, C.a[0], p, 8); return None
        return p
    P(T + r"insert\(.*\)", insert)
    def take(C):
        h = hv(C); C.a = C.a[:2]; res = value(C); k = kid(C, C.a[1]); n = HashV(h.base, h.ups + ((k, None),)); n.__dict__.update({x: y for x, y in h.__dict__.items() if x == "cls"})
        for s, v in res: C.ex.vset(s, C.a[0], n)
        return res
    P(T + r"take\(.*\)", take)
    # iterators: the entry's cell, null at the end; only find() yields one
    def find_it(C):
        b = 1 if C.fn.sret else 0; h = C.ex.vget(C.st, C.a[b]); k = kid(C, C.a[b + 1]); hits, miss = find(C, h, k); res = []
        for s, cell in hits: res.append((s, NULL if cell is None else Ptr(cell)))
        for s in miss:
            bs = h.base(Z(k)) if not isinstance(k, tuple) else 0
            for t, present in C.on(s).split(not_(eq(bs, 0))): res.append((t, put(C, h, k, t, OPtr(bs, h_cls(h))) if present else NULL))
        if not b: return res
        for s, p in res: C.ex.store(s, C.a[0], p, 8)
        return [(s, None) for s, p in res]
    P(T + r"(?:find|constFind)\(.*\)(?: const)?", find_it)
    def atend(C):
        if C.fn.sret: C.ex.store(C.st, C.a[0], NULL, 8); return None
        return NULL
    P(T + r"(?:end|constEnd|cend)\(\)(?: const)?", atend)
    it = lambda C, p: C.ex.load(C.st, p, ir.PTR, C.mod) if isinstance(p, Ptr) and p.oid is not None and C.st.mem[p.oid].name != "hash entry" else p
    P(T + r"(?:const_)?iterator::(?:value\(\)|operator\*\(\)|operator->\(\)) const", lambda C: it(C, C.a[0]))
    P(T + r"(?:const_)?iterator::operator==\(.*\) const", lambda C: C.ex.ptr_cmp(C.st, "eq", it(C, C.a[0]), it(C, C.a[1])))
    P(T + r"(?:const_)?iterator::operator!=\(.*\) const", lambda C: not_(C.ex.ptr_cmp(C.st, "eq", it(C, C.a[0]), it(C, C.a[1]))))
    def erase(C):
        b = 1 if C.fn.sret else 0; h = C.ex.vget(C.st, C.a[b]); p = it(C, C.a[b + 1]); k = [k for k, c in h.ups if isinstance(p, Ptr) and c == p.oid]
        if not k: raise Unsupported("erase of an unknown entry")
        n = HashV(h.base, h.ups + ((k[0], None),)); n.__dict__.update({x: y for x, y in h.__dict__.items() if x == "cls"}); C.ex.vset(C.st, C.a[b], n)
        if b: C.ex.store(C.st, C.a[0], NULL, 8); return None
        return NULL
    P(T + r"erase\(.*\)", erase)
    def contains(C):
        h = hv(C); k = kid(C, C.a[1]); hits, miss = find(C, h, k); res = [(s, cell is not None) for s, cell in hits]
        for s in miss:
            b = h.base(Z(k)) if not isinstance(k, tuple) else 0
            res.append((s, not_(eq(b, 0))))
        return res
    P(T + r"contains\(.*\) const", contains)
def entry(ex, st, h, k):
    """value stored under key k, None when absent; the keys must be decided on this path"""
    for key, cell in reversed(h.ups):
        if (ideq(key, k) if isinstance(key, tuple) or isinstance(k, tuple) else ex.holds(st, eq(key, k))): return None if cell is None else ex.load(st, Ptr(cell), ir.PTR, None)
    return ("base", k)

# ---- files and devices
SLOTS = dict(QIO, pos=15, size=16, seek=17, atEnd=18, reset=19)
def use_files(ex):
    """QFile objects the code creates, and the QIODevice interface of any device"""
    P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h))
    def qfile(C):
        C.st.w(C.a[0].oid).vcls = "QFile"; C.ex.vset(C.st, Ptr(C.a[0].oid, C.a[0].off), Tm("QFile"), 8)
        C.ev("newfile", objid(C.a[0]), argval(C, C.a[1], "QString const&"))
    P(r"QFile::QFile\(QString const&\)", qfile)
    def opened(C):
        C.base = 0; b = fbool("opened"); do(C, "open", b, C.a[1]); return b
    def q(name, lo=None, hi=None):
        def h(C):
            ex, st = C.ex, C.st; ex.nonnull(st, C.a[0]); o = objid(C.a[0]); k = Tm("dev." + name, okey(o), depoch(st, name))
            return ex.tm_bool(k) if lo is None else ex.tm_int(st, k, lo, hi)
        return h
    def dtor(C): C.base = 0; do(C, "delete"); (C.st.w(C.a[0].oid).__setattr__("freed", True) if isinstance(C.a[0], Ptr) else None)
    for cls in ("QFile", "QIODevice"):
        v = ex.vmethods
        v[(cls, 4)] = ("QObject::~QObject()", dtor); v[(cls, SLOTS["open"])] = ("QIODevice::open()", opened)
        for n, lo, hi in (("size", 0, 1 << 62), ("pos", 0, 1 << 62), ("atEnd", None, None), ("bytesAvailable", 0, 1 << 62), ("bytesToWrite", 0, 1 << 40), ("isSequential", None, None)): v[(cls, SLOTS[n])] = ("QIODevice::%s()" % n, q(n, lo, hi))
        v[(cls, SLOTS["close"])] = ("QIODevice::close()", lambda C: (setattr(C, "base", 0), do(C, "devclose"))[1] and None)
    P(r"QFileDevice::size\(\) const|QFile::size\(\) const|QIODevice::size\(\) const", q("size", 0, 1 << 62))
    P(r"QFile::open\(.*\)|QIODevice::open\(.*\)", opened)
    def read(all_):
        def h(C):
            ex, st = C.ex, C.st; C.base = 1; i = fint("read"); st.pc += [blen(i) >= 0, blen(i) < 1 << 30]
            n = None if all_ else C.a[2]
            if not all_: st.pc.append(B(le(blen(i), n)) if isz(le(blen(i), n)) else BoolVal(bool(le(blen(i), n))))
            do(C, "readAll" if all_ else "read", n, ratom(i)); ex.vset(st, C.a[0], pure(ratom(i)))
        return h
    P(r"QIODevice::readAll\(\)", read(True)); P(r"QIODevice::read\(long long\)", read(False))

def use_objects(ex):
    """QObject housekeeping"""
    P = lambda rx, h: ex.patterns.insert(0, (re.compile(rx + "$"), h))
    def conn(C):      # a null sender or receiver is refused with a warning
        b = 1 if C.fn.sret else 0; a = C.a[b:]
        def cs(p):
            r = C.ex.cstr(C.st, p); l = r.lit(); return l.decode() if l is not None else r
        C.ev("connect", objid(a[0]), cs(a[1]), objid(a[2]), cs(a[3]), a[4])
        if C.fn.sret: C.ex.vset(C.st, C.a[0], Tm("Connection"))
    ex.contracts["QObject::connect(QObject const*, char const*, QObject const*, char const*, Qt::ConnectionType)"] = conn
    P(r"QObject::QObject\(QObject\*\)|QObject::~QObject\(\)", lambda C: None)
    P(r"QObject::setParent\(QObject\*\)", lambda C: C.ev("parent", objid(C.a[0]), objid(C.a[1])))
    P(r"QObject::deleteLater\(\)", lambda C: C.ev("deleteLater", objid(C.a[0])))
    def lend(C, end):
        b = 1 if C.fn.sret else 0; m = re.match(r"QList<(.*)>::", C.dem); v = C.ex.vecval(C.st, C.a[b], m.group(1)); o = C.st.mem[v.oid]; p = Ptr(v.oid, 0, o.n if end else 0)
        if b: C.ex.store(C.st, C.a[0], p, 8); return None
        return p
    P(r"QList<[^>]*>::(?:begin|constBegin|cbegin)\(\) const", lambda C: lend(C, False)); P(r"QList<[^>]*>::(?:end|constEnd|cend)\(\) const", lambda C: lend(C, True))
    P(r"QString const operator\+\(.*\)|operator\+\(.*\)", qs_plus)
    P(r"std::enable_if<sizeof\.\.\.\(.*::arg<.*", qs_marg); P(r"QString QString::arg<.*", qs_marg)
    ex.contracts["QLatin1Char::QLatin1Char(char)"] = lambda C: C.ex.store(C.st, C.a[0], C.a[1], 1)
    def qch(C):
        v = C.a[1]
        if isinstance(v, Ptr): v = C.ex.load(C.st, v, ir.INT(8), C.mod)
        C.ex.store(C.st, C.a[0], wrap(16, uns(8, v) if "int" not in C.dem else v) if isz(v) else (v & 255 if "int" not in C.dem else v), 2)
    P(r"QChar::QChar\((?:QLatin1Char|char|int|char16_t|unsigned short|short)\)", qch)
    P(r"QFlags<(.*)>::QFlags\(\1\)", lambda C: C.ex.store(C.st, C.a[0], C.a[1], 4))
    def flags_or(C):
        x = C.ex.load(C.st, C.a[0], ir.INT(32), C.mod) if isinstance(C.a[0], Ptr) else C.a[0]; y = C.a[1] if not isinstance(C.a[1], Ptr) else C.ex.load(C.st, C.a[1], ir.INT(32), C.mod)
        if isz(x) or isz(y): raise Unsupported("unknown flags")
        return x | y
    def flags_in(C): C.ex.store(C.st, C.a[0], flags_or(C), 4); return C.a[0]
    P(r"QFlags<(.*)>::operator\|=\((?:\1|QFlags<\1>)\)", flags_in); P(r"QFlags<.*>::operator (?:unsigned )?int\(\) const", lambda C: C.ex.load(C.st, C.a[0], ir.INT(32), C.mod) if isinstance(C.a[0], Ptr) else C.a[0])
    P(r"QFlags<(.*)>::operator\|\((?:\1|QFlags<\1>)\) const", flags_or)
    def elapsed_start(C): C.ev("timer.start", objid(C.a[0]))
    ex.contracts["QElapsedTimer::start()"] = elapsed_start; ex.contracts["QElapsedTimer::QElapsedTimer()"] = lambda C: None
    ex.contracts["QElapsedTimer::elapsed() const"] = lambda C: C.ex.tm_int(C.st, Tm("elapsed", okey(objid(C.a[0]))), 0, 1 << 60)
    P(r"QString::toUtf8\(\) &&", lambda C: toutf8(C)); P(r"QString::toUtf8\(\) const ?&?", lambda C: toutf8(C))
def toutf8(C):
    v = argval(C, C.a[1], "QString const&"); r = qs_utf8(C, [], [v])
    if r is not DONE:
        i = C.ex.tm_atom(C.st, r); C.st.pc.append(blen(i) <= 1 << 30); C.ex.vset(C.st, C.a[0], pure(ratom(i)))      # three bytes per UTF-16 unit at most, and it fits in memory
def qs_plus(C):
    """concatenation of strings, characters and literals"""
    m = re.match(r".*operator\+\((.*), (.*)\)$", C.dem)
    if C.fn.sret is None or not m or m.group(1) not in ("QString const&", "QString&&", "char", "QChar", "char const*"): raise Unsupported("no contract for " + C.dem)
    C.ex.vset(C.st, C.a[0], plus(*[qs_of(C, a, t) for a, t in zip(C.a[1:3], m.groups())]))
def qs_of(C, a, t):
    if t == "char": return Tm("qs", rbyte(a))
    v = argval(C, a, t)
    if t == "QChar" and isint(v): return Tm("qs", rbyte(v)) if isz(v) or v < 128 else Tm("qs", Tm("QChar", v))
    return Tm("qs", v) if isinstance(v, Rope) else v
def plus(a, b):
    if a.op == "qs" and b.op == "qs": return Tm("qs", a.a[0] + b.a[0])
    return Tm("plus", a, b)
def qs_marg(C):
    this = C.a[1]; C.ex.vset(C.st, C.a[0], Tm("marg", argval(C, this, "QString const&"), *[argval(C, x, "QString const&") for x in C.a[2:]]))

def signal(ex, dem, name=None):
    """a signal of the object itself: an event (slots may run; they get no say in what the function does next except through the objects above)"""
    ex.contracts[dem] = lambda C: C.ev("emit", name or dem.split("::")[-1].split("(")[0], objid(C.a[0]), *[objid(x) if isinstance(x, (Ptr, OPtr)) else x for x in C.a[1:]])
