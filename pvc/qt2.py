"""Assumed contracts of Qt value classes treated as immutable values: const and static members are functions of their
operands, non-const members replace the object's value by a function of the old one. Nothing else is assumed about them
unless stated below (lengths, ranges, mutual exclusion of suffixes, ...)."""
import re
from .terms import *
from .engine import *
from .qt import *
from . import ir

CLS = r"QStringList|QString|QUrlQuery|QUrl|QVariant|QDateTime|QDate|QTime|QHostAddress|QRegExp|QStringRef|QChar|QLatin1Char|QFileInfo|QDir|QNetworkRequest|QNetworkCookie|QSslCertificate|QSslKey|QPair<QString, QString>|QPair<QByteArray, QByteArray>|QMetaObject::Connection|QCryptographicHash|QElapsedTimer|QFlags<[\w:]+>|QRegularExpressionMatch|QRegularExpression|QJsonDocument|QMetaMethod|QMimeType|QMimeDatabase|QLocale"
STATICS = {"fromUtf8", "fromLatin1", "fromLocal8Bit", "fromAscii", "number", "currentDateTime", "currentDateTimeUtc", "fromString", "fromEncoded", "fromPercentEncoding", "fromTime_t", "toPercentEncoding", "fromMSecsSinceEpoch", "escape", "hash", "fromUserInput", "currentMSecsSinceEpoch", "isValid_static", "parseCookies", "fromRawData", "fromUcs4", "fromSecsSinceEpoch", "currentDate", "currentTime", "fromValue"}
RX = re.compile(r"^(%s)::(~?[\w<>]+|operator ?[^(]+|operator\(\))\((.*)\)( const)?(?: ?&&?)?$" % CLS)

def split_args(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<(": d += 1
        if ch in ">)": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

DONE = object()
def qs_lit(b): return Tm("qs", rlit(b))

def argval(C, a, ty, nxt=None):
    ex, st = C.ex, C.st
    if isinstance(a, Ptr):
        if a.oid is None: return Tm("nullptr")
        o = st.mem[a.oid]
        if ty == "char const*":
            try: return ex.cstr(st, a)
            except Unsupported: return a      # a counted string: the contract takes pointer and length itself
        if o.kind in ("cells", "elems"):
            try: v = ex.vget(st, a)
            except Unsupported:
                if o.kind == "cells" and (not o.cells or o.lazy is None and a.off not in o.cells): return Tm("default")
                raise
            if isinstance(v, BA): return ex.ba_rope(st, v)
            if isinstance(v, Vec): return Tm("vec", v.oid, *[x for x in (st.mem[v.oid].n,)])
            return v
        if o.kind == "bytes": return ex.cstr(st, a)
        return a
    if isinstance(a, OPtr) and getattr(ex, "opaque_value", None) and ty is not None and re.match(r"(?:%s)(?: const)?&{1,2}$|(?:%s) const&$" % (CLS, CLS), ty):
        v = ex.opaque_value(st, a)
        if isinstance(v, BA): return ex.ba_rope(st, v)
        return v
    return a

def result(C, tm, isstatic=False):
    ex, st, fn = C.ex, C.st, C.fn
    if fn.sret:
        ex.vset(st, C.a[0], tm); return None
    t = fn.ret
    if t.k == "int" and t.n == 1: return ex.tm_bool(tm)
    if t.k == "int":
        if re.search(r"QDateTime::(date|time)\(|QChar|QMetaObject", C.dem) : return tm
        return ex.tm_int(st, tm, -(1 << (t.n - 1)), (1 << (t.n - 1)) - 1)
    if t.k == "void": return None
    if t.k == "ptr":
        i = ex.tm_int(st, tm, 0); return OPtr(i)
    if t.k == "double" or t.k == "float": return tm
    return tm

def generic(C):
    ex, st, fn = C.ex, C.st, C.fn
    m = RX.match(C.dem); cls, meth, args, const = m.group(1), m.group(2), split_args(m.group(3)), m.group(4)
    base = 1 if fn.sret else 0
    short = cls.split("::")[-1]
    if meth == short or meth == cls.split("<")[0]:          # constructor
        if not args or args == ["void"]: ex.vset(st, C.a[0], Tm(cls)); return None
        av = [argval(C, a, t) for a, t in zip(C.a[1:], args)]
        if len(args) == 1 and args[0] == cls + " const&":
            if cls == "QStringList" and isinstance(C.a[1], OPtr): av = [ex.vget(st, C.a[1])]
            ex.vset(st, C.a[0], ex.copy_of(st, av[0]) if isinstance(av[0], Vec) else av[0]); return None
        if len(args) == 1 and args[0] == cls + "&&":
            ex.vset(st, C.a[0], av[0])
            if isinstance(C.a[1], Ptr): ex.vset(st, C.a[1], Tm(cls))
            return None
        h = SPECIAL.get("%s::%s" % (cls, "ctor"))
        v = h(C, args, av) if h else None
        ex.vset(st, C.a[0], v if v is not None else Tm(cls, *av)); return None
    if meth.startswith("~"): return None
    isstatic = meth in STATICS or (cls == "QString" and meth == "compare" and len(args) == 3)
    if isstatic:
        av = [argval(C, a, t) for a, t in zip(C.a[base:], args)]
        h = SPECIAL.get("%s::%s" % (cls, meth))
        v = h(C, args, av) if h else None
        if v is DONE: return C.result
        if v is not None and (isz(v) or isint(v) or isbool(v)): return v
        return result(C, v if v is not None else Tm("%s::%s" % (cls, meth), *av))
    this = C.a[base]
    av = [argval(C, a, t) for a, t in zip(C.a[base + 1:], args)]
    if meth == "operator=":
        new = av[0]
        if args[0] not in (cls + " const&", cls + "&&"):
            h = SPECIAL.get("%s::%s" % (cls, "ctor")); w = h(C, args, av) if h else None
            new = w if w is not None else Tm(cls, *av)
        if args[0] == cls + "&&":
            old = argval(C, this, cls); ex.vset(st, this, new); ex.vset(st, C.a[base + 1], old if isinstance(old, Tm) else Tm(cls))
        else: ex.vset(st, this, new)
        return this
    if meth == "swap":
        a, b = argval(C, this, cls), av[0]; ex.vset(st, this, b); ex.vset(st, C.a[base + 1], a); return None
    v = argval(C, this, cls)
    h = SPECIAL.get("%s::%s" % (cls, meth))
    if h:
        r = h(C, args, [v] + av)
        if r is DONE: return C.result
        if r is not None:
            if isinstance(r, Tm) and not const and fn.ret.k == "ptr" and not fn.sret: ex.vset(st, this, r); return this
            if isinstance(r, Tm): return result(C, r)
            return r
    tm = Tm("%s::%s" % (cls, meth), v, *av)
    if const: return result(C, tm)
    ex.vset(st, this, tm)
    if fn.ret.k == "ptr" and not fn.sret: return this
    if fn.ret.k == "void" and not fn.sret: return None
    return result(C, Tm(tm.op + ".ret", v, *av))

def qs_ctor(C, args, av):
    if args[0] == "char const*" and len(args) == 1: return Tm("qs", av[0]) if isinstance(av[0], Rope) else Tm("QString")
    if args[0] == "QByteArray const&": return Tm("qs", av[0])
    if args[0] in ("QLatin1String", "QLatin1String const&"): return lat1(C, C.a[1:])
    return None
def lat1(C, a):
    """QLatin1String passed by value as (int, char*) or by reference"""
    ex, st = C.ex, C.st
    if len(a) >= 2 and isint(a[0]): return Tm("qs", ex.rope_at(st, a[1], a[0]))
    if isinstance(a[0], Ptr):
        n = ex.load(st, a[0], ir.INT(32), C.mod); d = ex.load(st, Ptr(a[0].oid, add(a[0].off, 8)), ir.PTR, C.mod); return Tm("qs", ex.rope_at(st, d, n))
    return None
def from8(op):
    def h(C, args, av):
        ex, st = C.ex, C.st; b = 1 if C.fn.sret else 0
        if args[0] == "char const*":
            p, n = C.a[b], C.a[b + 1]
            if isinstance(p, Ptr) and p.oid is None: return Tm("QString")
            if not isz(n) and n == -1: return Tm(op, ex.cstr(st, p))
            return Tm(op, ex.rope_at(st, p, n))
        return Tm(op, av[0])
    return h
def qs_isempty(C, args, av):
    v = av[0]
    if v.op == "QString": return True
    if v.op in ("qs",):
        l = v.a[0].lit() if isinstance(v.a[0], Rope) else None
        if l is not None: return len(l) == 0
        t = B(eq(qs_len(C.ex, C.st, v), 0))
        if isinstance(v.a[0], Rope): C.st.pc.append(z3.Implies(B(eq(v.a[0].len(), 0)), t))
        return t
    return B(eq(qs_len(C.ex, C.st, v), 0))
def qs_len(ex, st, v):
    """length of a string: one unknown per string, isEmpty() says that it is 0"""
    if v.op == "QString": return 0
    if v.op == "qs" and isinstance(v.a[0], Rope):
        l = v.a[0].lit()
        if l is not None and all(0 < x < 128 for x in l): return len(l)
    i = ex.tm_int(st, Tm("QString::length", v), 0, 1 << 30); t = ex.tm_bool(Tm("QString::isEmpty", v)); st.pc.append(t == (Z(i) == 0)); return i
def qs_piece(v, ty):
    """a string, character, literal or byte array as a string; None if not understood"""
    if isinstance(v, Tm): return Tm("qs", v.a[0]) if v.op == "QLatin1String" and isinstance(v.a[0], Rope) else v if v.op in ("qs", "QString") or ty.startswith("QString") else None
    if isinstance(v, Rope): return Tm("qs", v)
    if ty in ("QChar", "char", "QLatin1Char") and isint(v) and not isz(v) and 0 < v < 128: return Tm("qs", rlit(bytes([v])))
    return None
def qs_clear(C, args, av):
    C.ex.vset(C.st, C.a[0], Tm("QString")); C.result = None; return DONE
def qs_append(C, args, av):
    if len(args) != 1: return None
    p = qs_piece(av[1], args[0].replace(" const&", "").replace("&&", ""))
    return None if p is None or not isinstance(av[0], Tm) else qs_plus2(av[0], p)
def qs_plus2(a, b):
    if a.op == "qs" and b.op == "qs": return Tm("qs", a.a[0] + b.a[0])
    return Tm("plus", a, b)
def qs_starts(C, args, av):
    v, lit = av[0], qs_piece(av[1], args[0].replace(" const&", "")) or av[1]; return C.ex.tm_bool(Tm("QString::startsWith", v, lit, C.a[-1] if len(C.a) > 2 else 1))
def hash_of(C, args, av): return Tm("QCryptographicHash::result", Tm("QCryptographicHash::addData", Tm("QCryptographicHash", av[1]), av[0]))
def hash_add(C, args, av):
    if args[:1] == ["char const*"] and len(args) == 2: return Tm("QCryptographicHash::addData", av[0], C.ex.rope_at(C.st, C.a[1], C.a[2]))
    return None
def qs_utf8(C, args, av):
    v = av[0]
    if v.op == "QString":
        return setba(C, pure(Rope()))
    if v.op == "qs" and isinstance(v.a[0], Rope):
        l = v.a[0].lit()
        if l is not None and all(x < 128 for x in l): return setba(C, pure(v.a[0]))
    return Tm("toUtf8", v)
def setba(C, b):
    C.ex.vset(C.st, C.a[0], b); C.result = None; return DONE
def qs_ends(C, args, av):
    """endsWith(literal): exclusive for literals neither of which ends with the other"""
    v, lit = av[0], qs_piece(av[1], args[0].replace(" const&", "")) or av[1]; cs = C.a[-1] if len(C.a) > 2 else 1
    t = C.ex.tm_bool(Tm("endsWith", v, lit, cs))
    l = lit.a[0].lit() if isinstance(lit, Tm) and lit.op == "qs" else None
    if l is not None:
        reg = C.ex.__dict__.setdefault("ends", {}).setdefault((v.key(), cs), {})
        reg[l] = t
        for m, u in reg.items():
            a, b = (l.lower(), m.lower()) if cs == 0 else (l, m)
            if a == b: C.st.pc.append(t == u)
            elif a.endswith(b): C.st.pc.append(z3.Implies(t, u))
            elif b.endswith(a): C.st.pc.append(z3.Implies(u, t))
            else: C.st.pc.append(Not(And(t, u)))
    return t
qs_ci = z3.Function("qs_ci", IntSort(), IntSort(), BoolSort())
def qs_compare(C, args, av):
    a, b = av[0], av[1]; cs = C.a[(1 if C.fn.sret else 0) + 2] if len(C.a) > 2 else 1
    ex, st = C.ex, C.st
    if not (isinstance(a, Tm) and isinstance(b, Tm)): return None
    v = ex.tm_int(st, Tm("cmp", a, b, cs), -(1 << 31), (1 << 31) - 1)
    t = qs_ci(Z(ex.tm_id(a)), Z(ex.tm_id(b))) if cs == 0 else B(term_eq(ex, st, a, b))
    st.pc.append((v == 0) == t); return v
def rng(lo, hi):
    def h(C, args, av): return C.ex.tm_int(C.st, Tm(C.dem.split("(")[0], av[0]), lo, hi)
    return h
SPECIAL = {"QString::ctor": qs_ctor, "QString::clear": qs_clear, "QString::fromUtf8": from8("qs"), "QString::fromLatin1": from8("qs_latin1"), "QString::fromLocal8Bit": from8("qs_local"), "QString::isEmpty": qs_isempty,
           "QString::toUtf8": qs_utf8, "QString::compare": qs_compare, "QString::endsWith": qs_ends, "QString::startsWith": qs_starts, "QString::operator+=": qs_append, "QString::append": qs_append, "QCryptographicHash::hash": hash_of, "QCryptographicHash::addData": hash_add,
           **{"QString::" + n: lambda C, args, av: qs_len(C.ex, C.st, av[0]) for n in ("length", "size")}, "QString::count": lambda C, args, av: None if args else qs_len(C.ex, C.st, av[0]),
           "QDate::dayOfWeek": rng(1, 7), "QDate::day": rng(1, 31), "QDate::month": rng(1, 12), "QTime::hour": rng(0, 23), "QTime::minute": rng(0, 59), "QTime::second": rng(0, 59)}

def install2(ex):
    ex.patterns.append((RX, generic))
    def qeq(C):
        a, b = argval(C, C.a[0], "QString const&"), argval(C, C.a[1], "QString const&"); return term_eq(C.ex, C.st, a, b)
    P = lambda rx, h: ex.patterns.append((re.compile(rx + "$"), h))
    for t in ("QString", "QUrl", "QHostAddress", "QVariant", "QDateTime"):
        P(r"operator==\(%s const&, %s const&\)" % (t, t), qeq); P(r"operator!=\(%s const&, %s const&\)" % (t, t), lambda C: not_(qeq(C)))
    P(r"(QUrl|QHostAddress|QVariant|QDateTime|QNetworkRequest)::operator==\(.*\) const", qeq); P(r"(QUrl|QHostAddress|QVariant|QDateTime|QNetworkRequest)::operator!=\(.*\) const", lambda C: not_(qeq(C)))
    ex.patterns.sort(key=lambda p: 1 if p[0] is RX else 0)
    # pure QByteArray members without a precise contract
    def ba_pure(C):
        m = re.match(r"QByteArray::(\w+)\(", C.dem); b = 1 if C.fn.sret else 0
        this = C.ex.ba_rope(C.st, C.ex.bget(C.st, C.a[b])) ; args = split_args(re.match(r".*?\((.*)\)", C.dem).group(1))
        av = [argval(C, a, t) for a, t in zip(C.a[b + 1:], args)]
        return result(C, Tm("ba." + m.group(1), this, *av))
    P(r"QByteArray::(toHex|toBase64|trimmed|toLower|toUpper|simplified|toPercentEncoding|startsWith|endsWith|contains|indexOf|lastIndexOf|toDouble|count|repeated|toUInt|toULongLong)\(.*\)(?: const)?(?: ?&&?)?", ba_pure)
    def frompct(C): return result(C, Tm("ba.fromPercentEncoding", argval(C, C.a[1], "QByteArray const&"), C.a[2] if len(C.a) > 2 else 37))
    P(r"QByteArray::(fromPercentEncoding)\(.*\)", frompct)

def term_eq(ex, st, a, b):
    if isinstance(a, Tm) and isinstance(b, Tm):
        if a.key() == b.key(): return True
        la = a.a[0].lit() if a.op == "qs" and isinstance(a.a[0], Rope) else None
        lb = b.a[0].lit() if b.op == "qs" and isinstance(b.a[0], Rope) else None
        if la is not None and lb is not None: return la == lb
        for x, y in ((a, b), (b, a)):      # x.left(y.length()) == y
            if x.op == "QString::left" and ex.holds(st, eq(x.a[1], qs_len(ex, st, y))): return ex.tm_bool(Tm("QString::startsWith", x.a[0], y, 1))
        i, j = ex.tm_id(a), ex.tm_id(b)
        if la is not None and lb is None: i, j = j, i
        t = ex.tm_bool(Tm("teq", i, j)) if str(i) < str(j) else ex.tm_bool(Tm("teq", j, i))
        return t
    raise Unsupported("comparison of %r and %r" % (a, b))
