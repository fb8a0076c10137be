"""C11: status table, MIME types, HTTP dates."""
from ..unit import *
from ..pillow import *
NOTE = "Every integer status, every file name, every valid date-time of the years 1000 to 9999: proved. QString::endsWith and the calendar functions of QDateTime are assumed."

TABLE = {100: "Continue", 101: "Switching Protocols", 200: "OK", 201: "Created", 202: "Accepted", 203: "Non-Authoritative Information", 204: "No Content", 205: "Reset Content", 206: "Partial Content",
         300: "Multiple Choices", 301: "Moved Permanently", 302: "Found", 303: "See Other", 304: "Not Modified", 305: "Use Proxy", 307: "Temporary Redirect",
         400: "Bad Request", 401: "Unauthorized", 403: "Forbidden", 404: "Not Found", 405: "Method Not Allowed", 406: "Not Acceptable", 407: "Proxy Authentication Required", 408: "Request Timeout", 409: "Conflict", 410: "Gone",
         411: "Length Required", 412: "Precondition Failed", 413: "Request Entity Too Large", 414: "Request-URI Too Long", 415: "Unsupported Media Type", 416: "Requested Range Not Satisfiable", 417: "Expectation Failed",
         500: "Internal Server Error", 501: "Not Implemented", 502: "Bad Gateway", 503: "Service Unavailable", 504: "Gateway Timeout", 505: "HTTP Version Not Supported"}

def status(which):
    def run(ex):
        fn = target(ex, "Pillow::HttpProtocol::StatusCodes::%s(int)" % which); st = State(); c = fint("status"); st.pc += [c >= -(1 << 31), c < 1 << 31]
        cover(ex, st, "precondition"); known = unknown = 0
        for r in ex.run(st, fn, [c]):
            p = r.ret
            if isinstance(p, Ptr) and p.oid is None:
                unknown += 1; ex.prove(r, and_(*[not_(eq(c, k)) for k in TABLE]), "post", "nothing only for codes outside the table", where="none"); continue
            text = ex.cstr(r, p); l = text.lit()
            ks = [k for k in TABLE if ex.feasible(r, eq(c, k))]
            ex.prove(r, or_(*[eq(c, k) for k in ks]), "post", "text %r only for a code of the table" % l, where="text")
            for k in ks:
                known += 1; t = r.fork(); t.pc.append(c == k)
                want = TABLE[k] if which == "getStatusMessage" else "%d %s" % (k, TABLE[k])
                ex.prove_rope(t, text, rlit(want), "post-text", str(k))
        if known < len(TABLE) or not unknown: raise Unsupported("postcondition not reached")
    return run

MIME = {".html": "text/html", ".jpg": "image/jpeg", ".jpeg": "image/jpeg", ".png": "image/png", ".gif": "image/gif", ".css": "text/css", ".js": "text/javascript", ".xml": "text/xml"}
def mime(ex):
    fn = target(ex, "Pillow::HttpMimeHelper::getMimeTypeForFilename(QString const&)"); st = State()
    f = Tm("filename"); c = ex.new_cells(st, "filename", 8); ex.vset(st, Ptr(c), f)
    C = Call(ex, st, None, None, [None, None, 0], "QString::endsWith", None)
    from ..qt2 import qs_ends, qs_lit
    E = {e: qs_ends(C, ["QString"], [f, qs_lit(e)]) for e in MIME}
    cover(ex, st, "precondition"); n = 0
    for r in ex.run(st, fn, [Ptr(c)]):
        n += 1; got = ex.cstr(r, r.ret)
        for e, m in list(MIME.items()) + [(None, "application/octet-stream")]:
            t = r.fork()
            if e: t.pc.append(B(E[e]))
            else: t.pc += [Not(B(x)) for x in E.values()]
            if ex.check(t) == z3.unsat: continue
            ex.prove_rope(t, got, rlit(m), "post", "extension %s" % e)
    if n < 2: raise Unsupported("postcondition not reached")

def dates(ex):
    use_numbers(ex)
    fn = target(ex, "Pillow::HttpProtocol::Dates::getHttpDate(QDateTime const&)"); st = State()
    d = Tm("datetime"); c = ex.new_cells(st, "dt", 8); ex.vset(st, Ptr(c), d); out = ex.new_cells(st, "ret", 8)
    u = Tm("QDateTime::toUTC", d); date, time_ = Tm("QDateTime::date", u), Tm("QDateTime::time", u)
    I = lambda op, v, lo, hi: ex.tm_int(st, Tm(op, v), lo, hi)
    dow, day, mon, yr = I("QDate::dayOfWeek", date, 1, 7), I("QDate::day", date, 1, 31), I("QDate::month", date, 1, 12), I("QDate::year", date, 1000, 9999)
    h, m, s_ = I("QTime::hour", time_, 0, 23), I("QTime::minute", time_, 0, 59), I("QTime::second", time_, 0, 59)
    def pick(tab, i, width):
        def get(j):
            r = LitSrc(tab[0]).get(j)
            for k in range(1, len(tab)): r = ite(eq(i, k + 1), LitSrc(tab[k]).get(j), r)
            return r
        return Rope([Sl(FnSrc(get), 0, width)])
    def two(i): return rbyte(add(48, i / 10)) + rbyte(add(48, i % 10))
    want = pick([b"Mon", b"Tue", b"Wed", b"Thu", b"Fri", b"Sat", b"Sun"], dow, 3) + rlit(", ") + two(day) + rlit(" ") + pick([b"Jan", b"Feb", b"Mar", b"Apr", b"May", b"Jun", b"Jul", b"Aug", b"Sep", b"Oct", b"Nov", b"Dec"], mon, 3) + rlit(" ") + \
        number_rope(ex, st, yr) + rlit(" ") + two(h) + rlit(":") + two(m) + rlit(":") + two(s_) + rlit(" GMT")
    cover(ex, st, "precondition"); n = 0
    for r in ex.run(st, fn, [Ptr(out), Ptr(c)]):
        n += 1; ex.prove_rope(r, ex.ba_rope(r, ex.bget(r, Ptr(out))), want, "post", "RFC 1123 date of the instant in UTC")
    if n < 1: raise Unsupported("postcondition not reached")

S = ["HttpHelpers.cpp"]
UNITS = [Unit("getStatusCodeAndMessage", S, status("getStatusCodeAndMessage")), Unit("getStatusMessage", S, status("getStatusMessage")), Unit("getMimeTypeForFilename", S, mime), Unit("getHttpDate", S, dates)]
