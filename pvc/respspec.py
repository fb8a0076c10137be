"""Contracts of the client's response assembly (C20): every event handler of HttpResponseParser and the overrides of HttpClient."""
from .clientspec import *
RS = ["HttpClient.cpp", "parser/http_parser.c"]
RP = NS + "HttpResponseParser::"
CBS = {"on_message_begin": 0, "on_header_field": 16, "on_header_value": 24, "on_headers_complete": 32, "on_body": 40, "on_message_complete": 48}
PAUSED = 27      # HPE_PAUSED
def use_assert(ex): ex.contracts["__assert_fail"] = lambda C: (C.ex.prove(C.st, False, "assertion", "reachable", where="assert"), "STOP")[1]
VIRT = ("messageBegin", "headersComplete", "messageContent", "messageComplete")

def signed(bits, x): return (x + (1 << (bits - 1))) % (1 << bits) - (1 << (bits - 1))
class Parser:
    """A response parser in any state: constructed by its constructor, then every field overwritten with an arbitrary value"""
    def __init__(s, ex, virt=True):
        s.ex = ex; use_assert(ex); s.st = st = world(ex); L = s.L = lay(ex, NS + "HttpResponseParser"); s.o = ex.new_cells(st, "HttpResponseParser", 256)
        s.PL = {k: v for k, v in lay(ex, "http_parser").items() if not str(k).isdigit()}
        r = ex.run(st, ex.find(RP + "HttpResponseParser()"), [Ptr(s.o)]); assert len(r) == 1; s.st = r[0]; s.ctor = r[0].fork(); s.st.trace = []
    def pp(s, f): return Ptr(s.o, s.L["parser"] + s.PL[f])
    def callback(s, name):
        f = s.ex.load(s.st, Ptr(s.o, s.L["parser_settings"] + CBS[name]), ir.PTR, s.ex.modules[0]); m = s.ex.modules[0].funcs.get(f.name) if isinstance(f, FPtr) else None
        s.ex.prove(s.st, m is not None, "post-callback", name + " is set", where="post")
        if m is None: raise Unsupported("callback " + name)
        s.ex.targets.append(m.dem); return m
    def arbitrary(s):
        """any reachable state: text pieces, flag, headers, content"""
        ex, st = s.ex, s.st; s.F, s.V, s.C = [atom(ex, st, n, 1 << 27) for n in ("field", "value", "content")]; s.H = Headers(ex, st, "header"); s.last = fbool("lastWasValue")
        for f, v in (("_field", s.F), ("_value", s.V), ("_content", s.C)): ex.vset(st, Ptr(s.o, s.L[f]), pure(v))
        ex.vset(st, Ptr(s.o, s.L["_headers"]), s.H.vec); st.w(s.o).cells[s.L["_lastWasValue"]] = (1, ite(s.last, 1, 0))
        st.pc.append(Or(s.last, Z(s.V.len()) == 0))      # invariant: a value is only kept while it is the last thing received
        s.words = {}
        for off, sz in s.pcells(): x = fint("parser%d" % off); st.pc += [x >= -(1 << (8 * sz - 1)), x < 1 << (8 * sz - 1)]; st.w(s.o).cells[s.L["parser"] + off] = (sz, x); s.words[off] = (sz, x)
        e = errno(ex, st, s); st.pc.append(Or(Z(e) == 0, Z(e) == PAUSED))      # no event is delivered by a parser in error
        return st
    def pcells(s):
        """the members of the parser proper, as the code accesses them"""
        return sorted((o - s.L["parser"], c[0]) for o, c in s.st.mem[s.o].cells.items() if s.L["parser"] <= o < s.L["parser"] + s.dataoff())
    def dataoff(s): return s.PL["data"]
    def errno(s, st): return s.word(st, "errno")
    def rope(s, st, f): return s.ex.ba_rope(st, s.ex.bget(st, Ptr(s.o, s.L[f])))
    def flag(s, st, f): return s.ex.load(st, Ptr(s.o, s.L[f]), ir.INT(8), s.ex.modules[0])
    def headers(s, st): return s.ex.list_pieces(st, s.ex.vecval(st, Ptr(s.o, s.L["_headers"]), "Pillow::HttpHeader").oid)
    def same_parser(s, t, label, but=()):
        for off, (sz, x) in s.words.items():
            if off in but: continue
            s.ex.prove(t, eq(s.ex.load(t, Ptr(s.o, s.L["parser"] + off), ir.INT(8 * sz), s.ex.modules[0]), x), "frame", "%s: the parser's own state (offset %d)" % (label, off), where="post")
    def as_before(s, t, label, but=()):
        ex = s.ex
        for f, v in (("_field", s.F), ("_value", s.V), ("_content", s.C)):
            if f not in but: ex.prove_rope(t, s.rope(t, f), v, "frame", "%s: %s" % (label, f))
        if "_lastWasValue" not in but: ex.prove(t, eq(s.flag(t, "_lastWasValue"), ite(s.last, 1, 0)), "frame", label + ": flag", where="post")
        if "_headers" not in but: s.header_list(t, [], label)
    def header_list(s, t, more, label, base=True):
        ps = s.headers(t); ex = s.ex; k = 1 if base else 0
        if ps and not base and ps[0][0] == "base" and ex.holds(t, eq(ps[0][2], 0)): ps = ps[1:]
        ok = ps is not None and len(ps) == k + len(more) and (not base or ps[0][0] == "base" and ps[0][1] is s.H.base and ex.holds(t, eq(ps[0][2], s.H.n)))
        ex.prove(t, ok, "post-headers", "%s: %s" % (label, [p[0] for p in ps or ()]), where="post")
        if not ok: return
        for p, (n, v) in zip(ps[k:], more):
            ex.prove(t, p[0] == "item", "post-headers", label, where="post")
            if p[0] == "item": ex.prove_rope(t, ex.ba_rope(t, p[1][0][1]), n, "post-header", label + ": name"); ex.prove_rope(t, ex.ba_rope(t, p[1][8][1]), v, "post-header", label + ": value")
    def no_header(s, t, label):
        o = t.mem[s.ex.vecval(t, Ptr(s.o, s.L["_headers"]), "Pillow::HttpHeader").oid]; s.ex.prove(t, eq(o.n, 0), "post-headers", label + ": no header left", where="post")
    def virtuals(s):
        """the overridable handlers as events"""
        vt = s.st.mem[s.o].cells[0][1]
        for n in VIRT:
            f = [x for x in s.ex.modules[0].funcs.values() if x.defined and x.dem.startswith(RP + n + "(")]
            if not f: raise Unsupported("handler " + n)
            s.ex.contracts[f[0].dem] = lambda C, n=n: C.ev("virtual", n, objid(C.a[0]), C.a[1:], C.st.fork())

def ctor(ex):
    P = Parser(ex); t = P.ctor; target(ex, RP + "HttpResponseParser()"); cover(ex, t, "precondition")
    for n in CBS: P.callback(n)
    d = ex.load(t, Ptr(P.o, P.L["parser"] + P.PL["data"]), ir.PTR, ex.modules[0]); ex.prove(t, isinstance(d, Ptr) and d.oid == P.o and eq(d.off, 0) is True, "post-data", "the events reach this object", where="post")
    for f in ("_field", "_value", "_content"): ex.prove_rope(t, P.rope(t, f), Rope(), "post-empty", f)
    for f in ("_lastWasValue", "_parsing"): ex.prove(t, eq(P.flag(t, f), 0), "post-flag", f, where="post")
    P.no_header(t, "fresh")

def event(name):
    """one event of the parser, whatever came before"""
    def run(ex):
        P = Parser(ex); ex.unroll_rx = __import__("re").compile("^$"); fn = P.callback(name); st = P.arbitrary(); P.virtuals(); arg = Ptr(P.o, P.L["parser"]); args = [arg]; D = None
        if name in ("on_header_field", "on_header_value", "on_body"):
            n = fint("length"); st.pc += [n >= 0, n <= 1 << 27]; D = Rope([Sl(UFSrc(ffun("piece")), 0, n)]); src = Ptr(ex.new_bytes(st, "input", D, const=True)); args += [src, n]
        cover(ex, st, "precondition"); N = 0
        for r in ex.run(st, fn, args):
            ex.prove(r, eq(r.ret, 0), "post-result", "parsing goes on", where="post")
            for t, (last,) in cases(ex, r, P.last):
                N += 1; ev = [e for e in does(t) if e[0] == "virtual"]; want = {"on_message_begin": "messageBegin", "on_headers_complete": "headersComplete", "on_body": "messageContent", "on_message_complete": "messageComplete"}.get(name)
                ex.prove(t, [e[1] for e in ev] == ([want] if want else []) and all(ideq(e[2], ("o", P.o)) for e in ev), "post-handler", "the handler for the event is called once: %s" % [e[1] for e in ev], where="post")
                push = [(P.F, P.V)] if last else []
                if name == "on_header_field":
                    P.header_list(t, push, "a finished header is recorded"); ex.prove_rope(t, P.rope(t, "_field"), D if last else P.F + D, "post-field", "name so far"); ex.prove_rope(t, P.rope(t, "_value"), Rope(), "post-value", "value so far")
                    ex.prove(t, eq(P.flag(t, "_lastWasValue"), 0), "post-flag", where="post"); P.as_before(t, name, ("_field", "_value", "_lastWasValue", "_headers")); P.same_parser(t, name)
                elif name == "on_header_value":
                    ex.prove_rope(t, P.rope(t, "_value"), P.V + D, "post-value", "value so far"); ex.prove(t, eq(P.flag(t, "_lastWasValue"), 1), "post-flag", where="post"); P.as_before(t, name, ("_value", "_lastWasValue")); P.same_parser(t, name)
                elif name == "on_headers_complete":
                    for q in [e[4] for e in ev] + [t]: P.header_list(q, push, "the last header is recorded")
                    ex.prove(t, eq(P.flag(t, "_lastWasValue"), 0), "post-flag", where="post"); P.as_before(t, name, ("_field", "_value", "_lastWasValue", "_headers")); P.same_parser(t, name)
                elif name == "on_body":
                    for e in ev: ex.prove(t, and_(isinstance(e[3][0], Ptr) and e[3][0].oid == src.oid and eq(e[3][0].off, 0), eq(e[3][1], n)), "post-piece", "the piece as it was received", where="post")
                    P.as_before(t, name); P.same_parser(t, name)
                elif name == "on_message_begin": P.as_before(t, name); P.same_parser(t, name)
                else:
                    for q in [e[4] for e in ev] + [t]: P.header_list(q, push, "a last header after the content is recorded")
                    for e in ev: P.same_parser(e[4], "before the handler")
                    ex.prove(t, eq(P.flag(t, "_lastWasValue"), 0), "post-flag", where="post"); P.as_before(t, name, ("_field", "_value", "_lastWasValue", "_headers")); ex.prove(t, eq(errno(ex, t, P), PAUSED), "post-paused", "nothing after the message is parsed", where="post")
        if N < 2: raise Unsupported("postcondition not reached")
    return run
def errno(ex, t, P):
    """HTTP_PARSER_ERRNO: low 7 bits of the last byte before the data pointer"""
    v = ex.load(t, Ptr(P.o, P.L["parser"] + P.dataoff() - 1), ir.INT(8), ex.modules[0]); return v % 128

def base_handler(name):
    """the handlers of the parser itself"""
    def run(ex):
        P = Parser(ex); st = P.arbitrary(); args = [Ptr(P.o)]; D = None; ex.unroll_rx = None
        if name == "messageContent": n = fint("length"); st.pc += [n >= 0, n <= 1 << 27]; D = Rope([Sl(UFSrc(ffun("piece")), 0, n)]); args += [Ptr(ex.new_bytes(st, "input", D, const=True)), n]
        fn = [f for f in ex.modules[0].funcs.values() if f.defined and f.dem.startswith(RP + name + "(")][0]; ex.targets.append(fn.dem); cover(ex, st, "precondition"); N = 0
        for t in ex.run(st, fn, args):
            N += 1; P.same_parser(t, name)
            if name == "messageBegin":
                for f in ("_field", "_value", "_content"): ex.prove_rope(t, P.rope(t, f), Rope(), "post-forgotten", "nothing of an earlier message: " + f)
                ex.prove(t, eq(P.flag(t, "_lastWasValue"), 0), "post-forgotten", "flag", where="post"); P.no_header(t, "nothing of an earlier message")
            elif name == "messageContent": ex.prove_rope(t, P.rope(t, "_content"), P.C + D, "post-content", "content so far"); P.as_before(t, name, ("_content",))
            else: P.as_before(t, name)
        if N < 1: raise Unsupported("postcondition not reached")
    return run
def clear(parsing):
    def run(ex):
        P = Parser(ex); st = P.arbitrary(); st.w(P.o).cells[P.L["_parsing"]] = (1, 1 if parsing else 0); fn = target(ex, RP + "clear()"); fresh = P.ctor; cover(ex, st, "precondition"); N = 0
        for t in ex.run(st, fn, [Ptr(P.o)]):
            N += 1; P.no_header(t, "cleared"); ex.prove_rope(t, P.rope(t, "_content"), Rope(), "post-empty", "content")
            for off, (sz, x) in P.words.items():
                p = Ptr(P.o, P.L["parser"] + off); a, b = ex.load(t, p, ir.INT(8 * sz), ex.modules[0]), ex.load(fresh, p, ir.INT(8 * sz), ex.modules[0])
                if off <= P.dataoff() - 1 < off + sz and parsing: continue
                ex.prove(t, eq(a, b), "post-reset", "the parser is as new (offset %d)" % off, where="post")
            ex.prove(t, eq(errno(ex, t, P), PAUSED if parsing else 0), "post-paused", "paused when it happens during a parse" if parsing else "ready", where="post")
            d = ex.load(t, Ptr(P.o, P.L["parser"] + P.PL["data"]), ir.PTR, ex.modules[0]); ex.prove(t, isinstance(d, Ptr) and d.oid == P.o and eq(d.off, 0) is True, "post-data", "the events still reach this object", where="post")
            ex.prove(t, eq(P.flag(t, "_parsing"), 1 if parsing else 0), "frame", "parsing", where="post")
        if N < 1: raise Unsupported("postcondition not reached")
    return run
def inject(eof):
    """the parser runs once over exactly the given bytes, marked as parsing; a parser paused at the end of a message is ready for the next"""
    def run(ex):
        P = Parser(ex); st = P.arbitrary(); par = fint("parsing"); st.pc += [par >= 0, par <= 1]; st.w(P.o).cells[P.L["_parsing"]] = (1, par); args = [Ptr(P.o)]; n = 0
        if not eof: n = fint("length"); st.pc += [n >= 0, n < 1 << 30]; src = Ptr(ex.new_bytes(st, "input", Rope([Sl(UFSrc(ffun("piece")), 0, n)]), const=True)); args += [src, n]
        after = {}
        def execute(C):
            s = C.st; ok = all(isinstance(C.a[k], Ptr) and C.a[k].oid == P.o and eq(C.a[k].off, P.L[f]) is True for k, f in ((0, "parser"), (1, "parser_settings"))); ex.prove(s, ok, "pre-parser", "its own parser and handlers", where="post")
            if eof: ex.prove(s, eq(C.a[3], 0), "pre-eof", "end of input", where="post")
            else: ex.prove(s, and_(isinstance(C.a[2], Ptr) and C.a[2].oid == src.oid and eq(C.a[2].off, 0), eq(C.a[3], n)), "pre-input", "the given bytes", where="post")
            ex.prove(s, eq(P.flag(s, "_parsing"), 1), "pre-parsing", "marked as parsing", where="post")
            for off, (sz, x) in P.words.items(): y = fint("parser%d'" % off); s.pc += [y >= -(1 << (8 * sz - 1)), y < 1 << (8 * sz - 1)]; s.w(P.o).cells[P.L["parser"] + off] = (sz, y); after[off] = (sz, y)
            for f in ("_field", "_value", "_content"): ex.vset(s, Ptr(P.o, P.L[f]), pure(atom(ex, s, f + "'", 1 << 27)))
            c = fint("consumed"); s.pc += [c >= 0, c <= Z(n)]; C.ev("execute", s.fork(), c); return c
        ex.contracts["http_parser_execute"] = execute
        fn = target(ex, RP + ("injectEof()" if eof else "inject(char const*, int)")); cover(ex, st, "precondition"); seen = set()
        for r in ex.run(st, fn, args):
            for t, (busy,) in cases(ex, r, par == 1):
                seen.add(busy); e = [x for x in does(t) if x[0] == "execute"]; ex.prove(t, len(e) == (0 if busy else 1), "post-once", "runs %s" % ("not from a handler" if busy else "once"), where="post")
                if busy: P.as_before(t, "busy"); P.same_parser(t, "busy"); ex.prove(t, eq(P.flag(t, "_parsing"), 1), "frame", "parsing", where="post"); (None if eof else ex.prove(t, eq(t.ret, 0), "post-consumed", "nothing", where="post")); continue
                if len(e) != 1: continue
                q, c = e[0][1:3]; ex.prove(t, eq(P.flag(t, "_parsing"), 0), "post-parsing", "parsing is over", where="post")
                if not eof: ex.prove(t, eq(t.ret, c), "post-consumed", "the bytes consumed", where="post")
                for u, (paused,) in cases(ex, t, Z(errno(ex, q, P)) == PAUSED):
                    ex.prove(u, eq(errno(ex, u, P), 0 if paused else errno(ex, q, P)), "post-errno", "a paused parser is resumed, an error stays", where="post")
                    for off, (sz, y) in after.items():
                        if off <= P.dataoff() - 1 < off + sz: continue
                        ex.prove(u, eq(ex.load(u, Ptr(P.o, P.L["parser"] + off), ir.INT(8 * sz), ex.modules[0]), ex.load(q, Ptr(P.o, P.L["parser"] + off), ir.INT(8 * sz), ex.modules[0])), "frame", "the parser's own state (offset %d)" % off, where="post")
                    for f in ("_field", "_value", "_content"): ex.prove_rope(u, P.rope(u, f), P.rope(q, f), "frame", f)
        if seen != {True, False}: raise Unsupported("postcondition not reached")
    return run
C20 = [Unit("HttpResponseParser::HttpResponseParser", RS, ctor)] + [Unit("HttpResponseParser: " + n, RS, event(n)) for n in CBS] + [Unit("HttpResponseParser::" + n, RS, base_handler(n)) for n in VIRT] + [Unit("HttpResponseParser::clear", RS, clear(False)), Unit("HttpResponseParser::clear(from a handler)", RS, clear(True)), Unit("HttpResponseParser::inject", RS, inject(False)), Unit("HttpResponseParser::injectEof", RS, inject(True))]

# ---------------------------------------------------------------- content decoder
def gunzip(ex):
    """what the decompressor yields is handed on, all of it and nothing else, until it has taken all it was given; what it cannot decode is handed on as it is"""
    st = world(ex); use_assert(ex); L = lay(ex, NS + "GunzipContentTransformer"); Z_ = lay(ex, "z_stream_s"); z0 = L["_inflateStream"]; o = ex.new_cells(st, "GunzipContentTransformer", 136)
    for f in ("next_in", "next_out", "state", "msg"): ex.store(st, Ptr(o, z0 + Z_[f]), NULL, 8)
    for f, sz in (("avail_in", 4), ("avail_out", 4), ("total_in", 8), ("total_out", 8)): st.w(o).cells[z0 + Z_[f]] = (sz, 0)
    old = atom(ex, st, "old"); ba = ex.own(st, old); ex.vset(st, Ptr(o, L["_inflatedBuffer"]), ba); bad = fint("bad"); st.pc += [bad >= 0, bad <= 1]; st.w(o).cells[L["_streamBad"]] = (1, bad)
    n = fint("length"); st.pc += [n >= 0, n <= 1 << 27]; D = Rope([Sl(UFSrc(ffun("piece")), 0, n)]); src = Ptr(ex.new_bytes(st, "input", D, const=True)); G = ex.new_cells(st, "ghost", 40); g = st.w(G).cells
    for k in range(5): g[8 * k] = (8, 0)
    prod = ffun("produced"); f = Bounded("decoded", lambda i: [(True, ratom(prod(Z(i))))]); ex.foldlist.append(f)
    def inflate(C):
        s = C.st; ex.prove(s, isinstance(C.a[0], Ptr) and C.a[0].oid == o and eq(C.a[0].off, z0) is True, "pre-stream", "its own stream", where="post"); m = ex.modules[0]
        ld = lambda k, t: ex.load(s, Ptr(o, z0 + Z_[k]), t, m)
        ni, ai, no, ao = ld("next_in", ir.PTR), uns(32, ld("avail_in", ir.INT(32))), ld("next_out", ir.PTR), uns(32, ld("avail_out", ir.INT(32))); c0, k = s.mem[G].cells[8][1], s.mem[G].cells[0][1]
        ex.prove(s, eq(s.mem[G].cells[16][1], 0), "pre-sound", "not called again after an error", where="post")
        g = s.mem[G].cells; ex.prove(s, or_(eq(g[32][1], 0), eq(g[24][1], 0)), "pre-progress", "not called again once the stream ended with room left: it would never take another byte", where="post")
        ok = isinstance(ni, Ptr) and ni.oid == src.oid; ex.prove(s, ok and and_(eq(ni.off, c0), eq(ai, sub(n, c0))), "pre-input", "the input from where it stopped", where="post")
        ok2 = isinstance(no, Ptr) and no.oid in s.mem
        ex.prove(s, ok2 and and_(le(0, no.off), lt(0, ao), le(add(no.off, ao), s.mem[no.oid].size)), "bounds-write", "room for the output", where="post")
        if not (ok and ok2): raise Unsupported("stream")
        c = fint("taken"); r = fint("result"); i = prod(Z(k)); s.pc += [c >= 0, c <= Z(ai), blen(i) >= 0, blen(i) <= Z(ao), r >= -(1 << 31), r < 1 << 31]
        ex.content_write(s, s.w(no.oid), no.off, ratom(i)); ex.store(s, Ptr(o, z0 + Z_["next_in"]), Ptr(src.oid, add(ni.off, c)), 8); ex.store(s, Ptr(o, z0 + Z_["next_out"]), Ptr(no.oid, add(no.off, blen(i))), 8)
        cl = s.w(o).cells; cl[z0 + Z_["avail_in"]] = (4, wrap(32, sub(ai, c))); cl[z0 + Z_["avail_out"]] = (4, wrap(32, sub(ao, blen(i))))
        g = s.w(G).cells; g[0] = (8, add(k, 1)); g[8] = (8, add(c0, c)); g[16] = (8, ite(r < 0, 1, 0)); g[24] = (8, sub(ao, blen(i))); g[32] = (8, ite(r == 1, 1, 0)); return r
    ex.contracts["inflate"] = inflate
    def inv(ex, hs, k, init):
        s = hs.state; q = s.fork(); ni = ex.load(q, Ptr(o, z0 + Z_["next_in"]), ir.PTR, ex.modules[0]); ai = uns(32, ex.load(q, Ptr(o, z0 + Z_["avail_in"]), ir.INT(32), ex.modules[0])); c0 = q.mem[G].cells[8][1]
        out = [(eq(ai, sub(n, c0)), "input left"), (and_(le(0, c0), le(c0, n)), "input taken"), (eq(q.mem[G].cells[16][1], 0), "no error"), (eq(ex.load(q, Ptr(o, L["_streamBad"]), ir.INT(8), ex.modules[0]), bad), "as good as before"), (z3.Implies(bad == 1, Z(q.mem[G].cells[0][1]) == 0), "not called"), (z3.Or(Z(q.mem[G].cells[32][1]) == 0, Z(q.mem[G].cells[24][1]) == 0), "not ended with room left")]
        if isinstance(ni, Ptr) and ni.oid == src.oid: out.append((eq(ni.off, c0), "input position"))
        return [(x, y) for x, y in out if isz(x)]
    ex.loopcands.append(inv)
    fn = target(ex, NS + "GunzipContentTransformer::transform(char const*, int)"); res = ex.new_cells(st, "result", 8); cover(ex, st, "precondition"); seen = set()
    for r in ex.run(st, fn, [Ptr(res), Ptr(o), src, n]):
        got = ex.ba_rope(r, ex.bget(r, Ptr(res))); g = {k: r.mem[G].cells[8 * k][1] for k in range(5)}
        for t, (was, err) in cases(ex, r, bad == 1, Z(g[2]) == 1):
            seen.add((was, err))
            if was: ex.prove(t, eq(g[0], 0), "post-not-called", "an undecodable stream is not decoded further", where="post")
            if was or err: ex.prove_rope(t, got, D, "post-passed", "handed on as it is"); ex.prove(t, eq(ex.load(t, Ptr(o, L["_streamBad"]), ir.INT(8), ex.modules[0]), 1), "post-bad", "remembered", where="post"); continue
            last = simp(Z(g[0]) - 1); ex.prove_rope(t, got, Rope([FoldP(f, last)]) + ratom(prod(Z(last))), "post-decoded", "everything decoded, in order"); ex.prove(t, or_(eq(g[1], n), lt(0, g[3]), eq(g[4], 1)), "post-all", "all input taken, or output left room, or the stream ended", where="post")
            ex.prove(t, lt(0, g[0]), "post-called", "decoded", where="post"); ex.prove(t, eq(ex.load(t, Ptr(o, L["_streamBad"]), ir.INT(8), ex.modules[0]), 0), "post-good", where="post")
    if len(seen) < 3: raise Unsupported("postcondition not reached")
C20.append(Unit("GunzipContentTransformer::transform", RS, gunzip))
def gunzip_life(dtor):
    """made with a stream set up for the gzip format; its stream is given back at the end"""
    def run(ex):
        st = world(ex); L = lay(ex, NS + "GunzipContentTransformer"); Z_ = lay(ex, "z_stream_s"); z0 = L["_inflateStream"]; o = ex.new_cells(st, "GunzipContentTransformer", 136); n = 0; m = ex.modules[0]
        own = lambda C: ex.prove(C.st, isinstance(C.a[0], Ptr) and C.a[0].oid == o and eq(C.a[0].off, z0) is True, "pre-stream", "its own stream", where="post")
        def init(C):
            own(C); s = C.st
            for k in ("next_in", "zalloc", "zfree", "opaque"): ex.prove(s, eq(objid(ex.load(s, Ptr(o, z0 + Z_[k]), ir.PTR, m)), 0), "pre-stream", k + " is null", where="post")
            ex.prove(s, eq(ex.load(s, Ptr(o, z0 + Z_["avail_in"]), ir.INT(32), m), 0), "pre-stream", "no input yet", where="post"); ex.prove(s, and_(eq(C.a[1], 31), eq(C.a[3], 112)), "pre-format", "gzip format, full window", where="post"); C.ev("init"); return fint("init")
        def end(C): own(C); C.ev("end"); return fint("end")
        ex.contracts["inflateInit2_"] = init; ex.contracts["inflateEnd"] = end
        if dtor: ex.vset(st, Ptr(o, L["_inflatedBuffer"]), ex.own(st, atom(ex, st, "old"))); st.w(o).cells[0] = (8, NULL)
        fn = target(ex, NS + "GunzipContentTransformer::" + ("~" if dtor else "") + "GunzipContentTransformer()"); cover(ex, st, "precondition")
        for t in ex.run(st, fn, [Ptr(o)]):
            n += 1; ex.prove(t, [e[0] for e in does(t)] == (["end"] if dtor else ["init"]), "post-stream", "once: %s" % (does(t),), where="post")
            if not dtor: ex.prove(t, eq(ex.load(t, Ptr(o, L["_streamBad"]), ir.INT(8), m), 0), "post-good", "no error yet", where="post"); ex.prove_rope(t, ex.ba_rope(t, ex.bget(t, Ptr(o, L["_inflatedBuffer"]))), Rope(), "post-empty", "nothing decoded yet")
        if n < 1: raise Unsupported("postcondition not reached")
    return run
C20 += [Unit("GunzipContentTransformer::GunzipContentTransformer", RS, gunzip_life(False)), Unit("GunzipContentTransformer::~GunzipContentTransformer", RS, gunzip_life(True))]
