"""Textual LLVM IR (18, opaque pointers) parser: just what clang emits for pillow."""
import re, subprocess

# ---------------------------------------------------------------- types
class T:
    __slots__ = ("k", "n", "el", "packed", "name", "_lay")
    def __init__(s, k, n=0, el=None, packed=False, name=None):
        s.k, s.n, s.el, s.packed, s.name, s._lay = k, n, el, packed, name, None
    def __repr__(s):
        if s.k == "int": return "i%d" % s.n
        if s.k == "named": return s.name
        if s.k == "array": return "[%d x %r]" % (s.n, s.el)
        if s.k == "struct": return "{%s}" % ",".join(map(repr, s.el))
        return s.k
PTR = T("ptr"); VOID = T("void"); DOUBLE = T("double"); FLOAT = T("float")
_ints = {}
def INT(n):
    if n not in _ints: _ints[n] = T("int", n)
    return _ints[n]

TOK = re.compile(r'''\s*(
   c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*" |
   [%@]"(?:[^"\\]|\\.)*" | [%@][-a-zA-Z$._0-9]+ |
   "(?:[^"\\]|\\.)*" |
   ![-a-zA-Z$._0-9\\]* | \#\d+ |
   -?0x[HKLM]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ |
   \.\.\. | [a-zA-Z$._][-a-zA-Z$._0-9]* | [()\[\]{}<>,=*:|]
)''', re.X)

def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"): break
            raise SyntaxError("tokenize: %r" % s[i:i + 60])
        out.append(m.group(1)); i = m.end()
    return out

class Inst:
    __slots__ = ("op", "res", "ty", "a", "dbg", "flags", "fn", "blk", "i")
    def __init__(s, op, res, ty, a, flags=(), dbg=None):
        s.op, s.res, s.ty, s.a, s.flags, s.dbg = op, res, ty, a, flags, dbg
    def __repr__(s): return "%s = %s %r %r" % (s.res, s.op, s.ty, s.a)

class Block:
    __slots__ = ("name", "insts", "fn", "phis", "order")
    def __init__(s, name): s.name, s.insts, s.phis = name, [], []

class Function:
    def __init__(s):
        s.name = s.dem = None; s.ret = None; s.params = []; s.blocks = {}; s.entry = None
        s.defined = False; s.dbg = None; s.sret = False; s.vararg = False; s._loops = None
        s.module = None

class Global:
    __slots__ = ("name", "ty", "init", "const", "external")

class Module:
    def __init__(s):
        s.types, s.funcs, s.globals, s.md, s.layouts = {}, {}, {}, {}, {}

ATTRS = set("""noundef nonnull signext zeroext noalias nocapture readonly writeonly readnone inreg
 dead_on_unwind writable returned immarg nofree nest swiftself inalloca allocptr noinline""".split())
BINOPS = set("add sub mul sdiv udiv srem urem shl lshr ashr and or xor fadd fsub fmul fdiv frem".split())
CASTS = set("trunc zext sext ptrtoint inttoptr bitcast sitofp uitofp fptosi fptoui fpext fptrunc addrspacecast".split())

class P:
    def __init__(s, toks, mod): s.t, s.i, s.m = toks, 0, mod
    def peek(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else None
    def nxt(s): v = s.t[s.i]; s.i += 1; return v
    def eat(s, x):
        if s.peek() == x: s.i += 1; return True
        return False
    def exp(s, x):
        v = s.nxt()
        if v != x: raise SyntaxError("expected %s got %s in %s" % (x, v, " ".join(s.t)[:200]))
    def type(s):
        t = s.nxt()
        if t[0] == "i" and t[1:].isdigit(): r = INT(int(t[1:]))
        elif t == "ptr": r = PTR
        elif t == "void": r = VOID
        elif t == "double": r = DOUBLE
        elif t == "float": r = FLOAT
        elif t in ("x86_fp80", "metadata", "label", "opaque", "token"): r = T(t)
        elif t[0] == "%": r = T("named", name=t)
        elif t == "[":
            n = int(s.nxt()); s.exp("x"); el = s.type(); s.exp("]"); r = T("array", n, el)
        elif t == "{": r = T("struct", el=s.typelist("}"))
        elif t == "<":
            if s.peek() == "{":
                s.nxt(); el = s.typelist("}"); s.exp(">"); r = T("struct", el=el, packed=True)
            else:
                n = int(s.nxt()); s.exp("x"); el = s.type(); s.exp(">"); r = T("vector", n, el)
        else: raise SyntaxError("type? %s in %s" % (t, " ".join(s.t)[:200]))
        while s.peek() == "(":   # function type (only in call)
            s.nxt(); args = []; va = False
            while not s.eat(")"):
                if s.eat("..."): va = True
                else: args.append(s.type())
                s.eat(",")
            r = T("fn", va, [r] + args)
        if s.peek() == "addrspace": s.nxt(); s.exp("("); s.nxt(); s.exp(")")
        return r
    def typelist(s, end):
        r = []
        if s.eat(end): return r
        while True:
            r.append(s.type())
            if s.eat(end): return r
            s.exp(",")
    def attrs(s):
        """skip parameter attributes; return list of (name,type)"""
        out = []
        while True:
            t = s.peek()
            if t in ATTRS: out.append(t); s.nxt()
            elif t in ("align", ) : s.nxt(); s.nxt()
            elif t in ("dereferenceable", "dereferenceable_or_null", "memory", "nofpclass", "allocsize", "captures"):
                s.nxt(); s.exp("(")
                while not s.eat(")"): s.nxt()
            elif t in ("sret", "byval", "byref", "elementtype", "preallocated"):
                s.nxt(); s.exp("("); ty = s.type(); s.exp(")"); out.append((t, ty))
            elif t and t[0] == '"':
                s.nxt()
                if s.eat("="): s.nxt()
            else: return out
    def value(s, ty):
        """constant or local operand -> tuple"""
        t = s.nxt()
        if t[0] == "%": return ("l", t[1:])
        if t[0] == "@": return ("g", unq(t[1:]))
        if t == "null": return ("null",)
        if t in ("undef", "poison"): return ("undef", ty)
        if t == "true": return ("c", True)
        if t == "false": return ("c", False)
        if t == "zeroinitializer": return ("zero", ty)
        if t == "none": return ("undef", ty)
        if ty.k in ("double", "float"): return ("f", t)
        if re.match(r"-?\d+$", t):
            return ("c", int(t))
        if t.startswith('c"'): return ("str", cstr(t))
        if t in ("{", "[", "<"):
            if t == "<" and s.peek() == "{": s.nxt(); end = "}"
            else: end = {"{": "}", "[": "]", "<": ">"}[t]
            els = []
            if not s.eat(end):
                while True:
                    ety = s.type(); els.append((ety, s.value(ety)))
                    if s.eat(end): break
                    s.exp(",")
            if t == "<" and end == "}": s.exp(">")
            return ("agg", els)
        if t == "getelementptr":
            inb = False
            while s.peek() in ("inbounds", "nuw", "nusw", "inrange"):
                if s.nxt() == "inrange" and s.peek() == "(":
                    while s.nxt() != ")": pass
            s.exp("("); bt = s.type(); s.exp(","); ops = []
            while True:
                s.eat("inrange"); oty = s.type(); ops.append((oty, s.value(oty)))
                if s.eat(")"): break
                s.exp(",")
            return ("gep", bt, ops)
        if t in CASTS:
            s.exp("("); fty = s.type(); v = s.value(fty); s.exp("to"); tt = s.type(); s.exp(")")
            return ("cast", t, fty, v, tt)
        if t in BINOPS:
            while s.peek() in ("nsw", "nuw", "exact"): s.nxt()
            s.exp("("); a = s.type(); va = s.value(a); s.exp(","); b = s.type(); vb = s.value(b); s.exp(")")
            return ("bin", t, a, va, vb)
        raise SyntaxError("value? %s in %s" % (t, " ".join(s.t)[:300]))

def unq(n):
    return n[1:-1] if n.startswith('"') else n
def cstr(t):
    b = bytearray(); s = t[2:-1]; i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\": b.append(92); i += 2
            else: b.append(int(s[i + 1:i + 3], 16)); i += 3
        else: b.append(ord(s[i])); i += 1
    return bytes(b)

FLAGW = set("nsw nuw exact inbounds volatile tail musttail notail fast nnan ninf nsz arcp contract afn reassoc disjoint nneg samesign".split())

def parse_inst(line, m):
    dbg = None
    mm = re.search(r", !dbg (!\d+)", line)
    if mm: dbg = mm.group(1)
    line = re.sub(r"(, ![a-zA-Z._]+ !\d+)+\s*$", "", line)
    toks = tokenize(line); p = P(toks, m); res = None
    if p.peek(1) == "=" and p.peek()[0] == "%":
        res = p.nxt()[1:]; p.nxt()
    op = p.nxt(); fl = []
    if op in ("tail", "musttail", "notail"): op = p.nxt()
    while p.peek() in FLAGW: fl.append(p.nxt())
    if op in BINOPS:
        ty = p.type(); a = p.value(ty); p.exp(","); b = p.value(ty)
        return Inst(op, res, ty, (a, b), fl, dbg)
    if op in CASTS:
        ty = p.type(); v = p.value(ty); p.exp("to"); tt = p.type()
        return Inst(op, res, tt, (ty, v), fl, dbg)
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGW: p.nxt()
        pred = p.nxt(); ty = p.type(); a = p.value(ty); p.exp(","); b = p.value(ty)
        return Inst(op, res, ty, (pred, a, b), fl, dbg)
    if op == "load":
        p.eat("atomic"); p.eat("volatile"); ty = p.type(); p.exp(","); pt = p.type(); v = p.value(pt)
        return Inst(op, res, ty, (v,), fl, dbg)
    if op == "store":
        p.eat("atomic"); p.eat("volatile"); ty = p.type(); v = p.value(ty); p.exp(","); pt = p.type(); d = p.value(pt)
        return Inst(op, res, ty, (v, d), fl, dbg)
    if op == "getelementptr":
        bt = p.type(); ops = []
        while p.eat(","):
            ty = p.type(); ops.append((ty, p.value(ty)))
        return Inst(op, res, bt, ops, fl, dbg)
    if op == "alloca":
        p.eat("inalloca"); ty = p.type(); n = None
        if p.eat(","):
            if p.peek() != "align": nt = p.type(); n = (nt, p.value(nt))
        return Inst(op, res, ty, (n,), fl, dbg)
    if op == "br":
        if p.eat("label"): return Inst(op, None, None, (p.nxt()[1:],), fl, dbg)
        ty = p.type(); c = p.value(ty); p.exp(","); p.exp("label"); a = p.nxt()[1:]; p.exp(","); p.exp("label"); b = p.nxt()[1:]
        return Inst(op, None, None, (c, a, b), fl, dbg)
    if op == "switch":
        ty = p.type(); v = p.value(ty); p.exp(","); p.exp("label"); d = p.nxt()[1:]; p.exp("["); cases = []
        while not p.eat("]"):
            ct = p.type(); c = p.value(ct); p.exp(","); p.exp("label"); cases.append((c[1], p.nxt()[1:]))
        return Inst(op, None, ty, (v, d, cases), fl, dbg)
    if op == "ret":
        ty = p.type()
        return Inst(op, None, ty, (None if ty.k == "void" else p.value(ty),), fl, dbg)
    if op == "phi":
        ty = p.type(); inc = []
        while True:
            p.exp("["); v = p.value(ty); p.exp(","); b = p.nxt()[1:]; p.exp("]"); inc.append((b, v))
            if not p.eat(","): break
        return Inst(op, res, ty, inc, fl, dbg)
    if op == "select":
        ct = p.type(); c = p.value(ct); p.exp(","); ty = p.type(); a = p.value(ty); p.exp(","); t2 = p.type(); b = p.value(t2)
        return Inst(op, res, ty, (c, a, b), fl, dbg)
    if op == "call":
        while p.peek() in FLAGW or (p.peek() or "").startswith("cc") or p.peek() == "fastcc": p.nxt()
        p.attrs(); ty = p.type()
        if ty.k == "fn": ty = ty.el[0]
        callee = p.value(PTR); p.exp("("); args = []
        while not p.eat(")"):
            aty = p.type(); at = p.attrs()
            if aty.k == "metadata":
                while p.peek() not in (",", ")"): p.nxt()
                args.append((aty, None, at))
            else: args.append((aty, p.value(aty), at))
            p.eat(",")
        return Inst(op, res, ty, (callee, args), fl, dbg)
    if op == "unreachable": return Inst(op, None, None, (), fl, dbg)
    if op == "extractvalue":
        ty = p.type(); v = p.value(ty); ix = []
        while p.eat(","): ix.append(int(p.nxt()))
        return Inst(op, res, ty, (v, ix), fl, dbg)
    if op == "insertvalue":
        ty = p.type(); v = p.value(ty); p.exp(","); et = p.type(); e = p.value(et); ix = []
        while p.eat(","): ix.append(int(p.nxt()))
        return Inst(op, res, ty, (v, (et, e), ix), fl, dbg)
    if op == "atomicrmw":
        p.eat("volatile"); k = p.nxt(); pt = p.type(); d = p.value(pt); p.exp(","); ty = p.type(); v = p.value(ty)
        return Inst(op, res, ty, (k, d, v), fl, dbg)
    if op == "fence": return Inst(op, None, None, (), fl, dbg)
    if op == "freeze":
        ty = p.type(); return Inst(op, res, ty, (p.value(ty),), fl, dbg)
    if op == "fneg":
        ty = p.type(); return Inst(op, res, ty, (p.value(ty),), fl, dbg)
    if op == "cmpxchg":
        pt = p.type(); d = p.value(pt)
        return Inst(op, res, None, (d,), fl, dbg)
    raise SyntaxError("inst? " + line)

def parse_header(line, m):
    f = Function()
    toks = tokenize(re.sub(r"\s*#\d+.*$", "", line) if line.startswith("declare") else line)
    p = P(toks, m); p.nxt()
    while p.peek() in ("private", "internal", "linkonce_odr", "linkonce", "weak_odr", "weak", "external", "dso_local", "available_externally",
                       "hidden", "protected", "default", "fastcc", "unnamed_addr", "local_unnamed_addr", "extern_weak"): p.nxt()
    p.attrs(); f.ret = p.type(); f.name = unq(p.nxt()[1:]); p.exp("(")
    k = 0
    while not p.eat(")"):
        if p.eat("..."): f.vararg = True; continue
        ty = p.type(); at = p.attrs(); nm = None
        if p.peek()[0] == "%": nm = p.nxt()[1:]
        else: nm = str(k)
        for a in at:
            if a[0] == "sret": f.sret = True
        f.params.append((nm, ty, at)); k += 1
        p.eat(",")
    mm = re.search(r"!dbg (!\d+)", line)
    f.dbg = mm.group(1) if mm else None
    return f, k

def parse_module(text, layout=""):
    m = Module(); lines = text.split("\n"); i = 0; n = len(lines)
    while i < n:
        L = lines[i]; i += 1
        if not L or L[0] in ";" : continue
        if L[0] == "%":
            mm = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', L)
            if mm.group(2) == "opaque": m.types[mm.group(1)] = T("opaque")
            else: m.types[mm.group(1)] = P(tokenize(mm.group(2)), m).type()
        elif L[0] == "@":
            mm = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', L)
            g = Global(); g.name = unq(mm.group(1)); rest = mm.group(2)
            if " alias " in " " + rest.split("(")[0]:
                am = re.search(r"alias .*, ptr @([\w.$]+)", rest)
                if am: m.md["alias:" + g.name] = am.group(1)
                continue
            toks = tokenize(rest); p = P(toks, m); g.external = False
            while p.peek() not in ("global", "constant"):
                t = p.nxt()
                if t in ("external", "extern_weak"): g.external = True
                if t == "thread_local" and p.peek() == "(":
                    while p.nxt() != ")": pass
            g.const = p.nxt() == "constant"; g.ty = p.type(); g.init = None
            if not g.external and p.peek() not in (",", None): g.init = p.value(g.ty)
            m.globals[g.name] = g
        elif L.startswith("declare"):
            f, _ = parse_header(L, m); f.module = m; m.funcs[f.name] = f
        elif L.startswith("define"):
            f, k = parse_header(L, m); f.module = m; f.defined = True; m.funcs[f.name] = f
            cur = Block(str(k)); f.entry = cur; f.blocks[cur.name] = cur; started = False
            while True:
                L = lines[i]; i += 1
                if L == "}": break
                if not L.strip(): continue
                if L[0] != " ":
                    bm = re.match(r'("[^"]*"|[-\w.$]+):', L)
                    nm = unq(bm.group(1))
                    if not started: f.blocks = {}; cur = Block(nm); f.entry = cur
                    else: cur = Block(nm)
                    f.blocks[nm] = cur; started = True; continue
                started = True
                S = L.strip()
                if S.startswith("switch"):
                    while not S.rstrip().split(", !dbg")[0].rstrip().endswith("]"):
                        S += " " + lines[i].strip(); i += 1
                ins = parse_inst(S, m)
                if ins.op == "phi": cur.phis.append(ins)
                else: cur.insts.append(ins)
            for o, b in enumerate(f.blocks.values()):
                b.fn, b.order = f, o
                for q, ins in enumerate(b.phis + b.insts): ins.fn, ins.blk, ins.i = f, b, q
        elif L[0] == "!":
            mm = re.match(r"(!\d+) = (.*)$", L)
            if mm: m.md[mm.group(1)] = mm.group(2)
    names = list(m.funcs)
    dem = subprocess.run(["llvm-cxxfilt-18", "--no-strip-underscore"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    for a, d in zip(names, dem): m.funcs[a].dem = d
    m.layouts = parse_layouts(layout)
    return m

# ---------------------------------------------------------------- layout
def resolve(m, t):
    while t.k == "named": t = m.types[t.name]
    return t
def size_align(m, t):
    t0 = t; t = resolve(m, t)
    if t._lay: return t._lay[:2]
    if t.k == "int":
        b = (t.n + 7) // 8; s = 1
        while s < b: s *= 2
        r = (s, min(s, 8) if s <= 8 else 16)
    elif t.k in ("ptr", "double"): r = (8, 8)
    elif t.k == "float": r = (4, 4)
    elif t.k == "x86_fp80": r = (16, 16)
    elif t.k == "array":
        s, a = size_align(m, t.el); r = (s * t.n, a)
    elif t.k == "vector":
        s, a = size_align(m, t.el); r = (s * t.n, s * t.n)
    elif t.k == "struct":
        off, al, offs = 0, 1, []
        for e in t.el:
            s, a = size_align(m, e)
            if t.packed: a = 1
            off = (off + a - 1) // a * a; offs.append(off); off += s; al = max(al, a)
        size = (off + al - 1) // al * al
        t._lay = (size, al, offs); return (size, al)
    elif t.k == "opaque": r = (0, 1)
    else: raise SyntaxError("size of %r" % t)
    t._lay = r
    return r
def sizeof(m, t): return size_align(m, t)[0]
def offsets(m, t):
    t = resolve(m, t); size_align(m, t); return t._lay[2]

def parse_layouts(txt):
    """'*** Dumping AST Record Layout' -> {class: {field path: (off,type)}}"""
    out = {}
    for blk in txt.split("*** Dumping AST Record Layout")[1:]:
        rows = []
        for L in blk.split("\n"):
            mm = re.match(r"\s*(\d+)(?::(\d+)-(\d+))? \|( +)(.*)$", L)
            if mm: rows.append((int(mm.group(1)), len(mm.group(4)), mm.group(5), mm.group(2), mm.group(3)))
            elif "[sizeof" in L: break
        if not rows: continue
        cls = re.sub(r"^(class|struct|union) ", "", rows[0][2]); cls = re.sub(r" \(empty\)$", "", cls)
        fields = {}; stack = []
        for off, ind, txt2, b0, b1 in rows[1:]:
            while stack and stack[-1][0] >= ind: stack.pop()
            base = "(base)" in txt2 or "(primary base)" in txt2 or "vtable pointer" in txt2
            name = txt2.strip().split(" ")[-1] if not base else None
            if name is not None:
                depthok = all(s[1] is None for s in stack)
                if depthok: fields[name] = (off, " ".join(txt2.strip().split(" ")[:-1]), b0, b1)
            stack.append((ind, name))
        if cls not in out or len(fields) > len(out[cls]): out[cls] = fields
    return out

# ---------------------------------------------------------------- debug info
def loc(m, dbg):
    """!123 -> 'file:line'"""
    d = m.md.get(dbg or "", "")
    mm = re.search(r"line: (\d+)", d); line = mm.group(1) if mm else "?"
    sc = re.search(r"scope: (!\d+)", d)
    f = scope_file(m, sc.group(1)) if sc else "?"
    return "%s:%s" % (f, line)
def scope_file(m, s):
    for _ in range(20):
        d = m.md.get(s, "")
        mm = re.search(r"file: (!\d+)", d)
        if mm:
            fm = re.search(r'filename: "([^"]*)"', m.md.get(mm.group(1), ""))
            return fm.group(1) if fm else "?"
        sc = re.search(r"scope: (!\d+)", d)
        if not sc: return "?"
        s = sc.group(1)
    return "?"
def func_file(m, f): return scope_file(m, f.dbg) if f.dbg else "?"

# ---------------------------------------------------------------- CFG / loops
def succs(b):
    t = b.insts[-1]
    if t.op == "br": return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
    if t.op == "switch": return [t.a[1]] + [x for _, x in t.a[2]]
    return []
def loops(f):
    """natural loops: {header: set(blocks)} (irreducible regions: any target of a DFS back edge)"""
    if f._loops is not None: return f._loops
    color, back, order = {}, [], []
    st = [(f.entry.name, iter(succs(f.entry)))]; color[f.entry.name] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if color.get(s) == 1: back.append((b, s))
            elif s not in color:
                color[s] = 1; st.append((s, iter(succs(f.blocks[s])))); break
        else:
            color[b] = 2; st.pop()
    preds = {}
    for b in f.blocks.values():
        for s in succs(b): preds.setdefault(s, []).append(b.name)
    L = {}
    for src, h in back:
        body = L.setdefault(h, {h}); work = [src]
        while work:
            x = work.pop()
            if x in body: continue
            body.add(x); work += preds.get(x, [])
    f._loops = L
    return L
