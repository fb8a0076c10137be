"""Recursive specification functions over an index (used as loop invariants and in postconditions)."""
import z3
from .terms import *

class BytesFold:
    """concatenation over 0<=j<hi of the pieces cases(j); cases(j) = [(condition, Rope)], conditions exhaustive and exclusive"""
    kind = "bytes"
    def __init__(s, name, cases):
        s.name, s.cases = name, cases
        s.lenf = z3.Function(fresh_name("len_" + name), IntSort(), IntSort())
        s.getf = z3.Function(fresh_name("get_" + name), IntSort(), IntSort(), IntSort())
    def piece(s, ex, st, i):
        for c, r in s.cases(i):
            if ex.holds(st, c): return r
        return None
    def facts(s, ex, st, i):
        st.pc.append(s.lenf(IntVal(0)) == 0); st.pc.append(s.lenf(Z(i)) >= 0)
    def cands(s, ex, hs, k): return []
    def unfold(s, ex, st, idxs):
        for i in idxs: st.pc.append(s.lenf(Z(i)) >= 0)

class ListFold:
    """list built by appending, for each j, the items of cases(j) = [(condition, [items])]"""
    kind = "list"
    def __init__(s, name, cases):
        s.name, s.cases = name, cases
        s.lenf = z3.Function(fresh_name("cnt_" + name), IntSort(), IntSort())
    def piece(s, ex, st, i):
        for c, r in s.cases(i):
            if ex.holds(st, c): return r
        return None
    def facts(s, ex, st, i):
        st.pc.append(s.lenf(IntVal(0)) == 0); st.pc.append(s.lenf(Z(i)) >= 0)
    def cands(s, ex, hs, k): return []
    def unfold(s, ex, st, idxs):
        for i in idxs: st.pc.append(s.lenf(Z(i)) >= 0)

class ValFold:
    """F(0) = init, F(i+1) = step(i, F(i)); candidates slot = F(index) for slots of the sort"""
    kind = "val"
    def __init__(s, name, init, step, claim=False, ptr=None, mono=None):
        s.name, s.init, s.stepf, s.claim, s.ptr, s.mono = name, init, step, claim, ptr, mono
        s.b = isbool(init)
        s.f = z3.Function(fresh_name(name), IntSort(), BoolSort() if s.b else IntSort())
    def at(s, i): return s.f(Z(i)) if isz(i) or i else Z(s.init)
    def axioms(s, i):
        """definition at 0 and at i+1"""
        l = [s.f(IntVal(0)) == Z(s.init), z3.Implies(Z(i) >= 0, s.f(Z(i) + 1) == Z(s.stepf(i, s.f(Z(i)))))]
        if s.mono is not None:     # F(i+1) = F(i) and good(i): once false, false for every larger index (induction on the definition)
            for j in (Z(i), Z(i) + 1): l.append(z3.Implies(And(j >= 0, j <= Z(s.mono), Not(s.f(j))), Not(s.f(Z(s.mono)))))
        return l
    def cands(s, ex, hs, k):
        from .loops import index_terms
        out = []
        for x in index_terms(hs, k):
            if s.claim:
                out.append((s.f(x), "%s(index)" % s.name))
                for key, part, x0, y in hs.parts:          # a slot that remembers the index where the claim ends, or that it has not ended yet
                    if not isz(y) or y.eq(Z(x)): continue
                    hit = lambda z: And(z >= 0, z < x, s.f(z), Not(s.f(z + 1)))
                    if part == "null":
                        ix = next((z for k2, p2, _, z in hs.parts if k2 == key and p2 == "idx"), None)
                        if ix is not None and not isbool(x0): continue
                        if ix is not None: out.append((And(z3.Implies(y, s.f(x)), z3.Implies(Not(y), hit(ix))), "%s ends at pointer" % s.name))
                    elif isbool(y):
                        if part == "v": out.append((y == Not(s.f(x)), "%s ended flag" % s.name))
                    elif part == "v" and x0 is not None and not isz(x0) and x0 == 0: out.append((And(y >= 0, y <= 1, (y != 0) == Not(s.f(x))), "%s ended flag" % s.name))
                    elif x0 is not None and not isz(x0) and x0 == -1: out.append((And(z3.Implies(y < 0, s.f(x)), z3.Implies(y >= 0, hit(y))), "%s ends at slot" % s.name))
                continue
            for key, part, x0, y in hs.parts:
                if not isz(y): continue
                if s.ptr and part == "null":       # pointer to the element F(index), null when F = -1
                    ix = next((z for k2, p2, _, z in hs.parts if k2 == key and p2 == "idx"), None)
                    if ix is None: continue
                    out.append((And(y == (s.f(x) == -1), z3.Implies(Not(y), ix == s.f(x)), z3.Implies(Not(y), And(ix >= 0, ix < x))), "%s pointer" % s.name)); continue
                if s.ptr: continue
                if isbool(y) == s.b and part in ("v", "id"): out.append((y == s.f(x), "slot=%s(index)" % s.name))
        return out
    def unfold(s, ex, st, idxs):
        for i in idxs:
            for a in s.axioms(i): st.pc.append(a)

class ScanFold:
    """F(i) = base(i) when stop(i), else F(i+1): the result of a forward scan from i. Candidates: F(position) = F(initial position)"""
    kind = "val"
    def __init__(s, name, stop, base, lo=0, hi=None):
        s.name, s.stop, s.base = name, stop, base
        s.f = z3.Function(fresh_name(name), IntSort(), IntSort())
    def axioms(s, i): return [s.f(Z(i)) == Z(ite(s.stop(i), s.base(i), s.f(Z(i) + 1)))]
    def cands(s, ex, hs, k): return [(s.f(x) == s.f(Z(x0)), "%s(position)=%s(start)" % (s.name, s.name)) for key, p, x0, x in hs.parts if p in ("off", "v", "idx") and isz(x) and isint(x)]
    def unfold(s, ex, st, idxs):
        for i in idxs: st.pc += s.axioms(i)
