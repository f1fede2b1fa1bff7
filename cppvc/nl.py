"""products and quotients of unknowns as uninterpreted functions of their factors, after multiplying out (fewer facts: a proof remains a proof)"""
import z3, itertools
from fractions import Fraction
class Nl:
    def __init__(self): self.cache = {}; self.keep = []; self.nlq = {}; self.term = {}; self.made = set(); self.extra = []
    def hasnl(self, t):
        i = t.get_id(); r = self.nlq.get(i)
        if r is not None: return r
        self.keep.append(t); r = False
        if z3.is_quantifier(t): r = self.hasnl(t.body())
        elif z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL: r = sum(not num(c) for c in t.children()) > 1
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD): r = not num(t.arg(1))
            r = r or any(self.hasnl(c) for c in t.children())
        self.nlq[i] = r; return r
    def tr(self, t):
        if not self.hasnl(t): return t
        i = t.get_id(); r = self.cache.get(i)
        if r is not None: return r
        if z3.is_quantifier(t): r = t
        elif z3.is_arith(t) and t.decl().kind() in ARITH: r = self.build(self.poly(t), t.sort())
        else: r = t.decl()(*[self.tr(c) for c in t.children()]) if t.num_args() else t
        self.cache[i] = r; self.keep += [t, r]; return r
    def poly(self, t):
        """{sorted tuple of factors: coefficient}"""
        k = t.decl().kind() if z3.is_app(t) else None
        v = num(t)
        if v: return {(): Fraction(t.as_long()) if z3.is_int_value(t) else t.as_fraction()}
        if k == z3.Z3_OP_ADD: return add(*[self.poly(c) for c in t.children()])
        if k == z3.Z3_OP_SUB: a = t.children(); return add(self.poly(a[0]), *[mul({(): Fraction(-1)}, self.poly(c)) for c in a[1:]])
        if k == z3.Z3_OP_UMINUS: return mul({(): Fraction(-1)}, self.poly(t.arg(0)))
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in t.children(): r = mul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_DIV and z3.is_real(t):
            d = t.arg(1)
            if num(d) and d.as_fraction() != 0: return mul({(): 1 / d.as_fraction()}, self.poly(t.arg(0)))
            x = z3.Function("inverse", z3.RealSort(), z3.RealSort())(self.tr(d)); return mul(self.poly(t.arg(0)), {(self.at(x),): Fraction(1)})
        if k == z3.Z3_OP_TO_REAL and z3.is_app(t.arg(0)) and t.arg(0).decl().kind() in ARITH:
            return {tuple(sorted(self.at(z3.ToReal(self.term[f])) for f in m)) if len(m) < 2 else (self.at(z3.ToReal(self.build({m: Fraction(1)}, z3.IntSort()))),): c for m, c in self.poly(t.arg(0)).items()}
        u = t.decl()(*[self.tr(c) for c in t.children()]) if z3.is_app(t) and t.num_args() and self.hasnl(t) else t
        return {(self.at(u),): Fraction(1)}
    def at(self, t): self.keep.append(t); self.term[t.get_id()] = t; return t.get_id()
    def build(self, p, sort):
        out = []
        for m, c in sorted(p.items()):
            if c == 0: continue
            if len(m) > 1:
                P = z3.Function("product%d" % len(m) + str(sort), *[sort] * len(m), sort); x = P(*[self.term[f] for f in m])
                if (m, str(sort)) not in self.made:
                    self.made.add((m, str(sort)))
                    if len(m) < 4: self.extra += [x == P(*[self.term[f] for f in o]) for o in set(itertools.permutations(m)) if o != m]
            elif m: x = self.term[m[0]]
            else: x = None
            cc = z3.Q(c.numerator, c.denominator) if sort == z3.RealSort() else z3.IntVal(c.numerator)
            out.append(cc if x is None else x if c == 1 else cc * x)
        zero = z3.RealVal(0) if sort == z3.RealSort() else z3.IntVal(0)
        return z3.simplify(z3.Sum(out)) if len(out) > 1 else out[0] if out else zero
ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL)
def num(t): return z3.is_int_value(t) or z3.is_rational_value(t)
def add(*ps):
    r = {}
    for p in ps:
        for m, c in p.items(): r[m] = r.get(m, Fraction(0)) + c
    return r
def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items(): k = tuple(sorted(m + n)); r[k] = r.get(k, Fraction(0)) + c * d
    return r
