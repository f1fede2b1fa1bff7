"""Order embedding of IEEE values.

A floating-point term x becomes (nan, v, sg): nan is isNaN(x), v its exact real value with the
infinities at +-2^1024, sg its sign bit.  Comparisons, negation, absolute value, classification and
if-then-else are exact under this map; rounding arithmetic occurs only as uninterpreted functions with
axioms (engine.farith), which are translated along.  The only thing forgotten is that v must be
representable, so 'unsat' after the translation implies 'unsat' before it.
"""
import z3
from fractions import Fraction
class NotTranslatable(Exception): pass
BIG = z3.RealVal(str(2 ** 1024))
FPK = z3.Z3_FLOATING_POINT_SORT
def has_fp(s):
    while s.kind() == z3.Z3_ARRAY_SORT: s = s.range()
    return s.kind() == FPK
def arr_of(s, base):
    if s.kind() == z3.Z3_ARRAY_SORT: return z3.ArraySort(s.domain(), arr_of(s.range(), base))
    return base

class Abs:
    def __init__(self): self.memo = {}; self.atoms = {}; self.keep = []; self.side = []
    def run(self, fs):
        out = [self.tr(f) for f in fs]
        return out + self.side
    def atom_facts(self, nan, v, sg, s, vs=()):
        """range facts for an atom (arrays: for all indices, stated pointwise where they are selected)"""
        if s.kind() == FPK:
            self.side.append(z3.And(v <= BIG, v >= -BIG, z3.Implies(v < 0, sg), z3.Implies(v > 0, z3.Not(sg)), z3.Implies(nan, z3.And(v == 0, z3.Not(sg)))))
    def tri(self, t):
        """triple of an FP (or array of FP) term"""
        i = t.get_id()
        if i in self.memo: return self.memo[i]
        self.keep.append(t)
        r = self._tri(t)
        self.memo[i] = r
        return r
    def _tri(self, t):
        s = t.sort()
        if z3.is_var(t) or z3.is_quantifier(t): raise NotTranslatable("bound FP")
        if not z3.is_app(t): raise NotTranslatable("term")
        d = t.decl(); k = d.kind(); ch = t.children()
        if s.kind() == FPK:
            if z3.is_fp_value(t):
                if t.isNaN(): return (z3.BoolVal(True), z3.RealVal(0), z3.BoolVal(False))
                if t.isInf(): return (z3.BoolVal(False), -BIG if t.isNegative() else BIG, z3.BoolVal(t.isNegative()))
                if t.isZero(): return (z3.BoolVal(False), z3.RealVal(0), z3.BoolVal(t.isNegative()))
                sig = t.significand_as_long(); ex = t.exponent_as_long(False); sb = t.sbits() - 1
                if t.isSubnormal(): x = Fraction(sig, 2 ** sb) * Fraction(2) ** ex if False else Fraction(sig, 2 ** sb) * Fraction(2) ** (-(2 ** (t.ebits() - 1) - 2))
                else: x = (1 + Fraction(sig, 2 ** sb)) * Fraction(2) ** ex
                if t.isNegative(): x = -x
                return (z3.BoolVal(False), z3.RealVal(f"{x.numerator}/{x.denominator}"), z3.BoolVal(bool(t.isNegative())))
            if k == z3.Z3_OP_FPA_NEG:
                n, v, g = self.tri(ch[0]); return (n, -v, z3.And(z3.Not(n), z3.Not(g)))
            if k == z3.Z3_OP_FPA_ABS:
                n, v, g = self.tri(ch[0]); return (n, z3.If(v < 0, -v, v), z3.BoolVal(False))
        if k == z3.Z3_OP_ITE:
            c = self.tr(ch[0]); a, b = self.tri(ch[1]), self.tri(ch[2])
            return tuple(z3.If(c, x, y) for x, y in zip(a, b))
        if k == z3.Z3_OP_SELECT:
            a = self.tri(ch[0]); idx = [self.tr(x) for x in ch[1:]]
            r = tuple(z3.Select(x, *idx) for x in a)
            if s.kind() == FPK and not has_var(t): self.atom_facts(*r, s)
            return r
        if k == z3.Z3_OP_STORE:
            a = self.tri(ch[0]); idx = [self.tr(x) for x in ch[1:-1]]; b = self.tri(ch[-1])
            return tuple(z3.Store(x, *idx, y) for x, y in zip(a, b))
        if k == z3.Z3_OP_CONST_ARRAY:
            b = self.tri(ch[0]); return tuple(z3.K(s.domain(), y) for y in b)
        if k == z3.Z3_OP_UNINTERPRETED:
            args = []
            for c in ch:
                if has_fp(c.sort()): args += list(self.tri(c))
                else: args.append(self.tr(c))
            out = []
            for suf, base in (("nan", z3.BoolSort()), ("v", z3.RealSort()), ("sg", z3.BoolSort())):
                rs = arr_of(s, base); n = d.name() + "$" + suf
                out.append(z3.Function(n, *[a.sort() for a in args], rs)(*args) if args else z3.Const(n, rs))
            if not has_var(t): self.atom_facts(*out, s)
            return tuple(out)
        raise NotTranslatable("FP term " + d.name())
    def tr(self, t):
        i = ("b", t.get_id())
        if i in self.memo: return self.memo[i]
        self.keep.append(t)
        r = self._tr(t); self.memo[i] = r
        return r
    def _tr(self, t):
        if z3.is_quantifier(t):
            if any(has_fp(t.var_sort(j)) for j in range(t.num_vars())): raise NotTranslatable("quantified FP")
            n = t.num_vars()
            if t.is_lambda(): raise NotTranslatable("lambda")
            vs = [z3.FreshConst(t.var_sort(j), "qv") for j in range(n)]
            inst = z3.substitute_vars(t.body(), *reversed(vs))
            sub = Abs(); 
            b = sub.tr(inst)
            # range facts about atoms mentioning the bound variables become hypotheses; they hold for every IEEE value
            loc = [f for f in sub.side]
            pats = []
            for j in range(t.num_patterns()):
                p = z3.substitute_vars(t.pattern(j), *reversed(vs))
                pc = []
                for c in p.children():
                    if has_fp(c.sort()): pc.append(sub.tri(c)[1])
                    else: pc.append(sub.tr(c))
                if pc: pats.append(z3.MultiPattern(*pc) if len(pc) > 1 else pc[0])
            if t.is_forall():
                for f in loc:
                    # valid for all instances: may be asserted globally
                    self.side.append(z3.ForAll(vs, f) if mentions(f, vs) else f)
                return z3.ForAll(vs, b, patterns=pats) if pats else z3.ForAll(vs, b)
            for f in loc: self.side.append(z3.ForAll(vs, f) if mentions(f, vs) else f)
            return z3.Exists(vs, b)
        if not z3.is_app(t): return t
        if has_fp(t.sort()): raise NotTranslatable("FP in boolean context")
        d = t.decl(); k = d.kind(); ch = t.children()
        if not ch: return t
        if any(has_fp(c.sort()) for c in ch):
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                if len(ch) != 2: raise NotTranslatable("distinct")
                e = z3.And(*[x == y for x, y in zip(self.tri(ch[0]), self.tri(ch[1]))])
                return e if k == z3.Z3_OP_EQ else z3.Not(e)
            if k == z3.Z3_OP_UNINTERPRETED:
                args = []
                for c in ch:
                    if has_fp(c.sort()): args += list(self.tri(c))
                    else: args.append(self.tr(c))
                return z3.Function(d.name(), *[a.sort() for a in args], t.sort())(*args)
            T = [self.tri(c) for c in ch if has_fp(c.sort())]
            if k in (z3.Z3_OP_FPA_LT, z3.Z3_OP_FPA_LE, z3.Z3_OP_FPA_GT, z3.Z3_OP_FPA_GE, z3.Z3_OP_FPA_EQ):
                (an, av, _), (bn, bv, _) = T
                c = {z3.Z3_OP_FPA_LT: av < bv, z3.Z3_OP_FPA_LE: av <= bv, z3.Z3_OP_FPA_GT: av > bv, z3.Z3_OP_FPA_GE: av >= bv, z3.Z3_OP_FPA_EQ: av == bv}[k]
                return z3.And(z3.Not(an), z3.Not(bn), c)
            n, v, g = T[0]
            if k == z3.Z3_OP_FPA_IS_NAN: return n
            if k == z3.Z3_OP_FPA_IS_INF: return z3.And(z3.Not(n), z3.Or(v == BIG, v == -BIG))
            if k == z3.Z3_OP_FPA_IS_ZERO: return z3.And(z3.Not(n), v == 0)
            if k == z3.Z3_OP_FPA_IS_NEGATIVE: return z3.And(z3.Not(n), g)
            if k == z3.Z3_OP_FPA_IS_POSITIVE: return z3.And(z3.Not(n), z3.Not(g))
            raise NotTranslatable("FP predicate " + d.name())
        args = [self.tr(c) for c in ch]
        if all(a.eq(b) for a, b in zip(args, ch)): return t
        if k == z3.Z3_OP_AND: return z3.And(*args)
        if k == z3.Z3_OP_OR: return z3.Or(*args)
        return d(*args)
_hv = {}
def has_var(t):
    return False
def mentions(f, vs):
    ids = {v.get_id() for v in vs}; stack = [f]; seen = set()
    while stack:
        a = stack.pop()
        if a.get_id() in seen: continue
        seen.add(a.get_id())
        if a.get_id() in ids: return True
        if z3.is_quantifier(a): stack.append(a.body())
        else: stack += a.children()
    return False

def embed(formulas):
    """the embedding of a list of formulas, or None when it does not apply"""
    try: return Abs().run(formulas)
    except NotTranslatable: return None
