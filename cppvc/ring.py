"""back end for equalities of rational functions over the reals: normal form by sympy, every divisor shown non-zero by the hypotheses"""
import z3

def flatten(t, out):
    if z3.is_and(t):
        for c in t.children(): flatten(c, out)
    else: out.append(t)
def occurs(t, x, seen=None):
    seen = set() if seen is None else seen
    i = t.get_id()
    if i in seen: return False
    seen.add(i)
    return t.eq(x) or any(occurs(c, x, seen) for c in t.children())
class No(Exception): pass
ATOM = (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)

def prove(pc, goal):
    """True when the goal follows by rational-function arithmetic; False means undecided here"""
    try: return attempt(pc, goal)
    except (No, RecursionError, z3.Z3Exception): return False

def attempt(pc, goal):
    import sympy
    work = []
    for p in pc: flatten(p, work)
    while z3.is_implies(goal):
        flatten(goal.arg(0), work); goal = goal.arg(1)
    subs, nonzero, rounds = [], [], 0
    def push(h):
        for a, b in subs: h = z3.substitute(h, (a, b))
        return z3.simplify(h)
    while work and rounds < 400:
        rounds += 1
        h = push(work.pop(0)); fl = []
        flatten(h, fl)
        if len(fl) > 1: work = fl + work; continue
        if z3.is_true(h) or z3.is_quantifier(h): continue
        if z3.is_not(h):
            a = h.arg(0)
            if z3.is_or(a): work = [z3.Not(c) for c in a.children()] + work; continue
            nonzero.append(a)
            if z3.is_app(a) and a.decl().kind() in ATOM: subs.append((a, z3.BoolVal(False)))
        elif z3.is_eq(h):
            a, b = h.arg(0), h.arg(1)
            for x, y in ((a, b), (b, a)):
                if z3.is_app(x) and x.decl().kind() in ATOM and not occurs(y, x): subs.append((x, y)); break
        elif z3.is_app(h) and h.decl().kind() in ATOM: subs.append((h, z3.BoolVal(True)))
    def full(t):
        for _ in range(4):
            n = z3.simplify(push(t))
            if n.eq(t): return t
            t = n
        return t
    keys, dens, cache = [], [], {}
    def atom(t):
        for k, s in keys:
            if k.eq(t): return s
        s = sympy.Symbol(f"a{len(keys)}"); keys.append((t, s)); return s
    def tr(t):
        i = t.get_id()
        if i in cache: return cache[i]
        k = t.decl().kind()
        if z3.is_rational_value(t): r = sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
        elif k == z3.Z3_OP_ADD: r = sympy.Add(*[tr(c) for c in t.children()])
        elif k == z3.Z3_OP_MUL: r = sympy.Mul(*[tr(c) for c in t.children()])
        elif k == z3.Z3_OP_SUB: r = tr(t.arg(0)) - sympy.Add(*[tr(c) for c in t.children()[1:]])
        elif k == z3.Z3_OP_UMINUS: r = -tr(t.arg(0))
        elif k == z3.Z3_OP_DIV: d = tr(t.arg(1)); dens.append(d); r = tr(t.arg(0)) / d
        elif k in ATOM: r = atom(t)
        else: raise No(str(t)[:300])
        cache[i] = r; return r
    goals, pairs, nz = [], [], []
    flatten(goal, goals); hold = list(subs)
    for g in goals:
        if not z3.is_eq(g) or not z3.is_real(g.arg(0)):
            if z3.is_true(full(g)): continue
            return False
        a, b = full(g.arg(0)), full(g.arg(1)); hold += [a, b]
        pairs.append((tr(a), tr(b)))
    for h in nonzero:
        if z3.is_eq(h) and z3.is_real(h.arg(0)):
            a, b = full(h.arg(0)), full(h.arg(1)); hold += [a, b]
            d0 = len(dens)
            try: e = tr(a) - tr(b)
            except No: del dens[d0:]; continue
            if len(dens) == d0: nz.append(sympy.expand(e))
            else: del dens[d0:]
    for d in dens:
        n, _ = sympy.fraction(sympy.together(d))
        if n == 0: return False
        c, fs = sympy.factor_list(n)
        if c == 0: return False
        for f, _ in fs:
            if not any(sympy.expand(f - x) == 0 or sympy.expand(f + x) == 0 for x in nz): return False
    return all(sympy.expand(sympy.fraction(sympy.together(a - b))[0]) == 0 for a, b in pairs)
