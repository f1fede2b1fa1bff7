"""contract targets: a function under contract, its symbolic pre-state and its postconditions"""
import z3
import engine as E
from values import *

class T:
    """collects the obligations of one target"""
    def __init__(self, name): self.name = name; self.items = []; self.engines = []; self.notes = []; self.assumes = []; self.functions = []; self.covers = []
    def engine(self, prog, **kw):
        en = E.Engine(prog, **kw); self.engines.append(en); return en
    def require(self, props, name, en, st, goal, kind="post", cases=None):
        """a proof obligation: facts and the path condition of st imply goal (proved case by case if cases are given)"""
        if st is not None and st.dead: return
        if cases:
            self.require(props, name + "[cases-complete]", en, st, Or(*cases), kind)
            for n, c in enumerate(cases): self.require(props, f"{name}[case {n + 1}]", en, st, z3.Implies(c, goal), kind)
            return
        if goal is True: goal = z3.BoolVal(True)
        if goal is False: goal = z3.BoolVal(False)
        self.items.append(dict(props=set(props), name=self.name + "/" + name, facts=list(en.base_facts()) + list(en.facts), pc=list(st.pc) if st is not None else [], goal=goal, kind=kind, line=None, en=id(en), nl=en.opaque_products, real=en.real and kind == "post" and not en.opaque_products))
    def safety(self, props, en, kinds=("safety", "invariant", "pre", "assert"), of=None):
        """obligations generated while executing the body (clamp arguments, optional access, indices, invariants, callee preconditions)"""
        n = {}
        for o in en.obls:
            if kinds is not None and o.kind not in kinds or of is not None and not of(o.name): continue
            n[o.name] = n.get(o.name, 0) + 1
            self.items.append(dict(props=set(props), name=f"{self.name}/{o.name}#{n[o.name]}", facts=list(en.base_facts()) + o.facts, pc=o.pc, goal=o.goal, kind=o.kind, line=o.where, en=id(en), nl=en.opaque_products))
    def cover(self, props, name, en, st, cond=True):
        """vacuity guard: the state must be reachable"""
        if st is None or st.dead:
            self.covers.append(dict(props=set(props), name=self.name + "/cover:" + name, dead=True)); return
        self.covers.append(dict(props=set(props), name=self.name + "/cover:" + name, facts=list(en.base_facts()) + list(en.facts), pc=list(st.pc) + [cond] if cond is not True else list(st.pc), en=id(en)))
    def assume_note(self, text):
        if text not in self.assumes: self.assumes.append(text)

def canon(v):
    """leaves of a value with the payload of an empty optional made irrelevant"""
    out = []
    if is_leaf(v): return [v]
    if isinstance(v, Opt):
        out.append(v.has)
        for l in canon(v.val): out.append(z3.If(v.has, l, dummy(l.sort())))
        return out
    if isinstance(v, Rec):
        for k in sorted(v.f): out += canon(v.f[k])
        return out
    if isinstance(v, Vec): return [v.len] + canon(v.elem)
    if isinstance(v, Map): return [v.dom] + (canon(v.val) if v.val is not None else [])
    if isinstance(v, Opaque): return []
    raise Unsupported("argument of a pure contract: " + repr(v))
def dummy(s):
    if s == E.F64: return z3.FPVal(0.0, E.F64)
    if s == z3.IntSort(): return z3.IntVal(0)
    if s == z3.BoolSort(): return z3.BoolVal(False)
    if s == z3.RealSort(): return z3.RealVal(0)
    return z3.Const("dummy:" + str(s), s)

class Pure:
    """contract of a pure function: requires / throws / ensures over its arguments and result.
    The body is verified against it; callers use only the contract (the result is an uninterpreted function of the arguments)."""
    q = ""; props = (); exc = "std::runtime_error"
    def requires(self, en, A): return []
    def throws(self, en, A): return None
    def ensures(self, en, A, R): return []           # [(props, name, goal)]
    def fn(self, prog):
        f = prog.find(self.q)
        if isinstance(f, list): raise Unsupported("ambiguous " + self.q)
        return f
    def apply(self, en, info_ret, A):
        """the result term: UF over the arguments"""
        args = []
        for a in A: args += canon(a)
        kt = en.p.strip_ref(info_ret)
        shape = en.symbolic(kt, self.q, ctx=False)
        i = [0]
        def mk(l):
            i[0] += 1
            return z3.Function(f"{self.q}${i[0]}", *[x.sort() for x in args], l.sort())(*args)
        return tmap(mk, shape)
    def handler(self):
        def h(en, st, c):
            A = [c.val(i) for i in range(c.n)]
            if st.dead: return None
            R = self.apply(en, c.ret, A)
            req = [g for _, g in self.requires(en, A)]
            for n, g in self.requires(en, A): en.oblige("requires:" + self.q.split("::")[-1] + ":" + n, st, g, "pre")
            t = self.throws(en, A)
            if t is not None: en.throw(st, t, E.Exc(self.exc))
            if st.dead: return R
            seen = getattr(en, "_pure_seen", None)
            if seen is None: seen = en._pure_seen = {}
            key = tuple(l.get_id() for l in leaves_of(R))
            old = seen.get(key)       # facts of a trial execution are rolled back: check that they are still there
            if old is None or any(i >= len(en.facts) or en.facts[i] is not f for i, f in old):
                n0 = len(en.facts)
                hyp = And(*req, *([Not(t)] if t is not None else []))
                for _, _, g in self.ensures(en, A, R): en.fact(z3.Implies(hyp, g) if hyp is not True else g)
                seen[key] = [(i, en.facts[i]) for i in range(n0, len(en.facts))]
            return R
        return h
    def verify(self, prog, t, contracts=()):
        """the body meets the contract"""
        f = self.fn(prog)
        en = t.engine(prog)
        for c in contracts: en.contracts[c.q] = c.handler()
        st = E.State()
        A, args = [], []
        for i, a in enumerate(f["args"]):
            v = en.symbolic(prog.strip_ref(a["t"]), self.argname(i, a["name"])); A.append(v)
            args.append(Ref(en.new_root(st, v, a["name"])) if prog.is_ref(a["t"]) else v)
        for _, g in self.requires(en, A): st.assume(g)
        pre = st.clone()
        R = en.call_fn(f, st, args=args)
        th = self.throws(en, A)
        for s, x in en.throw_sinks[0]:
            t.require(self.props, "no-unexpected-throw" if th is None else "throws-only-if", en, s, th if th is not None else z3.BoolVal(False))
        if th is not None: t.require(self.props, "throws-if", en, st, Not(th))
        if not st.dead:
            if isinstance(R, Ref): R = en.read(st, R.lv)
            for props, n, g in self.ensures(en, A, R): t.require(props, n, en, st, g)
        t.safety(self.props, en)
        t.cover(self.props, "entry", en, pre); t.cover(self.props, "return", en, st)
        return en
    def argname(self, i, n): return n

class PureTarget:
    """registry entry verifying one pure contract"""
    def __init__(self, contract, unit, roots=None, uses=()):
        self.c, self.unit, self.roots, self.uses = contract, unit, roots, uses
        self.name = contract.q.split("::")[-1]; self.function = contract.q
    def build(self, prog, t): self.c.verify(prog, t, self.uses)

def leaves_of(v): return [l for l in canon(v)]
