"""Symbolic executor / verification-condition generator over the exported clang AST."""
import json, re, struct, itertools, time
import z3
from values import *

F64 = z3.FPSort(11, 53)
F32 = z3.FPSort(8, 24)
RNE = z3.RNE()
Str = z3.DeclareSort("Str")

def strip_targs(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<' and not s[:i].endswith("operator") and not s[:i].endswith("operator<"):
            d += 1
        elif c == '>' and d > 0 and s[i-1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("std::__cxx11::", "std::").replace("std::__1::", "std::")

class Program:
    def __init__(self, path_or_obj):
        d = json.load(open(path_or_obj)) if isinstance(path_or_obj, str) else path_or_obj
        self.d = d
        self.types, self.records, self.globals = d["types"], d["records"], d["globals"]
        self.fns = {f["id"]: f for f in d["functions"]}
        self.by_name = {}
        for f in d["functions"]:
            self.by_name.setdefault(f["full"], []).append(f)
            q = strip_targs(f["q"])
            if q != f["full"]: self.by_name.setdefault(q, []).append(f)
        self._kind = {}
        self.overriders = {}
        for f in d["functions"]:
            for o in f.get("overrides", []): self.overriders.setdefault(o, []).append(f)
    def find(self, name, pred=None):
        c = [f for f in self.by_name.get(name, []) if pred is None or pred(f)]
        ids = {}
        for f in c: ids[f["id"]] = f
        c = list(ids.values())
        if not c: raise Unsupported(f"function {name} not found in the extracted source")
        return c[0] if len(c) == 1 else c
    def T(self, tid): return self.types[tid]
    def strip_ref(self, tid):
        t = self.types[tid]
        return t["to"] if t["k"] == "ref" else tid
    def is_ref(self, tid): return self.types[tid]["k"] == "ref"
    def targ(self, t, i):
        a = t["targs"][i]
        return a.get("ty")
    def kind(self, tid):
        if tid in self._kind: return self._kind[tid]
        k = self._kind_(tid); self._kind[tid] = k
        return k
    def _kind_(self, tid):
        t = self.types[tid]; k = t["k"]
        if k == "builtin":
            n = t["name"]
            if n == "bool": return ("bool",)
            if n == "void": return ("void",)
            if n == "double" or n == "long double": return ("double",)
            if n == "float": return ("float",)
            if "bits" in t and "signed" in t: return ("int", t["bits"], t["signed"])
            if n in ("nullptr_t", "std::nullptr_t"): return ("nullptr",)
            return ("opaque", n)
        if k == "enum": return ("enum", t["bits"], t["signed"], t["name"])
        if k == "ref": return ("ref", t["to"])
        if k == "ptr":
            to = self.types[t["to"]]
            if to["k"] == "builtin" and to["name"] in ("char",): return ("str",)
            if to["k"] == "function": return ("fn",)
            return ("ptr", t["to"])
        if k == "array":
            to = self.types[t["to"]]
            if to["k"] == "builtin" and to["name"] == "char": return ("str",)
            return ("arr", t["to"], t["n"])
        if k == "function": return ("fn",)
        if k == "record":
            n = strip_targs(t["name"])
            if n in ("std::basic_string", "std::basic_string_view"): return ("str",)
            if n == "std::optional": return ("opt", self.targ(t, 0))
            if n == "std::vector": return ("vec", self.targ(t, 0), None)
            if n in ("std::list", "std::deque", "std::initializer_list"): return ("vec", self.targ(t, 0), None)
            if n == "std::array": return ("arr", self.targ(t, 0), int(t["targs"][1]["int"]))
            if n in ("std::map", "std::unordered_map"): return ("map", self.targ(t, 0), self.targ(t, 1))
            if n in ("std::set", "std::unordered_set"): return ("set", self.targ(t, 0))
            if n in ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::__weak_ptr"): return ("ptr", self.targ(t, 0))
            if n in ("std::reference_wrapper",): return ("refw", self.targ(t, 0))
            if n == "std::pair": return ("pair", self.targ(t, 0), self.targ(t, 1))
            if n == "std::tuple":
                a = t["targs"][0].get("pack", []) if t["targs"] and "pack" in t["targs"][0] else t["targs"]
                return ("tuple", tuple(x["ty"] for x in a))
            if n == "std::variant":
                a = t["targs"][0]["pack"]
                return ("variant", tuple(x["ty"] for x in a))
            if n == "std::function": return ("fn",)
            if n in ("__gnu_cxx::__normal_iterator",): return ("iter", "vec")
            if n == "std::basic_regex": return ("regex",)
            if n in ("std::regex_iterator", "std::__cxx11::regex_iterator"): return ("regex_iter",)
            if n in ("std::match_results", "std::sub_match", "std::__cxx11::match_results"): return ("match",)
            if n in ("std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator_base"): return ("iter", "map")
            if n in ("std::atomic", "std::__atomic_base"): return self.kind(self.targ(t, 0))
            if n in ("std::nullopt_t",): return ("nullopt",)
            if n in ("std::monostate",): return ("rec", t["rec"].replace("const ", "", 1) if t["rec"].startswith("const ") else t["rec"])
            if n in ("std::lock_guard", "std::unique_lock", "std::shared_lock", "std::scoped_lock"): return ("lock",)
            if n.startswith("std::chrono::duration"): return ("dur",)
            if t.get("lambda"): return ("lambda",)
            key = t["rec"][6:] if t["rec"].startswith("const ") else t["rec"]
            r = self.records.get(key)
            if r is None: return ("opaque", n)
            if n.startswith("std::") or n.startswith("__gnu"): return ("opaque", n)
            return ("rec", key)
        return ("opaque", t["s"])
    def fields(self, key):
        """all fields incl. bases: list of (name, type, init)"""
        r = self.records[key]; out = []
        for b in r.get("bases", []):
            bk = self.kind(b)
            if bk[0] == "rec": out += self.fields(bk[1])
        for f in r["fields"]:
            out.append((f["name"], f["t"], f.get("init")))
        return out
    def field(self, tid, name):
        """the type of a field of class type tid"""
        k = self.kind(tid)
        for f, t, _ in self.fields(k[1]) if k[0] == "rec" else ():
            if f == name: return t
        raise Unsupported(f"no field {name} in {self.T(tid)['s']}")
    def root_class(self, key):
        r = self.records.get(key)
        while r and r.get("bases"):
            bk = self.kind(r["bases"][0])
            if bk[0] != "rec": break
            if not bk[1] in self.records or "enable_shared" in bk[1]: break
            key = bk[1]; r = self.records.get(key)
        return key
    def is_subclass(self, sub, sup):
        if sub == sup: return True
        r = self.records.get(sub)
        return bool(r) and any(self.kind(b)[0] == "rec" and self.is_subclass(self.kind(b)[1], sup) for b in r.get("bases", []))

class State:
    __slots__ = ("store", "pc", "dead")
    def __init__(self): self.store, self.pc, self.dead = {}, [], False
    def clone(self):
        s = State(); s.store = dict(self.store); s.pc = list(self.pc); s.dead = self.dead
        return s
    def become(self, o): self.store, self.pc, self.dead = o.store, o.pc, o.dead
    def assume(self, c):
        if c is True: return
        if c is False: self.dead = True; return
        c = z3.simplify(c) if not z3.is_quantifier(c) else c
        if z3.is_true(c): return
        if z3.is_false(c): self.dead = True; return
        self.pc.append(c)

class Frame:
    _n = itertools.count(1)
    def __init__(self, fn, this=None, env=None, parent=None):
        self.id = next(Frame._n); self.fn, self.this = fn, this
        self.env = env if env is not None else {}
        self.returns = []; self.loops = []; self.parent = parent

class Exc:
    def __init__(self, typ, val=None, rethrow=None): self.typ, self.val = typ, val

STD_EXC_BASE = {
    "std::exception": None, "std::runtime_error": "std::exception", "std::logic_error": "std::exception",
    "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error", "std::length_error": "std::logic_error",
    "std::domain_error": "std::logic_error", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
    "std::bad_optional_access": "std::exception", "std::bad_variant_access": "std::exception", "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception",
    "std::system_error": "std::runtime_error", "std::bad_function_call": "std::exception", "std::bad_any_cast": "std::bad_cast",
}

class Obligation:
    def __init__(self, name, facts, pc, goal, kind, where):
        self.name, self.facts, self.pc, self.goal, self.kind, self.where = name, facts, pc, goal, kind, where
        self.result = self.backend = None; self.time = 0.0; self.model = None

class Engine:
    def __init__(self, prog, real=False, strmode="uf", exact_fp=False, max_depth=40):
        self.p = prog; self.real = real; self.strmode = strmode; self.exact = exact_fp
        self.DS = z3.RealSort() if real else F64
        self.SS = z3.StringSort() if strmode == "seq" else Str
        self.facts = []; self.obls = []; self.ctx = []; self.nfresh = 0
        self.throw_sinks = [[]]; self.frames = []; self.depth = 0; self.max_depth = max_depth
        self.contracts = {}      # qname -> handler(engine, call) -> value
        self.heap_init = {}; self.heap_types = {}; self.local_types = {}; self.loop_keys = None; self.lengths = []
        self.write_log = None; self.write_hook = None; self.method_hook = None; self.lock_log = []; self.no_obl = 0
        self.strlits = {}; self.trusted = set(); self.inlined = {}; self.fp_terms = {}
        self.loop_range = self.at_range = self.try_lock = None; self.opaque_products = False; self.loop_hints = []; self.loop_invs = []; self.loop_log = []
        self.solver_time = 0.0; self.nqueries = 0
        self.decl_models = None
        self.fns_used = set()
        self.cur_line = None
        self.loop_mode = "summary"; self.unroll = 4
        self.lambda_frames = {}
        import lib
        self.models = lib.MODELS
        self.lib = lib
        self.opaque_unknown = False
        self.alloc_n = 0

    # ---------------------------------------------------------------- symbols, facts, obligations
    def fresh(self, name, sort, ctx=True):
        self.nfresh += 1
        n = f"{name}!{self.nfresh}"
        if ctx and self.ctx:
            f = z3.Function(n, *[g.sort() for g in self.ctx], sort)
            return f(*self.ctx)
        return z3.Const(n, sort)
    def fact(self, f):
        if f is True or z3.is_true(f): return
        self.facts.append(f)
    def oblige(self, name, st, goal, kind="assert"):
        if self.no_obl or st.dead: return
        if goal is True: goal = z3.BoolVal(True)
        self.obls.append(Obligation(name, list(self.facts), list(st.pc), goal, kind, self.cur_line))
    def throw(self, st, cond, exc):
        """st continues under not cond; a throwing state is recorded"""
        if st.dead: return
        if cond is not True:
            cond = z3.simplify(cond) if not z3.is_quantifier(cond) else cond
            if z3.is_false(cond): return
            if z3.is_true(cond): cond = True
        t = st.clone()
        if cond is not True: t.assume(cond)
        if not t.dead: self.throw_sinks[-1].append((t, exc))
        if cond is True: st.dead = True
        else: st.assume(Not(cond))

    # ---------------------------------------------------------------- literals
    def strlit(self, s):
        if self.strmode == "seq": return z3.StringVal(s)
        if s not in self.strlits:
            c = z3.Const("str:" + s, Str)
            for o in self.strlits.values(): self.base_facts().append(c != o)
            self.strlits[s] = c
        return self.strlits[s]
    def base_facts(self):
        if not hasattr(self, "_base"): self._base = []
        return self._base
    def dval(self, x):
        if self.real:
            if x != x or x in (float("inf"), float("-inf")): return self.fresh("nonfinite", z3.RealSort(), ctx=False)
            from fractions import Fraction
            fr = Fraction(x); return z3.RealVal(str(fr.numerator) + "/" + str(fr.denominator))
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(struct.unpack("<Q", struct.pack("<d", x))[0], 64), F64))
    def is_nan(self, x): return z3.BoolVal(False) if self.real else z3.fpIsNaN(x)
    def is_inf(self, x): return z3.BoolVal(False) if self.real else z3.fpIsInf(x)
    def is_fin(self, x): return z3.BoolVal(True) if self.real else Not(Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
    def flt(self, a, b): return a < b if self.real else z3.fpLT(a, b)
    def fle(self, a, b): return a <= b if self.real else z3.fpLEQ(a, b)
    def feq(self, a, b): return a == b if self.real else z3.fpEQ(a, b)
    def fneg(self, a): return -a if self.real else z3.fpNeg(a)
    def fabs(self, a): return z3.If(a < 0, -a, a) if self.real else z3.fpAbs(a)
    def farith(self, op, a, b):
        if self.real:
            if op == "/":
                return a / b
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
        a, b = z3.simplify(a), z3.simplify(b)
        fn = {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}[op]
        if z3.is_fp_value(a) and z3.is_fp_value(b): return z3.simplify(fn(RNE, a, b))
        if self.exact: return fn(RNE, a, b)
        # IEEE identities that hold bit for bit (up to the sign of a NaN): a-b = a+(-b), (-a)*b = -(a*b), (-a)/b = a/(-b) = -(a/b)
        if op == "-": return self.farith("+", a, z3.fpNeg(b))
        if op in "*/":
            flip = False
            na, ca = strip_neg(a); nb, cb = strip_neg(b)
            if ca != cb: flip = True
            if ca or cb:
                r = self.farith(op, na, nb)
                return z3.simplify(z3.fpNeg(r)) if flip else r
        sort = a.sort()
        nm = {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}[op] + ("" if sort == F64 else "32")
        if op in "+*" and a.hash() > b.hash(): a, b = b, a
        u = z3.Function(nm, sort, sort, sort)
        r = u(a, b)
        key = (op, a.get_id(), b.get_id())
        if key in self.fp_terms: return r
        self.fp_terms[key] = (op, a, b, r)
        zero = z3.FPVal(0.0, sort)
        nan, inf, isz = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero
        le = z3.fpLEQ; pos = lambda x: z3.fpLEQ(zero, x); neg = lambda x: z3.fpLEQ(x, zero)
        F = []
        if op in "+-":
            bb = b if op == "+" else z3.fpNeg(b)
            F.append(nan(r) == Or(nan(a), nan(b), And(inf(a), inf(bb), z3.fpIsPositive(a) != z3.fpIsPositive(bb))))
            F.append(z3.Implies(And(Not(nan(r)), pos(bb)), le(a, r)))
            F.append(z3.Implies(And(Not(nan(r)), neg(bb)), le(r, a)))
            F.append(z3.Implies(And(Not(nan(r)), pos(a)), le(bb, r)))
            F.append(z3.Implies(And(Not(nan(r)), neg(a)), le(r, bb)))
            F.append(z3.Implies(And(isz(bb), Not(nan(a))), z3.fpEQ(r, a)))
            F.append(z3.Implies(And(isz(a), Not(nan(b))), z3.fpEQ(r, bb)))
            F.append(z3.Implies(And(inf(a), Not(nan(r))), r == a))
            F.append(z3.Implies(And(inf(b), Not(nan(r))), r == bb))
            F.append(z3.Implies(And(Not(nan(r)), z3.fpLT(z3.fpNeg(bb), a)), z3.fpLT(zero, r)))
            F.append(z3.Implies(And(Not(nan(r)), z3.fpLT(a, z3.fpNeg(bb))), z3.fpLT(r, zero)))
            # exactness of zero: a-b == 0 iff a == b (gradual underflow)
            F.append(z3.Implies(And(Not(inf(a)), Not(inf(b)), Not(nan(r))), isz(r) == z3.fpEQ(a, z3.fpNeg(bb))))
        elif op == "*":
            F.append(nan(r) == Or(nan(a), nan(b), And(inf(a), isz(b)), And(isz(a), inf(b))))
            F.append(z3.Implies(Not(nan(r)), z3.fpIsPositive(r) == (z3.fpIsPositive(a) == z3.fpIsPositive(b))))
            F.append(z3.Implies(Or(isz(a), isz(b)), Or(nan(r), isz(r))))
            F.append(z3.Implies(And(Or(inf(a), inf(b)), Not(nan(r))), inf(r)))
        else:
            F.append(nan(r) == Or(nan(a), nan(b), And(inf(a), inf(b)), And(isz(a), isz(b))))
            F.append(z3.Implies(Not(nan(r)), z3.fpIsPositive(r) == (z3.fpIsPositive(a) == z3.fpIsPositive(b))))
            F.append(z3.Implies(And(isz(b), Not(nan(r))), inf(r)))
            F.append(z3.Implies(And(inf(b), Not(nan(r))), isz(r)))
            F.append(z3.Implies(And(inf(a), Not(nan(r))), inf(r)))
            F.append(z3.Implies(And(isz(a), Not(nan(r))), isz(r)))
        if op in "+*": F.append(r == u(b, a))
        for f in F: self.fact(f)
        return r

    # ---------------------------------------------------------------- values by type
    def sort_of(self, tid):
        k = self.p.kind(tid)
        if k[0] == "double": return self.DS
        if k[0] == "float": return z3.RealSort() if self.real else F32
        if k[0] in ("int", "enum", "ptr", "dur", "refw", "fn"): return z3.IntSort()
        if k[0] in ("bool", "lock"): return z3.BoolSort()
        if k[0] == "str": return self.SS
        return None
    def lifted(self, sort, dims):
        for d in reversed(dims): sort = z3.ArraySort(d, sort)
        return sort
    def symbolic(self, tid, name, dims=(), ctx=True, st=None):
        """fresh symbolic value of the type, lifted over dims"""
        k = self.p.kind(tid)
        mk = lambda n, s: self.fresh(n, self.lifted(s, dims), ctx)
        if k[0] == "int":
            v = mk(name, z3.IntSort()); self.range_fact(v, k[1], k[2], dims); return v
        if k[0] == "enum":
            v = mk(name, z3.IntSort()); self.range_fact(v, k[1], k[2], dims); return v
        if k[0] in ("ptr", "refw", "fn"):     # fn: 0 is the empty function
            v = mk(name, z3.IntSort())
            return v
        s = self.sort_of(tid)
        if s is not None: return mk(name, s)
        if k[0] == "opt": return Opt(mk(name + ".has", z3.BoolSort()), self.symbolic(k[1], name + ".val", dims, ctx))
        if k[0] == "vec":
            ln = mk(name + ".len", z3.IntSort()); self.len_fact(ln, dims)
            return Vec(ln, self.symbolic(k[1], name + ".elem", tuple(dims) + (z3.IntSort(),), ctx))
        if k[0] == "arr":
            ln = z3.IntVal(k[2])
            for d in reversed(dims): ln = z3.K(d, ln)
            return Vec(ln, self.symbolic(k[1], name + ".elem", tuple(dims) + (z3.IntSort(),), ctx))
        if k[0] == "map":
            ks = self.sort_of(k[1])
            if ks is None: return Opaque(name)
            return Map(mk(name + ".dom", z3.ArraySort(ks, z3.BoolSort())), self.symbolic(k[2], name + ".val", tuple(dims) + (ks,), ctx))
        if k[0] == "set":
            ks = self.sort_of(k[1])
            if ks is None: return Opaque(name)
            return Map(mk(name + ".dom", z3.ArraySort(ks, z3.BoolSort())), None)
        if k[0] == "pair": return Rec("pair", {"first": self.symbolic(k[1], name + ".first", dims, ctx), "second": self.symbolic(k[2], name + ".second", dims, ctx)})
        if k[0] == "tuple": return Rec("tuple", {f"t{i}": self.symbolic(t, f"{name}.t{i}", dims, ctx) for i, t in enumerate(k[1])})
        if k[0] == "variant":
            idx = mk(name + ".index", z3.IntSort())
            if dims: self.len_fact(idx, dims)
            else: self.fact(And(idx >= 0, idx < len(k[1])))
            return Rec("variant", dict([("index", idx)] + [(f"v{i}", self.symbolic(t, f"{name}.v{i}", dims, ctx)) for i, t in enumerate(k[1])]))
        if k[0] == "rec":
            if getattr(self, "_symdepth", 0) > 6: return Opaque(k[1])
            self._symdepth = getattr(self, "_symdepth", 0) + 1
            try:
                return Rec(k[1], {f: self.symbolic(t, f"{name}.{f}", dims, ctx) for f, t, _ in self.p.fields(k[1])})
            finally: self._symdepth -= 1
        if k[0] == "nullptr": return z3.IntVal(0)
        if k[0] == "ref": return self.symbolic(k[1], name, dims, ctx)
        return Opaque(self.p.T(tid)["s"])
    def range_fact(self, v, bits, signed, dims):
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        self.quant_fact(v, dims, lambda t: And(t >= lo, t <= hi))
    def len_fact(self, v, dims): self.quant_fact(v, dims, lambda t: t >= 0)
    def quant_fact(self, v, dims, f):
        vs = []
        t = v
        for d in dims:
            x = z3.FreshConst(d, "q"); vs.append(x); t = z3.Select(t, x)
        self.fact(z3.ForAll(vs, f(t), patterns=[t]) if vs else f(t))
    def default(self, tid, st=None):
        """value-initialised / default-constructed value"""
        k = self.p.kind(tid)
        if k[0] == "double": return self.dval(0.0)
        if k[0] == "float": return z3.FPVal(0.0, F32) if not self.real else z3.RealVal(0)
        if k[0] in ("int", "enum", "ptr", "dur", "nullptr", "fn"): return z3.IntVal(0)
        if k[0] == "refw": return z3.IntVal(0)
        if k[0] in ("bool", "lock"): return z3.BoolVal(False)
        if k[0] == "str": return self.strlit("")
        if k[0] == "opt": return Opt(z3.BoolVal(False), self.symbolic(k[1], "unset"))
        if k[0] == "vec": return Vec(z3.IntVal(0), self.symbolic(k[1], "vempty", (z3.IntSort(),)))
        if k[0] == "arr": return Vec(z3.IntVal(k[2]), self.const_elem(self.default(k[1], st), z3.IntSort()))
        if k[0] == "map":
            ks = self.sort_of(k[1])
            if ks is None: return Opaque("map")
            return Map(z3.K(ks, z3.BoolVal(False)), self.symbolic(k[2], "mempty", (ks,)))
        if k[0] == "set":
            ks = self.sort_of(k[1])
            if ks is None: return Opaque("set")
            return Map(z3.K(ks, z3.BoolVal(False)), None)
        if k[0] == "pair": return Rec("pair", {"first": self.default(k[1], st), "second": self.default(k[2], st)})
        if k[0] == "tuple": return Rec("tuple", {f"t{i}": self.default(t, st) for i, t in enumerate(k[1])})
        if k[0] == "variant":
            return Rec("variant", dict([("index", z3.IntVal(0))] + [(f"v{i}", self.default(t, st)) for i, t in enumerate(k[1])]))
        if k[0] == "rec":
            out = {}
            for f, t, init in self.p.fields(k[1]):
                if init is not None and st is not None:
                    fr = Frame(None); self.frames.append(fr)
                    try: out[f] = self.init_value(init, t, st)
                    finally: self.frames.pop()
                else: out[f] = self.default(t, st)
            return Rec(k[1], out)
        return Opaque(self.p.T(tid)["s"])
    def const_elem(self, v, sort): return tmap(lambda t: z3.K(sort, t), v)

    # ---------------------------------------------------------------- store
    def heap_key(self, tid):
        k = self.p.kind(tid)
        if k[0] == "rec": return self.p.root_class(k[1])
        s = self.p.T(tid)["s"]
        return s[6:] if s.startswith("const ") else s
    def heap_root(self, key): return "heap:" + key
    def root_value(self, st, root):
        if root in st.store: return st.store[root]
        if isinstance(root, str) and root.startswith("heap:"):
            if root not in self.heap_init:
                tid = self.heap_types.get(root)
                if tid is None: raise Unsupported("heap of unknown type " + root)
                save = self.ctx; self.ctx = []
                k = self.p.kind(tid)
                self.heap_init[root] = self.symbolic(tid, root, (z3.IntSort(),), ctx=False)
                self.ctx = save
            st.store[root] = self.heap_init[root]
            return st.store[root]
        raise Unsupported(f"unknown root {root}")
    def get(self, v, path):
        for el in path:
            if isinstance(v, Opaque): return Opaque("?")
            if el[0] == "f":
                if isinstance(v, Ref): raise Unsupported("field of ref")
                if not isinstance(v, Rec) or el[1] not in v.f: raise Unsupported(f"no field {el[1]} in {getattr(v,'name',v)}")
                v = v.f[el[1]]
            elif el[0] == "o": v = v.val
            elif el[0] == "i":
                if not isinstance(v, Vec): raise Unsupported("index into non-vector")
                v = select_tree(v.elem, el[1])
            elif el[0] == "k":
                if not isinstance(v, Map): raise Unsupported("key into non-map")
                v = select_tree(v.val, el[1])
            elif el[0] == "h": v = select_tree(v, el[1])
            else: raise Unsupported(f"path {el}")
        return v
    def put(self, v, path, x):
        if not path: return x
        if isinstance(v, Opaque): return v
        el, rest = path[0], path[1:]
        if el[0] == "f":
            if el[1] not in v.f: raise Unsupported(f"no field {el[1]} in {v.name}")
            d = dict(v.f); d[el[1]] = self.put(v.f[el[1]], rest, x); return Rec(v.name, d)
        if el[0] == "o": return Opt(v.has, self.put(v.val, rest, x))
        if el[0] == "i":
            sub = self.put(select_tree(v.elem, el[1]), rest, x) if rest else x
            return Vec(v.len, store_tree(v.elem, el[1], sub))
        if el[0] == "k":
            sub = self.put(select_tree(v.val, el[1]), rest, x) if rest else x
            return Map(v.dom, store_tree(v.val, el[1], sub))
        if el[0] == "h":
            sub = self.put(select_tree(v, el[1]), rest, x) if rest else x
            return store_tree(v, el[1], sub)
        raise Unsupported(f"path {el}")
    def read(self, st, lv):
        if isinstance(lv, Ref): lv = lv.lv
        out = None
        for g, root, path in reversed(lv.alts):
            v = self.get(self.root_value(st, root), path)
            if isinstance(v, Ref): v = self.read(st, v.lv)
            out = v if out is None else ite_tree(g, v, out)
        return out
    def write(self, st, lv, val):
        if st.dead: return
        if isinstance(lv, Ref): lv = lv.lv
        multi = len(lv.alts) > 1
        for g, root, path in lv.alts:
            old = self.root_value(st, root)
            if self.write_log is not None: self.write_log.append((root, path))
            if self.write_hook is not None: self.write_hook(self, st, root, path)
            x = val
            if multi: x = ite_tree(g, val, self.get(old, path))
            st.store[root] = self.put(old, path, x)
    def new_root(self, st, val, name="tmp"):
        self.alloc_n += 1
        r = ("t", name, self.alloc_n)
        st.store[r] = val
        return LV.one(r)

    # ---------------------------------------------------------------- merging
    def merge_states(self, base_len, alts):
        """alts: list of (state, value|None) ; all share pc[:base_len]. returns (state, value)"""
        alts = [(s, v) for s, v in alts if not s.dead]
        if not alts: return None, None
        if len(alts) == 1: return alts[0]
        n = min(len(s.pc) for s, _ in alts)
        i = base_len
        while i < n and all(s.pc[i] is alts[0][0].pc[i] or s.pc[i].eq(alts[0][0].pc[i]) for s, _ in alts): i += 1
        sufs = [And(*s.pc[i:]) for s, _ in alts]
        out = State(); out.pc = list(alts[0][0].pc[:i])
        d = self.disj(sufs)
        if not z3.is_true(d): out.pc.append(d)
        conds = self.selectors(sufs)
        roots = set(alts[0][0].store)
        for s, _ in alts[1:]: roots &= set(s.store)
        # heaps missing in some state
        for s, _ in alts:
            for r in s.store:
                if isinstance(r, str) and r.startswith("heap:"): roots.add(r)
        for r in roots:
            vals = [self.root_value(s, r) for s, _ in alts]
            v = vals[-1]
            for c, x in zip(reversed(conds[:-1]), reversed(vals[:-1])): v = ite_tree(c, x, v)
            out.store[r] = v
        val = None
        vs = [v for _, v in alts]
        if any(v is not None for v in vs):
            val = vs[-1]
            for c, x in zip(reversed(conds[:-1]), reversed(vs[:-1])):
                if x is None or val is None: val = x if val is None else val; continue
                val = ite_tree(c, x, val)
        return out, val
    def disj(self, sufs):
        # recognise c / not c
        if len(sufs) == 2:
            a, b = sufs
            if a.eq(Not(b)) or b.eq(Not(a)): return z3.BoolVal(True)
            # common leading conjunct negation: And(c, x..) / And(not c, y..)
        return z3.simplify(Or(*sufs))
    def selectors(self, sufs):
        """use the first conjunct as selector when it distinguishes two branches"""
        if len(sufs) == 2:
            fa = sufs[0].arg(0) if z3.is_and(sufs[0]) else sufs[0]
            fb = sufs[1].arg(0) if z3.is_and(sufs[1]) else sufs[1]
            if fa.eq(Not(fb)) or fb.eq(Not(fa)): return [fa, fb]
        return sufs

    # ---------------------------------------------------------------- solver helper (summaries, pruning)
    def valid(self, hyps, goal, timeout=3000, facts=True):
        goal = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(goal): return True
        s = z3.Solver(); s.set("timeout", timeout)
        if facts:
            for f in self.base_facts(): s.add(f)
            for f in self.facts: s.add(f)
        for h in hyps: s.add(h)
        s.add(z3.Not(goal))
        t = time.time(); r = s.check(); self.solver_time += time.time() - t; self.nqueries += 1
        return r == z3.unsat
    def feasible(self, st, timeout=1500):
        if st.dead: return False
        s = z3.Solver(); s.set("timeout", timeout)
        for f in self.base_facts(): s.add(f)
        for f in self.facts: s.add(f)
        for h in st.pc: s.add(h)
        t = time.time(); r = s.check(); self.solver_time += time.time() - t; self.nqueries += 1
        return r != z3.unsat

    # ---------------------------------------------------------------- function calls
    def call_fn(self, fn, st, this=None, args=(), env=None, ctor_target=None):
        """inline fn; args are Ref/values already matched to the parameters. returns value/Ref/None"""
        if self.depth > self.max_depth: raise Unsupported("recursion too deep in " + fn["full"])
        self.fns_used.add((fn["full"], fn.get("file"), fn.get("line"), fn.get("endline")))
        self.depth += 1
        fr = Frame(fn, this, dict(env) if env else None)
        self.frames.append(fr)
        base = len(st.pc)
        try:
            for prm, a in zip(fn["args"], args): self.bind_param(st, fr, prm, a)
            if fn.get("inits") is not None and this is not None: self.ctor_inits(fn, st, fr)
            self.ex(fn["bodyst"], st)
            alts = list(fr.returns)
            if not st.dead: alts.append((st.clone(), None))
            if not alts: st.dead = True; return None
            ns, val = self.merge_states(base, alts)
            if ns is None: st.dead = True; return None
            st.become(ns)
            return val
        finally:
            self.frames.pop(); self.depth -= 1
    def bind_param(self, st, fr, prm, a):
        root = ("v", prm["id"], fr.id)
        if self.p.is_ref(prm["t"]):
            if isinstance(a, Ref): fr.env[prm["id"]] = a
            elif isinstance(a, LV): fr.env[prm["id"]] = Ref(a)
            else:
                st.store[root] = a; fr.env[prm["id"]] = Ref(LV.one(root))
        else:
            if isinstance(a, (Ref,)): a = self.read(st, a.lv)
            st.store[root] = a; fr.env[prm["id"]] = root
    def ctor_inits(self, fn, st, fr):
        for i in fn["inits"]:
            e = i["e"]
            if i.get("delegating") or "base" in i:
                # base / delegating: construct in place
                if e is None: continue
                self.construct_into(e, fr.this, st, base="base" in i)
                continue
            f = i["field"]; t = i["ft"]
            lv = fr.this.ext(("f", f))
            if self.p.is_ref(t):
                self.write_raw(st, lv, Ref(self.lv(e, st)))
            else:
                self.write(st, lv, self.init_value(e, t, st))
            if st.dead: return
    def write_raw(self, st, lv, val): self.write(st, lv, val)
    def construct_into(self, e, lv, st, base=False):
        while e["k"] in ("ImplicitCastExpr",): e = e["sub"]
        if e["k"] == "CXXConstructExpr":
            c = e["ctor"]; t = e["t"]
            k = self.p.kind(t)
            if c.get("body") and c["id"] in self.p.fns:
                args = self.eval_args(e["c"], self.p.fns[c["id"]]["args"], st)
                self.call_fn(self.p.fns[c["id"]], st, this=lv, args=args)
                return
            if c.get("ctor") in ("copy", "move") and e["c"]:
                src = self.rv(e["c"][0], st)
                cur = self.read(st, lv)
                if isinstance(src, Rec) and isinstance(cur, Rec):
                    d = dict(cur.f)
                    for kf, vf in src.f.items():
                        if kf in d: d[kf] = vf
                    self.write(st, lv, Rec(cur.name, d))
                return
            v = self.ev(e, st)
            cur = self.read(st, lv)
            if isinstance(v, Rec) and isinstance(cur, Rec):
                d = dict(cur.f); d.update({kf: vf for kf, vf in v.f.items() if kf in d})
                self.write(st, lv, Rec(cur.name, d))
            return
        if e["k"] == "CXXInheritedCtorInitExpr":
            # the parameters of the inheriting constructor are passed on to the base constructor
            c = e.get("ctor"); fr = self.frames[-1]; b = self.p.fns.get(c["id"]) if c else None
            if b is None: raise Unsupported("inherited constructor without a body")
            args = []
            for prm, to in zip(fr.fn["args"], b["args"]):
                v = fr.env[prm["id"]]
                if not isinstance(v, Ref): v = Ref(LV.one(v))
                args.append(v if self.p.is_ref(to["t"]) else self.read(st, v.lv))
            self.call_fn(b, st, this=lv, args=args); return
        raise Unsupported("base initialiser " + e["k"])
    def eval_args(self, exprs, params, st):
        out = []
        for i, e in enumerate(exprs):
            if i < len(params): out.append(self.arg_for(e, params[i]["t"], st))
            else: out.append(self.rv(e, st))
        return out
    def arg_for(self, e, ptid, st):
        if self.p.is_ref(ptid): return Ref(self.lv(e, st))
        return self.init_value(e, ptid, st)

    # ---------------------------------------------------------------- statements
    def ex(self, s, st):
        if s is None or st.dead: return
        k = s["k"]
        if "l" in s: self.cur_line = (self.frames[-1].fn or {}).get("file", "?") + ":" + str(s["l"]) if self.frames and self.frames[-1].fn else s["l"]
        m = getattr(self, "ex_" + k, None)
        if m: return m(s, st)
        if "t" in s:  # expression statement
            self.ev_discard(s, st); return
        raise Unsupported("statement " + k)
    def ev_discard(self, s, st):
        if s.get("vk") in ("l", "x"): self.lv(s, st)
        else: self.ev(s, st)
    def ex_CompoundStmt(self, s, st):
        for c in s["c"]:
            if st.dead: return
            self.ex(c, st)
    def ex_NullStmt(self, s, st): pass
    def ex_DeclStmt(self, s, st):
        for v in s["c"]:
            if v["k"] == "Var": self.decl_var(v, st)
            if st.dead: return
    def decl_var(self, v, st):
        fr = self.frames[-1]
        root = ("v", v["id"], fr.id)
        t = self.local_types[root] = v["t"]
        if v.get("static"):
            gk = str(v["id"])
            g = self.p.globals.get(gk)
            if g is not None:
                fr.env[v["id"]] = ("g", v["id"]); st.store.setdefault(("g", v["id"]), self.global_value(v["id"], st)); return
        if v.get("bindings"):
            # structured binding
            if self.p.is_ref(t): base = self.lv(v["init"], st)
            else:
                st.store[root] = self.init_value(v["init"], t, st); base = LV.one(root)
            val = self.read(st, base)
            names = None
            for i, b in enumerate(v["bindings"]):
                if isinstance(val, Rec) and val.name == "pair": sub = base.ext(("f", ["first", "second"][i]))
                elif isinstance(val, Rec) and val.name == "tuple": sub = base.ext(("f", f"t{i}"))
                elif isinstance(val, Rec): sub = base.ext(("f", list(val.f)[i]))
                elif isinstance(val, Opaque): sub = self.new_root(st, self.symbolic(b["t"], b["name"]))
                elif isinstance(val, Iter): raise Unsupported("binding of iterator")
                else: raise Unsupported("structured binding")
                fr.env[b["id"]] = Ref(sub)
                if "hid" in b: fr.env[b["hid"]] = Ref(sub)
            return
        if self.p.is_ref(t):
            fr.env[v["id"]] = Ref(self.lv(v["init"], st)); return
        if v.get("init") is not None: val = self.init_value(v["init"], t, st)
        else:
            k = self.p.kind(t)
            val = self.symbolic(t, v["name"] + "_uninit") if k[0] in ("double", "float", "int", "bool", "enum", "ptr", "arr") else self.default(t, st)
        if st.dead: return
        st.store[root] = val; fr.env[v["id"]] = root
    def init_value(self, e, tid, st):
        """evaluate an initialiser for an object of type tid"""
        if e is None: return self.default(tid, st)
        return self.rv(e, st, tid)
    def ex_ReturnStmt(self, s, st):
        fr = self.frames[-1]
        e = s["c"][0] if s["c"] else None
        val = None
        if e is not None:
            if fr.fn and self.p.is_ref(fr.fn["ret"]): val = Ref(self.lv(e, st))
            else: val = self.rv(e, st)
        if st.dead: return
        fr.returns.append((st.clone(), val)); st.dead = True
    def cond(self, e, st):
        v = self.ev(e, st) if e.get("vk") == "r" else self.read(st, self.lv(e, st))
        return self.to_bool(v)
    def to_bool(self, v):
        if isinstance(v, Opaque): return self.fresh("opaque_cond", z3.BoolSort())
        if isinstance(v, Ptr): return Not(ptr_eq(v, Ptr([(True, None)])))
        if isinstance(v, Opt): return v.has
        if isinstance(v, (Closure, Fn)): return z3.BoolVal(True)
        if z3.is_bool(v): return v
        if z3.is_int(v): return v != 0
        if isinstance(v, z3.FPRef): return Not(z3.fpIsZero(v))
        if z3.is_real(v): return v != 0
        raise Unsupported(f"condition {v}")
    def branch(self, st, c, f1, f2):
        c = z3.simplify(c)
        if z3.is_true(c): f1(st); return
        if z3.is_false(c): f2(st); return
        base = len(st.pc)
        a, b = st.clone(), st.clone()
        a.pc.append(c); b.pc.append(Not(c))
        f1(a); f2(b)
        ns, _ = self.merge_states(base, [(a, None), (b, None)])
        if ns is None: st.dead = True
        else: st.become(ns)
    def ex_IfStmt(self, s, st):
        if s.get("init"): self.ex(s["init"], st)
        if s.get("var"): self.decl_var(s["var"], st)
        if "nondiscarded" in s:
            self.ex(s["nondiscarded"], st); return
        c = self.cond(s["cond"], st)
        if st.dead: return
        self.branch(st, c, lambda x: self.ex(s["then"], x), lambda x: self.ex(s["else"], x) if s.get("else") else None)
    def ex_SwitchStmt(self, s, st):
        if s.get("init"): self.ex(s["init"], st)
        v = self.ev(s["cond"], st)
        if st.dead: return
        # flatten
        items = []
        def flat(x):
            if x is None: return
            if x["k"] == "CaseStmt": items.append(("case", int(x["val"]))); flat(x["sub"])
            elif x["k"] == "DefaultStmt": items.append(("default", None)); flat(x["sub"])
            else: items.append(("st", x))
        for x in s["body"]["c"]: flat(x)
        allv = [z3.IntVal(i[1]) for i in items if i[0] == "case"]
        if z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        fr = self.frames[-1]; base = len(st.pc)
        ctl = {"breaks": [], "continues": None, "switch": True}; fr.loops.append(ctl)
        cur = st.clone(); cur.dead = True
        notany = And(*[v != c for c in allv]) if allv else z3.BoolVal(True)
        hasdef = any(i[0] == "default" for i in items)
        pend = []
        for kind, x in items:
            if kind in ("case", "default"):
                e = st.clone(); e.assume(v == x if kind == "case" else notany)
                if not e.dead:
                    if cur.dead: cur = e
                    else:
                        ns, _ = self.merge_states(base, [(cur, None), (e, None)]); cur = ns
            else:
                self.ex(x, cur)
        fr.loops.pop()
        alts = [(b, None) for b in ctl["breaks"]]
        if not cur.dead: alts.append((cur, None))
        if not hasdef:
            e = st.clone(); e.assume(notany)
            if not e.dead: alts.append((e, None))
        ns, _ = self.merge_states(base, alts)
        if ns is None: st.dead = True
        else: st.become(ns)
    def ex_BreakStmt(self, s, st):
        self.frames[-1].loops[-1]["breaks"].append(st.clone()); st.dead = True
    def ex_ContinueStmt(self, s, st):
        for l in reversed(self.frames[-1].loops):
            if not l.get("switch"): l["continues"].append(st.clone()); break
        st.dead = True
    def exc_matches(self, exc, tid):
        """True/False/None(unknown) whether handler type catches exc"""
        if tid == -1: return True
        if exc.typ is None: return False      # unknown non-std exception: only catch(...)
        t = self.p.T(self.p.strip_ref(tid))
        hn = strip_targs(t.get("name", t["s"]))
        n = exc.typ
        if n in ("int", "bool", "char", "double", "long"): return n == hn
        seen = 0
        while n is not None and seen < 20:
            if n == hn: return True
            if n in STD_EXC_BASE: n = STD_EXC_BASE[n]
            else:
                r = self.p.records.get(n)
                nb = None
                if r:
                    for b in r["bases"]: nb = strip_targs(self.p.T(b).get("name", "")); break
                n = nb if nb else ("std::exception" if n != "std::exception" else None)
            seen += 1
        return False
    def ex_CXXTryStmt(self, s, st):
        base = len(st.pc)
        self.throw_sinks.append([])
        try: self.ex(s["body"], st)
        finally: thrown = self.throw_sinks.pop()
        alts = []
        if not st.dead: alts.append((st.clone(), None))
        per = [[] for _ in s["c"] ] if "c" in s else []
        hs = s["handlers"]; per = [[] for _ in hs]
        for ts, exc in thrown:
            for i, h in enumerate(hs):
                if self.exc_matches(exc, h["type"]): per[i].append((ts, exc)); break
            else: self.throw_sinks[-1].append((ts, exc))
        for i, h in enumerate(hs):
            if not per[i]: continue
            ns, _ = self.merge_states(base, [(t, None) for t, _ in per[i]])
            if ns is None: continue
            fr = self.frames[-1]
            if h.get("var"):
                root = ("v", h["var"]["id"], fr.id); ns.store[root] = Opaque("exception"); fr.env[h["var"]["id"]] = Ref(LV.one(root))
            self.cur_exc = per[i]
            old = getattr(fr, "exc", None); fr.exc = per[i]
            self.ex(h["body"], ns)
            fr.exc = old
            if not ns.dead: alts.append((ns, None))
        ns, _ = self.merge_states(base, alts)
        if ns is None: st.dead = True
        else: st.become(ns)

    # ---------------------------------------------------------------- loops
    def ex_ForStmt(self, s, st):
        if s.get("init"): self.ex(s["init"], st)
        if st.dead: return
        def pre(x, it):
            if s.get("var"): self.decl_var(s["var"], x)
            return self.cond(s["cond"], x) if s.get("cond") else z3.BoolVal(True)
        def body(x):
            self.ex(s["body"], x)
        def inc(x):
            if s.get("inc"): self.ev_discard(s["inc"], x)
        if self.loop_invs: self.loop_range = self.counted_range(s, st)
        self.loop(st, pre, body, inc, None, s)
    def counted_range(self, s, st):
        """the list a counting loop (by position or iterator, from its beginning to its end) goes through, else None"""
        def strip(e):
            while e.get("k") in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr") and "sub" in e: e = e["sub"]
            return e
        c = strip(s["cond"]) if s.get("cond") else {}
        if c.get("k") == "UnaryOperator" and c.get("op") == "!": c = strip(c["sub"])
        if c.get("k") == "BinaryOperator" and c["op"] in ("<", "!=", ">"): ab = [c["lhs"], c["rhs"]]
        elif c.get("k") == "CXXOperatorCallExpr" and c.get("op") in ("==", "!=", "<") and len(c["c"]) == 2: ab = c["c"]
        else: return None
        for a, b in (ab, ab[::-1]):
            d = strip(a)
            if d.get("k") != "DeclRefExpr" or d.get("dk") != "Var": continue
            x = st.clone(); self.no_obl += 1; nf = len(self.facts); fpt = dict(self.fp_terms); sinks = self.throw_sinks; self.throw_sinks = [[] for _ in sinks];
            try: va, vb = self.rv(a, x), self.rv(b, x)
            except Unsupported: continue
            finally: self.no_obl -= 1; del self.facts[nf:]; self.fp_terms = fpt; self.throw_sinks = sinks
            zero = lambda t: is_leaf(t) and z3.is_int(t) and z3.is_int_value(z3.simplify(t)) and z3.simplify(t).as_long() == 0
            if isinstance(va, Iter) and isinstance(vb, Iter) and va.kind == vb.kind == "vec" and zero(va.pos): lv = vb.lv; end = vb.pos
            elif is_leaf(vb) and zero(va): end = vb; lv = next((l for t, l in reversed(self.lengths) if t.eq(z3.simplify(vb)) or t.eq(vb)), None)
            else: continue
            if lv is None: continue
            try: v = self.read(st, lv)
            except Unsupported: continue
            if isinstance(v, Vec) and (v.len.eq(end) or z3.simplify(v.len == end).eq(z3.BoolVal(True))): return (lv, v, "counted")
        return None
    def ex_WhileStmt(self, s, st):
        def pre(x, it):
            if s.get("var"): self.decl_var(s["var"], x)
            return self.cond(s["cond"], x)
        self.loop(st, pre, lambda x: self.ex(s["body"], x), lambda x: None, None, s)
    def ex_DoStmt(self, s, st):
        # body; while(cond) body   -- first iteration unrolled
        fr = self.frames[-1]; base = len(st.pc)
        ctl = {"breaks": [], "continues": []}; fr.loops.append(ctl)
        self.ex(s["body"], st)
        fr.loops.pop()
        alts = [(x, None) for x in ctl["continues"]] + ([] if st.dead else [(st.clone(), None)])
        ns, _ = self.merge_states(base, alts)
        if ns is None: st.dead = True
        else:
            st.become(ns)
            self.loop(st, lambda x, it: self.cond(s["cond"], x), lambda x: self.ex(s["body"], x), lambda x: None, None, s)
        if ctl["breaks"]:
            ns, _ = self.merge_states(base, [(b, None) for b in ctl["breaks"]] + ([] if st.dead else [(st.clone(), None)]))
            st.become(ns)
    def ex_CXXForRangeStmt(self, s, st):
        if s.get("init"): self.ex(s["init"], st)
        rng = s["range"]
        clv = self.lv(rng, st)
        if st.dead: return
        cval = self.read(st, clv)
        v = s["loopvar"]
        self.range_loop(st, clv, cval, v, s)
    def range_loop(self, st, clv, cval, v, s):
        if isinstance(cval, Vec):
            n = cval.len
            def bind(x, it): self.bind_loopvar(x, v, clv.ext(("i", it)))
            def pre(x, it):
                bind(x, it); return it < n
        elif isinstance(cval, Map):
            ks = cval.dom.sort().domain()
            n, K = self.enum_map(cval)
            def bind(x, it):
                key = K(it)
                if cval.val is None:
                    lv = self.new_root(x, key, "setkey"); self.bind_loopvar(x, v, lv)
                else: self.bind_loopvar_map(x, v, clv, key)
            def pre(x, it):
                bind(x, it); return it < n
        elif isinstance(cval, Opaque): raise Unsupported("range-for over opaque container " + cval.name)
        else: raise Unsupported("range-for over " + str(type(cval)))
        self.loop_range = (clv, cval); self.loop_keys = K if isinstance(cval, Map) else None     # the order in which the keys of a map are visited
        self.loop(st, pre, lambda x: self.ex(s["body"], x), lambda x: None, n, s)
    def enum_map(self, m):
        ks = m.dom.sort().domain()
        self.nfresh += 1
        doms = [g.sort() for g in self.ctx]
        Kf = z3.Function(f"mapkey!{self.nfresh}", *doms, z3.IntSort(), ks)
        Pf = z3.Function(f"mappos!{self.nfresh}", *doms, ks, z3.IntSort())
        K = lambda i: Kf(*self.ctx_of(doms), i)
        P = lambda k: Pf(*self.ctx_of(doms), k)
        n = self.fresh("mapsize", z3.IntSort())
        i = z3.FreshConst(z3.IntSort(), "i"); k = z3.FreshConst(ks, "k")
        self.fact(n >= 0)
        self.fact(z3.ForAll([i], z3.Implies(And(i >= 0, i < n), And(z3.Select(m.dom, K(i)), P(K(i)) == i)), patterns=[K(i)]))
        self.fact(z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), And(P(k) >= 0, P(k) < n, K(P(k)) == k)), patterns=[P(k), z3.Select(m.dom, k)] if False else [P(k)]))
        self.fact(z3.ForAll([k], z3.Implies(z3.Select(m.dom, k), And(P(k) >= 0, P(k) < n, K(P(k)) == k)), patterns=[z3.Select(m.dom, k)]) if z3.is_const(m.dom) else z3.BoolVal(True))
        return n, K
    def ctx_of(self, doms): return self.ctx[:len(doms)]
    def bind_loopvar(self, x, v, elemlv):
        fr = self.frames[-1]
        if v.get("bindings"):
            w = dict(v); 
            val = self.read(x, elemlv)
            base = elemlv
            if not self.p.is_ref(v["t"]): base = self.new_root(x, val)
            for i, b in enumerate(v["bindings"]):
                if val.name == "pair": sub = base.ext(("f", ["first", "second"][i]))
                else: sub = base.ext(("f", list(val.f)[i]))
                fr.env[b["id"]] = Ref(sub)
                if "hid" in b: fr.env[b["hid"]] = Ref(sub)
            return
        if self.p.is_ref(v["t"]): fr.env[v["id"]] = Ref(elemlv)
        else:
            root = ("v", v["id"], fr.id); x.store[root] = self.read(x, elemlv); fr.env[v["id"]] = root
    def bind_loopvar_map(self, x, v, clv, key):
        fr = self.frames[-1]
        klv = self.new_root(x, key, "mapkey")
        vlv = clv.ext(("k", key))
        if v.get("bindings"):
            if not self.p.is_ref(v["t"]): vlv = self.new_root(x, self.read(x, vlv))
            for b, sub in zip(v["bindings"], (klv, vlv)):
                fr.env[b["id"]] = Ref(sub)
                if "hid" in b: fr.env[b["hid"]] = Ref(sub)
            return
        # pair object view: Rec with Refs
        r = Rec("pair", {"first": Ref(klv), "second": Ref(vlv)})
        lv = self.new_root(x, r, "mapentry")
        fr.env[v["id"]] = Ref(lv)

    # leaf addressing of a root value -------------------------------------------------
    def lpath(self, path):
        out = []
        for el in path:
            if el[0] == "f": out.append(el[1])
            elif el[0] == "o": out.append("!")
            elif el[0] == "i": out.append("[]")
            elif el[0] == "k": out.append("{}")
        return tuple(out)
    def leafmap(self, v, fn, pre=()):
        """rebuild v with fn(path, leaf)"""
        if is_leaf(v): return fn(pre, v)
        if isinstance(v, Rec): return Rec(v.name, {k: self.leafmap(x, fn, pre + (k,)) for k, x in v.f.items()})
        if isinstance(v, Opt): return Opt(fn(pre + ("?",), v.has), self.leafmap(v.val, fn, pre + ("!",)))
        if isinstance(v, Vec): return Vec(fn(pre + ("#",), v.len), self.leafmap(v.elem, fn, pre + ("[]",)))
        if isinstance(v, Map): return Map(fn(pre + ("dom",), v.dom), None if v.val is None else self.leafmap(v.val, fn, pre + ("{}",)))
        if isinstance(v, Iter): return Iter(v.kind, v.lv, fn(pre + ("pos",), v.pos), None if v.end is None else fn(pre + ("end",), v.end))
        return v
    def leafdict(self, v):
        d = {}
        
        def put(p, t):
            d[p] = t; return t
        self.leafmap(v, put)
        return d

    def loop(self, st, pre, body, inc, n, s):
        if self.loop_mode == "unroll": return self.loop_unroll(st, pre, body, inc, n, s)
        import loops
        return loops.run_loop(self, st, pre, body, inc, n, s)
    def loop_unroll(self, st, pre, body, inc, n, s):
        fr = self.frames[-1]; base = len(st.pc); outs = []
        cur = st.clone()
        for i in range(self.unroll + 1):
            c = z3.simplify(pre(cur, z3.IntVal(i)))
            if cur.dead: break
            e = cur.clone(); e.assume(Not(c))
            if not e.dead: outs.append((e, None))
            if i == self.unroll: break
            cur.assume(c)
            if cur.dead: break
            ctl = {"breaks": [], "continues": []}; fr.loops.append(ctl)
            body(cur); fr.loops.pop()
            outs += [(b, None) for b in ctl["breaks"]]
            alts = [(x, None) for x in ctl["continues"]] + ([] if cur.dead else [(cur, None)])
            ns, _ = self.merge_states(base, alts)
            if ns is None: break
            cur = ns; inc(cur)
            if cur.dead: break
        ns, _ = self.merge_states(base, outs)
        if ns is None: st.dead = True
        else: st.become(ns)

    # ---------------------------------------------------------------- expressions: lvalues
    def lv(self, e, st):
        k = e["k"]
        m = getattr(self, "lv_" + k, None)
        if m:
            r = m(e, st)
            if r is not None: return r.lv if isinstance(r, Ref) else r
        # fallback: materialise the rvalue
        v = self.ev(e, st)
        if isinstance(v, Ref): return v.lv
        return self.new_root(st, v)
    def lookup(self, did):
        for fr in reversed(self.frames):
            if did in fr.env: return fr.env[did]
            if fr.fn is not None and not fr.fn.get("lambda") and fr is not self.frames[-1]: break
        for fr in reversed(self.frames):
            if did in fr.env: return fr.env[did]
        return None
    def lv_DeclRefExpr(self, e, st):
        b = self.lookup(e["id"])
        if b is None:
            g = self.p.globals.get(str(e["id"]))
            if g is not None:
                root = ("g", e["id"])
                if root not in st.store: st.store[root] = self.global_value(e["id"], st)
                return LV.one(root)
            if "callee" in e: return self.new_root(st, Fn(("callee", e["callee"])))
            raise Unsupported("unbound variable " + e["name"])
        if isinstance(b, Ref): return b.lv
        if isinstance(b, LV): return b
        return LV.one(b)
    def named(self, v):
        """the same value with a fresh name for every array given by a case distinction (those may not occur in patterns)"""
        cache = self.__dict__.setdefault("_named", {})
        def go(l):
            if not z3.is_array(l) or z3.is_const(l): return l
            t = l
            while z3.is_store(t) or z3.is_select(t): t = t.arg(0)
            if z3.is_const(t): return l
            r = cache.get(l.get_id())
            if r is None or r[2] >= len(self.facts) or self.facts[r[2]] is not r[1]:
                n = self.fresh("named", l.sort()); f = n == l; self.fact(f); r = cache[l.get_id()] = (n, f, len(self.facts) - 1, l)
            return r[0]
        return tmap(go, v)
    def global_value(self, gid, st):
        cache = self.__dict__.setdefault("_gcache", {})
        if gid in cache: return cache[gid]
        g = self.p.globals[str(gid)]
        if g["name"].endswith("::npos") and "basic_string" in g["name"]: v = z3.IntVal((1 << 64) - 1)
        elif "fbits" in g:
            k = self.p.kind(g["t"])
            x = struct.unpack("<d", struct.pack("<Q", int(g["fbits"])))[0]
            v = self.dval(x)
        elif "ival" in g:
            k = self.p.kind(g["t"])
            v = z3.BoolVal(g["ival"] != "0") if k[0] == "bool" else z3.IntVal(int(g["ival"]))
        elif g.get("init") is not None and (g.get("const") or g.get("constexpr") or (g["init"].get("k") == "LambdaExpr" and not g["init"].get("caps"))):   # a closure object cannot be assigned
            fr = Frame(None); self.frames.append(fr)
            save = self.ctx; self.ctx = []
            try: v = self.init_value(g["init"], g["t"], st)
            finally: self.frames.pop(); self.ctx = save
        else:
            save = self.ctx; self.ctx = []
            v = self.symbolic(g["t"], "global:" + g["name"], ctx=False); self.ctx = save
        cache[gid] = v
        return v
    def lv_MemberExpr(self, e, st):
        if "callee" in e: return None
        if e.get("static"): return self.lv_DeclRefExpr({"id": e["id"], "name": e["member"]}, st)
        if e["arrow"]: b = self.deref(self.rv(e["base"], st), self.p.T(e["bt"]).get("to"), st)
        else: b = self.lv(e["base"], st)
        if st.dead: return b if b is not None else LV.one(("dead",))
        # references stored in fields (incl. map entry views)
        alts = []
        for g, r, p in b.alts:
            try: cur = self.get(self.root_value(st, r), p)
            except Unsupported:
                cur = None
            if isinstance(cur, Rec) and e["member"] in cur.f and isinstance(cur.f[e["member"]], Ref):
                for g2, r2, p2 in cur.f[e["member"]].lv.alts: alts.append((And(g, g2) if g is not True or g2 is not True else True, r2, p2))
            else: alts.append((g, r, tuple(p) + (("f", e["member"]),)))
        return LV(alts)
    def deref(self, v, pointee, st):
        """LV of the pointee of pointer value v (static pointee type id)"""
        if isinstance(v, Ptr):
            alts = []
            for g, t in v.alts:
                if t is None: continue     # UB on that guard; obligation left to null-check properties
                if t[0] == "lv":
                    for g2, r, p in t[1].alts: alts.append((And(g, g2) if not (g is True and g2 is True) else True, r, p))
                else:
                    alts += [(And(g, g2) if not (g is True and g2 is True) else True, r, p) for g2, r, p in self.deref(t[2], pointee, st).alts]
            if not alts: raise Unsupported("dereference of null")
            return LV(alts)
        if isinstance(v, Iter):
            if v.kind == "vec": return v.lv.ext(("i", v.pos))
            if v.kind == "str": return self.new_root(st, self.lib.char_at(self, st, v), "char")
            raise Unsupported("deref of map iterator")
        if is_leaf(v) and z3.is_int(v):
            if getattr(self, "addressed", False): raise Unsupported("dereference of a computed address")
            root = self.heap_root(self.heap_key(pointee)); self.heap_types.setdefault(root, self.base_tid(pointee))
            return LV.one(root, (("h", v),))
        if isinstance(v, Opaque): return self.new_root(st, self.symbolic(pointee, "opaque_pointee"))
        raise Unsupported(f"dereference of {v}")
    def base_tid(self, tid):
        k = self.p.kind(tid)
        if k[0] == "rec":
            rc = self.p.root_class(k[1])
            if rc != k[1]:
                for i, t in enumerate(self.p.types):
                    if t and t.get("k") == "record" and t.get("rec") == rc: return i
        return tid
    def lv_CXXThisExpr(self, e, st): return None
    def this_lv(self):
        for fr in reversed(self.frames):
            if fr.this is not None: return fr.this
            if fr.fn is not None and not fr.fn.get("lambda"): break
        raise Unsupported("this")
    def lv_ImplicitCastExpr(self, e, st):
        ck = e["ck"]
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic"): return self.lv(e["sub"], st)
        if ck in ("LValueToRValue",): return None
        if ck == "UserDefinedConversion" or ck == "ConstructorConversion": return self.lv(e["sub"], st) if e["vk"] in ("l", "x") else None
        if ck == "LValueBitCast": return self.lv(e["sub"], st)
        return None
    lv_CXXStaticCastExpr = lv_CStyleCastExpr = lv_CXXFunctionalCastExpr = lv_CXXConstCastExpr = lv_CXXDynamicCastExpr = lv_CXXReinterpretCastExpr = lv_ImplicitCastExpr
    def lv_MaterializeTemporaryExpr(self, e, st):
        if e["sub"].get("vk") in ("l", "x"): return self.lv(e["sub"], st)
        v = self.rv(e["sub"], st)
        return v.lv if isinstance(v, Ref) else self.new_root(st, v)
    def lv_UnaryOperator(self, e, st):
        if e["op"] == "*":
            return self.deref(self.rv(e["sub"], st), self.p.T(e["sub"]["t"]).get("to"), st)
        if e["op"] in ("++", "--") and not e["postfix"]:
            self.incdec(e, st); return self.lv(e["sub"], st)
        return None
    def lv_BinaryOperator(self, e, st):
        if e["op"] == "=":
            r = self.rv(e["rhs"], st)
            l = self.lv(e["lhs"], st)
            self.write(st, l, r)
            return l
        if e["op"] == ",":
            self.ev_discard(e["lhs"], st); return self.lv(e["rhs"], st)
        return None
    def lv_CompoundAssignOperator(self, e, st):
        l = self.lv(e["lhs"], st); r = self.rv(e["rhs"], st)
        old = self.read(st, l)
        op = e["op"][:-1]
        ct = e.get("ct", e["t"])
        a = self.convert(old, e["lhs"]["t"], ct)
        v = self.binop(op, a, r, ct, st, e["lhs"]["t"], e["rhs"]["t"])
        self.write(st, l, self.convert(v, ct, e["lhs"]["t"]))
        return l
    def lv_ConditionalOperator(self, e, st):
        c = z3.simplify(self.cond(e["c"][0], st))
        if st.dead: return LV.one(("dead",))
        if z3.is_true(c): return self.lv(e["c"][1], st)
        if z3.is_false(c): return self.lv(e["c"][2], st)
        base = len(st.pc)
        a, b = st.clone(), st.clone(); a.pc.append(c); b.pc.append(Not(c))
        la = self.lv(e["c"][1], a); lb = self.lv(e["c"][2], b)
        # temporaries created in one branch must survive the merge
        for x, y in ((a, b), (b, a)):
            for r, v in x.store.items():
                if r not in y.store and isinstance(r, tuple) and r[0] == "t": y.store[r] = v
        ns, _ = self.merge_states(base, [(a, None), (b, None)])
        if ns is None: st.dead = True; return LV.one(("dead",))
        if a.dead: st.become(ns); return lb
        if b.dead: st.become(ns); return la
        st.become(ns)
        return LV(merge_lv([(And(c, g), r, p) for g, r, p in la.alts] + [(And(Not(c), g), r, p) for g, r, p in lb.alts]))
    def lv_ArraySubscriptExpr(self, e, st):
        base, idx = e["c"]
        bv = None
        b = base
        while b["k"] == "ImplicitCastExpr" and b["ck"] in ("ArrayToPointerDecay",): b = b["sub"]
        i = self.rv(idx, st)
        if b is not base:
            return self.lv(b, st).ext(("i", i))
        v = self.rv(base, st)
        if isinstance(v, Ptr):
            alts = []
            for g, t in v.alts:
                if t is None: continue
                if t[0] != "lv": raise Unsupported("subscript of heap pointer")
                for g2, r, p in t[1].alts:
                    if p and p[-1][0] == "i": alts.append((And(g, g2), r, p[:-1] + (("i", z3.simplify(p[-1][1] + i)),)))
                    else: raise Unsupported("subscript of non-array pointer")
            return LV(alts)
        raise Unsupported("array subscript")
    def lv_CallExpr(self, e, st):
        r = self.call(e, st)
        if isinstance(r, Ref): return r.lv
        if r is None and st.dead: return LV.one(("dead",))
        return self.new_root(st, r)
    lv_CXXMemberCallExpr = lv_CXXOperatorCallExpr = lv_CallExpr
    def lv_StringLiteral(self, e, st): return self.new_root(st, self.strlit(e.get("v", "")))
    def lv_InitListExpr(self, e, st):
        if len(e["c"]) == 1 and e["vk"] in ("l",): return self.lv(e["c"][0], st)
        return None
    def lv_CXXStdInitializerListExpr(self, e, st): return None
    def lv_OpaqueValueExpr(self, e, st): return self.lv(e["sub"], st)

    # ---------------------------------------------------------------- expressions: rvalues
    def rv(self, e, st, tid=None):
        """value of e (loads lvalues)"""
        if e is None: return None
        if e.get("vk") in ("l", "x") and e["k"] not in ("CXXConstructExpr",):
            l = self.lv(e, st)
            if st.dead: return None
            return self.read(st, l)
        v = self.ev(e, st)
        if isinstance(v, Ref): v = self.read(st, v.lv)
        return v
    def ev(self, e, st):
        if st.dead: return self.dead_value(e)
        m = getattr(self, "ev_" + e["k"], None)
        if m is None: raise Unsupported("expression " + e["k"])
        return m(e, st)
    def dead_value(self, e):
        try: return self.symbolic(e["t"], "dead")
        except Exception: return Opaque("dead")
    def ev_IntegerLiteral(self, e, st): return z3.IntVal(int(e["v"]))
    def ev_CharacterLiteral(self, e, st): return z3.IntVal(int(e["v"]))
    def ev_CXXBoolLiteralExpr(self, e, st): return z3.BoolVal(e["v"])
    def ev_FloatingLiteral(self, e, st):
        x = struct.unpack("<d", struct.pack("<Q", int(e["v"])))[0]
        v = self.dval(x)
        if self.p.kind(e["t"])[0] == "float" and not self.real: v = z3.simplify(z3.fpFPToFP(RNE, v, F32))
        return v
    def ev_StringLiteral(self, e, st): return self.strlit(e.get("v", ""))
    def ev_PredefinedExpr(self, e, st): return self.strlit("__func__")
    def ev_CXXNullPtrLiteralExpr(self, e, st): return z3.IntVal(0)
    def ev_GNUNullExpr(self, e, st): return z3.IntVal(0)
    def ev_UnaryExprOrTypeTraitExpr(self, e, st): return z3.IntVal(int(e["v"]))
    def ev_TypeTraitExpr(self, e, st): return z3.BoolVal(bool(e.get("v")))
    def ev_CXXTypeidExpr(self, e, st): return Opaque("typeid")
    def ev_CXXNoexceptExpr(self, e, st): return z3.BoolVal(True)
    def ev_DeclRefExpr(self, e, st):
        if "v" in e: return z3.IntVal(int(e["v"]))
        if "callee" in e: return Fn(("callee", e["callee"]))
        return self.read(st, self.lv_DeclRefExpr(e, st))
    def ev_CXXThisExpr(self, e, st): return Ptr([(True, ("lv", self.this_lv()))])
    def ev_MemberExpr(self, e, st):
        if "callee" in e: return Fn(("callee", e["callee"]))
        l = self.lv_MemberExpr(e, st)
        return self.read(st, l) if not st.dead else self.dead_value(e)
    def ev_MaterializeTemporaryExpr(self, e, st): return self.rv(e["sub"], st)
    def ev_CXXStdInitializerListExpr(self, e, st): return self.rv(e["sub"], st)
    def ev_OpaqueValueExpr(self, e, st): return self.rv(e["sub"], st)
    def ev_ImplicitCastExpr(self, e, st):
        ck = e["ck"]; sub = e["sub"]
        if ck == "LValueToRValue":
            l = self.lv(sub, st)
            return self.read(st, l) if not st.dead else self.dead_value(e)
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion"): return self.rv(sub, st)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "Dynamic"): 
            v = self.rv(sub, st)
            if ck == "Dynamic":
                ok = self.fresh("dyncast", z3.BoolSort())
                if is_leaf(v): return z3.If(ok, v, z3.IntVal(0))
                if isinstance(v, Ptr): return Ptr([(And(ok, g), t) for g, t in v.alts] + [(Not(ok), None)])
            return v
        if ck == "ArrayToPointerDecay":
            if sub["k"] == "StringLiteral": return self.strlit(sub.get("v", ""))
            if self.p.kind(sub["t"])[0] == "str": return self.rv(sub, st)
            return Ptr([(True, ("lv", self.lv(sub, st).ext(("i", z3.IntVal(0)))))])
        if ck == "FunctionToPointerDecay": return self.rv_fn(sub, st)
        if ck == "BuiltinFnToFnPtr": return self.rv_fn(sub, st)
        if ck in ("NullToPointer",): return z3.IntVal(0)
        if ck == "NullToMemberPointer": return z3.IntVal(0)
        if ck == "ToVoid":
            self.ev_discard(sub, st); return None
        v = self.rv(sub, st)
        if st.dead: return self.dead_value(e)
        if ck in ("PointerToBoolean", "IntegralToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"): return self.to_bool(v)
        return self.convert(v, sub["t"], e["t"], ck)
    def rv_fn(self, sub, st):
        if "callee" in sub: return Fn(("callee", sub["callee"]))
        return self.rv(sub, st)
    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXConstCastExpr = ev_CXXDynamicCastExpr = ev_ImplicitCastExpr
    ev_CXXReinterpretCastExpr = ev_ImplicitCastExpr
    def convert(self, v, ft, tt, ck=None):
        a, b = self.p.kind(ft), self.p.kind(tt)
        if isinstance(v, Opaque): return self.symbolic(tt, "conv") if b[0] != "opaque" else v
        if a[0] == b[0] and a[0] in ("double", "float", "bool"): return v
        if a[0] in ("int", "enum", "bool") and b[0] in ("int", "enum"):
            if z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            bits, signed = b[1], b[2]
            if a[0] == "bool": return v
            ab, asg = a[1], a[2]
            # value preserving?
            if (asg == signed and bits >= ab) or (signed and not asg and bits > ab): return v
            if z3.is_int_value(v):
                x = v.as_long() % (1 << bits)
                if signed and x >= (1 << (bits - 1)): x -= (1 << bits)
                return z3.IntVal(x)
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
            m = v % (1 << bits)
            w = z3.If(m > hi, m - (1 << bits), m) if signed else m
            return z3.If(And(v >= lo, v <= hi), v, w)
        if b[0] == "bool": return self.to_bool(v)
        if a[0] in ("int", "enum", "bool") and b[0] in ("double", "float"):
            if z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if self.real: return z3.ToReal(v)
            if z3.is_int_value(v):
                x = self.dval(float(v.as_long()))
                return x if b[0] == "double" else z3.simplify(z3.fpFPToFP(RNE, x, F32))
            return self.int_to_fp(v, b[0])
        if a[0] in ("double", "float") and b[0] in ("int", "enum"):
            if self.real: raise Unsupported("real to int")
            return self.fp_to_int(v, b)
        if a[0] == "float" and b[0] == "double":
            return v if self.real else z3.fpFPToFP(RNE, v, F64)
        if a[0] == "double" and b[0] == "float":
            return v if self.real else z3.fpFPToFP(RNE, v, F32)
        return v
    def int_to_fp(self, v, k):
        if z3.is_app_of(v, z3.Z3_OP_ITE) and all(z3.is_int_value(x) for x in (v.arg(1), v.arg(2))):
            a, b = self.dval(float(v.arg(1).as_long())), self.dval(float(v.arg(2).as_long()))
            r = z3.If(v.arg(0), a, b)
            return r if k == "double" else z3.fpFPToFP(RNE, r, F32)
        s = F64 if k == "double" else F32
        f = z3.Function("i2d" if k == "double" else "i2f", z3.IntSort(), s)
        r = f(v); zero = z3.FPVal(0.0, s)
        self.fact(And(Not(z3.fpIsNaN(r)), Not(z3.fpIsInf(r)), (v == 0) == z3.fpIsZero(r), (v > 0) == z3.fpLT(zero, r), z3.Implies(v == 0, z3.fpIsPositive(r))))
        return r
    def fp_to_int(self, v, b):
        if z3.is_fp_value(v) and not (v.isNaN() or v.isInf()):
            import fractions
            x = float(eval_fp(v)); 
            return z3.IntVal(int(x))
        f = z3.Function("d2i", v.sort(), z3.IntSort())
        r = f(v); bits, signed = b[1], b[2]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        self.fact(And(r >= lo, r <= hi))
        return r
    def ev_ParenListExpr(self, e, st): return self.rv(e["c"][0], st)
    def ev_ConditionalOperator(self, e, st):
        c = z3.simplify(self.cond(e["c"][0], st))
        if st.dead: return self.dead_value(e)
        if z3.is_true(c): return self.rv(e["c"][1], st)
        if z3.is_false(c): return self.rv(e["c"][2], st)
        base = len(st.pc)
        a, b = st.clone(), st.clone(); a.pc.append(c); b.pc.append(Not(c))
        va = self.rv(e["c"][1], a); vb = self.rv(e["c"][2], b)
        ns, v = self.merge_states(base, [(a, va), (b, vb)])
        if ns is None: st.dead = True; return self.dead_value(e)
        st.become(ns)
        return v
    ev_BinaryConditionalOperator = ev_ConditionalOperator
    def ev_UnaryOperator(self, e, st):
        op = e["op"]
        if op == "&": 
            s = e["sub"]
            if "callee" in s: return Fn(("callee", s["callee"]))
            return Ptr([(True, ("lv", self.lv(s, st)))])
        if op in ("++", "--"):
            old = self.incdec(e, st)
            return old if e["postfix"] else self.read(st, self.lv(e["sub"], st))
        if op == "*":
            if self.p.kind(e["sub"]["t"])[0] == "str":
                it = self.rv(e["sub"], st)
                if st.dead: return self.dead_value(e)
                if isinstance(it, Iter): return self.lib.char_at(self, st, it)
                return self.lib.code_at(self, it, z3.IntVal(0))
            return self.read(st, self.lv_UnaryOperator(e, st))
        v = self.rv(e["sub"], st)
        if st.dead: return self.dead_value(e)
        if op == "!": return Not(self.to_bool(v))
        if op == "-":
            if isinstance(v, z3.FPRef) or z3.is_real(v): return self.fneg(v)
            return z3.simplify(-v)
        if op == "+": return v
        if op == "~":
            k = self.p.kind(e["t"]); return (-v - 1) if k[2] else ((1 << k[1]) - 1 - v)
        if op in ("__extension__",): return v
        raise Unsupported("unary " + op)
    def incdec(self, e, st):
        l = self.lv(e["sub"], st); old = self.read(st, l)
        d = 1 if e["op"] == "++" else -1
        if isinstance(old, Iter): new = Iter(old.kind, old.lv, z3.simplify(old.pos + d), old.end)
        elif isinstance(old, z3.FPRef): new = self.farith("+", old, self.dval(float(d)))
        elif z3.is_real(old): new = old + d
        elif is_leaf(old):
            new = z3.simplify(old + d)
            k = self.p.kind(e["t"])
            if k[0] == "int" and not k[2] and d < 0: new = z3.If(old == 0, z3.IntVal((1 << k[1]) - 1), new)
        elif isinstance(old, Ptr):
            new = Ptr([(g, ("lv", LV([(gg, r, p[:-1] + (("i", z3.simplify(p[-1][1] + d)),)) for gg, r, p in t[1].alts]))) for g, t in old.alts])
        else: raise Unsupported("++ on " + str(type(old)))
        self.write(st, l, new)
        return old
    def ev_BinaryOperator(self, e, st):
        op = e["op"]
        if op == "=": return self.read(st, self.lv_BinaryOperator(e, st))
        if op == ",":
            self.ev_discard(e["lhs"], st); return self.rv(e["rhs"], st)
        if op in ("&&", "||"):
            a = self.cond(e["lhs"], st)
            if st.dead: return z3.BoolVal(False)
            a = z3.simplify(a)
            if op == "&&" and z3.is_false(a): return a
            if op == "||" and z3.is_true(a): return a
            if (op == "&&" and z3.is_true(a)) or (op == "||" and z3.is_false(a)): return self.cond(e["rhs"], st)
            base = len(st.pc)
            x, y = st.clone(), st.clone()
            x.pc.append(a if op == "&&" else Not(a)); y.pc.append(Not(a) if op == "&&" else a)
            b = self.cond(e["rhs"], x)
            if x.dead:
                st.become(y); return z3.BoolVal(op == "||")
            ns, _ = self.merge_states(base, [(x, None), (y, None)])
            st.become(ns)
            return And(a, b) if op == "&&" else Or(a, b)
        a = self.rv(e["lhs"], st); b = self.rv(e["rhs"], st)
        if st.dead: return self.dead_value(e)
        return self.binop(op, a, b, e["t"], st, e["lhs"]["t"], e["rhs"]["t"])
    def ev_CompoundAssignOperator(self, e, st): return self.read(st, self.lv_CompoundAssignOperator(e, st))
    def binop(self, op, a, b, tid, st, lt=None, rt=None):
        if isinstance(a, Opaque) or isinstance(b, Opaque): return self.symbolic(tid, "opaque_op")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ("==", "!="):
                r = ptr_eq(as_ptr(a), as_ptr(b)) if not (is_leaf(a) and z3.is_int_value(a) or is_leaf(b) and z3.is_int_value(b)) else ptr_eq(nullable(a), nullable(b))
                return r if op == "==" else Not(r)
            if op in ("+", "-") and is_leaf(b):
                d = b if op == "+" else -b
                pa = as_ptr(a)
                return Ptr([(g, t if t is None else ("lv", LV([(gg, r, p[:-1] + (("i", z3.simplify(p[-1][1] + d)),)) for gg, r, p in t[1].alts]))) for g, t in pa.alts])
            raise Unsupported("pointer arithmetic " + op)
        if isinstance(a, Iter) or isinstance(b, Iter): return self.lib.iter_binop(self, op, a, b, st)
        fp = isinstance(a, z3.FPRef) or (self.real and (z3.is_real(a) or z3.is_real(b)))
        if fp:
            if op in "+-*/" and len(op) == 1:
                return self.farith(op, a, b)
            if op == "<": return self.flt(a, b)
            if op == ">": return self.flt(b, a)
            if op == "<=": return self.fle(a, b)
            if op == ">=": return self.fle(b, a)
            if op == "==": return self.feq(a, b)
            if op == "!=": return Not(self.feq(a, b))
            raise Unsupported("fp op " + op)
        if z3.is_bool(a) or z3.is_bool(b):
            if op in ("==", "!=", "&", "|", "^") and z3.is_bool(a) and z3.is_bool(b):
                return {"==": a == b, "!=": a != b, "&": And(a, b), "|": Or(a, b), "^": z3.Xor(a, b)}[op]
            if z3.is_bool(a): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if z3.is_bool(b): b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if op == "<=>": raise Unsupported("<=>")
        if op in ("==", "!="):
            if is_leaf(a) and is_leaf(b): r = a == b
            else: r = eq_tree(a, b)
            return r if op == "==" else Not(r)
        if op in ("<", ">", "<=", ">="):
            if a.sort() == Str: 
                r = z3.Function("str_lt", Str, Str, z3.BoolSort()); return r(a, b)
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        k = self.p.kind(tid)
        # bool-typed ints after promotion
        if op in ("|", "&", "^") and k[0] == "int":
            ab, bb = as_bool_int(a), as_bool_int(b)
            if ab is not None and bb is not None:
                return z3.If({"|": Or(ab, bb), "&": And(ab, bb), "^": z3.Xor(ab, bb)}[op], z3.IntVal(1), z3.IntVal(0))
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long(); return z3.IntVal({"|": x | y, "&": x & y, "^": x ^ y}[op])
            r = z3.Function("bit" + op, z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
            if op == "&": self.fact(z3.Implies(And(a >= 0, b >= 0), And(r >= 0, r <= a, r <= b)))
            return r
        if op == "+": r = a + b
        elif op == "-": r = a - b
        elif op == "*": r = a * b
        elif op == "/":
            # C++ truncates toward zero
            r = z3.If(b == 0, self.fresh("divzero", z3.IntSort()), z3.If(a >= 0, a / z3.If(b == 0, z3.IntVal(1), b), -((-a) / z3.If(b == 0, z3.IntVal(1), b))))
            if z3.is_int_value(b) and b.as_long() > 0: r = z3.If(a >= 0, a / b, -((-a) / b))
        elif op == "%":
            q = z3.If(a >= 0, a % z3.If(b == 0, z3.IntVal(1), b), -((-a) % z3.If(b == 0, z3.IntVal(1), b))); r = z3.If(b == 0, self.fresh("modzero", z3.IntSort()), q)
            if z3.is_int_value(b) and b.as_long() > 0: r = z3.If(a >= 0, a % b, -((-a) % b))
        elif op == "<<" and z3.is_int_value(b): r = a * (1 << b.as_long())
        elif op == ">>" and z3.is_int_value(b): r = a / (1 << b.as_long())
        else: raise Unsupported("int op " + op)
        r = z3.simplify(r)
        if k[0] == "int" and not k[2] and op == "-" and not z3.is_int_value(r):
            r = z3.If(r < 0, r + (1 << k[1]), r)
        elif k[0] == "int" and not k[2] and op == "-" and z3.is_int_value(r) and r.as_long() < 0:
            r = z3.IntVal(r.as_long() + (1 << k[1]))
        return r
    def ev_InitListExpr(self, e, st):
        k = self.p.kind(e["t"])
        if k[0] == "rec":
            fl = self.p.records[k[1]]["fields"]
            allf = self.p.fields(k[1])
            cs = list(e["c"]); out = {}
            nb = len(self.p.records[k[1]].get("bases", []))
            for b in range(min(nb, len(cs))):
                bv = self.rv(cs[b], st)
                if isinstance(bv, Rec): out.update(bv.f)
            cs = cs[nb:]
            for i, f in enumerate(fl):
                if i < len(cs):
                    if self.p.is_ref(f["t"]): out[f["name"]] = Ref(self.lv(cs[i], st))
                    else: out[f["name"]] = self.init_value(cs[i], f["t"], st)
                elif f.get("init") is not None: out[f["name"]] = self.init_value(f["init"], f["t"], st)
                else: out[f["name"]] = self.default(f["t"], st)
            for f, t, _ in allf:
                if f not in out: out[f] = self.default(t, st)
            return Rec(k[1], out)
        if k[0] in ("arr", "vec"):
            if k[0] == "arr" and len(e["c"]) == 1 and e["c"][0]["k"] == "InitListExpr" and self.p.kind(e["c"][0]["t"])[0] == "arr" and self.p.T(e["t"])["k"] == "record":
                return self.rv(e["c"][0], st)     # std::array{ {..} }
            et = k[1]
            elem = self.const_elem(self.default(et, st), z3.IntSort()) if k[0] == "arr" else self.symbolic(et, "il", (z3.IntSort(),))
            for i, c in enumerate(e["c"]):
                elem = store_tree(elem, z3.IntVal(i), self.init_value(c, et, st))
            return Vec(z3.IntVal(k[2] if k[0] == "arr" else len(e["c"])), elem)
        if len(e["c"]) == 1: return self.rv(e["c"][0], st)
        if not e["c"]: return self.default(e["t"], st)
        raise Unsupported("init list of " + str(k))
    def ev_ImplicitValueInitExpr(self, e, st): return self.default(e["t"], st)
    def ev_CXXScalarValueInitExpr(self, e, st): return self.default(e["t"], st)
    def ev_CXXTemporaryObjectExpr(self, e, st): return self.ev_CXXConstructExpr(e, st)
    def ev_CXXConstructExpr(self, e, st):
        import lib
        return lib.construct(self, e, st)
    def ev_LambdaExpr(self, e, st):
        env = {}
        for c in e["caps"]:
            if c.get("this"): continue
            if c["byref"]:
                b = self.lookup(c["id"])
                if b is None and c.get("init"): b = Ref(self.lv(c["init"], st))
                env[c["id"]] = b if isinstance(b, Ref) else Ref(LV.one(b))
            else:
                v = self.rv(c["init"], st) if c.get("init") else self.read(st, self.lookup(c["id"]))
                r = self.new_root(st, v, "cap:" + c["name"])
                env[c["id"]] = Ref(r)
        this = None
        if any(c.get("this") for c in e["caps"]): this = self.this_lv()
        return Closure(e, env, this, e.get("op"), self.frames[-1])
    def ev_CXXThrowExpr(self, e, st):
        fr = self.frames[-1]
        if e.get("sub") is None:
            exc = getattr(fr, "exc", None)
            if exc:
                # rethrow: type of the caught exceptions
                types = {x.typ for _, x in exc}
                t = st.clone()
                ty = types.pop() if len(types) == 1 else None
                if len(types) >= 1: ty = "std::exception" if None not in {x.typ for _, x in exc} else None
                self.throw(st, True, Exc(ty))
            else: self.throw(st, True, Exc("std::exception"))
            return None
        t = self.p.T(e["sub"]["t"])
        self.rv(e["sub"], st)
        if st.dead: return None
        self.throw(st, True, Exc(strip_targs(t.get("name", t["s"]))))
        return None
    def ev_CallExpr(self, e, st):
        r = self.call(e, st)
        if isinstance(r, Ref): return self.read(st, r.lv) if not st.dead else self.dead_value(e)
        return r
    ev_CXXMemberCallExpr = ev_CXXOperatorCallExpr = ev_CallExpr
    def ev_CXXNewExpr(self, e, st):
        import lib
        v = self.init_value(e["init"], e["at"], st) if e.get("init") else self.default(e["at"], st)
        return lib.alloc(self, st, e["at"], v)
    def ev_CXXDeleteExpr(self, e, st):
        self.rv(e["sub"], st); return None
    def ev_ExprWithCleanups(self, e, st): return self.rv(e["c"][0], st)

    # ---------------------------------------------------------------- calls
    def call(self, e, st):
        import lib
        return lib.call(self, e, st)
    def apply_fn(self, f, args, st):
        """apply a function value to argument bindings (Ref or values)"""
        if isinstance(f, Closure):
            if f.fid is None or f.fid not in self.p.fns:
                ops = f.expr.get("ops") or []
                ops = [o for o in ops if o in self.p.fns]
                if len(ops) >= 1: fn = self.p.fns[ops[0]]
                else: raise Unsupported("closure body not available")
            else: fn = self.p.fns[f.fid]
            conv = []
            for prm, a in zip(fn["args"], args):
                if not self.p.is_ref(prm["t"]) and isinstance(a, Ref): a = self.read(st, a.lv)
                conv.append(a)
            return self.call_fn(fn, st, this=f.this, args=conv, env=f.env)
        if isinstance(f, Fn):
            if isinstance(f.py, tuple) and f.py[0] == "callee":
                fn = self.p.fns.get(f.py[1]["id"])
                q = strip_targs(f.py[1]["q"])
                if q in self.contracts or fn is None:
                    return self.lib.call_by_info(self, f.py[1], args, st)
                return self.call_fn(fn, st, args=args)
            return f.py(self, st, args)
        raise Unsupported("call of opaque function value")

def strip_neg(x):
    """(y, negated) with x == -y when negated"""
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_FPA_NEG: return x.arg(0), True
    if z3.is_fp_value(x) and not x.isNaN() and x.isNegative(): return z3.simplify(z3.fpNeg(x)), True
    return x, False
def eval_fp(v):
    v = z3.simplify(v)
    return eval(str(z3.simplify(z3.fpToReal(v)).as_fraction()).replace("/", "*1.0/")) if False else float(z3.simplify(z3.fpToReal(v)).as_fraction())

def nullable(v):
    if isinstance(v, Ptr): return v
    if is_leaf(v) and z3.is_int_value(v) and v.as_long() == 0: return Ptr([(True, None)])
    return as_ptr(v)

def as_bool_int(t):
    """z3 term If(c,1,0) -> c"""
    if z3.is_int_value(t):
        if t.as_long() in (0, 1): return z3.BoolVal(t.as_long() == 1)
        return None
    if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)):
        a, b = t.arg(1).as_long(), t.arg(2).as_long()
        if (a, b) == (1, 0): return t.arg(0)
        if (a, b) == (0, 1): return Not(t.arg(0))
    return None
