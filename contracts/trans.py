"""contracts on the transmissions (T01-T03): conversions are decided over the reals, configuration over the handle vectors"""
import z3
import spec, engine as E
from values import *

SIX = ("position", "velocity", "effort", "torque", "force", "absolute_position")
KIND = dict(Simple=("simple.cpp", "transmission_interface::SimpleTransmission", SIX), Differential=("differential.cpp", "transmission_interface::DifferentialTransmission", SIX),
            FourBarLinkage=("four_bar_linkage.cpp", "transmission_interface::FourBarLinkageTransmission", SIX[:3]))
FORWARD_ONLY = ("absolute_position",)      # measured on the actuator side only: never commanded

class Conv:
    def __init__(self, which):
        self.which = which; self.unit, self.cls, self.q = KIND[which]; self.name = which.lower() + "-conversion"
        self.function = self.cls + "::actuator_to_joint, joint_to_actuator"; self.roots = [self.cls + "::actuator_to_joint", self.cls + "::joint_to_actuator"]
    def build(self, prog, t):
        self.t = t
        a2j, j2a = prog.find(self.roots[0]), prog.find(self.roots[1])
        P1, P2, P3 = {"T01"}, {"T02"}, {"T03"}
        simple = self.which == "Simple"; idx = [0] if simple else [0, 1]
        def world(name="T"):
            """a configured transmission over distinct values; returns engine, state, object, pointer terms"""
            en = t.engine(prog, real=True); st = E.State()
            tid = a2j["cls"]
            T = en.symbolic(tid, name); f = dict(T.f)
            # every configured handle refers to its own value: addresses are only dereferenced and compared with null, so distinct constants stand for them
            ptr = {}; valid = {}; n = 0
            for side in ("joint", "actuator"):
                for q in self.q:
                    h = f[f"{side}_{q}_"]
                    for i in idx: n += 1; ptr[side, q, i] = z3.IntVal(n)
                    if simple:
                        v = valid[side, q] = en.fresh(f"{side}_{q}_given", z3.BoolSort())
                        d = dict(h.f); d["value_ptr_"] = z3.If(v, ptr[side, q, 0], z3.IntVal(0)); f[f"{side}_{q}_"] = Rec(h.name, d)
                    else:
                        d = dict(h.elem.f); d["value_ptr_"] = z3.Store(z3.Store(d["value_ptr_"], z3.IntVal(0), ptr[side, q, 0]), z3.IntVal(1), ptr[side, q, 1])
                        f[f"{side}_{q}_"] = Vec(h.len, Rec(h.elem.name, d)); valid[side, q] = h.len == 2
            T = Rec(T.name, f); ref = Ref(en.new_root(st, T, "transmission"))
            on = lambda q: And(valid["joint", q], valid["actuator", q])
            if simple: st.assume(f["reduction_"] != 0)
            else:
                for v in ("actuator_reduction_", "joint_reduction_", "joint_offset_"): st.assume(f[v].len == 2)
                for v in ("actuator_reduction_", "joint_reduction_"):
                    for i in idx: st.assume(z3.Select(f[v].elem, z3.IntVal(i)) != 0)
            return en, st, ref, ptr, on
        def val(en, st, p):
            dbl = next(i for i, ty in enumerate(prog.types) if ty["k"] == "builtin" and ty.get("name") == "double")
            return z3.simplify(en.read(st, en.deref(p, dbl, st)), expand_select_ite=True, expand_select_store=True)
        def run(en, st, ref, fn, P=P3):
            en.call_fn(fn, st, this=ref.lv, args=[])
            for s, x in en.throw_sinks[0]: t.require(P, fn["name"] + ":no-throw", en, s, z3.BoolVal(False))
            en.throw_sinks[0].clear()
        # one direction: frame, quantity separation, linearity, power
        for fn, src, dst in ((a2j, "actuator", "joint"), (j2a, "joint", "actuator")):
            n = fn["name"]
            en, st, ref, ptr, on = world()
            for p in ptr.values(): val(en, st, p)
            pre = st.clone()
            run(en, st, ref, fn)
            t.cover({"T01", "T02", "T03"}, n + ":entry", en, pre, And(*[on(q) for q in self.q])); t.cover({"T01", "T02"}, n + ":return", en, st, And(*[on(q) for q in self.q]))
            x = z3.Int("anywhere"); conv = [q for q in self.q if fn is a2j or q not in FORWARD_ONLY]
            t.require(P2, n + ":writes-only-" + dst + "-values", en, st, z3.Implies(And(x > 0, *[x != ptr[dst, q, i] for q in self.q for i in idx]), val(en, st, x) == val(en, pre, x)))
            for q in self.q: t.require(P2, f"{n}:{q}-kept-when-absent", en, st, z3.Implies(Not(on(q)), And(*[val(en, st, ptr[dst, q, i]) == val(en, pre, ptr[dst, q, i]) for i in idx])))
            J = lambda s, q: [val(en, s, ptr[dst, q, i]) for i in idx]; A = lambda s, q: [val(en, s, ptr[src, q, i]) for i in idx]
            # the same transmission over other values
            s2 = pre.clone(); heap = [r for r in s2.store if isinstance(r, str) and r.startswith("heap:")]
            for r in heap: s2.store[r] = tmap(lambda l: en.fresh("other", l.sort()), s2.store[r])
            pre2 = s2.clone(); run(en, s2, ref, fn)
            both = st.clone()
            for c in s2.pc:
                if not any(c.eq(d) for d in both.pc): both.pc.append(c)
            for q in conv:
                same = And(*[a == b for a, b in zip(A(pre, q), A(pre2, q))])
                t.require(P2, f"{n}:{q}-depends-on-{q}-only", en, both, z3.Implies(And(on(q), same), And(*[a == b for a, b in zip(J(st, q), J(s2, q))])))
            for q in ("position", "absolute_position"):
                if q not in conv: continue
                d = And(*[v == a - b for v, a, b in zip(A(pre, "velocity"), A(pre, q), A(pre2, q))])
                t.require(P2, f"{n}:velocity-is-derivative-of-{q}", en, both, z3.Implies(And(on(q), on("velocity"), d), And(*[v == a - b for v, a, b in zip(J(st, "velocity"), J(st, q), J(s2, q))])))
            for q in ("effort", "torque", "force"):
                if q not in conv: continue
                pj = sum((e * v for e, v in zip(J(st, q), J(st, "velocity"))), z3.RealVal(0)); pa = sum((e * v for e, v in zip(A(pre, q), A(pre, "velocity"))), z3.RealVal(0))
                t.require(P2, f"{n}:{q}-power-conserved", en, st, z3.Implies(And(on(q), on("velocity")), pj == pa))
            t.safety(P3, en)
        # round trips
        for first, second, side in ((a2j, j2a, "actuator"), (j2a, a2j, "joint")):
            en, st, ref, ptr, on = world()
            for p in ptr.values(): val(en, st, p)
            pre = st.clone()
            run(en, st, ref, first); run(en, st, ref, second)
            for q in self.q:
                if q in FORWARD_ONLY and side == "joint": continue
                for i in idx: t.require(P1, f"{side}-{q}{'' if simple else i}-restored", en, st, z3.Implies(on(q), val(en, st, ptr[side, q, i]) == val(en, pre, ptr[side, q, i])))
        t.assume_note("floating-point conversion arithmetic treated as exact real arithmetic")
CONV = {k: Conv(k) for k in KIND}

# ---------------------------------------------------------------- T03: configuration
NS = "transmission_interface::"
def sel(a, i): return z3.Select(a, i)
def hid(h, i): return (sel(h.elem.f["prefix_name_"], i), sel(h.elem.f["interface_name_"], i), sel(h.elem.f["value_ptr_"], i))
def heq(a, b): return And(*[x == y for x, y in zip(a, b)])
def inr(i, n): return And(0 <= i, i < n)
def plain(t): return not (z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT)) and all(plain(c) for c in t.children())
def fa(vs, f, pats):
    return z3.ForAll(vs, f, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats]) if all(all(plain(x) for x in (p if isinstance(p, tuple) else (p,))) for p in pats) else z3.ForAll(vs, f)
def strict_order(en):
    """std::string's operator< is a strict order"""
    if getattr(en, "_strict", False): return
    en._strict = True; lt = z3.Function("str_lt", E.Str, E.Str, z3.BoolSort()); a, b, c = z3.Consts("a b c", E.Str)
    en.fact(z3.ForAll([a, b], z3.Implies(lt(a, b), And(Not(lt(b, a)), a != b)), patterns=[lt(a, b)]))
def ghost(en, n, *s):
    en.nfresh += 1; return z3.Function(f"{n}!{en.nfresh}", *s)

class GetNames(spec.Pure):
    """the distinct prefix names, in ascending order"""
    q = NS + "get_names"; props = ("T03",)
    def ensures(self, en, A, R):
        h = A[0]; ranks = z3.Function("rank_in_names", h.len.sort(), h.elem.f["prefix_name_"].sort(), en.SS, z3.IntSort()); src = z3.Function("source_of_name", h.len.sort(), h.elem.f["prefix_name_"].sort(), en.SS, z3.IntSort())
        rank = lambda s: ranks(h.len, h.elem.f["prefix_name_"], s); P = h.elem.f["prefix_name_"]
        i, j = z3.Ints("i j"); lt = lambda a, b: z3.Function("str_lt", E.Str, E.Str, z3.BoolSort())(a, b)
        W = lambda s: src(h.len, P, s)
        return [(self.props, "size-non-negative", R.len >= 0),
                (self.props, "strictly-ascending", fa([i, j], z3.Implies(And(0 <= i, i < j, j < R.len), lt(sel(R.elem, i), sel(R.elem, j))), [(sel(R.elem, i), sel(R.elem, j))])),
                (self.props, "distinct", fa([i, j], z3.Implies(And(0 <= i, i < j, j < R.len), sel(R.elem, i) != sel(R.elem, j)), [(sel(R.elem, i), sel(R.elem, j))])),
                (self.props, "every-element-is-a-handles-name", fa([j], z3.Implies(inr(j, R.len), And(inr(W(sel(R.elem, j)), h.len), sel(P, W(sel(R.elem, j))) == sel(R.elem, j))), [sel(R.elem, j)])),
                (self.props, "every-handles-name-is-an-element", fa([i], z3.Implies(inr(i, h.len), And(inr(rank(sel(P, i)), R.len), sel(R.elem, rank(sel(P, i))) == sel(P, i))), [sel(P, i)]))]
    def verify(self, prog, t, contracts=()):
        for f in (lambda x: x if isinstance(x, list) else [x])(prog.find(self.q)):
            en = t.engine(prog); st = E.State()
            h = en.symbolic(prog.strip_ref(f["args"][0]["t"]), "handles"); P = h.elem.f["prefix_name_"]
            # ghost: the first handle with a name
            src = z3.Function("source_of_name", z3.IntSort(), P.sort(), en.SS, z3.IntSort()); W = lambda s: src(h.len, P, s); i = z3.Int("i")
            st.assume(fa([i], z3.Implies(inr(i, h.len), And(0 <= W(sel(P, i)), W(sel(P, i)) <= i, sel(P, W(sel(P, i))) == sel(P, i))), [sel(P, i)]))
            def inv(x, it):
                m = [v for r, v in x.store.items() if isinstance(v, Map) and v.val is None]
                if len(m) != 1: raise Unsupported("get_names: the set of names")
                d = m[0].dom; s = z3.Const("s", en.SS)
                return [("contains-names-so-far", fa([i], z3.Implies(inr(i, it), sel(d, sel(P, i))), [sel(P, i)])), ("only-names-so-far", fa([s], z3.Implies(sel(d, s), And(inr(W(s), it), sel(P, W(s)) == s)), [sel(d, s)]))]
            en.loop_invs.append(lambda e, s, stmt, frame, n: inv if n is not None and n.eq(h.len) else None)
            pre = st.clone()
            R = en.call_fn(f, st, args=[Ref(en.new_root(st, h, "handles"))])
            if isinstance(R, Ref): R = en.read(st, R.lv)
            rk = sorted_ranks(en)
            ranks = z3.Function("rank_in_names", z3.IntSort(), P.sort(), en.SS, z3.IntSort()); s = z3.Const("s", en.SS)
            if rk is not None: en.fact(fa([s], ranks(h.len, P, s) == rk(s), [ranks(h.len, P, s)]))
            strict_order(en)
            for props, n, g in self.ensures(en, [h], R): t.require(props, "names:" + n, en, st, g)
            for s_, x in en.throw_sinks[0]: t.require({"T03"}, "names:no-throw", en, s_, z3.BoolVal(False))
            t.safety({"T03"}, en); t.cover({"T03"}, "names:entry", en, pre, h.len > 1); t.cover({"T03"}, "names:return", en, st, R.len > 1)
def sorted_ranks(en):
    """the rank function introduced by the library contract of an ordered set's iteration"""
    n = getattr(en, "last_rank", None)
    return n

class Ordered(spec.Pure):
    """the valid handles of one interface type, grouped by name in the order of names"""
    q = NS + "get_ordered_handles"; props = ("T03",)
    def requires(self, en, A):
        i, j = z3.Ints("i j"); n = A[1]
        return [("names-distinct", fa([i, j], z3.Implies(And(0 <= i, i < j, j < n.len), sel(n.elem, i) != sel(n.elem, j)), [(sel(n.elem, i), sel(n.elem, j))]))]
    def ensures(self, en, A, R):
        h, n, ty = A; P, T_, V = h.elem.f["prefix_name_"], h.elem.f["interface_name_"], h.elem.f["value_ptr_"]; k, l, i, j = z3.Ints("k l i j")
        rank, src = self.ghosts(en, h, n)
        r = lambda k: hid(R, k); pr = sel(R.elem.f["prefix_name_"], k)
        out = [(self.props, "size-non-negative", R.len >= 0),
               (self.props, "handles-valid-and-of-the-type", fa([k], z3.Implies(inr(k, R.len), And(sel(R.elem.f["value_ptr_"], k) != 0, sel(R.elem.f["interface_name_"], k) == ty)), [pr])),
               (self.props, "handles-come-from-the-input", fa([k], z3.Implies(inr(k, R.len), And(inr(src(*r(k)), h.len), heq(hid(h, src(*r(k))), r(k)))), [pr])),
               (self.props, "handles-in-order-of-names", fa([k, l], z3.Implies(And(0 <= k, k <= l, l < R.len), And(0 <= rank(sel(R.elem.f["prefix_name_"], k)), rank(sel(R.elem.f["prefix_name_"], k)) <= rank(sel(R.elem.f["prefix_name_"], l)), rank(sel(R.elem.f["prefix_name_"], l)) < n.len, sel(n.elem, rank(sel(R.elem.f["prefix_name_"], k))) == sel(R.elem.f["prefix_name_"], k))), [(sel(R.elem.f["prefix_name_"], k), sel(R.elem.f["prefix_name_"], l))]))]
        U, hyp = self.unique(en, A)
        out.append((self.props, "one-handle-per-name-gives-all", z3.Implies(hyp, And(R.len == n.len, fa([k], z3.Implies(inr(k, R.len), heq(r(k), hid(h, U(k)))), [pr])))))
        return out
    def ghosts(self, en, h, n):
        P, T_, V = h.elem.f["prefix_name_"], h.elem.f["interface_name_"], h.elem.f["value_ptr_"]
        rk = z3.Function("index_in_names", z3.IntSort(), n.elem.sort(), en.SS, z3.IntSort()); sr = z3.Function("index_of_handle", z3.IntSort(), P.sort(), T_.sort(), V.sort(), en.SS, en.SS, z3.IntSort(), z3.IntSort())
        return (lambda s: rk(n.len, n.elem, s)), (lambda a, b, c: sr(h.len, P, T_, V, a, b, c))
    def unique(self, en, A):
        """hypothesis: for every name j the handle U(j) is the only one of that name and type, and it is valid"""
        h, n, ty = A; P, T_, V = h.elem.f["prefix_name_"], h.elem.f["interface_name_"], h.elem.f["value_ptr_"]; i, j = z3.Ints("i j")
        uf = z3.Function("only_handle_of", z3.IntSort(), P.sort(), T_.sort(), V.sort(), z3.IntSort(), n.elem.sort(), en.SS, z3.IntSort(), z3.IntSort()); U = lambda j: uf(h.len, P, T_, V, n.len, n.elem, ty, j)
        hyp = fa([j], z3.Implies(inr(j, n.len), And(inr(U(j), h.len), sel(P, U(j)) == sel(n.elem, j), sel(T_, U(j)) == ty, sel(V, U(j)) != 0, fa([i], z3.Implies(And(inr(i, h.len), sel(P, i) == sel(n.elem, j), sel(T_, i) == ty), i == U(j)), [sel(P, i)]))), [sel(n.elem, j)])
        return U, hyp
    def verify(self, prog, t, contracts=()):
        for f in (lambda x: x if isinstance(x, list) else [x])(prog.find(self.q)):
          for one in (False, True):
            en = t.engine(prog); st = E.State()
            A = [en.symbolic(prog.strip_ref(a["t"]), a["name"]) for a in f["args"]]; h, n, ty = A
            for _, g in self.requires(en, A): st.assume(g)
            rank, src = self.ghosts(en, h, n); U, hyp = self.unique(en, A); i, j, k, l = z3.Ints("i j k l")
            # ghost functions: the index of a name (names are distinct), an index of a handle with given contents
            st.assume(fa([j], z3.Implies(inr(j, n.len), rank(sel(n.elem, j)) == j), [sel(n.elem, j)]))
            st.assume(fa([i], z3.Implies(inr(i, h.len), And(inr(src(*hid(h, i)), h.len), heq(hid(h, src(*hid(h, i))), hid(h, i)))), [sel(h.elem.f["prefix_name_"], i)]))
            if one: st.assume(hyp)
            outer = [None]
            def result(x):
                vs = [v for r, v in x.store.items() if isinstance(v, Vec) and isinstance(v.elem, Rec) and not v.len.eq(h.len)]
                if len(vs) != 1: raise Unsupported("get_ordered_handles: the result vector")
                return vs[0]
            def common(R, top, below):
                """handles so far: names with index < top, and top itself only when below"""
                pr = sel(R.elem.f["prefix_name_"], k); rk = rank(pr); r = hid(R, k); ql = sel(R.elem.f["prefix_name_"], l)
                lim = rk <= top if below else rk < top
                return [("valid-and-typed", fa([k], z3.Implies(inr(k, R.len), And(r[2] != 0, r[1] == ty)), [pr])), ("from-input", fa([k], z3.Implies(inr(k, R.len), And(inr(src(*r), h.len), heq(hid(h, src(*r)), r))), [pr])),
                        ("names-so-far", fa([k], z3.Implies(inr(k, R.len), And(0 <= rk, lim, rk < n.len, sel(n.elem, rk) == pr)), [pr])), ("ordered", fa([k, l], z3.Implies(And(0 <= k, k <= l, l < R.len), rk <= rank(ql)), [(pr, ql)]))]
            def each(R, m): return fa([k], z3.Implies(inr(k, m), heq(hid(R, k), hid(h, U(k)))), [sel(R.elem.f["prefix_name_"], k)])
            def inv_outer(x, it):
                outer[0] = it; R = result(x)
                return [("size", R.len >= 0)] + (common(R, it, False) if not one else [("one-per-name", And(R.len == it, each(R, it)))])
            def inv_inner(x, it):
                R = result(x); o = outer[0]
                return [("inner-size", R.len >= 0)] + ([("inner-" + a, b) for a, b in common(R, o, True)] if not one else [("inner-one-per-name", And(R.len == o + z3.If(it > U(o), z3.IntVal(1), z3.IntVal(0)), each(R, R.len)))])
            def choose(e, s, stmt, frame, nn):
                if nn is None: return None
                return inv_outer if nn.eq(n.len) else inv_inner if nn.eq(h.len) else None
            en.loop_invs.append(choose)
            pre = st.clone()
            R = en.call_fn(f, st, args=[Ref(en.new_root(st, a, f["args"][q]["name"])) for q, a in enumerate(A)])
            if isinstance(R, Ref): R = en.read(st, R.lv)
            nm = "ordered" + ("-unique:" if one else ":")
            for props, g_, g in self.ensures(en, A, R):
                if (g_ == "one-handle-per-name-gives-all") == one: t.require(props, nm + g_, en, st, g)
            for s_, x in en.throw_sinks[0]: t.require({"T03"}, nm + "no-throw", en, s_, z3.BoolVal(False))
            t.safety({"T03"}, en); t.cover({"T03"}, nm + "entry", en, pre, And(h.len > 1, n.len > 1)); t.cover({"T03"}, nm + "return", en, st, R.len > 1)
class Text(spec.Pure):
    def __init__(self, q): self.q = q
    def handler(self): return lambda en, st, c: en.fresh("text", en.SS)
NAMES, ORDERED = GetNames(), Ordered()
class Helpers:
    name = "transmission-accessors"; function = NS + "get_names, get_ordered_handles"; unit = "differential.cpp"
    roots = [NS + "DifferentialTransmission::configure"]
    def build(self, prog, t): NAMES.verify(prog, t); ORDERED.verify(prog, t)
HELPERS = Helpers()

class Frame_(spec.Pure):
    """text for messages: no effect on the transmission"""
    def __init__(self, q): self.q = q
    def handler(self): return lambda en, st, c: en.fresh("text", en.SS)

class ByInterface(spec.Pure):
    """the first handle of an interface type, or an unset handle when there is none"""
    q = NS + "get_by_interface"; props = ("T03",)
    def requires(self, en, A): return [("handles-given", A[0].len > 0)]
    def ensures(self, en, A, R):
        h, ty = A; w = first_of(en, h, ty); V = h.elem.f["value_ptr_"]
        return [(self.props, "value", R.f["value_ptr_"] == z3.If(w >= 0, sel(V, w), z3.IntVal(0))), (self.props, "name", R.f["prefix_name_"] == sel(h.elem.f["prefix_name_"], z3.If(w >= 0, w, z3.IntVal(0)))), (self.props, "type", R.f["interface_name_"] == ty)]
    def verify(self, prog, t, contracts=()):
        for f in (lambda x: x if isinstance(x, list) else [x])(prog.find(self.q)):
            en = t.engine(prog); st = E.State()
            h, ty = A = [en.symbolic(prog.strip_ref(a["t"]), a["name"]) for a in f["args"]]
            st.assume(h.len > 0); st.assume(first_def(en, h, ty)); pre = st.clone()
            R = en.call_fn(f, st, args=[Ref(en.new_root(st, a, "arg")) for a in A])
            if isinstance(R, Ref): R = en.read(st, R.lv)
            for props, n, g in self.ensures(en, A, R): t.require(props, "by-interface:" + n, en, st, g)
            for s_, x in en.throw_sinks[0]: t.require({"T03"}, "by-interface:no-throw", en, s_, z3.BoolVal(False))
            t.safety({"T03"}, en); t.cover({"T03"}, "by-interface:entry", en, pre, h.len > 1); t.cover({"T03"}, "by-interface:return", en, st)
def first_of(en, h, ty):
    """ghost: the least index of a handle of the type, -1 when there is none"""
    T_ = h.elem.f["interface_name_"]; return z3.Function("first_of_type", z3.IntSort(), T_.sort(), en.SS, z3.IntSort())(h.len, T_, ty)
def first_def(en, h, ty):
    w = first_of(en, h, ty); T_ = h.elem.f["interface_name_"]; i = z3.Int("i")
    return And(w >= -1, w < h.len, z3.Implies(w >= 0, sel(T_, w) == ty), fa([i], z3.Implies(And(inr(i, h.len), sel(T_, i) == ty), And(w >= 0, w <= i)), [sel(T_, i)]))
def all_same(h):
    i = z3.Int("i"); N = h.elem.f["prefix_name_"]
    return fa([i], z3.Implies(inr(i, h.len), sel(N, i) == sel(N, 0)), [sel(N, i)])
class Identical(spec.Pure):
    q = NS + "are_names_identical"; props = ("T03",)
    def requires(self, en, A): return [("handles-given", A[0].len > 0)]
    def ensures(self, en, A, R): return [(self.props, "all-names-equal", R == all_same(A[0]))]
    def verify(self, prog, t, contracts=()):
        for f in (lambda x: x if isinstance(x, list) else [x])(prog.find(self.q)):
            en = t.engine(prog); st = E.State()
            h = en.symbolic(prog.strip_ref(f["args"][0]["t"]), "handles"); st.assume(h.len > 0); pre = st.clone(); k = z3.Int("k")
            def inv(x, it):
                vs = [v for v in x.store.values() if isinstance(v, Vec) and is_leaf(v.elem)]
                if len(vs) != 1: raise Unsupported("are_names_identical: the list of names")
                v = vs[0]; N = h.elem.f["prefix_name_"]
                return [("names-copied", And(v.len == it, fa([k], z3.Implies(inr(k, it), sel(v.elem, k) == sel(N, k)), [sel(v.elem, k)] if not plain(v.elem) else [sel(v.elem, k), sel(N, k)])))]
            en.loop_invs.append(lambda e, s, stmt, frame, n: inv if n is not None and n.eq(h.len) else None)
            R = en.call_fn(f, st, args=[Ref(en.new_root(st, h, "handles"))])
            # induction axiom instance: neighbours with equal names make all names equal
            N = h.elem.f["prefix_name_"]; n = z3.Int("n"); IH = lambda x: sel(N, x) == sel(N, 0)
            en.fact(z3.Implies(fa([n], z3.Implies(And(1 <= n, n < h.len, IH(n - 1)), IH(n)), [sel(N, n)]), all_same(h)))
            t.require({"T03"}, "identical:true-only-if-all-equal", en, st, z3.Implies(R, all_same(h)))
            t.require({"T03"}, "identical:true-if-all-equal", en, st, z3.Implies(all_same(h), R))
            for s_, x in en.throw_sinks[0]: t.require({"T03"}, "identical:no-throw", en, s_, z3.BoolVal(False))
            t.safety({"T03"}, en); t.cover({"T03"}, "identical:entry", en, pre, h.len > 1); t.cover({"T03"}, "identical:return", en, st, R)

class Configure:
    """constructor and configure(): which configurations are accepted, and that whatever was configured only valid handles are kept"""
    def __init__(self, which):
        self.which = which; self.unit, self.cls, self.q = KIND[which]; self.name = which.lower() + "-configure"; self.short = self.cls.split("::")[-1]
        self.function = f"{self.cls}::{self.short}, configure"; self.roots = [self.cls + "::configure", f"{self.cls}::{self.short}"]
    def build(self, prog, t):
        P = {"T03"}; simple = self.which == "Simple"
        conf = prog.find(self.cls + "::configure"); ctor = prog.find(f"{self.cls}::{self.short}", lambda f: f.get("inits") is not None and len(f["args"]) >= 2)
        tid = conf["cls"]
        # ---- constructor
        en = t.engine(prog, real=True); st = E.State()
        ref = Ref(en.new_root(st, en.symbolic(tid, "raw"), "object"))
        A = [en.symbolic(prog.strip_ref(a["t"]), a["name"]) for a in ctor["args"]]
        pre = st.clone()
        en.call_fn(ctor, st, this=ref.lv, args=[Ref(en.new_root(st, a, f"arg{i}")) if prog.is_ref(ctor["args"][i]["t"]) else a for i, a in enumerate(A)])
        if simple: bad = A[0] == 0
        else:
            el = lambda v, i: z3.Select(v.elem, z3.IntVal(i))
            bad = Or(*[v.len != 2 for v in A], *[el(v, i) == 0 for v in A[:2] for i in (0, 1)])
        t.require(P, "constructor:bad-parameters-throw", en, st, Not(bad))
        for s, x in en.throw_sinks[0]: t.require(P, "constructor:throws-only-for-bad-parameters", en, s, bad)
        if not st.dead:
            o = en.read(st, ref.lv).f
            if simple: t.require(P, "constructor:parameters-kept", en, st, And(o["reduction_"] == A[0], o["jnt_offset_"] == A[1]))
            else:
                for f, a in (("actuator_reduction_", A[0]), ("joint_reduction_", A[1]), ("joint_offset_", A[2])):
                    t.require(P, "constructor:" + f + "kept", en, st, And(o[f].len == 2, *[el(o[f], i) == el(a, i) for i in (0, 1)]))
            for side in ("joint", "actuator"):
                for q in self.q:
                    h = o[f"{side}_{q}_"]
                    t.require(P, f"constructor:no-{side}-{q}-yet", en, st, h.f["value_ptr_"] == 0 if simple else h.len == 0)
        t.safety(P, en); t.cover(P, "constructor:entry", en, pre); t.cover(P, "constructor:return", en, st)
        # ---- configure
        en = t.engine(prog, real=True); st = E.State()
        if not simple:
            for c in (GetNames(), Ordered()): en.contracts[c.q] = c.handler()
            strict_order(en); gn = prog.find(NAMES.q); vec_string = (gn[0] if isinstance(gn, list) else gn)["ret"]
        else:
            for c in (ByInterface(), Identical()): en.contracts[c.q] = c.handler()
        for q in (self.cls + "::get_handles_info", NS + "to_string"): en.contracts[q] = Frame_(q).handler()
        T = en.symbolic(tid, "T"); ref = Ref(en.new_root(st, T, "transmission"))
        H = {s: en.symbolic(prog.strip_ref(a["t"]), s + "_handles") for s, a in zip(("joint", "actuator"), conf["args"])}
        lit = lambda q: en.strlit(q)
        i, k = z3.Ints("i k")
        inv = lambda o: And(*[self.kept(en, o[f"{s}_{q}_"], q) for s in H for q in self.q])
        st.assume(inv(T.f))          # class invariant: established by the constructor (no handle yet), kept by every configure below
        if simple:
            first = {(s, q): first_of(en, h, lit(q)) for s, h in H.items() for q in self.q}
            for s, h in H.items():
                for q in self.q: st.assume(first_def(en, h, lit(q)))
            same = {s: all_same(h) for s, h in H.items()}
            usable = {s: Or(*[And(first[s, q] >= 0, sel(h.elem.f["value_ptr_"], first[s, q]) != 0) for q in self.q]) for s, h in H.items()}
            ok = And(*[h.len > 0 for h in H.values()], *same.values(), *usable.values())
        pre = st.clone()
        en.call_fn(conf, st, this=ref.lv, args=[Ref(en.new_root(st, h, s)) for s, h in H.items()])
        thrown = en.throw_sinks[0]
        if simple:
            t.require(P, "configure:accepts-only-usable", en, st, ok)
            for s, x in thrown: t.require(P, "configure:rejects-only-unusable", en, s, Not(ok))
        o = en.read(st, ref.lv).f
        for s, h in H.items():
            t.require(P, f"configure:{s}-handles-given", en, st, h.len > 0)
            if not simple:
                    R = NAMES.apply(en, vec_string, [h]); N, Ty, Va = (h.elem.f[z] for z in ("prefix_name_", "interface_name_", "value_ptr_"))
            for q in self.q:
                v = o[f"{s}_{q}_"]
                if simple:
                    w = first[s, q]
                    t.require(P, f"configure:{s}-{q}-is-the-first-of-its-type", en, st, z3.If(w >= 0, And(v.f["value_ptr_"] == sel(h.elem.f["value_ptr_"], w), v.f["prefix_name_"] == sel(h.elem.f["prefix_name_"], w)), v.f["value_ptr_"] == 0))
                    continue
                x = lambda a: hid(v, a); src = ORDERED.ghosts(en, h, R)[1]
                t.require(P, f"configure:{s}-{q}-only-given-handles", en, st, fa([k], z3.Implies(inr(k, v.len), And(inr(src(*x(k)), h.len), heq(hid(h, src(*x(k))), x(k)))), [sel(v.elem.f["prefix_name_"], k)]))
                if self.which == "Differential": t.require(P, f"configure:{s}-{q}-none-or-two", en, st, Or(v.len == 0, v.len == 2))
            if not simple:
                W = lambda x: z3.Function("source_of_name", z3.IntSort(), N.sort(), en.SS, z3.IntSort())(h.len, N, x)
                na, nb = (W(sel(R.elem, z3.IntVal(x))) for x in (0, 1))
                t.require(P, f"configure:exactly-two-{s}s", en, st, And(inr(na, h.len), inr(nb, h.len), sel(N, na) != sel(N, nb), fa([i], z3.Implies(inr(i, h.len), Or(sel(N, i) == sel(N, na), sel(N, i) == sel(N, nb))), [sel(N, i)])))
                # exactly one valid handle per name: both are kept, ascending by name
                a, b = z3.Ints(f"a_{s} b_{s}"); lt = z3.Function("str_lt", E.Str, E.Str, z3.BoolSort())
                u = st.clone(); u.assume(And(inr(a, h.len), inr(b, h.len), lt(sel(N, a), sel(N, b))))
                u.assume(fa([i], z3.Implies(inr(i, h.len), Or(sel(N, i) == sel(N, a), sel(N, i) == sel(N, b))), [sel(N, i)]))
                nm = And(R.len == 2, sel(R.elem, 0) == sel(N, a), sel(R.elem, 1) == sel(N, b))
                t.require(P, f"configure:{s}-names-in-order", en, u, nm)
                u.assume(nm)
                for q in self.q:
                    v = o[f"{s}_{q}_"]; w = u.clone(); U, hyp = ORDERED.unique(en, [h, R, lit(q)])
                    w.assume(And(*[And(sel(Ty, z) == lit(q), sel(Va, z) != 0) for z in (a, b)], U(z3.IntVal(0)) == a, U(z3.IntVal(1)) == b,
                                 fa([i], z3.Implies(And(inr(i, h.len), sel(Ty, i) == lit(q)), Or(i == a, i == b)), [sel(N, i)])))
                    t.require(P, f"configure:{s}-{q}-one-per-name", en, w, hyp)
                    w.assume(hyp)
                    t.require(P, f"configure:{s}-{q}-pair-in-name-order", en, w, And(v.len == 2, heq(hid(v, z3.IntVal(0)), hid(h, a)), heq(hid(v, z3.IntVal(1)), hid(h, b))))
        if not simple: self.usable(t, P, en, st, thrown, o, H)
        for n, s in [("return", st)] + [(f"throw{j}", s) for j, (s, _) in enumerate(thrown)]:
            oo = en.read(s, ref.lv).f
            for sd in H:
                for q in self.q: t.require(P, f"configure:{n}:{sd}-{q}-handles-usable", en, s, self.kept(en, oo[f"{sd}_{q}_"], q))
            fix = ("reduction_", "jnt_offset_") if simple else ("actuator_reduction_", "joint_reduction_", "joint_offset_")
            t.require(P, f"configure:{n}:parameters-kept", en, s, And(*[eq_tree(oo[f], T.f[f]) for f in fix]))
        t.safety(P, en); t.cover(P, "configure:entry", en, pre, And(*[h.len > 1 for h in H.values()])); t.cover(P, "configure:return", en, st)
    def kept(self, en, h, q):
        """what may be stored: for the simple transmission anything (null means absent), else only valid handles"""
        if self.which == "Simple": return z3.BoolVal(True)
        k = z3.Int("k"); return And(h.len >= 0, fa([k], z3.Implies(inr(k, h.len), sel(h.elem.f["value_ptr_"], k) != 0), [sel(h.elem.f["value_ptr_"], k)]))
    def usable(self, t, P, en, st, thrown, o, H):
        n = {(s, q): o[f"{s}_{q}_"].len for s in H for q in self.q}
        if self.which == "Differential": g = Or(*[And(n["joint", q] == 2, n["actuator", q] == 2) for q in self.q])
        else: g = And(*[Or(*[n[s, q] == 2 for q in self.q]) for s in H], Or(*[n["joint", q] == n["actuator", q] for q in self.q]))
        t.require(P, "configure:some-quantity-convertible" if self.which == "Differential" else "configure:quantities-on-both-sides", en, st, g)
CONF = {k: Configure(k) for k in KIND}
class SimpleHelpers:
    name = "simple-accessors"; function = NS + "get_by_interface, are_names_identical"; unit = "simple.cpp"; roots = [NS + "SimpleTransmission::configure"]
    def build(self, prog, t): ByInterface().verify(prog, t); Identical().verify(prog, t)
SHELPERS = SimpleHelpers()
