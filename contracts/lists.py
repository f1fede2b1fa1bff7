"""contracts on the list, map and text helpers (C01, C03) and on the interface selection (C02)"""
import z3
import spec, engine as E, libstr, lib
from values import *
R2 = "ros2_control::"
ROOTS = ["verif::uses"]; UNIT = "helpers.cpp"
def sel(a, i): return z3.Select(a, i)
def inr(i, n): return And(0 <= i, i < n)
def fa(vs, f, *pats):
    return z3.ForAll(vs, f, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in pats]) if pats else z3.ForAll(vs, f)
i, j, k = z3.Ints("i j k")
def member(c, x):
    """the mathematical definition of membership, for lists and for the keys of maps"""
    if isinstance(c, Map): return sel(c.dom, x)
    return z3.Exists([k], And(inr(k, c.len), sel(c.elem, k) == x))
class Lists:
    name = "lists"; function = R2 + "get_item_iterator, has_item, add_item, add_items, remove_item, has_any_item, has_all_items, is_unique"; unit = UNIT; roots = ROOTS
    def build(self, prog, t):
        P = {"C01"}
        def fns(n):
            fs = prog.find(R2 + n); return fs if isinstance(fs, list) else [fs]
        def start(f):
            en = t.engine(prog); st = E.State()
            A = [en.symbolic(prog.strip_ref(a["t"]), f"{a['name']}{q}") for q, a in enumerate(f["args"])]
            return en, st, A, [Ref(en.new_root(st, a, "arg")) for a in A]
        def tag(f, A): return f["name"] + ("<map>" if isinstance(A[0], Map) else "")
        def done(f, en, st, A, pre):
            n = tag(f, A)
            for s, x in en.throw_sinks[0]: t.require(P, n + ":no-throw", en, s, z3.BoolVal(False))
            t.safety(P, en); t.cover(P, n + ":entry", en, pre, *([A[0].len > 2] if isinstance(A[0], Vec) else [])); t.cover(P, n + ":return", en, st)
        def rd(en, st, r): return en.read(st, r.lv)
        kept = lambda a, b, n: fa([i], z3.Implies(inr(i, n), sel(b.elem, i) == sel(a.elem, i)))
        for f in fns("has_item"):
            en, st, A, R = start(f); pre = st.clone(); n = tag(f, A)
            r = en.call_fn(f, st, args=R)
            t.require(P, n + ":true-only-if-member", en, st, z3.Implies(r, member(A[0], A[1])))
            t.require(P, n + ":true-if-member", en, st, z3.Implies(member(A[0], A[1]), r)); done(f, en, st, A, pre)
        for nm in ("has_any_item", "has_all_items"):
            for f in fns(nm):
                en, st, A, R = start(f); pre = st.clone(); n = tag(f, A)
                r = en.call_fn(f, st, args=R); c, it = A
                if nm == "has_any_item": d = z3.Exists([j], And(inr(j, it.len), member(c, sel(it.elem, j))))
                else: d = z3.ForAll([j], z3.Implies(inr(j, it.len), member(c, sel(it.elem, j))))
                t.require(P, n + ":true-only-if", en, st, z3.Implies(r, d)); t.require(P, n + ":true-if", en, st, z3.Implies(d, r)); done(f, en, st, A, pre)
        for f in fns("add_item"):
            en, st, A, R = start(f); pre = st.clone(); v, x = A
            en.call_fn(f, st, args=R); w = rd(en, st, R[0])
            t.require(P, "add_item:keeps-the-elements-and-their-order", en, st, And(w.len >= v.len, kept(v, w, v.len)))
            t.require(P, "add_item:unchanged-if-present", en, st, z3.Implies(member(v, x), w.len == v.len))
            t.require(P, "add_item:appended-once-if-absent", en, st, z3.Implies(Not(member(v, x)), And(w.len == v.len + 1, sel(w.elem, v.len) == x))); done(f, en, st, A, pre)
        for f in fns("add_items"):
            en, st, A, R = start(f); v, its = A
            def inv(x, n):
                w = rd(en, x, R[0]); src = z3.Function("source", z3.IntSort(), z3.IntSort())
                return [("longer", w.len >= v.len), ("elements-kept", kept(v, w, v.len)), ("items-so-far-present", fa([j], z3.Implies(inr(j, n), member(w, sel(its.elem, j))))),
                        ("only-items-added", fa([i], z3.Implies(And(v.len <= i, i < w.len), z3.Exists([j], And(inr(j, n), sel(its.elem, j) == sel(w.elem, i)))))),
                        ("added-once", fa([i, j], z3.Implies(And(v.len <= j, 0 <= i, i < j, j < w.len), sel(w.elem, i) != sel(w.elem, j))))]
            en.loop_invs.append(lambda e, s, stmt, frame, n: inv if n is not None and n.eq(its.len) else None)
            pre = st.clone(); en.call_fn(f, st, args=R)
            for n, g in inv(st, its.len): t.require(P, "add_items:" + n, en, st, g)
            done(f, en, st, A, pre)
        for f in fns("remove_item"):
            en, st, A, R = start(f); pre = st.clone(); v, x = A
            r = en.call_fn(f, st, args=R); w = rd(en, st, R[0])
            t.require(P, "remove_item:reports-presence", en, st, z3.Implies(r, member(v, x))); t.require(P, "remove_item:reports-absence", en, st, z3.Implies(Not(r), Not(member(v, x))))
            t.require(P, "remove_item:unchanged-if-absent", en, st, z3.Implies(Not(r), And(w.len == v.len, kept(v, w, v.len))))
            t.require(P, "remove_item:exactly-one-occurrence-removed", en, st, z3.Implies(r, And(w.len == v.len - 1, z3.Exists([k], And(inr(k, v.len), sel(v.elem, k) == x, fa([i], z3.Implies(inr(i, w.len), sel(w.elem, i) == sel(v.elem, z3.If(i < k, i, i + 1)))))))))
            done(f, en, st, A, pre)
        for f in fns("is_unique"):
            en, st, A, R = start(f); pre = st.clone(); v = A[0]
            if prog.is_ref(f["args"][0]["t"]): a = R
            else: a = [A[0]]
            r = en.call_fn(f, st, args=a)
            d = fa([i, j], z3.Implies(And(0 <= i, i < j, j < v.len), sel(v.elem, i) != sel(v.elem, j)))
            t.require(P, "is_unique:true-only-if", en, st, z3.Implies(r, d)); t.require(P, "is_unique:true-if", en, st, z3.Implies(d, r))
            done(f, en, st, A, pre)
S = z3.StringSort()
class Text:
    name = "text"; function = "controller_interface::resolve_tf_prefix, " + R2 + "strip"; unit = UNIT; roots = ROOTS
    def build(self, prog, t):
        P = {"C03"}
        def start(n, *names):
            f = prog.find(n); en = t.engine(prog, strmode="seq"); st = E.State(); A = [z3.Const(x, S) for x in names]
            for a in A: st.assume(z3.Length(a) < 1 << 62)
            pre = st.clone(); R = en.call_fn(f, st, args=[Ref(en.new_root(st, a, "arg")) for a in A])
            if isinstance(R, Ref): R = en.read(st, R.lv)
            for s, x in en.throw_sinks[0]: t.require(P, f["name"] + ":no-throw", en, s, z3.BoolVal(False))
            t.safety(P, en); t.cover(P, f["name"] + ":entry", en, pre); t.cover(P, f["name"] + ":return", en, st)
            return en, st, A, R
        en, st, (p, ns), R = start("controller_interface::resolve_tf_prefix", "prefix", "node_ns")
        sl, e = z3.StringVal("/"), z3.StringVal("")
        at = lib.index_of(en, p, z3.StringVal("~"), z3.IntVal(0)); n = z3.Length(p); sub = lambda x, a, l: z3.SubString(x, a, l); ch = lambda x, q: z3.StrToCode(sub(x, q, 1))
        q = z3.If(at >= 0, z3.Concat(sub(p, 0, at), ns, sub(p, at + 1, n - at - 1)), p)          # the first tilde stands for the namespace
        def norm(q):
            r = z3.If(And(z3.Length(q) > 0, ch(q, z3.Length(q) - 1) == 47), q, z3.Concat(q, sl))     # a slash at the end
            return z3.If(ch(r, 0) == 47, sub(r, 1, z3.Length(r) - 1), r)                            # one slash at the start is dropped
        w = norm(q)
        t.require(P, "resolve_tf_prefix:empty-stays-empty", en, st, z3.Implies(p == e, R == e))
        t.require(P, "resolve_tf_prefix:tilde-and-slashes-only", en, st, z3.Implies(p != e, R == w), cases=[And(a, b) for a in (at >= 0, at < 0) for b in (ch(q, z3.Length(q) - 1) == 47, ch(q, z3.Length(q) - 1) != 47)])
        # the result is norm(q) (or empty) by the two obligations above: the last one is a lemma about every text
        Q = z3.Const("any_text", S); W = norm(Q); t.require(P, "resolve_tf_prefix:empty-or-ends-with-slash", en, E.State(), Or(W == e, ch(W, z3.Length(W) - 1) == 47), cases=[ch(Q, z3.Length(Q) - 1) == 47, ch(Q, z3.Length(Q) - 1) != 47])
        en, st, (s,), R = start(R2 + "strip", "text")
        ws = z3.StringVal(" \t\n\r\f\v")
        a, C, mem = libstr.outside(en, s, ws, False); b, _, _ = libstr.outside(en, s, ws, True)
        blank = z3.InRe(s, C)
        t.require(P, "strip:blank-becomes-empty", en, st, z3.Implies(blank, R == e))
        t.require(P, "strip:from-first-to-last-character-that-is-not-white", en, st, z3.Implies(Not(blank), R == z3.SubString(s, a, b - a + 1)))
LISTS, TEXT = Lists(), Text()
# ---------------------------------------------------------------- C02
HW = "hardware_interface::"
class Ordered:
    name = "ordered-interfaces"; unit = "ordered.cpp"; roots = ["verif::uses"]
    function = "controller_interface::get_ordered_interfaces<LoanedStateInterface|LoanedCommandInterface>, interface_list_contains_interface_type"
    def build(self, prog, t):
        P = {"C02"}; fs = prog.find("controller_interface::get_ordered_interfaces"); seen = set()
        for f in (fs if isinstance(fs, list) else [fs]):
            en = t.engine(prog); st = E.State(); F = z3.Function
            ty = prog.kind(prog.kind(prog.strip_ref(f["args"][0]["t"]))[1])[1]; tag = ty.split("::")[-1]; seen.add(tag)
            txt = {g: F(g, z3.IntSort(), E.Str) for g in ("get_name", "get_prefix_name", "get_interface_name")}
            def accessor(g):
                def h(e, s, c):
                    p = c.obj.alts[0][2]
                    if len(c.obj.alts) != 1 or not p or p[-1][0] != "i": raise Unsupported("interface not taken from the list")
                    return txt[g](p[-1][1])
                return h
            for g in txt: en.contracts[ty + "::" + g] = accessor(g)
            A = [en.symbolic(prog.strip_ref(a["t"]), a["name"]) for a in f["args"]]; un, names, typ, out = A
            R = [Ref(en.new_root(st, a, "unordered" if q == 0 else "arg")) for q, a in enumerate(A)]
            full = lambda n: lib.concat(en, lib.concat(en, n, en.strlit("/")), typ)
            cat = F("str_concat", E.Str, E.Str, E.Str)
            x, l = z3.Ints("x l"); nm = lambda a: sel(names.elem, a)
            def match(a, b):
                """interface b is the one meant by name a"""
                fn = F("full_name", z3.IntSort(), E.Str)
                return z3.If(typ == en.strlit(""), nm(a) == txt["get_name"](b), Or(And(nm(a) == txt["get_prefix_name"](b), typ == txt["get_interface_name"](b)), full(nm(a)) == txt["get_name"](b)))
            # requires: nothing selected yet; a name means at most one interface (full names are unique)
            st.assume(out.len == 0)
            has, m, c = F("found", z3.IntSort(), z3.BoolSort()), F("meant", z3.IntSort(), z3.IntSort()), F("count_found", z3.IntSort(), z3.IntSort())
            en.fact(fa([x], z3.Implies(inr(x, names.len), z3.If(has(x), And(inr(m(x), un.len), match(x, m(x))), m(x) == -1)), m(x)))
            en.fact(z3.ForAll([x, l], z3.Implies(And(inr(x, names.len), inr(l, un.len), match(x, l)), And(has(x), l == m(x)))))
            en.fact(c(0) == 0); en.fact(fa([x], z3.Implies(x >= 0, And(c(x + 1) == c(x) + z3.If(has(x), 1, 0), c(x) >= 0)), c(x)))
            # induction: at most one interface per name, and all names were found if as many interfaces as names were
            D = lambda b: And(c(b) <= b, z3.Implies(c(b) == b, fa([x], z3.Implies(inr(x, b), has(x)), has(x))))
            b = z3.Int("b"); en.fact(z3.Implies(And(D(z3.IntVal(0)), fa([b], z3.Implies(And(b >= 0, D(b)), D(b + 1)))), D(names.len)))
            mono = lambda b: fa([x], z3.Implies(inr(x, b), c(x) <= c(b)), c(x))
            addr = lambda b: F("address_of_" + str(R[0].lv.alts[0][1]) + "_i", z3.IntSort(), z3.IntSort())(b)
            def rel(w, n): return [("as-many-as-found", w.len == c(n)), ("in-the-order-of-the-names", fa([x], z3.Implies(And(inr(x, n), has(x)), And(c(x) < c(n), sel(w.elem, c(x)) == addr(m(x)))), m(x)))]
            outer = {}
            def inv_outer(s, n):
                outer["n"] = n; return rel(en.read(s, R[3].lv), n)
            def inv_inner(s, n):
                w = en.read(s, R[3].lv); it = outer["n"]; hit = And(has(it), m(it) < n)
                return [("selected-so-far", w.len == c(it) + z3.If(hit, 1, 0)), ("earlier-kept", rel(w, it)[1][1]), ("selected-interface", z3.Implies(hit, sel(w.elem, c(it)) == addr(m(it))))]
            def choose(e, s, stmt, frame, n):
                if n is None: return None
                return inv_outer if n.eq(names.len) else inv_inner if n.eq(un.len) else None
            en.loop_invs.append(choose)
            pre = st.clone(); r = en.call_fn(f, st, args=R)
            w = en.read(st, R[3].lv)
            for n, g in rel(w, names.len): t.require(P, f"{tag}:{n}", en, st, g)
            every = fa([x], z3.Implies(inr(x, names.len), has(x)), has(x))
            t.require(P, f"{tag}:success-only-if-every-name-found", en, st, z3.Implies(r, every))
            t.require(P, f"{tag}:success-if-every-name-found", en, st, z3.Implies(And(every, c(names.len) == names.len), r))
            un1 = en.read(st, R[0].lv)
            for (p, a), (_, b_) in zip(sorted(en.leafdict(un1).items()), sorted(en.leafdict(un).items())): t.require(P, f"{tag}:interfaces-untouched:{'.'.join(map(str, p))}", en, st, a == b_)
            for s, e in en.throw_sinks[0]: t.require(P, f"{tag}:throws-range_error", en, s, z3.BoolVal(e.typ == "std::range_error"))
            t.safety(P, en); t.cover(P, f"{tag}:entry", en, pre, And(names.len == 1, un.len == 1)); t.cover(P, f"{tag}:return", en, st, r)
        if len(seen) != 2: raise Unsupported("instances of get_ordered_interfaces")
        f = prog.find("controller_interface::interface_list_contains_interface_type"); en = t.engine(prog); st = E.State()
        A = [en.symbolic(prog.strip_ref(a["t"]), a["name"]) for a in f["args"]]; r = en.call_fn(f, st, args=[Ref(en.new_root(st, a, "arg")) for a in A])
        t.require(P, "contains-type:only-if", en, st, z3.Implies(r, member(*A))); t.require(P, "contains-type:if", en, st, z3.Implies(member(*A), r)); t.safety(P, en)
ORDERED = Ordered()
