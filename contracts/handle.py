"""contracts on interface handles (H01, H02) and on the loaned interfaces (H03)"""
import z3
import engine as E, lib
from values import *
HI = "hardware_interface::"; UNIT = "handle.cpp"; ROOTS = ["verif::uses", HI + "LoanedCommandInterface::~LoanedCommandInterface", HI + "LoanedStateInterface::~LoanedStateInterface"]
# the C++ type of every alternative, in the order of HandleDataType (variant index = data type + 1)
TYPES = ["double", "float", "bool", "unsigned char", "signed char", "unsigned short", "short", "unsigned int", "int"]
NAMES = ["double", "float32", "bool", "uint8", "int8", "uint16", "int16", "uint32", "int32"]
def inst(prog, q, *args):
    fs = prog.find(q); fs = fs if isinstance(fs, list) else [fs]
    return {prog.T(f["targs"][0]["ty"])["s"]: f for f in fs if f.get("targs") and len(f["args"]) == len(args) and all(a == prog.T(x["t"])["s"] if a == "bool" else a in prog.T(x["t"])["s"] for a, x in zip(args, f["args"]))}
class H:
    """a symbolic handle: its own value, a legacy external double, or none"""
    def __init__(self, en, st, prog, tid, name, ext=None):
        v = en.symbolic(tid, name); self.en, self.tid = en, tid
        self.lv = en.new_root(st, v, name); self.root = self.lv.alts[0][1]
        self.ext = ext or en.new_root(st, en.symbolic_double(name + "_external"), name + "_external")
        self.has_ext = en.fresh(name + "_has_external", z3.BoolSort()); i, d = self.idx(st), self.dt(st)
        own = self.lv.ext(("f", "value_"), ("f", "v1"))
        f = dict(v.f); f["value_ptr_"] = Ptr([(i == 1, ("lv", own)), (And(i == 0, self.has_ext), ("lv", self.ext)), (And(i != 1, Not(And(i == 0, self.has_ext))), None)])
        st.store[self.root] = Rec(v.name, f); st.assume(self.inv(st))
        self.name0 = dict(f)
    @classmethod
    def at(cls, en, lv, tid, ext):
        h = cls.__new__(cls); h.en, h.tid, h.lv, h.root, h.ext = en, tid, lv, lv.alts[0][1], ext; return h
    def rec(self, st): return st.store[self.root]
    def idx(self, st): return self.rec(st).f["value_"].f["index"]
    def dt(self, st): return self.rec(st).f["data_type_"].f["value_"]
    def alt(self, st, n): return self.rec(st).f["value_"].f[f"v{n + 1}"]
    def ptr(self, st): return as_ptr(self.rec(st).f["value_ptr_"])
    def valid(self, st): return Not(ptr_eq(self.ptr(st), Ptr([(True, None)])))
    def inv(self, st):
        """the class invariant: the stored alternative is the one of the data type, or nothing is stored in a handle without own value"""
        i, d = self.idx(st), self.dt(st)
        return And(d >= 0, d <= 8, Or(i == d + 1, And(i == 0, d == 0)))
    def ptr_inv(self, st, shared=()):
        """value_ptr_ is this handle's own double if it stores one, and otherwise null or an external double"""
        out = []; i = self.idx(st)
        for g, t in self.ptr(st).alts:
            if t is None: out.append(z3.Implies(g, i != 1) if g is not True else i != 1); continue
            if t[0] == "id": out.append(z3.Implies(g, And(t[2] == 0, i != 1)) if g is not True else And(t[2] == 0, i != 1)); continue
            for g2, r, p in t[1].alts:
                own = r == self.root and p == (("f", "value_"), ("f", "v1"))
                ok = i == 1 if own else And(i == 0, z3.BoolVal(any(r == x.alts[0][1] and p == x.alts[0][2] for x in shared)))
                out.append(z3.Implies(And(g, g2), ok))
        return And(*out)
    def number(self, st):
        """what the pointer refers to"""
        out = self.en.dval(0.0)
        for g, t in self.ptr(st).alts:
            if t is not None: out = Ite(g, self.en.read(st, t[1]), out)
        return out
    def same(self, en, a, b, but=()):
        out = []
        for k, x in self.rec(a).f.items():
            if k in but or k in ("handle_mutex_",): continue
            y = self.rec(b).f[k]
            out.append(ptr_eq(as_ptr(x), as_ptr(y)) if k == "value_ptr_" else eq_tree(x, y))
        return And(*out)
def sym_double(self, n): return self.fresh(n, self.DS)
E.Engine.symbolic_double = sym_double
def same_alt(h, a, b):
    """the stored alternative and the external double are the same in both states"""
    return And(h.idx(a) == h.idx(b), *[z3.Implies(h.idx(a) == n + 1, h.alt(a, n) == h.alt(b, n)) for n in range(9)], h.en.read(a, h.ext) == h.en.read(b, h.ext))
IDENT = ("prefix_name_", "interface_name_", "handle_name_", "data_type_")
def ident(a, b): return And(*[eq_tree(a.f[k], b.f[k]) for k in IDENT])
class Access:
    """reading and writing through a handle, for every type"""
    name = "handle-access"; unit = UNIT; roots = ROOTS; function = HI + "Handle::get_optional, get_value, set_value <every type>, CommandInterface::set_limited_value"
    def build(self, prog, t):
        P = {"H01"}; n = 0
        lock, ul = "std::shared_lock<std::shared_mutex> &", "std::unique_lock<std::shared_mutex> &"
        F = [("get", inst(prog, HI + "Handle::get_optional"), "try", ()), ("get", inst(prog, HI + "Handle::get_optional", lock), "given", ("lock",)), ("read", inst(prog, HI + "Handle::get_value", "&", "bool"), "wait", ("v", "wait")),
             ("set", inst(prog, HI + "Handle::set_value", "const"), "try", ("v",)), ("set", inst(prog, HI + "Handle::set_value", "const", "bool"), "wait", ("v", "wait")), ("set", inst(prog, HI + "Handle::set_value", ul, "const"), "given", ("lock", "v")),
             ("set", inst(prog, HI + "CommandInterface::set_limited_value", "const"), "limited", ("v",))]
        for op, fns, how, params in F:
            if set(fns) != set(TYPES): raise Unsupported(f"instances of {op}/{how}: {sorted(fns)}")
            for ti, T in enumerate(TYPES): self.one(prog, t, P, op, how, params, fns[T], ti, T)
    def one(self, prog, t, P, op, how, params, f, ti, T):
        en = t.engine(prog); st = E.State(); tag = f"{f['name']}<{T}>/{how}"
        h = H(en, st, prog, f["cls"], "handle"); mutex = h.lv.ext(("f", "handle_mutex_"))
        A = {}; args = []
        for p, prm in zip(params, f["args"]):
            A[p] = en.symbolic(prog.strip_ref(prm["t"]), p); l = en.new_root(st, A[p], p)
            args.append(Ref(l) if prog.is_ref(prm["t"]) else A[p]); A[p + "@"] = l
            if p == "lock": en.lock_log.append((A[p], [mutex], prog.T(prog.strip_ref(prm["t"]))["name"].split("::")[-1], "given"))
        en.contracts["get_type_name"] = lambda e, s, c: e.fresh("type_name", E.Str)
        lim = z3.Function("limit", E.F64, E.F64); flag = z3.Function("limit_flag", E.F64, z3.BoolSort())
        def limiter(e, s, c): e.write(s, c.lv(1), flag(c.val(0))); return lim(c.val(0))
        en.contracts["call:std::function"] = limiter
        def held(s, root, path):
            guarded = (root == h.root and path and path[0] == ("f", "value_")) or root == h.ext.alts[0][1]
            if not guarded: return
            ok = [term for term, mx, cls, _ in en.lock_log if cls in ("unique_lock", "lock_guard", "scoped_lock") and any(z3.is_true(z3.simplify(lv_same(m, mutex))) for m in mx) and any(is_leaf(v) and v.eq(term) for v in s.store.values())]
            en.oblige("value-written-under-the-exclusive-lock", s, Or(*ok), "safety")
        en.write_hook = lambda e, s, r, p: held(s, r, p)
        pre = st.clone(); R = en.call_fn(f, st, this=h.lv, args=args)
        # the lock attempts made on this handle's mutex
        own = lambda how_: Or(*[term for term, mx, cls, hw in en.lock_log if hw in how_ and any(z3.is_true(z3.simplify(lv_same(m, mutex))) for m in mx)])
        acq = own(("given",)) if how == "given" else z3.If(A["wait"], own(("block",)), own(("try",))) if how == "wait" else own(("try",))
        ptr0 = h.valid(pre)
        v = A.get("v")
        want = h.alt(pre, ti)
        if op == "set":
            match = ptr0 if ti == 0 else h.idx(pre) == ti + 1
            ok = R
            t.require(P, tag + ":failure-leaves-the-value", en, st, z3.Implies(Not(ok), same_alt(h, pre, st)))
            w = lim(v) if how == "limited" and ti == 0 else v
            got = h.number(st) if ti == 0 else h.alt(st, ti)
            t.require(P, tag + ":success-stores-the-value", en, st, z3.Implies(ok, And(match, got == w, h.idx(st) == h.idx(pre))))
            if ti == 0: t.require(P, tag + ":own-or-external", en, st, z3.Implies(ok, And(z3.Implies(h.idx(pre) == 1, en.read(st, h.ext) == en.read(pre, h.ext)), z3.Implies(h.idx(pre) != 1, And(h.idx(st) == h.idx(pre))))))
            else: t.require(P, tag + ":external-untouched", en, st, en.read(st, h.ext) == en.read(pre, h.ext))
            t.require(P, tag + ":succeeds-exactly-with-the-lock", en, st, ok == acq)
            t.require(P, tag + ":rest-unchanged", en, st, h.same(en, pre, st, but=("value_", "notified_", "is_command_limited_")))
            if how == "limited" and ti == 0: t.require(P, tag + ":reports-limiting", en, st, z3.Implies(ok, h.rec(st).f["is_command_limited_"] == flag(v)))
        else:
            isb = h.dt(pre) == 2
            match = Or(And(h.dt(pre) == 0, ptr0), isb) if ti == 0 else h.idx(pre) == ti + 1
            val = z3.If(isb, z3.If(h.alt(pre, 2), en.dval(1.0), en.dval(0.0)), h.number(pre)) if ti == 0 else want
            if op == "get": ok, got = R.has, R.val
            else: ok, got = R, en.read(st, A["v@"]); t.require(P, tag + ":nothing-read-without-success", en, st, z3.Implies(Not(ok), got == v))
            t.require(P, tag + ":reads-the-stored-value", en, st, z3.Implies(ok, And(match, got == val)))
            t.require(P, tag + ":succeeds-exactly-with-the-lock", en, st, ok == acq)
            t.require(P, tag + ":handle-unchanged", en, st, And(h.same(en, pre, st, but=("notified_",)), en.read(st, h.ext) == en.read(pre, h.ext)))
        if how == "wait": t.require(P, tag + ":waiting-succeeds", en, st, z3.Implies(A["wait"], R))
        for s, x in en.throw_sinks[0]:
            t.require(P, tag + ":refusal-is-a-runtime-error", en, s, z3.BoolVal(x.typ == "std::runtime_error"))
            t.require(P, tag + ":refused-only-on-mismatch", en, s, And(acq, Not(match)))
            t.require(P, tag + ":refusal-changes-nothing", en, s, And(same_alt(h, pre, s), h.same(en, pre, s, but=("value_", "notified_", "is_command_limited_"))))
            if op == "read": t.require(P, tag + ":refusal-reads-nothing", en, s, en.read(s, A["v@"]) == v)
        t.safety(P, en); t.cover(P, tag + ":entry", en, pre); t.cover(P, tag + ":return", en, st, ok)
ACCESS = Access()

class Copies:
    """copying, moving and assigning handles"""
    name = "handle-copies"; unit = UNIT; roots = ROOTS; function = HI + "Handle copy and move construction and assignment, copy, swap; StateInterface and CommandInterface copy and move construction"
    def build(self, prog, t):
        P = {"H02"}; done = set()
        def one(f, op, alias, cls):
            en = t.engine(prog); st = E.State(); tag = f"{cls}:{op}" + (":self" if alias else "")
            en.contracts["call:std::function"] = lambda e, s, c: None
            src = H(en, st, prog, f["cls"], "source")
            if op.endswith("assign"): dst = src if alias else H(en, st, prog, f["cls"], "target", ext=src.ext)
            else: dst = H.at(en, en.new_root(st, lib.raw_object(en, f["cls"], st), "target"), f["cls"], src.ext)
            mx = {h.root: h.lv.ext(("f", "handle_mutex_")) for h in (src, dst)}
            held = lambda s, h, cls_: Or(*[term for term, ms, c_, how in en.lock_log if c_ in cls_ and any(z3.is_true(z3.simplify(lv_same(m, mx[h.root]))) for m in ms) and any(is_leaf(v) and v.eq(term) for v in s.store.values())])
            EX = ("unique_lock", "lock_guard", "scoped_lock")
            def hook(e, s, r, p):
                for h in (src, dst) if op.endswith("assign") else (src,):
                    if r == h.root and p and p[0] == ("f", "value_"): e.oblige("values-exchanged-under-the-locks", s, And(held(s, h, EX), held(s, src, EX + ("shared_lock",))), "safety")
            en.write_hook = hook
            pre = st.clone(); en.call_fn(f, st, this=dst.lv, args=[Ref(src.lv)])
            en.write_hook = None
            if not alias: t.require(P, tag + ":source-locked", en, st, Or(*[term for term, ms, c_, how in en.lock_log if how in ("block", "given") and any(z3.is_true(z3.simplify(lv_same(m, mx[src.root]))) for m in ms)]))
            S = (src.ext,)
            t.require(P, tag + ":same-identity", en, st, And(*[eq_tree(src.rec(pre).f[k], dst.rec(st).f[k]) for k in IDENT]))
            t.require(P, tag + ":same-value", en, st, And(src.idx(pre) == dst.idx(st), *[z3.Implies(src.idx(pre) == n + 1, src.alt(pre, n) == dst.alt(st, n)) for n in range(9)]))
            t.require(P, tag + ":same-number", en, st, And(src.valid(pre) == dst.valid(st), z3.Implies(src.valid(pre), src.number(pre) == dst.number(st))))
            t.require(P, tag + ":target-well-formed", en, st, dst.inv(st)); t.require(P, tag + ":target-refers-to-its-own-value", en, st, dst.ptr_inv(st, S))
            t.require(P, tag + ":source-well-formed", en, st, src.inv(st)); t.require(P, tag + ":source-refers-to-its-own-value", en, st, src.ptr_inv(st, S))
            t.require(P, tag + ":external-value-kept", en, st, en.read(st, src.ext) == en.read(pre, src.ext))
            if op.startswith("copy"): t.require(P, tag + ":source-unchanged", en, st, And(src.same(en, pre, st), same_alt(src, pre, st)))
            if cls == "CommandInterface": t.require(P, tag + ":limiter-handed-over", en, st, And(eq_tree(src.rec(pre).f["on_set_command_limiter_"], dst.rec(st).f["on_set_command_limiter_"]), src.rec(pre).f["is_command_limited_"] == dst.rec(st).f["is_command_limited_"]))
            for s, x in en.throw_sinks[0]: t.require(P, tag + ":no-throw", en, s, z3.BoolVal(False))
            t.safety(P, en); t.cover(P, tag + ":entry", en, pre); t.cover(P, tag + ":return", en, st, src.idx(pre) == 1); done.add(tag)
        for cls in ("Handle", "StateInterface", "CommandInterface"):
            for n, op in ((cls, "construct"), ("operator=", "assign")):
                fs = prog.find(HI + cls + "::" + n) if any(f["q"] == HI + cls + "::" + n for f in prog.fns.values()) else []
                for f in fs if isinstance(fs, list) else [fs]:
                    if len(f["args"]) != 1: continue
                    s = prog.T(f["args"][0]["t"])["s"]
                    kind = "copy-" if s == f"const {HI}{cls} &" else "move-" if s == f"{HI}{cls} &&" else None
                    if kind: 
                        one(f, kind + op, False, cls)
                        if op == "assign": one(f, kind + op, True, cls)
        need = {"Handle:copy-construct", "Handle:move-construct", "Handle:copy-assign", "Handle:copy-assign:self", "Handle:move-assign", "Handle:move-assign:self", "StateInterface:copy-construct", "StateInterface:move-construct", "CommandInterface:move-construct"}
        if not need <= done: raise Unsupported(f"missing {sorted(need - done)}")
COPIES = Copies()

CONVS = ["stod", "stof", "parse_bool", "stoui8", "stoi8", "stoui16", "stoi16", "stoui32", "stoi32"]
class Make:
    """constructing a handle: type, initial value, names"""
    name = "handle-construction"; unit = UNIT; roots = ROOTS; function = HI + "Handle::Handle (all constructors), HandleDataType::HandleDataType"
    def build(self, prog, t):
        P = {"H01"}; fs = prog.find(HI + "Handle::Handle"); seen = set()
        sig = lambda f: [prog.T(a["t"])["s"].replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string").replace(HI, "") for a in f["args"]]
        for f in fs:
            s = sig(f); n = {4: "typed", 1: {"const InterfaceDescription &": "described", "const string &": "named", "const char *": "named-c"}.get(s[0])}.get(len(s), "external" if s[2:] == ["double *"] else None)
            if n is None: continue
            en = t.engine(prog); st = E.State(); seen.add(n)
            sv, okf = {}, {}
            for i, nm in enumerate(CONVS):
                so = [en.DS, E.F32, z3.BoolSort()][i] if i < 3 else z3.IntSort()
                sv[i], okf[i] = z3.Function(nm + "_value", E.Str, so), z3.Function(nm + "_accepts", E.Str, z3.BoolSort())
                def conv(e, s_, c, i=i, nm=nm):
                    x = c.val(0); bad = z3.Function(nm + "_out_of_range", E.Str, z3.BoolSort())(x) if i >= 3 else z3.BoolVal(False)
                    e.throw(s_, And(Not(okf[i](x)), Not(bad)), E.Exc("std::invalid_argument")); e.throw(s_, And(Not(okf[i](x)), bad), E.Exc("std::out_of_range"))
                    v = sv[i](x)
                    if i >= 3:
                        b = (8, 8, 16, 16, 32, 32)[i - 3]; sg = i % 2 == 0
                        e.fact(And(v >= (-(1 << (b - 1)) if sg else 0), v <= ((1 << (b - 1)) if sg else (1 << b)) - 1))
                    return v
                en.contracts[HI + nm] = conv
            A = [en.symbolic(prog.strip_ref(a["t"]), a["name"]) for a in f["args"]]
            ext = en.new_root(st, en.symbolic_double("external"), "external")
            if n == "external": A[2] = Ptr([(True, ("lv", ext))])
            lv = en.new_root(st, lib.raw_object(en, f["cls"], st), "handle"); h = H.at(en, lv, f["cls"], ext)
            pre = st.clone(); en.call_fn(f, st, this=lv, args=[Ref(en.new_root(st, a, "arg")) if prog.is_ref(p["t"]) else a for a, p in zip(A, f["args"])])
            r = h.rec(st) if not st.dead else None
            if n == "typed": pn, iname, dt, init = A
            elif n == "described": d = A[0]; pn, iname, dt, init = d.f["prefix_name"], d.f["interface_info"].f["name"], d.f["interface_info"].f["data_type"], d.f["interface_info"].f["initial_value"]
            elif n == "external": pn, iname = A[:2]
            else: pn, iname = en.strlit(""), A[0]
            t.require(P, n + ":names", en, st, And(r.f["prefix_name_"] == pn, r.f["interface_name_"] == iname, r.f["handle_name_"] == (lib.concat(en, lib.concat(en, pn, en.strlit("/")), iname) if n not in ("named", "named-c") else lib.concat(en, en.strlit("/"), iname))))
            t.require(P, n + ":well-formed", en, st, And(h.inv(st), h.ptr_inv(st, (ext,))))
            if n in ("typed", "described"):
                e = en.strlit("")
                for i, nm in enumerate(NAMES):
                    blank = en.is_nan(h.alt(st, 0)) if i == 0 else z3.fpIsNaN(h.alt(st, 1)) if i == 1 else h.alt(st, 2) == z3.BoolVal(False) if i == 2 else h.alt(st, i) == ((1 << ((8, 8, 16, 16, 32, 32)[i - 3] - (1 if i % 2 == 0 else 0))) - 1)
                    t.require(P, f"{n}:{nm}", en, st, z3.Implies(dt == en.strlit(nm), And(h.dt(st) == i, h.idx(st) == i + 1, z3.If(init == e, blank, And(okf[i](init), h.alt(st, i) == sv[i](init))))))
                known = Or(*[dt == en.strlit(x) for x in NAMES])
                t.require(P, n + ":known-type", en, st, known)
                for s_, x in en.throw_sinks[0]:
                    bad = Or(*[And(dt == en.strlit(x_), init != e, Not(okf[i](init))) for i, x_ in enumerate(NAMES)])
                    t.require(P, n + ":refuses-only-bad-input", en, s_, z3.If(known, And(bad, z3.BoolVal(x.typ in ("std::invalid_argument", "std::out_of_range"))), z3.BoolVal(x.typ == "std::runtime_error")))
            else:
                t.require(P, n + ":own-value-absent", en, st, And(h.idx(st) == 0, h.dt(st) == 0, ptr_eq(h.ptr(st), Ptr([(True, ("lv", ext))]) if n == "external" else Ptr([(True, None)]))))
                for s_, x in en.throw_sinks[0]: t.require(P, n + ":no-throw", en, s_, z3.BoolVal(False))
            t.safety(P, en); t.cover(P, n + ":entry", en, pre); t.cover(P, n + ":return", en, st)
        if seen != {"typed", "described", "named", "named-c", "external"}: raise Unsupported(f"constructors: {seen}")
MAKE = Make()

# ---------------------------------------------------------------- loaned interfaces (H03)
class Loans:
    """bounded retries through a loaned interface; the release action runs exactly once"""
    name = "loans"; unit = UNIT; roots = ROOTS; function = HI + "LoanedCommandInterface, LoanedStateInterface: set_value, get_optional, constructors, move, destructor"
    def build(self, prog, t):
        P = {"H03"}
        for cls, member in (("LoanedCommandInterface", "command_interface_"), ("LoanedStateInterface", "state_interface_")):
            for op in ("set_value", "get_optional"):
                if op == "set_value" and cls == "LoanedStateInterface": continue
                fns = inst(prog, HI + cls + "::" + op, *(["&", "unsigned"] if op == "set_value" else ["unsigned"]))
                if set(fns) != set(TYPES): raise Unsupported(f"instances of {cls}::{op}: {sorted(fns)}")
                for T, f in fns.items(): self.attempts(prog, t, P, cls, member, op, T, f)
            self.life(prog, t, P, cls, member)
    def attempts(self, prog, t, P, cls, member, op, T, f):
        en = t.engine(prog); st = E.State(); tag = f"{cls}::{op}<{T}>"
        v = en.symbolic(f["cls"], "loan"); other = en.new_root(st, z3.IntVal(0), "interface"); tries = en.new_root(st, z3.IntVal(0), "attempts")
        d = dict(v.f); d[member] = Ref(other); lv = en.new_root(st, Rec(v.name, d), "loan")
        succ, bad = z3.Function("attempt_succeeds", z3.IntSort(), z3.BoolSort()), z3.Function("attempt_throws", z3.IntSort(), z3.BoolSort())
        A = [en.symbolic(prog.strip_ref(a["t"]), a["name"]) for a in f["args"]]; mx = A[-1]
        got = None
        if op == "get_optional": got = z3.Function("attempt_value", z3.IntSort(), en.sort_of(f["targs"][0]["ty"]))
        def attempt(e, s, c):
            e.oblige("forwarded-to-the-loaned-interface", s, lv_same(c.obj, other), "safety")
            k = e.read(s, tries)
            if op == "set_value": e.oblige("forwards-the-given-value", s, eq_tree(c.val(0), A[0]), "safety")
            e.write(s, tries, k + 1)
            e.throw(s, bad(k), E.Exc("std::runtime_error"))
            return succ(k) if op == "set_value" else Opt(succ(k), got(k))
        for q in ("CommandInterface::set_limited_value", "Handle::set_value", "CommandInterface::set_value", "Handle::get_optional"): en.contracts[HI + q] = attempt
        en.contracts["std::this_thread::yield"] = lambda e, s, c: None
        pre = st.clone(); R = en.call_fn(f, st, this=lv, args=[Ref(en.new_root(st, a, "arg")) if prog.is_ref(p["t"]) else a for a, p in zip(A, f["args"])])
        ok = R if op == "set_value" else R.has; k = z3.Int("k"); n = en.read(st, tries); most = z3.If(mx > 0, mx, 1)
        t.require(P, tag + ":at-least-one-attempt", en, st, n >= 1); t.require(P, tag + ":at-most-the-allowed-attempts", en, st, n <= most)
        t.require(P, tag + ":succeeds-with-the-last-attempt", en, st, z3.Implies(ok, succ(n - 1)))
        t.require(P, tag + ":fails-only-after-all-attempts-failed", en, st, z3.Implies(Not(ok), And(n == most, z3.ForAll([k], z3.Implies(And(0 <= k, k < n), Not(succ(k)))))))
        t.require(P, tag + ":stops-at-the-first-success", en, st, z3.ForAll([k], z3.Implies(And(0 <= k, k < n - 1), Not(succ(k)))))
        if got is not None: t.require(P, tag + ":yields-what-was-read", en, st, z3.Implies(ok, R.val == got(n - 1)))
        fld = "set_value_statistics_" if op == "set_value" else "get_value_statistics_"
        c0, c1 = pre.store[lv.alts[0][1]].f[fld].f, st.store[lv.alts[0][1]].f[fld].f
        fails = n - z3.If(ok, 1, 0)
        t.require(P, tag + ":counts-failures", en, st, c1["failed_counter"] == c0["failed_counter"] + fails)
        t.require(P, tag + ":counts-timeouts", en, st, c1["timeout_counter"] == c0["timeout_counter"] + z3.If(ok, 0, 1))
        for s, x in en.throw_sinks[0]:
            t.require(P, tag + ":throws-only-what-the-interface-throws", en, s, And(bad(en.read(s, tries) - 1), en.read(s, tries) <= most))
        t.safety(P, en); t.cover(P, tag + ":entry", en, pre); t.cover(P, tag + ":return", en, st, And(Not(ok), mx > 2)); 

    def life(self, prog, t, P, cls, member):
        """the release action passed to a loan runs exactly once, when the last holder ends"""
        find = lambda n: (lambda fs: fs if isinstance(fs, list) else [fs])(prog.find(HI + cls + "::" + n))
        dtor = find("~" + cls)[0]; ctors = find(cls)
        two = [f for f in ctors if len(f["args"]) == 2]; one = [f for f in ctors if len(f["args"]) == 1 and "shared_ptr" in prog.T(f["args"][0]["t"])["s"]]; move = [f for f in ctors if len(f["args"]) == 1 and prog.T(f["args"][0]["t"])["s"].endswith(cls + " &&")]
        if not (len(two) == len(one) == len(move) == 1): raise Unsupported(f"{cls}: constructors")
        def engine():
            en = t.engine(prog); st = E.State(); st0 = en.new_root(st, z3.IntVal(0), "released")
            runs = {}
            def call(e, s, c):
                # the stored functions are identified by the value they hold
                e.oblige("only-the-release-action-is-called", s, c.objval() == D[0], "safety") if D else None
                e.write(s, st0, e.read(s, st0) + 1)
                return None
            D = []
            en.contracts["call:std::function"] = call
            en.contracts[HI + "Handle::get_name"] = lambda e, s, c: e.read(s, c.obj.ext(("f", "handle_name_")))
            return en, st, st0, D
        # construction followed by destruction
        for n, f in (("given", two[0]), ("without", one[0])):
            en, st, rel, D = engine(); A = Ptr([(True, ("lv", en.new_root(st, en.symbolic(prog.kind(f["args"][0]["t"])[1], "interface"), "interface")))])
            d = en.symbolic(prog.strip_ref(two[0]["args"][1]["t"]), "deleter"); D.append(d)
            lv = en.new_root(st, lib.raw_object(en, f["cls"], st), "loan"); args = [A] + ([Ref(en.new_root(st, d, "deleter"))] if n == "given" else [])
            pre = st.clone(); en.call_fn(f, st, this=lv, args=args)
            mid = st.clone(); t.require(P, f"{cls}:{n}:keeps-the-release-action", en, mid, And(en.read(mid, rel) == 0, mid.store[lv.alts[0][1]].f["deleter_"] == (d if n == "given" else 0)))
            t.require(P, f"{cls}:{n}:counts-from-zero", en, mid, And(*[x == 0 for k, r in mid.store[lv.alts[0][1]].f.items() if k.endswith("statistics_") for x in r.f.values()]))
            en.call_fn(dtor, st, this=lv, args=[])
            t.require(P, f"{cls}:{n}:released-once-at-the-end", en, st, en.read(st, rel) == (z3.If(d != 0, 1, 0) if n == "given" else 0))
            t.safety(P, en); t.cover(P, f"{cls}:{n}:end", en, st)
        # a moved loan: the new holder releases, the old one does not
        en, st, rel, D = engine(); v = en.symbolic(dtor["cls"], "loan"); other = en.new_root(st, z3.IntVal(0), "interface")
        fl = dict(v.f); fl[member] = Ref(other); D.append(fl["deleter_"]); d = fl["deleter_"]
        a = en.new_root(st, Rec(v.name, fl), "loan"); b = en.new_root(st, lib.raw_object(en, dtor["cls"], st), "moved")
        en.call_fn(move[0], st, this=b, args=[Ref(a)]); s0 = st.clone()
        t.require(P, f"{cls}:moved:new-holder-has-the-release-action", en, s0, And(s0.store[b.alts[0][1]].f["deleter_"] == d, s0.store[a.alts[0][1]].f["deleter_"] == 0, en.read(s0, rel) == 0))
        t.require(P, f"{cls}:moved:same-interface", en, s0, lv_same(s0.store[b.alts[0][1]].f[member].lv, other))
        for order in ((a, b), (b, a)):
            s1 = st.clone()
            for i, o in enumerate(order):
                en.call_fn(dtor, s1, this=o, args=[])
                t.require(P, f"{cls}:moved:released-by-the-new-holder-only:{'old' if order[0] is a else 'new'}-first:{i}", en, s1, en.read(s1, rel) == (z3.If(d != 0, 1, 0) if b in order[:i + 1] else 0))
        t.safety(P, en); t.cover(P, f"{cls}:moved:end", en, st)
LOANS = Loans()
