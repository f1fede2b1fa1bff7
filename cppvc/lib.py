"""Models (trusted contracts) of the C++ standard library and of the ROS interfaces the code calls."""
import z3, struct, math
from values import *
import engine as E

MODELS = {}
METHODS = {}

def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
def method(kinds, *names):
    def d(f):
        for k in kinds.split():
            for n in names: METHODS[(k, n)] = f
        return f
    return d

class Call:
    """one call: lazily evaluated arguments (expressions or already evaluated values)"""
    def __init__(self, en, st, info, argx=(), obj=None, objt=None, e=None, evald=None, ret=None):
        self.en, self.st, self.info, self.argx, self.e = en, st, info, list(argx), e
        self.evald = evald; self._obj = obj; self.objt = objt
        self.q = E.strip_targs(info["q"]) if info else ""
        self.name = info["name"] if info else ""
        self.ret = info["ret"] if info else (e["t"] if e else ret)
    @property
    def n(self): return len(self.evald) if self.evald is not None else len(self.argx)
    def val(self, i):
        if self.evald is not None:
            a = self.evald[i]; return self.en.read(self.st, a.lv) if isinstance(a, Ref) else a
        v = self.en.rv(self.argx[i], self.st)
        return v
    def lv(self, i):
        if self.evald is not None:
            a = self.evald[i]; return a.lv if isinstance(a, Ref) else self.en.new_root(self.st, a)
        return self.en.lv(self.argx[i], self.st)
    def t(self, i):
        if self.evald is not None: return self.en.p.strip_ref(self.info["params"][i])
        return self.argx[i]["t"]
    def kind(self, i): return self.en.p.kind(self.t(i))
    def vals(self): return [self.val(i) for i in range(self.n)]
    @property
    def obj(self):
        if callable(self._obj): self._obj = self._obj()
        return self._obj
    def objval(self): return self.en.read(self.st, self.obj)
    def rett(self): return self.en.p.strip_ref(self.ret)
    def retkind(self): return self.en.p.kind(self.rett())

# ------------------------------------------------------------------------------------ dispatch
def call(en, e, st):
    info = e.get("callee")
    k = e["k"]
    if info is None:
        # call through a function value / pointer
        if e.get("fn") is None: raise Unsupported("indirect call")
        f = en.rv(e["fn"], st)
        return en.apply_fn(f, [Ref(en.lv(a, st)) for a in e["c"]], st)
    args = e["c"]
    obj = None; objt = None
    is_member = info.get("cls") is not None and not info.get("static")
    if k == "CXXMemberCallExpr" and e.get("obj") is not None:
        oe = e["obj"]; objt = oe["t"]
        if e.get("arrow"):
            to = en.p.T(objt).get("to")
            def obj():
                v = en.rv(oe, st)
                return en.deref(v, to, st)
            objt = to
        else: obj = lambda: en.lv(oe, st)
    elif k == "CXXOperatorCallExpr" and is_member:
        oe = args[0]; args = args[1:]; objt = oe["t"]
        obj = lambda: en.lv(oe, st)
    c = Call(en, st, info, args, obj, objt, e)
    c.virtual = bool(info.get("virtual")) and not e.get("qualified")
    return invoke(en, st, c)

def call_by_info(en, info, args, st):
    obj = None
    if info.get("cls") is not None and not info.get("static") and info.get("name") != "operator()":
        pass
    c = Call(en, st, info, evald=args); c.virtual = False
    return invoke(en, st, c)

def invoke(en, st, c):
    info = c.info; q = c.q
    # contracts on repository functions (modular calls)
    h = en.contracts.get(q) or en.contracts.get(info["q"]) or en.contracts.get(info["full"])
    if h is not None:
        return h(en, st, c)
    # lambdas
    if q == "std::_Bind::operator()" and isinstance(c.objval(), Fn): return c.objval().py(en, st, [Ref(c.lv(i)) for i in range(c.n)])
    if info.get("lambda") and c.name == "operator()":
        f = c.objval()
        if isinstance(f, (Closure, Fn)):
            return en.apply_fn(f, bind_args(en, st, c, info["params"]), st)
        raise Unsupported("call of unknown lambda")
    fn = en.p.fns.get(info["id"])
    if fn is not None and not (info.get("implicit") and (info.get("assign") or info.get("ctor") in ("copy", "move"))):
        this = None
        if info.get("cls") is not None and not info.get("static"):
            this = c.obj
            if st.dead: return None
            if getattr(c, "virtual", False): 
                r = virtual_dispatch(en, st, c, this, fn)
                if r is not None: fn = r
            if not (this.alts): raise Unsupported("no object")
        args = bind_args(en, st, c, [p["t"] for p in fn["args"]])
        if st.dead: return None
        return en.call_fn(fn, st, this=this, args=args)
    if getattr(c, "virtual", False) and c._obj is not None and not q.startswith("std::"):
        r = virtual_dispatch(en, st, c, c.obj, None)
        if r is not None:
            args = bind_args(en, st, c, [p["t"] for p in r["args"]])
            return en.call_fn(r, st, this=c.obj, args=args)
    m = MODELS.get(q)
    if m is not None:
        en.trusted.add(q)
        return m(c)
    if info.get("assign") and info.get("implicit") and c._obj is not None:
        return assign_value(c)
    if c._obj is not None:
        ok = en.p.kind(c.objt)[0] if c.objt is not None else None
        mname = c.name
        if mname.startswith("operator ") : mname = "conv"
        m = METHODS.get((ok, mname))
        if m is not None:
            if en.method_hook is not None: en.method_hook(en, st, c)
            en.trusted.add(q if not q.startswith("std") else "std::" + ok + "::" + c.name)
            return m(c)
    else:
        # free operators on std types: dispatch on the kind of the first argument
        if c.name.startswith("operator") and c.n:
            return free_operator(c)
    if q.startswith("fmt::"): return en.fresh("fmt", en.SS) if c.retkind()[0] == "str" else Opaque("fmt")
    if en.opaque_unknown and c.retkind()[0] in ("void", "opaque"):
        en.trusted.add("opaque:" + q); return None if c.retkind()[0] == "void" else Opaque(q)
    raise Unsupported(f"no contract, body or model for {q} (object kind {en.p.kind(c.objt) if c.objt is not None else None})")

def bind_args(en, st, c, ptypes):
    out = []
    for i in range(c.n):
        t = ptypes[i] if i < len(ptypes) else None
        if c.evald is not None:
            a = c.evald[i]
            if t is not None and not en.p.is_ref(t) and isinstance(a, Ref): a = en.read(st, a.lv)
            out.append(a); continue
        out.append(en.arg_for(c.argx[i], t, st) if t is not None else en.rv(c.argx[i], st))
        if st.dead: return out
    return out

def virtual_dispatch(en, st, c, this, fn):
    """the overrider for the object's dynamic type when it is a concrete record in the store"""
    names = set()
    for g, r, p in this.alts:
        try: v = en.get(en.root_value(st, r), p)
        except Unsupported: return None
        if isinstance(v, Rec): names.add(v.name)
    if len(names) != 1: return None
    dyn = names.pop()
    # walk overriders
    def cls_of(f): 
        kk = en.p.kind(f["cls"]) if f.get("cls") is not None else None
        return kk[1] if kk and kk[0] == "rec" else None
    best = None
    todo = list(en.p.overriders.get(c.info["id"], []))
    cands = []
    while todo:
        f = todo.pop(); cands.append(f); todo += en.p.overriders.get(f["id"], [])
    for f in cands:
        if cls_of(f) and en.p.is_subclass(dyn, cls_of(f)):
            if best is None or en.p.is_subclass(cls_of(f), cls_of(best)): best = f
    return best

# ------------------------------------------------------------------------------------ construction
def project(en, v, tid):
    """slice/convert a record value to the fields of tid"""
    k = en.p.kind(tid)
    if isinstance(v, Rec) and k[0] == "rec" and v.name != k[1]:
        names = [f for f, _, _ in en.p.fields(k[1])]
        return Rec(k[1], {n: v.f[n] for n in names if n in v.f})
    return v

def moved_from(en, tid, v, st):
    k = en.p.kind(tid)
    if k[0] in ("vec", "map", "set"): return en.default(tid)
    if k[0] == "str": return en.fresh("moved_str", en.SS)
    if k[0] == "ptr" and isinstance(v, (Ptr,)) or k[0] == "ptr" and is_leaf(v): return z3.IntVal(0)
    if k[0] == "fn": return z3.IntVal(0)      # libstdc++ leaves a moved-from std::function empty
    if k[0] == "rec" and isinstance(v, Rec):
        out = dict(v.f)
        for f, t, _ in en.p.fields(k[1]):
            if f in out: out[f] = moved_from(en, t, out[f], st)
        return Rec(v.name, out)
    if k[0] == "opt": return Opt(v.has, moved_from(en, k[1], v.val, st))
    if k[0] == "pair": return Rec("pair", {"first": moved_from(en, k[1], v.f["first"], st), "second": moved_from(en, k[2], v.f["second"], st)})
    return v

def raw_object(en, tid, st):
    """storage of an object under construction: scalars indeterminate"""
    k = en.p.kind(tid)
    if k[0] == "rec":
        out = {}
        for f, t, init in en.p.fields(k[1]):
            kk = en.p.kind(t)
            if kk[0] in ("double", "float", "int", "bool", "enum", "ptr"): out[f] = en.symbolic(t, f + "_uninit")
            elif kk[0] == "rec": out[f] = raw_object(en, t, st)
            elif kk[0] == "ref": out[f] = Opaque("ref")
            else: out[f] = en.default(t, st)
        return Rec(k[1], out)
    return en.default(tid, st)

def construct(en, e, st):
    info = e["ctor"]; t = e["t"]; args = e["c"]
    k = en.p.kind(t)
    kind = info.get("ctor")
    full = E.strip_targs(info["q"])
    h = en.contracts.get(full)
    if h is not None:
        return h(en, st, Call(en, st, info, args, None, t, e))
    if kind in ("copy", "move") and args and (info.get("implicit") or k[0] != "rec" or info["id"] not in en.p.fns):
        src = args[0]
        if kind == "move" and src.get("vk") in ("x", "l") and src["k"] != "MaterializeTemporaryExpr" and not e.get("elidable"):
            l = en.lv(src, st)
            if st.dead: return en.dead_value(e)
            v = en.read(st, l)
            if not isinstance(v, Opaque) and k[0] in ("vec", "map", "set", "str", "ptr", "rec", "opt", "pair", "fn") and en.p.T(t).get("k") != "ptr":
                en.write(st, l, moved_from(en, t, v, st))
            return project(en, v, t)
        v = en.rv(src, st)
        if st.dead: return en.dead_value(e)
        return project(en, v, t)
    fn = en.p.fns.get(info["id"])
    if fn is not None and k[0] == "rec":
        lv = en.new_root(st, raw_object(en, t, st), "obj")
        cargs = en.eval_args(args, fn["args"], st)
        if st.dead: return en.dead_value(e)
        en.call_fn(fn, st, this=lv, args=cargs)
        if st.dead: return en.dead_value(e)
        return en.read(st, lv)
    c = Call(en, st, info, args, None, t, e)
    m = CTORS.get(k[0])
    if m is not None:
        r = m(c, k)
        if r is not None: return r
    if k[0] == "rec":
        nm = en.p.records[k[1]]["name"]
        m = MODELS.get("ctor:" + nm)
        if m is not None:
            en.trusted.add(nm + " constructor"); return m(c)
        if kind == "default" or not args:
            if info.get("implicit") or e.get("zero"): return en.default(t, st)
            return en.default(t, st)
        raise Unsupported("constructor " + info["q"])
    if k[0] == "opaque":
        for i in range(c.n):
            try: c.val(i)
            except Unsupported: pass
        return Opaque(k[1])
    raise Unsupported(f"constructor of {k} : {info['q']}")

def is_closure(v): return isinstance(v, (Closure, Fn))

CTORS = {}
def ctor(kind):
    def d(f): CTORS[kind] = f; return f
    return d

@ctor("str")
def _(c, k):
    en = c.en
    real = [i for i in range(c.n) if c.kind(i)[0] not in ("opaque",) or c.kind(i)[0] == "str"]
    if c.n == 0 or not real: return en.strlit("")
    if c.kind(0)[0] == "str":
        v = c.val(0)
        if len(real) == 1: return v
        if is_leaf(v) and len(real) == 2 and c.kind(1)[0] == "int":
            # (const char*, n) or (string, pos)
            return en.fresh("substr", en.SS)
        return en.fresh("str", en.SS)
    for i in real: c.val(i)
    return en.fresh("str", en.SS)

@ctor("opt")
def _(c, k):
    en = c.en
    if c.n == 0: return en.default(c.objt)
    k0 = c.kind(0)[0]
    if k0 == "nullopt": return en.default(c.objt)
    v = c.val(0)
    if isinstance(v, Opt) and en.p.kind(k[1])[0] != "opt":
        sub = c.en.p.kind(c.t(0))
        return Opt(v.has, conv_to(en, v.val, sub[1], k[1]))
    if isinstance(v, Opaque) and c.kind(0)[0] == "opaque": 
        if c.n >= 1 and "in_place" in c.kind(0)[1]:
            if c.n == 1: return Opt(z3.BoolVal(True), en.default(k[1], c.st))
            return Opt(z3.BoolVal(True), conv_to(en, c.val(1), c.t(1), k[1]))
        return Opt(z3.BoolVal(True), v) if False else en.symbolic(c.objt, "opt_opaque")
    return Opt(z3.BoolVal(True), conv_to(en, v, c.t(0), k[1]))

def conv_to(en, v, ft, tt):
    ft, tt = en.p.strip_ref(ft), en.p.strip_ref(tt)
    a, b = en.p.kind(ft), en.p.kind(tt)
    if is_leaf(v) and a != b: return en.convert(v, ft, tt)
    return project(en, v, tt)

@ctor("vec")
def _(c, k):
    en = c.en; et = k[1]
    real = [i for i in range(c.n) if not (c.kind(i)[0] in ("opaque",) and "alloc" in str(c.kind(i)))]
    if not real: return en.default(c.objt)
    v0 = c.val(0)
    if isinstance(v0, Vec): return v0
    if isinstance(v0, Iter):
        v1 = c.val(1)
        if isinstance(v1, Iter) and v0.kind == "vec" and same_lv(v0.lv, v1.lv):
            src = en.read(c.st, v0.lv)
            if z3.is_int_value(v0.pos) and v0.pos.as_long() == 0: return Vec(v1.pos, src.elem)
            out = en.symbolic(c.objt, "range")
            j = z3.FreshConst(z3.IntSort(), "j")
            en.fact(out.len == z3.If(v1.pos >= v0.pos, v1.pos - v0.pos, z3.IntVal(0)))
            en.fact(fa_leaves(out.elem, src.elem, j, j + v0.pos))
            return out
        if isinstance(v1, Iter) and v0.kind == "set" and same_lv(v0.lv, v1.lv): return sorted_vec(c, c.objt, en.read(c.st, v0.lv))
        raise Unsupported("vector from iterators")
    if is_leaf(v0) and z3.is_int(v0):
        if len(real) >= 2 and not (c.kind(1)[0] == "opaque"):
            x = conv_to(en, c.val(1), c.t(1), et)
        else: x = en.default(et, c.st)
        return Vec(v0, en.const_elem(x, z3.IntSort()))
    raise Unsupported("vector constructor")

def sorted_vec(c, tid, m):
    """the elements of an ordered set, in its order"""
    en = c.en; out = en.symbolic(tid, "sorted"); en.nfresh += 1
    K = m.dom.sort().domain(); rank = z3.Function(f"rank!{en.nfresh}", *[g.sort() for g in en.ctx], K, z3.IntSort())
    R = en.last_rank = lambda x: rank(*en.ctx, x)
    i, j, x = z3.FreshConst(z3.IntSort(), "i"), z3.FreshConst(z3.IntSort(), "j"), z3.FreshConst(K, "x")
    E_ = lambda t: z3.Select(out.elem, t)
    en.fact(out.len >= 0)
    en.fact(z3.ForAll([j], z3.Implies(And(j >= 0, j < out.len), And(z3.Select(m.dom, E_(j)), R(E_(j)) == j)), patterns=[E_(j)]))
    en.fact(z3.ForAll([x], z3.Implies(z3.Select(m.dom, x), And(R(x) >= 0, R(x) < out.len, E_(R(x)) == x)), patterns=[z3.Select(m.dom, x)]))
    en.fact(z3.ForAll([i, j], z3.Implies(And(0 <= i, i < j, j < out.len), lt(en, E_(i), E_(j))), patterns=[z3.MultiPattern(E_(i), E_(j))]))
    return out

def fa_leaves(a, b, j, jb):
    """forall j: a[j] == b[jb] leafwise"""
    cs = []
    la, lb = list(leaves(a)), list(leaves(b))
    for (p, x), (_, y) in zip(la, lb):
        cs.append(z3.ForAll([j], z3.Select(x, j) == z3.Select(y, jb), patterns=[z3.Select(x, j)]))
    return And(*cs)

@ctor("map")
def _(c, k):
    en = c.en
    if c.n == 0: return en.default(c.objt)
    v = c.val(0)
    if isinstance(v, Map): return v
    if isinstance(v, Vec) and z3.is_int_value(v.len):
        m = en.default(c.objt)
        for i in range(v.len.as_long()):
            it = select_tree(v.elem, z3.IntVal(i))
            ky = it.f["first"]
            m = Map(z3.Store(m.dom, ky, z3.BoolVal(True)), store_tree(m.val, ky, it.f["second"]))
        return m
    raise Unsupported("map constructor")
@ctor("set")
def _(c, k):
    en = c.en
    if c.n == 0: return en.default(c.objt)
    v = c.val(0)
    if isinstance(v, Map): return v
    m = en.default(c.objt)
    if isinstance(v, Vec) and z3.is_int_value(v.len):
        for i in range(v.len.as_long()): m = Map(z3.Store(m.dom, z3.Select(v.elem, z3.IntVal(i)), z3.BoolVal(True)), None)
        return m
    if isinstance(v, Iter) and v.kind == "vec":
        v1 = c.val(1); src = en.named(en.read(c.st, v.lv))
        out = en.symbolic(c.objt, "setrange")
        kk = z3.FreshConst(out.dom.sort().domain(), "k"); j = z3.FreshConst(z3.IntSort(), "j")
        en.nfresh += 1
        wf = z3.Function(f"setsrc!{en.nfresh}", *[g.sort() for g in en.ctx], kk.sort(), z3.IntSort()); W = wf(*en.ctx, kk)
        en.fact(z3.ForAll([kk], z3.Implies(z3.Select(out.dom, kk), And(W >= v.pos, W < v1.pos, z3.Select(src.elem, W) == kk)), patterns=[z3.Select(out.dom, kk)]))
        en.fact(z3.ForAll([j], z3.Implies(And(j >= v.pos, j < v1.pos), z3.Select(out.dom, z3.Select(src.elem, j))), patterns=[z3.Select(src.elem, j)]))
        return out
    raise Unsupported("set constructor")
@ctor("pair")
def _(c, k):
    en = c.en
    if c.n == 0: return en.default(c.objt)
    if c.n == 1:
        v = c.val(0)
        return Rec("pair", {"first": deref_field(en, c.st, v.f["first"]), "second": deref_field(en, c.st, v.f["second"])})
    return Rec("pair", {"first": conv_to(en, c.val(0), c.t(0), k[1]), "second": conv_to(en, c.val(1), c.t(1), k[2])})
def deref_field(en, st, v): return en.read(st, v.lv) if isinstance(v, Ref) else v
@ctor("tuple")
def _(c, k):
    if c.n == 0: return c.en.default(c.objt)
    return Rec("tuple", {f"t{i}": c.val(i) for i in range(c.n)})
@ctor("ptr")
def _(c, k):
    en = c.en
    if c.n == 0: return z3.IntVal(0)
    if c.kind(0)[0] == "nullptr": return z3.IntVal(0)
    v = c.val(0)
    if isinstance(v, Opaque): return en.symbolic(c.objt, "ptr_opaque")
    src = c.argx[0]
    if src.get("vk") == "x" and src["k"] != "MaterializeTemporaryExpr" and (is_leaf(v) or isinstance(v, Ptr)):
        l = en.lv(src, c.st); en.write(c.st, l, z3.IntVal(0))
    return v
@ctor("fn")
def _(c, k):
    if c.n == 0 or c.kind(0)[0] == "nullptr": return z3.IntVal(0)
    return c.val(0)
@ctor("lambda")
def _(c, k): return c.val(0)
@ctor("iter")
def _(c, k): return c.val(0) if c.n else Opaque("iter")
@ctor("arr")
def _(c, k): return c.val(0) if c.n else c.en.default(c.objt)
@ctor("lock")
def _(c, k):
    en = c.en; cls = E.strip_targs(en.p.T(c.objt)["name"]).split("::")[-1]; v = z3.BoolVal(False)
    tags = [str(c.kind(i)) for i in range(c.n)]
    mx = [c.lv(i) for i in range(c.n) if not any(w in tags[i] for w in ("try_to_lock", "defer_lock", "adopt_lock"))]
    if c.n == 0: return v
    # no mutex is locked twice by one lock object
    for i in range(len(mx)):
        for j in range(i + 1, len(mx)): en.oblige("distinct-mutexes", c.st, Not(lv_same(mx[i], mx[j])), "safety")
    v = en.fresh("lock_acquired", z3.BoolSort()); told = en.try_lock(mx) if en.try_lock and any("try_to_lock" in t for t in tags) else None
    if told is not None: en.fact(v == told)
    en.lock_log.append((v, mx, cls, "try" if any("try_to_lock" in t for t in tags) else "defer" if any("defer_lock" in t for t in tags) else "block"))
    if any("defer_lock" in t for t in tags): en.fact(Not(v))
    elif not any("try_to_lock" in t for t in tags): en.fact(v)
    return v
@ctor("variant")
def _(c, k):
    en = c.en
    if c.n == 0: return en.default(c.objt)
    v = c.val(0)
    if isinstance(v, Rec) and v.name == "variant": return v
    t = c.t(0); kt = en.p.kind(t)
    idx = None
    for i, a in enumerate(k[1]):
        if en.p.kind(a) == kt: idx = i; break
    if idx is None: raise Unsupported("variant alternative")
    d = en.default(c.objt)
    f = dict(d.f); f["index"] = z3.IntVal(idx); f[f"v{idx}"] = v
    return Rec("variant", f)
@ctor("refw")
def _(c, k): return Ref(c.lv(0)) if False else Ptr([(True, ("lv", c.lv(0)))])
@ctor("dur")
def _(c, k): 
    if c.n == 0: return z3.IntVal(0)
    v = c.val(0)
    return v if is_leaf(v) else c.en.symbolic(c.objt, "dur")
@ctor("nullopt")
def _(c, k): return Opaque("nullopt")
@ctor("double")
def _(c, k): return c.val(0) if c.n else c.en.dval(0.0)
@ctor("bool")
def _(c, k): return c.val(0) if c.n else z3.BoolVal(False)     # std::atomic<bool>
@ctor("int")
def _(c, k): return c.val(0) if c.n else z3.IntVal(0)
@ctor("enum")
def _(c, k): return c.val(0) if c.n else z3.IntVal(0)

def alloc(en, st, tid, v):
    if en.ctx: raise Unsupported("allocation inside a summarised loop")
    en.alloc_n += 1
    i = z3.IntVal(-1000 - en.alloc_n)
    root = en.heap_root(en.heap_key(tid)); en.heap_types.setdefault(root, en.base_tid(tid))
    hv = en.root_value(st, root)
    if isinstance(v, Rec) and isinstance(hv, Rec) and set(hv.f) != set(v.f):
        v = Rec(hv.name, {f: v.f.get(f, select_tree(hv.f[f], i)) for f in hv.f})
    st.store[root] = store_tree(hv, i, v)
    return i

# ------------------------------------------------------------------------------------ assignment
def assign_value(c):
    en, st = c.en, c.st
    l = c.obj
    if st.dead: return None
    kt = en.p.kind(c.objt)
    src = c.argx[0] if c.evald is None else None
    if kt[0] == "opt":
        k0 = c.kind(0)[0]
        if k0 == "nullopt" or (src is not None and src["k"] == "InitListExpr" and not src["c"]):
            old = en.read(st, l); en.write(st, l, Opt(z3.BoolVal(False), old.val)); return Ref(l)
        v = c.val(0)
        if st.dead: return None
        if isinstance(v, Opt):
            kk = en.p.kind(c.t(0))
            en.write(st, l, Opt(v.has, conv_to(en, v.val, kk[1], kt[1])))
        else: en.write(st, l, Opt(z3.BoolVal(True), conv_to(en, v, c.t(0), kt[1])))
        return Ref(l)
    if src is not None and c.info.get("assign") == "move" and src.get("vk") == "x" and src["k"] != "MaterializeTemporaryExpr":
        sl = en.lv(src, st); v = en.read(st, sl)
        if st.dead: return None
        if not isinstance(v, Opaque) and not is_closure(v): en.write(st, sl, moved_from(en, c.t(0), v, st))
    else: v = c.val(0)
    if st.dead: return None
    if isinstance(v, Rec) and kt[0] == "rec":
        v = project(en, v, c.objt); cur = en.read(st, l)
        if isinstance(cur, Rec) and set(cur.f) != set(v.f):
            d = dict(cur.f); d.update({kf: vf for kf, vf in v.f.items() if kf in d}); v = Rec(cur.name, d)
    elif is_leaf(v) and kt[0] in ("double", "int", "bool", "enum", "float"): v = en.convert(v, c.t(0), c.objt)
    elif kt[0] == "variant" and not (isinstance(v, Rec) and v.name == "variant"):
        v = CTORS["variant"](Call(en, st, c.info, c.argx, None, c.objt, c.e, c.evald), kt)
    elif kt[0] == "str" and is_leaf(v) and z3.is_int(v): v = en.fresh("charstr", en.SS)
    en.write(st, l, v)
    return Ref(l)

for _k in "opt vec map set str ptr fn pair tuple variant arr lock dur refw iter double int bool enum rec opaque".split():
    METHODS[(_k, "operator=")] = assign_value

# ------------------------------------------------------------------------------------ optional
@method("opt", "has_value", "conv")
def _(c): return c.objval().has
@method("opt", "value")
def _(c):
    l = c.obj; v = c.en.read(c.st, l)
    if c.st.dead: return None
    c.en.throw(c.st, Not(v.has), E.Exc("std::bad_optional_access"))
    return Ref(l.ext(("o",)))
@method("opt", "operator*", "operator->")
def _(c):
    l = c.obj; v = c.en.read(c.st, l)
    c.en.oblige("optional-engaged", c.st, v.has, "safety")
    c.st.assume(v.has)
    t = l.ext(("o",))
    return Ref(t) if c.name == "operator*" else Ptr([(True, ("lv", t))])
@method("opt", "value_or")
def _(c):
    v = c.objval(); k = c.en.p.kind(c.objt)
    d = c.val(0)
    return ite_tree(v.has, v.val, conv_to(c.en, d, c.t(0), k[1]))
@method("opt", "reset")
def _(c):
    v = c.objval(); c.en.write(c.st, c.obj, Opt(z3.BoolVal(False), v.val))
@method("opt", "emplace")
def _(c):
    k = c.en.p.kind(c.objt)
    c.en.write(c.st, c.obj, Opt(z3.BoolVal(True), conv_to(c.en, c.val(0), c.t(0), k[1]) if c.n else c.en.default(k[1], c.st)))
    return Ref(c.obj.ext(("o",)))

# ------------------------------------------------------------------------------------ vector / array
def oob(c, v, i, what):
    c.en.oblige("index-in-range", c.st, And(i >= 0, i < v.len), "safety")
@method("vec arr", "size")
def _(c):
    n = c.objval().len
    if c.obj is not None: c.en.lengths.append((n, c.obj))
    return n
@method("vec arr map set", "empty")
def _(c):
    v = c.objval()
    if isinstance(v, Vec): return v.len == 0
    if isinstance(v, Opaque): return c.en.fresh("empty", z3.BoolSort())
    n, K = c.en.enum_map(v)
    k = z3.FreshConst(v.dom.sort().domain(), "k")
    return n == 0
@method("vec arr", "operator[]")
def _(c):
    l = c.obj; i = c.val(0)
    if c.st.dead: return None
    v = c.en.read(c.st, l)
    oob(c, v, i, "[]")
    return Ref(l.ext(("i", i)))
@method("vec arr", "at")
def _(c):
    l = c.obj; i = c.val(0)
    if c.st.dead: return None
    v = c.en.read(c.st, l)
    c.en.throw(c.st, Not(And(i >= 0, i < v.len)), E.Exc("std::out_of_range"))
    return Ref(l.ext(("i", i)))
@method("vec arr", "front")
def _(c):
    v = c.objval(); oob(c, v, z3.IntVal(0), "front"); return Ref(c.obj.ext(("i", z3.IntVal(0))))
@method("vec arr", "back")
def _(c):
    v = c.objval(); oob(c, v, z3.IntVal(0), "back"); return Ref(c.obj.ext(("i", z3.simplify(v.len - 1))))
@method("vec arr", "data")
def _(c): return Ptr([(True, ("lv", c.obj.ext(("i", z3.IntVal(0)))))])
@method("vec arr", "begin", "cbegin")
def _(c): return Iter("vec", c.obj, z3.IntVal(0))
@method("vec arr", "end", "cend")
def _(c): return Iter("vec", c.obj, c.objval().len)
@method("vec", "push_back", "emplace_back")
def _(c):
    en = c.en; k = en.p.kind(c.objt); l = c.obj
    x = elem_from(c, k[1])
    if c.st.dead: return None
    v = en.read(c.st, l)
    if isinstance(v, Opaque): return None
    en.write(c.st, l, Vec(z3.simplify(v.len + 1), store_tree(v.elem, v.len, x)))
    return Ref(l.ext(("i", v.len)))
def elem_from(c, et):
    en = c.en
    ke = en.p.kind(et)
    if c.n == 1 and (c.kind(0)[0] == ke[0] or ke[0] not in ("rec",)):
        v = c.val(0)
        if ke[0] in ("ptr", "vec", "str", "map") and c.evald is None and c.argx[0].get("vk") == "x" and c.argx[0]["k"] != "MaterializeTemporaryExpr":
            sl = en.lv(c.argx[0], c.st)
            en.write(c.st, sl, moved_from(en, c.t(0), v, c.st))
        if isinstance(v, Iter): raise Unsupported("iterator element")
        if ke[0] == "refw" and isinstance(v, Ptr): return address(en, v)
        return conv_to(en, v, c.t(0), et)
    if c.n == 0: return en.default(et, c.st)
    h = en.contracts.get("emplace:" + str(ke[1] if len(ke) > 1 else ke[0]))
    if h: return h(en, c.st, c)
    if ke[0] == "rec":
        return emplace_rec(c, et)
    if ke[0] == "pair" and c.n == 2: return Rec("pair", {"first": conv_to(en, c.val(0), c.t(0), ke[1]), "second": conv_to(en, c.val(1), c.t(1), ke[2])})
    raise Unsupported("emplace_back of " + str(ke))
def address(en, v):
    """a number that names the object referred to (distinct for distinct objects); it cannot be dereferenced afterwards"""
    if len(v.alts) != 1 or v.alts[0][1] is None or v.alts[0][1][0] != "lv": raise Unsupported("address of one of several objects")
    lv = v.alts[0][1][1]
    if len(lv.alts) != 1: raise Unsupported("address of one of several objects")
    _, r, p = lv.alts[0]; ix = [el[1] for el in p if el[0] == "i"]; en.addressed = True
    nm = "address_of_" + str(r) + "_" + "_".join(el[0] if el[0] != "f" else el[1] for el in p)
    if any(el[0] == "k" for el in p): raise Unsupported("address of a map entry")
    t = z3.Function(nm, *[z3.IntSort()] * len(ix), z3.IntSort())(*ix)
    for n, x in enumerate(ix): en.fact(z3.Function(f"{nm}_inverse{n}", z3.IntSort(), z3.IntSort())(t) == x)
    return t
def emplace_rec(c, et):
    """emplace: run the matching constructor of the element type"""
    en = c.en; key = en.p.kind(et)[1]
    nm = en.p.records[key]["name"]
    short = nm.split("::")[-1]
    cands = [f for f in en.p.fns.values() if f.get("ctor") and f.get("cls") is not None and en.p.kind(f["cls"]) == en.p.kind(et) and len(f["args"]) == c.n]
    if len(cands) != 1: raise Unsupported(f"emplace of {key}: {len(cands)} constructors")
    fn = cands[0]
    lv = en.new_root(c.st, raw_object(en, et, c.st), "obj")
    args = bind_args(en, c.st, c, [p["t"] for p in fn["args"]])
    en.call_fn(fn, c.st, this=lv, args=args)
    return en.read(c.st, lv)
@method("vec", "pop_back")
def _(c):
    v = c.objval(); oob(c, v, z3.IntVal(0), "pop_back"); c.en.write(c.st, c.obj, Vec(z3.simplify(v.len - 1), v.elem))
@method("vec", "clear")
def _(c):
    v = c.objval()
    if isinstance(v, Opaque): return
    c.en.write(c.st, c.obj, Vec(z3.IntVal(0), v.elem))
@method("vec", "reserve", "shrink_to_fit")
def _(c):
    for i in range(c.n): c.val(i)
@method("vec", "capacity")
def _(c):
    r = c.en.fresh("capacity", z3.IntSort()); c.en.fact(r >= c.objval().len); return r
@method("vec", "resize", "assign")
def _(c):
    en = c.en; k = en.p.kind(c.objt); v = c.objval()
    if isinstance(v, Opaque): return
    n = c.val(0)
    if isinstance(n, (Iter, Vec)):
        en.write(c.st, c.obj, CTORS["vec"](Call(en, c.st, c.info, c.argx, None, c.objt, c.e, c.evald), k)); return
    x = conv_to(en, c.val(1), c.t(1), k[1]) if c.n > 1 else en.default(k[1], c.st)
    if c.name == "assign":
        en.write(c.st, c.obj, Vec(n, en.const_elem(x, z3.IntSort()))); return
    if z3.is_int_value(v.len) and v.len.as_long() == 0:
        en.write(c.st, c.obj, Vec(n, en.const_elem(x, z3.IntSort()))); return
    out = en.symbolic(k[1], "resized", (z3.IntSort(),))
    j = z3.FreshConst(z3.IntSort(), "j")
    for (p, a), (_, b), (_, y) in zip(leaves(out), leaves(v.elem), leaves(x)):
        en.fact(z3.ForAll([j], z3.Select(a, j) == z3.If(j < v.len, z3.Select(b, j), y), patterns=[z3.Select(a, j)]))
    en.write(c.st, c.obj, Vec(n, out))
@method("vec", "erase")
def _(c):
    en = c.en; v = c.objval(); k = en.p.kind(c.objt)
    a = c.val(0)
    if not isinstance(a, Iter): raise Unsupported("erase")
    v = en.named(v)
    if c.n == 2:
        b = c.val(1); w = b.pos - a.pos
        en.oblige("erase-range", c.st, And(a.pos >= 0, a.pos <= b.pos, b.pos <= v.len), "safety")
    else:
        w = z3.IntVal(1)
        en.oblige("erase-position", c.st, And(a.pos >= 0, a.pos < v.len), "safety")
    out = en.symbolic(k[1], "erased", (z3.IntSort(),))
    j = z3.FreshConst(z3.IntSort(), "j")
    for (p, x), (_, y) in zip(leaves(out), leaves(v.elem)):
        en.fact(z3.ForAll([j], z3.Select(x, j) == z3.If(j < a.pos, z3.Select(y, j), z3.Select(y, j + w)), patterns=[z3.Select(x, j)]))
        en.fact(z3.ForAll([j], And(z3.Implies(j < a.pos, z3.Select(x, j) == z3.Select(y, j)), z3.Implies(j >= a.pos + w, z3.Select(x, j - w) == z3.Select(y, j))), patterns=[z3.Select(y, j)]))
    en.write(c.st, c.obj, Vec(z3.simplify(v.len - w), out))
    return Iter("vec", c.obj, a.pos)
@method("vec", "insert")
def _(c):
    en = c.en; k = en.p.kind(c.objt)
    v = c.objval(); a = c.val(0)
    if not isinstance(a, Iter): raise Unsupported("insert")
    out = en.symbolic(k[1], "inserted", (z3.IntSort(),)); j = z3.FreshConst(z3.IntSort(), "j")
    if c.n == 3:
        b, d = c.val(1), c.val(2)
        if not (isinstance(b, Iter) and isinstance(d, Iter) and b.kind == "vec"): raise Unsupported("insert range")
        src = en.read(c.st, b.lv); w = d.pos - b.pos
        xs = [y for _, y in leaves(src.elem)]
        get = lambda y, j: z3.Select(y, j - a.pos + b.pos)
    elif c.n == 2:
        x = conv_to(en, c.val(1), c.t(1), k[1])
        if isinstance(x, Vec): raise Unsupported("insert list")
        w = z3.IntVal(1); xs = [y for _, y in leaves(x)]; get = lambda y, j: y
    else: raise Unsupported("insert")
    for (p, o), (_, y), z in zip(leaves(out), leaves(v.elem), xs):
        en.fact(z3.ForAll([j], z3.Select(o, j) == z3.If(j < a.pos, z3.Select(y, j), z3.If(j < a.pos + w, get(z, j), z3.Select(y, j - w))), patterns=[z3.Select(o, j)]))
    en.write(c.st, c.obj, Vec(z3.simplify(v.len + w), out))
    return Iter("vec", c.obj, a.pos)
@method("vec arr", "swap")
def _(c):
    a, b = c.obj, c.lv(0); x, y = c.en.read(c.st, a), c.en.read(c.st, b)
    c.en.write(c.st, a, y); c.en.write(c.st, b, x)
@method("vec arr", "fill")
def _(c):
    v = c.objval(); k = c.en.p.kind(c.objt)
    c.en.write(c.st, c.obj, Vec(v.len, c.en.const_elem(c.val(0), z3.IntSort())))

# ------------------------------------------------------------------------------------ maps / sets
@method("map", "operator[]")
def _(c):
    en = c.en; l = c.obj; k = en.p.kind(c.objt); ky = c.val(0)
    if c.st.dead: return None
    m = en.read(c.st, l)
    if isinstance(m, Opaque): return en.new_root_ref(c.st, en.symbolic(k[2], "mapelem")) if hasattr(en, "new_root_ref") else Ref(en.new_root(c.st, en.symbolic(k[2], "mapelem")))
    has = z3.simplify(z3.Select(m.dom, ky))
    if any(f.eq(has) for f in c.st.pc): has = z3.BoolVal(True)
    if not z3.is_true(has):
        if not (not en.ctx and z3.is_true(has)):
            cur = select_tree(m.val, ky)
            d = ite_tree(has, cur, en.default(k[2], c.st))
            en.write(c.st, l, Map(z3.Store(m.dom, ky, z3.BoolVal(True)), store_tree(m.val, ky, d)))
    return Ref(l.ext(("k", ky)))
@method("map", "at")
def _(c):
    en = c.en; l = c.obj; ky = c.val(0)
    if c.st.dead: return None
    m = en.read(c.st, l)
    if isinstance(m, Opaque): return Ref(en.new_root(c.st, en.symbolic(c.rett(), "mapelem")))
    en.throw(c.st, Not(z3.Select(m.dom, ky)), E.Exc("std::out_of_range"))
    return Ref(l.ext(("k", ky)))
@method("map set", "find")
def _(c):
    en = c.en; ky = c.val(0); m = c.objval()
    if isinstance(m, Opaque): raise Unsupported("find in opaque map")
    return Iter("map", c.obj, ky, Not(z3.simplify(z3.Select(m.dom, ky))))
@method("map set", "count", "contains")
def _(c):
    ky = c.val(0); m = c.objval()
    if isinstance(m, Opaque): b = c.en.fresh("contains", z3.BoolSort())
    else: b = z3.Select(m.dom, ky)
    return b if c.name == "contains" else z3.If(b, z3.IntVal(1), z3.IntVal(0))
@method("map set", "end", "cend")
def _(c):
    m = c.objval()
    if isinstance(m, Opaque): raise Unsupported("opaque map")
    return Iter("map", c.obj, c.en.fresh("endkey", m.dom.sort().domain()), z3.BoolVal(True))
@method("map set", "begin", "cbegin")
def _(c):
    m = c.objval()
    if isinstance(m, Map) and m.val is None: return Iter("set", c.obj, z3.IntVal(0))
    raise Unsupported("map begin()")
@method("map set", "clear")
def _(c):
    m = c.objval()
    if isinstance(m, Opaque): return
    c.en.write(c.st, c.obj, Map(z3.K(m.dom.sort().domain(), z3.BoolVal(False)), m.val))
@method("map set", "size")
def _(c):
    m = c.objval()
    if isinstance(m, Opaque): r = c.en.fresh("size", z3.IntSort()); c.en.fact(r >= 0); return r
    n, K = c.en.enum_map(m); return n
@method("map", "reserve")
def _(c): pass
@method("set", "reserve")
def _(c): pass
@method("map set", "erase")
def _(c):
    a = c.val(0); m = c.objval()
    if isinstance(m, Opaque): return None
    if isinstance(a, Iter): ky = a.pos; had = Not(a.end)
    else: ky = a; had = z3.Select(m.dom, ky)
    c.en.write(c.st, c.obj, Map(z3.Store(m.dom, ky, z3.BoolVal(False)), m.val))
    return z3.If(had, z3.IntVal(1), z3.IntVal(0))
@method("map", "insert", "emplace", "try_emplace", "insert_or_assign")
def _(c):
    en = c.en; m = c.objval(); k = en.p.kind(c.objt)
    if isinstance(m, Opaque): return Opaque("insert")
    if c.n == 1:
        p = c.val(0)
        if isinstance(p, Vec): raise Unsupported("map insert list")
        ky, x = deref_field(en, c.st, p.f["first"]), deref_field(en, c.st, p.f["second"])
    elif c.n == 2 and not isinstance(a0 := c.val(0), Iter):
        ky = a0
        if c.kind(1)[0] == en.p.kind(k[2])[0] or en.p.kind(k[2])[0] not in ("rec",): x = conv_to(en, c.val(1), c.t(1), k[2])
        else: x = emplace_rec(Call(en, c.st, c.info, c.argx[1:], None, None, c.e), k[2])
    else: raise Unsupported("map insert")
    if c.st.dead: return None
    m = en.read(c.st, c.obj)
    has = z3.simplify(z3.Select(m.dom, ky))
    old = select_tree(m.val, ky)
    nv = x if c.name == "insert_or_assign" else ite_tree(has, old, x)
    en.write(c.st, c.obj, Map(z3.Store(m.dom, ky, z3.BoolVal(True)), store_tree(m.val, ky, nv)))
    return Rec("pair", {"first": Iter("map", c.obj, ky, z3.BoolVal(False)), "second": Not(has)})
@method("set", "insert", "emplace")
def _(c):
    m = c.objval()
    if isinstance(m, Opaque): return Opaque("insert")
    ky = c.val(0)
    if not is_leaf(ky): raise Unsupported("set insert")
    has = z3.simplify(z3.Select(m.dom, ky))
    c.en.write(c.st, c.obj, Map(z3.Store(m.dom, ky, z3.BoolVal(True)), None))
    return Rec("pair", {"first": Iter("map", c.obj, ky, z3.BoolVal(False)), "second": Not(has)})

# ------------------------------------------------------------------------------------ iterators
def iter_binop(en, op, a, b, st):
    if isinstance(a, Iter) and isinstance(b, Iter):
        if a.kind == "vec" and b.kind == "vec":
            if not same_root(a.lv, b.lv) and op in ("==", "!="): raise Unsupported("iterators into different containers")
            return {"==": a.pos == b.pos, "!=": a.pos != b.pos, "-": a.pos - b.pos, "<": a.pos < b.pos, ">": a.pos > b.pos, "<=": a.pos <= b.pos, ">=": a.pos >= b.pos}[op]
        if a.kind == "str" and b.kind == "str":
            return {"==": a.pos == b.pos, "!=": a.pos != b.pos, "-": a.pos - b.pos, "<": a.pos < b.pos, ">": a.pos > b.pos, "<=": a.pos <= b.pos, ">=": a.pos >= b.pos}[op]
        if a.kind == "tok" and b.kind == "tok":
            if (a.lv is None) == (b.lv is None): raise Unsupported("comparison of match iterators")
            x = a if a.lv is not None else b; eq = x.pos == en.read(st, x.lv).len
            return eq if op == "==" else Not(eq)
        if a.kind == "map" and b.kind == "map":
            eq = Or(And(a.end, b.end), And(Not(a.end), Not(b.end), a.pos == b.pos))
            return eq if op == "==" else Not(eq)
    if isinstance(a, Iter) and is_leaf(b) and op in "+-":
        return Iter(a.kind, a.lv, z3.simplify(a.pos + b if op == "+" else a.pos - b))
    raise Unsupported("iterator operation " + op)
def same_root(a, b): return [r for _, r, _ in a.alts] == [r for _, r, _ in b.alts]
def char_at(en, st, it):
    s = en.read(st, it.lv)
    en.oblige("character-dereferenceable", st, And(it.pos >= 0, it.pos < slen(en, s)), "safety")
    return code_at(en, s, it.pos)
@method("iter regex_iter", "operator*", "operator->")
def _(c):
    it = c.objval()
    if isinstance(it, Opaque): return Ref(c.en.new_root(c.st, c.en.symbolic(c.rett(), "deref")))
    if it.kind == "str":
        return char_at(c.en, c.st, it)
    if it.kind in ("vec", "tok"):
        v = c.en.read(c.st, it.lv)
        c.en.oblige("iterator-dereferenceable", c.st, And(it.pos >= 0, it.pos < v.len), "safety")
        t = it.lv.ext(("i", it.pos))
    else:
        c.en.oblige("iterator-dereferenceable", c.st, Not(it.end), "safety")
        m = c.en.read(c.st, it.lv)
        if m.val is None: t = c.en.new_root(c.st, it.pos)
        else:
            klv = c.en.new_root(c.st, it.pos)
            t = c.en.new_root(c.st, Rec("pair", {"first": Ref(klv), "second": Ref(it.lv.ext(("k", it.pos)))}))
    return Ref(t) if c.name == "operator*" else Ptr([(True, ("lv", t))])
@method("iter regex_iter", "operator++", "operator--")
def _(c):
    it = c.objval()
    if it.kind == "map": raise Unsupported("map iterator increment")
    d = 1 if c.name == "operator++" else -1
    c.en.write(c.st, c.obj, Iter(it.kind, it.lv, z3.simplify(it.pos + d)))
    return it if c.n else Ref(c.obj)
@method("iter regex_iter", "operator+", "operator-", "operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=")
def _(c): return iter_binop(c.en, c.name[8:], c.objval(), c.val(0), c.st)
@method("iter", "operator+=", "operator-=")
def _(c):
    it = c.objval(); c.en.write(c.st, c.obj, iter_binop(c.en, c.name[8], it, c.val(0), c.st)); return Ref(c.obj)
@method("iter", "base")
def _(c): return c.objval()

# ------------------------------------------------------------------------------------ smart pointers
@method("ptr", "operator*")
def _(c):
    v = c.objval(); k = c.en.p.kind(c.objt)
    return Ref(c.en.deref(v, k[1], c.st))
@method("ptr", "operator->", "get", "lock")
def _(c): return c.objval()
@method("ptr", "conv")
def _(c): return c.en.to_bool(c.objval())
@method("ptr", "expired")
def _(c): return Not(c.en.to_bool(c.objval()))
@method("ptr", "reset")
def _(c): c.en.write(c.st, c.obj, z3.IntVal(0) if c.n == 0 else c.val(0))
@method("ptr", "release")
def _(c):
    v = c.objval(); c.en.write(c.st, c.obj, z3.IntVal(0)); return v
@method("ptr", "use_count")
def _(c):
    r = c.en.fresh("use_count", z3.IntSort()); c.en.fact(r >= 0); return r
@method("refw", "get", "conv")
def _(c):
    v = c.objval(); k = c.en.p.kind(c.objt)
    return Ref(c.en.deref(v, k[1], c.st))
@model("std::bind")
def _(c):
    """the bound call: arguments are copied (std::ref: referred to), placeholders stand for the arguments of the call"""
    import re
    en = c.en; f = c.val(0); parts = []
    for i in range(1, c.n):
        m = re.search(r"_Placeholder<(\d+)>", en.p.T(c.t(i)).get("s", "") + " " + str(en.p.T(c.t(i)).get("name", "")))
        parts.append(("ph", int(m.group(1)) - 1) if m else ("v", c.val(i), c.t(i)))
    def py(en, st, args):
        vs = [args[p[1]] if p[0] == "ph" else p[1] for p in parts]; ts = [None if p[0] == "ph" else p[2] for p in parts]
        if isinstance(f, Fn) and isinstance(f.py, tuple) and f.py[0] == "callee":
            info = f.py[1]
            if info.get("cls") is not None and not info.get("static"):
                o = vs[0]
                if isinstance(o, Ref): obj = o.lv
                else:
                    k = en.p.kind(ts[0]) if ts[0] is not None else None
                    if not (k and k[0] in ("ptr", "refw")): raise Unsupported("bound object")
                    obj = en.deref(o, k[1], st)
                if st.dead: return None
                x = Call(en, st, info, obj=obj, objt=info["cls"], evald=vs[1:]); x.virtual = bool(info.get("virtual"))
                return invoke(en, st, x)
            x = Call(en, st, info, evald=vs); x.virtual = False
            return invoke(en, st, x)
        return en.apply_fn(f, vs, st)
    return Fn(py)
@model("std::ref", "std::cref")
def _(c): return Ptr([(True, ("lv", c.lv(0)))])
@method("fn", "operator()")
def _(c):
    f = c.objval()
    if isinstance(f, (Closure, Fn)):
        args = [Ref(c.lv(i)) for i in range(c.n)]
        return c.en.apply_fn(f, args, c.st)
    h = c.en.contracts.get("call:std::function")
    if h: return h(c.en, c.st, c)
    raise Unsupported("call of an unknown std::function")
@method("fn", "conv")
def _(c):
    f = c.objval()
    if isinstance(f, (Closure, Fn)): return z3.BoolVal(True)
    if is_leaf(f): return f != 0
    return c.en.fresh("fn_nonempty", z3.BoolSort())

# ------------------------------------------------------------------------------------ locks, atomics, chrono
@method("lock", "mutex")
def _(c):
    old = c.objval()
    for term, mx, cls, _ in c.en.lock_log:
        if is_leaf(old) and occurs_in(old, term) and len(mx) == 1: return Ptr([(True, ("lv", mx[0]))])
    raise Unsupported("mutex() of an unknown lock")
@method("lock", "owns_lock", "conv")
def _(c): return c.objval()
@method("lock", "try_lock")
def _(c):
    b = relock(c, "try"); c.en.write(c.st, c.obj, b); return b
@method("lock", "lock")
def _(c):
    b = relock(c, "block"); c.en.fact(b); c.en.write(c.st, c.obj, b)
def relock(c, how):
    """another attempt on the mutexes the lock object was made for"""
    en = c.en; b = en.fresh("lock_acquired", z3.BoolSort()); old = c.objval()
    for term, mx, cls, _ in list(en.lock_log):
        if is_leaf(old) and occurs_in(old, term): en.lock_log.append((b, mx, cls, how)); break
    return b
def occurs_in(t, x):
    import loops
    return loops.occurs(t, x)
@method("lock", "unlock")
def _(c): c.en.write(c.st, c.obj, z3.BoolVal(False))
@method("double int bool enum dur", "load", "conv")
def _(c): return c.objval()
@method("double int bool enum dur", "store")
def _(c): c.en.write(c.st, c.obj, c.en.convert(c.val(0), c.t(0), c.objt) if c.en.p.kind(c.t(0))[0] != c.en.p.kind(c.objt)[0] else c.val(0))
@method("double int bool enum dur", "exchange")
def _(c):
    o = c.objval(); c.en.write(c.st, c.obj, c.val(0)); return o
@method("double int bool enum dur", "compare_exchange_strong", "compare_exchange_weak")
def _(c):
    """writes the new value where the expected one is still held (the weak one may also fail without reason), else tells which one is"""
    o, e, v = c.objval(), c.en.read(c.st, c.lv(0)), c.val(1); b = o == e
    if c.name.endswith("weak"): b = z3.And(b, c.en.fresh("no_spurious_failure", z3.BoolSort()))
    c.en.write(c.st, c.obj, z3.If(b, v, o)); c.en.write(c.st, c.lv(0), z3.If(b, e, o)); return b
@method("int", "operator++", "fetch_add")
def _(c):
    o = c.objval(); c.en.write(c.st, c.obj, o + (c.val(0) if c.name == "fetch_add" else 1)); return o if c.n else c.objval()
@method("int", "operator--", "fetch_sub")
def _(c):
    o = c.objval(); c.en.write(c.st, c.obj, o - (c.val(0) if c.name == "fetch_sub" else 1)); return o if c.n else c.objval()
@model("std::chrono::steady_clock::now", "std::chrono::system_clock::now", "std::chrono::_V2::steady_clock::now")
def _(c): return c.en.symbolic(c.rett(), "now")
@method("dur", "count")
def _(c):
    v = c.objval(); k = c.retkind()
    if k[0] == "double": return c.en.fresh("dur_count", c.en.DS)
    return v
@model("std::chrono::duration_cast")
def _(c):
    c.val(0); return c.en.symbolic(c.rett(), "duration_cast")

# ------------------------------------------------------------------------------------ algorithms, math
def val_ret(c, v): return v
@model("std::min")
def _(c):
    if c.n == 1 : return minmax_list(c, -1)
    a, b = c.val(0), c.val(1)
    if c.st.dead: return None
    return Ite(lt(c.en, b, a), b, a)
@model("std::max")
def _(c):
    if c.n == 1: return minmax_list(c, 1)
    a, b = c.val(0), c.val(1)
    if c.st.dead: return None
    return Ite(lt(c.en, a, b), b, a)
def minmax_list(c, sgn):
    v = c.val(0)
    if not (isinstance(v, Vec) and z3.is_int_value(v.len)): raise Unsupported("min/max of list")
    r = z3.Select(v.elem, z3.IntVal(0)); r = z3.simplify(r)
    for i in range(1, v.len.as_long()):
        x = z3.simplify(z3.Select(v.elem, z3.IntVal(i)))
        r = Ite(lt(c.en, x, r) if sgn < 0 else lt(c.en, r, x), x, r)
    return r
def lt(en, a, b):
    if isinstance(a, z3.FPRef): return en.flt(a, b)
    if a.sort() == en.SS and en.strmode != "seq": return z3.Function("str_lt", E.Str, E.Str, z3.BoolSort())(a, b)
    return a < b
@model("std::clamp")
def _(c):
    v, lo, hi = c.val(0), c.val(1), c.val(2)
    if c.st.dead: return None
    c.en.oblige("clamp-bounds-ordered", c.st, Not(lt(c.en, hi, lo)), "safety")
    return Ite(lt(c.en, v, lo), lo, Ite(lt(c.en, hi, v), hi, v))
@model("std::isnan")
def _(c):
    v = c.val(0); return c.en.is_nan(v) if not z3.is_int(v) else z3.BoolVal(False)
@model("std::isfinite")
def _(c):
    v = c.val(0); return c.en.is_fin(v) if not z3.is_int(v) else z3.BoolVal(True)
@model("std::isinf")
def _(c): return c.en.is_inf(c.val(0))
@model("std::signbit")
def _(c):
    v = c.val(0)
    return v < 0 if c.en.real else z3.fpIsNegative(v)
@model("std::fabs", "std::abs", "fabs", "abs")
def _(c):
    v = c.val(0)
    if z3.is_int(v) and not c.en.real or z3.is_int(v): return z3.If(v < 0, -v, v)
    return c.en.fabs(v)
@model("std::copysign", "copysign")
def _(c):
    a, b = c.val(0), c.val(1); en = c.en
    if en.real: return z3.If(b < 0, -en.fabs(a), en.fabs(a))
    ab = z3.fpAbs(a)
    return z3.If(z3.fpIsNegative(b), z3.fpNeg(ab), ab)
@model(*"round floor ceil trunc sqrt exp sin cos atan2 fmod pow cbrt".split(), "std::round", "std::floor", "std::ceil", "std::trunc", "std::sqrt", "std::exp", "std::sin", "std::cos", "std::atan2", "std::fmod", "std::pow", "std::cbrt", "std::lround", "std::llround")
def _(c):
    en = c.en; a = [c.val(i) for i in range(c.n)]
    if all(z3.is_fp_value(x) for x in a) and c.n == 1 and c.name in ("floor", "ceil", "round", "trunc") :
        rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA()}[c.name]
        return z3.simplify(z3.fpRoundToIntegral(rm, a[0]))
    ret = en.sort_of(c.rett())
    f = z3.Function("math_" + c.name, *[x.sort() for x in a], ret)
    r = f(*a)
    if c.n == 1 and isinstance(r, z3.FPRef):
        x = a[0]; zero = z3.FPVal(0.0, r.sort())
        if c.name in ("floor", "ceil", "round", "trunc"):
            en.fact(And(z3.fpIsNaN(r) == z3.fpIsNaN(x), z3.Implies(z3.fpIsInf(x), r == x), z3.Implies(z3.fpLEQ(zero, x), z3.fpLEQ(zero, r)), z3.Implies(z3.fpLEQ(x, zero), z3.fpLEQ(r, zero))))
            if c.name == "floor": en.fact(z3.Implies(Not(z3.fpIsNaN(x)), z3.fpLEQ(r, x)))
            if c.name == "ceil": en.fact(z3.Implies(Not(z3.fpIsNaN(x)), z3.fpLEQ(x, r)))
        if c.name == "sqrt":
            en.fact(And(z3.fpIsNaN(r) == Or(z3.fpIsNaN(x), z3.fpLT(x, zero)), z3.Implies(Not(z3.fpIsNaN(r)), z3.fpLEQ(zero, r)), z3.Implies(And(z3.fpIsInf(x), Not(z3.fpIsNaN(r))), z3.fpIsInf(r))))
            en.fact(z3.Implies(And(Not(z3.fpIsInf(x)), Not(z3.fpIsNaN(x))), Not(z3.fpIsInf(r))))
    return r
@model("ldexp", "std::ldexp", "scalbn", "std::scalbn")
def _(c):
    a, b = c.val(0), c.val(1)
    if z3.is_fp_value(a) and z3.is_int_value(b):
        try: return c.en.dval(math.ldexp(float(z3.simplify(z3.fpToReal(a)).as_fraction()), b.as_long()))
        except Exception: pass
    raise Unsupported(c.name)
@model("std::swap", "std::exchange", "std::iter_swap")
def _(c):
    if c.name == "exchange":
        l = c.lv(0); o = c.en.read(c.st, l); c.en.write(c.st, l, conv_to(c.en, c.val(1), c.t(1), c.t(0))); return o
    if c.name != "swap": raise Unsupported(c.name)
    a, b = c.lv(0), c.lv(1); x, y = c.en.read(c.st, a), c.en.read(c.st, b)
    c.en.write(c.st, a, y); c.en.write(c.st, b, x)
@model("std::move", "std::forward", "std::as_const", "std::launder", "std::move_if_noexcept")
def _(c):
    if c.n != 1: raise Unsupported("std::move algorithm")
    return Ref(c.lv(0))
@model("std::addressof")
def _(c): return Ptr([(True, ("lv", c.lv(0)))])
@model("std::make_pair", "std::make_tuple", "std::tie")
def _(c):
    if c.name == "make_pair": return Rec("pair", {"first": c.val(0), "second": c.val(1)})
    return Rec("tuple", {f"t{i}": c.val(i) for i in range(c.n)})
@model("std::make_optional")
def _(c): return Opt(z3.BoolVal(True), c.val(0))
@model("std::get")
def _(c):
    en = c.en; l = c.lv(0); v = en.read(c.st, l)
    ta = c.info.get("targs") or []
    if isinstance(v, Rec) and v.name in ("tuple", "pair"):
        i = int(ta[0]["int"]) if "int" in ta[0] else None
        if i is None: raise Unsupported("std::get by type")
        return Ref(l.ext(("f", f"t{i}" if v.name == "tuple" else ["first", "second"][i])))
    if isinstance(v, Rec) and v.name == "variant":
        k = en.p.kind(c.t(0))
        i = int(ta[0]["int"]) if "int" in ta[0] else [en.p.kind(a) for a in k[1]].index(en.p.kind(ta[0]["ty"]))
        en.throw(c.st, v.f["index"] != i, E.Exc("std::bad_variant_access"))
        return Ref(l.ext(("f", f"v{i}")))
    if isinstance(v, Vec): return Ref(l.ext(("i", z3.IntVal(int(ta[0]["int"])))))
    raise Unsupported("std::get")
@model("std::get_if")
def _(c):
    en = c.en; pv = c.val(0)
    if not (isinstance(pv, Ptr) and len(pv.alts) == 1 and pv.alts[0][1]): raise Unsupported("get_if")
    l = pv.alts[0][1][1]; v = en.read(c.st, l); ta = c.info["targs"]
    pt = en.p.kind(c.t(0)); k = en.p.kind(pt[1])
    i = int(ta[0]["int"]) if "int" in ta[0] else [en.p.kind(a) for a in k[1]].index(en.p.kind(ta[0]["ty"]))
    ok = v.f["index"] == i
    return Ptr([(ok, ("lv", l.ext(("f", f"v{i}")))), (Not(ok), None)])
@model("std::holds_alternative")
def _(c):
    en = c.en; v = c.val(0); k = en.p.kind(c.t(0)); ta = c.info["targs"]
    i = [en.p.kind(a) for a in k[1]].index(en.p.kind(ta[0]["ty"]))
    return v.f["index"] == i
@method("variant", "index")
def _(c): return c.objval().f["index"]
@method("variant", "emplace")
def _(c):
    en = c.en; k = en.p.kind(c.objt); ta = c.info["targs"]
    i = int(ta[0]["int"]) if "int" in ta[0] else [en.p.kind(a) for a in k[1]].index(en.p.kind(ta[0]["ty"]))
    v = c.objval(); f = dict(v.f); f["index"] = z3.IntVal(i)
    f[f"v{i}"] = conv_to(en, c.val(0), c.t(0), k[1][i]) if c.n else en.default(k[1][i], c.st)
    en.write(c.st, c.obj, Rec("variant", f)); return Ref(c.obj.ext(("f", f"v{i}")))

def numlim(c):
    en = c.en; full = c.info["q"]; k = c.retkind()
    if k[0] in ("double", "float"):
        if en.real:
            if c.name in ("epsilon",): return z3.RealVal("1/4503599627370496")
            return en.fresh("real_" + c.name, z3.RealSort(), ctx=False)
        x = {"infinity": math.inf, "quiet_NaN": math.nan, "signaling_NaN": math.nan, "max": 1.7976931348623157e308, "lowest": -1.7976931348623157e308, "min": 2.2250738585072014e-308, "epsilon": 2.220446049250313e-16, "denorm_min": 5e-324}
        if k[0] == "float":
            if c.name in ("quiet_NaN", "signaling_NaN"): return z3.fpNaN(E.F32)
            x = {"infinity": math.inf, "max": 3.4028234663852886e38, "lowest": -3.4028234663852886e38, "min": 1.1754943508222875e-38, "epsilon": 1.1920928955078125e-07, "denorm_min": 1.401298464324817e-45}
            return z3.simplify(z3.fpFPToFP(z3.RNE(), en.dval(x[c.name]), E.F32))
        if c.name in ("quiet_NaN", "signaling_NaN"): return z3.fpNaN(E.F64)
        return en.dval(x[c.name])
    if k[0] == "int":
        b, s = k[1], k[2]
        return z3.IntVal(((1 << (b - 1)) - 1 if s else (1 << b) - 1) if c.name == "max" else (-(1 << (b - 1)) if s else 0))
    raise Unsupported("numeric_limits")
for _n in "infinity quiet_NaN signaling_NaN max min lowest epsilon denorm_min".split(): MODELS["std::numeric_limits::" + _n] = numlim

def rng(c, i=0):
    a, b = c.val(i), c.val(i + 1)
    if not (isinstance(a, Iter) and isinstance(b, Iter) and a.kind == "vec"): raise Unsupported("algorithm over " + str(type(a)))
    return a, b, c.en.read(c.st, a.lv)

def elem_eq(c, a, b, et):
    k = c.en.p.kind(et)
    if k[0] in ("double", "float"): return c.en.feq(a, b)
    if k[0] == "rec":
        raise Unsupported("user-defined equality in algorithm")
    return eq_tree(a, b)

@model("std::find")
def _(c):
    en = c.en; a, b, v = rng(c); x = c.val(2); v = en.named(v)
    p = en.fresh("find", z3.IntSort()); j = z3.FreshConst(z3.IntSort(), "j")
    kt = c.t(2)
    ej = select_tree(v.elem, j)
    en.fact(z3.Implies(a.pos <= b.pos, And(a.pos <= p, p <= b.pos)))
    le = list(leaves(ej))
    en.fact(z3.ForAll([j], z3.Implies(And(a.pos <= j, j < p), Not(elem_eq(c, ej, x, kt))), patterns=[le[0][1]]))
    en.fact(z3.Implies(And(a.pos <= p, p < b.pos), elem_eq(c, select_tree(v.elem, p), x, kt)))
    return Iter("vec", a.lv, p)
def element_lt(en, kt, a, b):
    k = en.p.kind(kt)
    if k[0] == "str" and en.strmode != "seq":
        strict_total(en); return z3.Function("str_lt", E.Str, E.Str, z3.BoolSort())(a, b)
    if k[0] in ("int", "enum"): return a < b
    raise Unsupported("ordering of " + k[0])
def strict_total(en):
    """std::string's operator< is a strict total order"""
    if getattr(en, "_total", False): return
    en._total = True; lt = z3.Function("str_lt", E.Str, E.Str, z3.BoolSort()); a, b = z3.Consts("a b", E.Str)
    en.fact(z3.ForAll([a, b], And(z3.Implies(lt(a, b), And(Not(lt(b, a)), a != b)), Or(lt(a, b), lt(b, a), a == b)), patterns=[lt(a, b)]))
@model("std::sort", "std::stable_sort")
def _(c):
    """the same elements, in ascending order"""
    en = c.en; a, b, v = rng(c)
    if c.n != 2 or not (z3.is_int_value(a.pos) and a.pos.as_long() == 0 and z3.simplify(b.pos == v.len).eq(z3.BoolVal(True))): raise Unsupported("std::sort of a part or with a comparator")
    if not is_leaf(v.elem): raise Unsupported("std::sort of records")
    r = en.fresh("sorted", v.elem.sort()); en.nfresh += 1
    to, fro = (z3.Function(f"{n}!{en.nfresh}", z3.IntSort(), z3.IntSort()) for n in ("sorted_from", "sorted_to"))
    i, j = z3.Ints("i j"); n = v.len; S = lambda x, i: z3.Select(x, i)
    kt = en.p.kind(en.p.targ(en.p.T(en.p.strip_ref(c.t(0))), 0))
    if kt[0] != "ptr": raise Unsupported("std::sort of " + kt[0])
    lt = lambda x, y: element_lt(en, kt[1], x, y)
    en.fact(z3.ForAll([i], z3.Implies(And(0 <= i, i < n), And(0 <= to(i), to(i) < n, fro(to(i)) == i, S(r, i) == S(v.elem, to(i)))), patterns=[S(r, i)]))
    en.fact(z3.ForAll([i], z3.Implies(And(0 <= i, i < n), And(0 <= fro(i), fro(i) < n, to(fro(i)) == i, S(r, fro(i)) == S(v.elem, i))), patterns=[S(v.elem, i)]))
    en.fact(z3.ForAll([i, j], z3.Implies(And(0 <= i, i < j, j < n), Or(lt(S(r, i), S(r, j)), S(r, i) == S(r, j))), patterns=[z3.MultiPattern(S(r, i), S(r, j))]))
    en.write(c.st, a.lv, Vec(v.len, r))
@model("std::adjacent_find")
def _(c):
    en = c.en; a, b, v = rng(c)
    if c.n != 2: raise Unsupported("adjacent_find with a predicate")
    if not is_leaf(v.elem): raise Unsupported("adjacent_find over records")
    p = en.fresh("adjacent", z3.IntSort()); j = z3.FreshConst(z3.IntSort(), "j"); S = lambda i: z3.Select(v.elem, i)
    en.fact(z3.Implies(a.pos <= b.pos, And(a.pos <= p, p <= b.pos)))
    en.fact(z3.ForAll([j], z3.Implies(And(a.pos <= j, j < p, j + 1 < b.pos), S(j) != S(j + 1)), patterns=[S(j)]))
    en.fact(z3.Implies(And(a.pos <= p, p < b.pos), And(p + 1 < b.pos, S(p) == S(p + 1))))
    return Iter("vec", a.lv, p)
@model("std::count")
def _(c):
    en = c.en; a, b, v = rng(c); x = c.val(2)
    n = count_fn(en, v.elem, x)
    return n(b.pos) - n(a.pos)
def count_fn(en, arr, x):
    """number of j<i with arr[j]==x : recursive function with axioms"""
    f = z3.Function("count_" + str(arr.sort().range()), arr.sort(), x.sort(), z3.IntSort(), z3.IntSort())
    i = z3.FreshConst(z3.IntSort(), "i"); l = z3.FreshConst(z3.IntSort(), "l")
    en.fact(f(arr, x, z3.IntVal(0)) == 0)
    en.fact(z3.ForAll([i], z3.Implies(i >= 0, f(arr, x, i + 1) == f(arr, x, i) + z3.If(z3.Select(arr, i) == x, 1, 0)), patterns=[f(arr, x, i)]))
    en.fact(z3.ForAll([i], z3.Implies(i >= 0, And(f(arr, x, i) >= 0, f(arr, x, i) <= i)), patterns=[f(arr, x, i)]))
    return lambda t: f(arr, x, t)

def pred_at(c, v, lv, fval, idx):
    """truth of the predicate on element idx, evaluated symbolically (no side effects, may not throw)"""
    en = c.en; st = c.st.clone(); base = len(st.pc)
    en.ctx.append(idx)
    nf = len(en.facts); sinks = en.throw_sinks; en.throw_sinks = [[]]
    try:
        before = dict(st.store)
        st.pc.append(And(idx >= 0, idx < v.len))
        r = en.apply_fn(fval, [Ref(lv.ext(("i", idx)))], st)
        if isinstance(r, Ref): r = en.read(st, r.lv)
        thr = en.throw_sinks[0]
    finally:
        en.ctx.pop(); en.throw_sinks = sinks
    if thr: raise Unsupported("predicate may throw")
    for k, x in before.items():
        if st.store.get(k) is not x and not (is_leaf(x) and is_leaf(st.store.get(k)) and x.eq(st.store[k])):
            if isinstance(k, str) or k[0] == "v": raise Unsupported("predicate with side effects")
    new = en.facts[nf:]; del en.facts[nf:]
    j = z3.FreshConst(z3.IntSort(), "j")
    for f in new:
        import loops
        if loops.occurs(f, idx): en.fact(z3.ForAll([j], z3.substitute(f, (idx, j))))
        else: en.fact(f)
    extra = [p for p in st.pc[base + 1:]]
    return en.to_bool(r)

def pred_fn(c, fi):
    en = c.en; a, b, v = rng(c); f = c.val(fi)
    en.nfresh += 1
    idx = z3.Int(f"idx!{en.nfresh}")
    en.no_obl += 0
    t = pred_at(c, v, a.lv, f, idx)
    return a, b, v, (lambda j: z3.substitute(t, (idx, j)))
@model("std::find_if", "std::find_if_not")
def _(c):
    en = c.en; a, b, v, P = pred_fn(c, 2)
    if c.name == "find_if_not": P0 = P; P = lambda j: Not(P0(j))
    p = en.fresh("find_if", z3.IntSort()); j = z3.FreshConst(z3.IntSort(), "j")
    en.fact(z3.Implies(a.pos <= b.pos, And(a.pos <= p, p <= b.pos)))
    en.fact(z3.ForAll([j], z3.Implies(And(a.pos <= j, j < p), Not(P(j)))))
    en.fact(z3.Implies(And(a.pos <= p, p < b.pos), P(p)))
    return Iter("vec", a.lv, p)
@model("std::any_of", "std::all_of", "std::none_of")
def _(c):
    en = c.en; a, b, v, P = pred_fn(c, 2)
    neg = c.name == "all_of"
    Q = (lambda j: Not(P(j))) if neg else P
    j = z3.FreshConst(z3.IntSort(), "j"); w = en.fresh("witness", z3.IntSort()); r = en.fresh(c.name, z3.BoolSort())
    some = And(a.pos <= w, w < b.pos, Q(w))
    none = z3.ForAll([j], z3.Implies(And(a.pos <= j, j < b.pos), Not(Q(j))))
    found = r if c.name == "any_of" else Not(r)
    en.fact(z3.Implies(found, some)); en.fact(Or(found, none))
    return r
@model("std::count_if")
def _(c):
    en = c.en; a, b, v, P = pred_fn(c, 2)
    r = en.fresh("count_if", z3.IntSort()); j = z3.FreshConst(z3.IntSort(), "j")
    en.fact(And(r >= 0, r <= z3.If(b.pos >= a.pos, b.pos - a.pos, z3.IntVal(0))))
    en.fact((r == 0) == z3.ForAll([j], z3.Implies(And(a.pos <= j, j < b.pos), Not(P(j)))))
    en.fact((r == b.pos - a.pos) == z3.ForAll([j], z3.Implies(And(a.pos <= j, j < b.pos), P(j))))
    return r
@model("std::for_each")
def _(c):
    en = c.en; a, b, v = rng(c); f = c.val(2)
    if not (z3.is_int_value(a.pos) and a.pos.as_long() == 0): raise Unsupported("for_each range")
    def pre(x, it):
        pre.it = it; return it < b.pos
    def body(x): en.apply_fn(f, [Ref(a.lv.ext(("i", pre.it)))], x)
    en.loop(c.st, pre, body, lambda x: None, b.pos, {"k": "for_each"})
    return f
@model("std::distance")
def _(c):
    a, b = c.val(0), c.val(1); return b.pos - a.pos
@model("std::next", "std::prev")
def _(c):
    a = c.val(0); d = c.val(1) if c.n > 1 else z3.IntVal(1)
    return Iter(a.kind, a.lv, z3.simplify(a.pos + d if c.name == "next" else a.pos - d))
@model("std::begin", "std::cbegin")
def _(c): return Iter("vec", c.lv(0), z3.IntVal(0))
@model("std::end", "std::cend")
def _(c):
    l = c.lv(0); return Iter("vec", l, c.en.read(c.st, l).len)
@model("std::back_inserter")
def _(c): return Iter("back", c.lv(0), z3.IntVal(0))
@model("std::inserter")
def _(c): return Iter("ins", c.lv(0), z3.IntVal(0))
def out_put(en, st, out, i, x):
    """*out++ = x, where i counts the values written so far (used by iterators into an existing range)"""
    v = en.read(st, out.lv)
    if out.kind == "back":
        if isinstance(v, Vec): en.write(st, out.lv, Vec(z3.simplify(v.len + 1), store_tree(v.elem, v.len, x))); return
    elif out.kind == "ins":
        if isinstance(v, Map) and v.val is None and is_leaf(x): en.write(st, out.lv, Map(z3.Store(v.dom, x, z3.BoolVal(True)), None)); return
    elif out.kind == "vec":
        p = z3.simplify(out.pos + i); en.oblige("output-range", st, And(p >= 0, p < v.len), "safety")
        en.write(st, out.lv.ext(("i", p)), x); return
    raise Unsupported("output iterator " + out.kind)
@model("std::copy", "std::copy_if", "std::transform")
def _(c):
    en = c.en; a, b, v = rng(c); out = c.val(2)
    if not isinstance(out, Iter) or not (z3.is_int_value(a.pos) and a.pos.as_long() == 0): raise Unsupported("std::" + c.name + " range")
    if c.name != "copy" and c.n != 4: raise Unsupported("std::" + c.name + " form")
    f = c.val(3) if c.n > 3 else None
    if c.name == "copy_if" and out.kind == "vec": raise Unsupported("copy_if into a range")
    it0 = [None]
    def pre(x, it): it0[0] = it; return it < b.pos
    def body(x):
        i = it0[0]; e = a.lv.ext(("i", i))
        if c.name == "transform":
            r = en.apply_fn(f, [Ref(e)], x)
            if isinstance(r, Ref): r = en.read(x, r.lv)
            out_put(en, x, out, i, r)
        elif c.name == "copy": out_put(en, x, out, i, en.read(x, e))
        else:
            t = en.to_bool(en.apply_fn(f, [Ref(e)], x))
            en.branch(x, t, lambda y: out_put(en, y, out, i, en.read(y, e)), lambda y: None)
    en.loop(c.st, pre, body, lambda x: None, b.pos, {"k": c.name})
    return Iter(out.kind, out.lv, z3.simplify(out.pos + b.pos)) if out.kind == "vec" and c.name != "copy_if" else out
@model("std::equal")
def _(c):
    en = c.en; a, b, v = rng(c); d = c.val(2)
    if c.n == 4:
        e2 = c.val(3)
        if not isinstance(e2, Iter): raise Unsupported("std::equal with a predicate")
    elif c.n != 3: raise Unsupported("std::equal form")
    w = en.read(c.st, d.lv)
    if not is_leaf(v.elem) or not is_leaf(w.elem) or v.elem.sort() != w.elem.sort(): raise Unsupported("std::equal elements")
    if c.n == 3: en.oblige("second-range-long-enough", c.st, z3.Implies(b.pos > a.pos, w.len - d.pos >= b.pos - a.pos), "safety")
    en.oblige("range-valid", c.st, a.pos <= b.pos, "safety")
    same = (lambda x, y: en.feq(x, y)) if not z3.is_bool(z3.Select(v.elem, z3.IntVal(0))) and isinstance(z3.Select(v.elem, z3.IntVal(0)), z3.FPRef) else (lambda x, y: x == y)
    r = en.fresh("equal", z3.BoolSort()); k = en.fresh("differ", z3.IntSort()); j = z3.FreshConst(z3.IntSort(), "j")
    at = lambda t: same(z3.Select(v.elem, t), z3.Select(w.elem, t - a.pos + d.pos))
    sized = z3.BoolVal(True) if c.n == 3 else (b.pos - a.pos == e2.pos - d.pos)
    en.fact(z3.Implies(r, And(sized, z3.ForAll([j], z3.Implies(And(a.pos <= j, j < b.pos), at(j)), patterns=[z3.Select(v.elem, j)]))))
    en.fact(Or(r, Not(sized), And(a.pos <= k, k < b.pos, Not(at(k)))))
    return r
@model("std::fill")
def _(c):
    en = c.en; a, b, v = rng(c)
    k = None; j = z3.FreshConst(z3.IntSort(), "j")
    if c.name == "fill":
        x = c.val(2); out = tmap(lambda t: en.fresh("filled", t.sort()), v.elem)
        if is_leaf(x) and is_leaf(v.elem) and x.sort() != v.elem.sort().range(): raise Unsupported("fill conversion")
        for (p, o), (_, y), (_, z) in zip(leaves(out), leaves(v.elem), leaves(x)):
            en.fact(z3.ForAll([j], z3.Select(o, j) == z3.If(And(j >= a.pos, j < b.pos), z, z3.Select(y, j)), patterns=[z3.Select(o, j)]))
        en.write(c.st, a.lv, Vec(v.len, out)); return None
    raise Unsupported("std::" + c.name)

# ------------------------------------------------------------------------------------ strings
def slen(en, s):
    if en.strmode == "seq": return z3.Length(s)
    f = z3.Function("str_len", E.Str, z3.IntSort()); r = f(s); en.fact(r >= 0); en.fact((r == 0) == (s == en.strlit(""))); return r
def concat(en, a, b):
    if en.strmode == "seq": return z3.simplify(z3.Concat(a, b))
    f = z3.Function("str_concat", E.Str, E.Str, E.Str)
    if z3.is_const(a) and a.eq(en.strlit("")): return b
    if z3.is_const(b) and b.eq(en.strlit("")): return a
    # literal ++ literal
    la = [k for k, v in en.strlits.items() if v.eq(a)]; lb = [k for k, v in en.strlits.items() if v.eq(b)]
    if la and lb: return en.strlit(la[0] + lb[0])
    r = f(a, b)
    # injective in each argument
    g1 = z3.Function("concat_l", E.Str, E.Str, E.Str); g2 = z3.Function("concat_r", E.Str, E.Str, E.Str)
    en.fact(g2(r, a) == b); en.fact(g1(r, b) == a)
    return r
@method("str", "size", "length")
def _(c): return slen(c.en, c.objval())
@method("str", "empty")
def _(c):
    s = c.objval(); return z3.Length(s) == 0 if c.en.strmode == "seq" else s == c.en.strlit("")
@method("str", "c_str", "data")
def _(c): return c.objval()
@method("str", "operator==", "operator!=")
def _(c):
    r = c.objval() == c.val(0); return r if c.name == "operator==" else Not(r)
@method("str", "compare")
def _(c):
    if c.n != 1:
        if c.n != 3: raise E.Unsupported("std::string::compare with %d arguments" % c.n)
        # compare(pos, n, x): of the whole beginning of the string with x, known to be "starts with"
        en, s, pos, n, x = c.en, c.objval(), c.val(0), c.val(1), c.val(2)
        en.throw(c.st, pos > slen(en, s), E.Exc("std::out_of_range"))
        if en.strmode == "seq": r = en.fresh("compare", z3.IntSort()); en.fact((r == 0) == (z3.SubString(s, pos, n) == x)); return r
        t = z3.Function("str_cmp_part", E.Str, z3.IntSort(), z3.IntSort(), E.Str, z3.IntSort())(s, pos, n, x)
        sw = z3.Function("str_starts_with", E.Str, E.Str, z3.BoolSort())(s, x)
        en.fact(z3.Implies(And(pos == 0, n == slen(en, x)), (t == 0) == sw)); en.fact(z3.Implies(s == x, sw)); return t
    r = z3.Function("str_cmp", c.en.SS, c.en.SS, z3.IntSort())
    a, b = c.objval(), c.val(0); t = r(a, b); c.en.fact((t == 0) == (a == b)); return t
@method("str", "operator+=", "append")
def _(c):
    l = c.obj; b = c.val(0)
    if z3.is_int(b): b = chstr(c.en, b)
    c.en.write(c.st, l, concat(c.en, c.en.read(c.st, l), b)); return Ref(l)
def chstr(en, ch):
    if z3.is_int_value(ch): return en.strlit(chr(ch.as_long()))
    if en.strmode == "seq": return z3.StrFromCode(ch) if hasattr(z3, "StrFromCode") else en.fresh("ch", en.SS)
    return z3.Function("chstr", z3.IntSort(), E.Str)(ch)
def code_at(en, s, i):
    if en.strmode == "seq": return z3.StrToCode(z3.SubString(s, i, 1)) if hasattr(z3, "StrToCode") else en.fresh("code", z3.IntSort())
    return z3.Function("str_at", E.Str, z3.IntSort(), z3.IntSort())(s, i)
@method("str", "front")
def _(c):
    s = c.objval(); c.en.oblige("string-nonempty", c.st, slen(c.en, s) > 0, "safety"); return code_at(c.en, s, z3.IntVal(0))
@method("str", "back")
def _(c):
    s = c.objval(); c.en.oblige("string-nonempty", c.st, slen(c.en, s) > 0, "safety"); return code_at(c.en, s, slen(c.en, s) - 1)
@method("str", "operator[]", "at")
def _(c):
    s = c.objval(); i = c.val(0)
    if c.name == "at": c.en.throw(c.st, Not(And(i >= 0, i < slen(c.en, s))), E.Exc("std::out_of_range"))
    else: c.en.oblige("string-index", c.st, And(i >= 0, i <= slen(c.en, s)), "safety")
    return code_at(c.en, s, i)
@method("str", "erase")
def _(c):
    en = c.en; s = c.objval()
    if en.strmode != "seq": en.write(c.st, c.obj, en.fresh("erased", en.SS)); return Ref(c.obj)
    a = c.val(0) if c.n else z3.IntVal(0)
    if isinstance(a, Iter): raise Unsupported("string erase iterator")
    en.throw(c.st, a > z3.Length(s), E.Exc("std::out_of_range"))
    nn = c.val(1) if c.n > 1 else z3.IntVal(2**64 - 1)
    L = z3.Length(s)
    w = z3.If(nn > L - a, L - a, nn)
    en.write(c.st, c.obj, z3.Concat(z3.SubString(s, 0, a), z3.SubString(s, a + w, L - a - w)))
    return Ref(c.obj)
@method("str", "substr")
def _(c):
    en = c.en; s = c.objval()
    a = c.val(0) if c.n else z3.IntVal(0)
    nn = c.val(1) if c.n > 1 else z3.IntVal(2**64 - 1)
    if en.strmode == "seq":
        L = z3.Length(s); en.throw(c.st, a > L, E.Exc("std::out_of_range"))
        return z3.SubString(s, a, z3.If(nn > L - a, L - a, nn))
    return z3.Function("str_substr", E.Str, z3.IntSort(), z3.IntSort(), E.Str)(s, a, nn)
NPOS = 2**64 - 1
def index_of(en, s, x, p):
    """std::string::find from the start: named so that the solvers do not unfold it (-1: absent)"""
    if not (z3.is_int_value(p) and p.as_long() == 0): return z3.IndexOf(s, x, p)
    S = z3.StringSort(); r = z3.Function("index_of", S, S, z3.IntSort())(s, x); n = z3.Length(x)
    en.fact(And(r >= -1, z3.Implies(r >= 0, And(r + n <= z3.Length(s), z3.SubString(s, r, n) == x)), (r >= 0) == z3.Contains(s, x)))
    return r
@method("str", "find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of")
def _(c):
    en = c.en; s = c.objval(); x = c.val(0)
    if z3.is_int(x): x = chstr(en, x)
    p = c.val(1) if c.n > 1 else None
    if en.strmode == "seq":
        L = z3.Length(s)
        if c.name == "find" or (c.name == "find_first_of" and z3.is_string_value(x) and len(x.as_string()) == 1):
            r = index_of(en, s, x, p if p is not None else z3.IntVal(0))
            return z3.If(r < 0, z3.IntVal(NPOS), r)
        if c.name == "rfind" and p is not None and z3.is_int_value(p) and p.as_long() == 0:
            return z3.If(z3.PrefixOf(x, s), z3.IntVal(0), z3.IntVal(NPOS))
        if c.name == "find_first_not_of" and z3.is_string_value(x) and len(x.as_string()) == 1 and p is None:
            r = en.fresh("ffno", z3.IntSort()); k = z3.FreshConst(z3.IntSort(), "k")
            isx = lambda i: z3.SubString(s, i, 1) == x
            allx = z3.InRe(s, z3.Star(z3.Re(x.as_string())))
            en.fact(z3.If(allx, r == NPOS, And(r >= 0, r < L, Not(isx(r)), z3.InRe(z3.SubString(s, 0, r), z3.Star(z3.Re(x.as_string()))))))
            return r
        raise Unsupported("string " + c.name)
    f = z3.Function("str_" + c.name, E.Str, E.Str, z3.IntSort(), z3.IntSort())
    r = f(s, x, p if p is not None else z3.IntVal(0)); L = slen(en, s)
    en.fact(And(r >= 0, Or(r < L, r == NPOS, r == L)))
    if (c.name == "find" and p is None) or (c.name in ("find", "rfind") and z3.is_int_value(p) and p.as_long() == 0):
        en.fact((r == 0) == z3.Function("str_starts_with", E.Str, E.Str, z3.BoolSort())(s, x))
        if c.name == "rfind": en.fact(Or(r == 0, r == NPOS))
    return r
@method("str", "starts_with", "ends_with", "contains")
def _(c):
    en = c.en; s = c.objval(); x = c.val(0)
    if z3.is_int(x): x = chstr(en, x)
    if en.strmode == "seq": return {"starts_with": z3.PrefixOf, "ends_with": z3.SuffixOf}[c.name](x, s) if c.name != "contains" else z3.Contains(s, x)
    return z3.Function("str_" + c.name, E.Str, E.Str, z3.BoolSort())(s, x)
@method("str", "clear")
def _(c): c.en.write(c.st, c.obj, c.en.strlit(""))
@method("str", "reserve", "resize")
def _(c):
    if c.name == "resize": c.en.write(c.st, c.obj, c.en.fresh("resized", c.en.SS))
@method("str", "push_back")
def _(c):
    l = c.obj; c.en.write(c.st, l, concat(c.en, c.en.read(c.st, l), chstr(c.en, c.val(0))))
@method("str", "conv")
def _(c): return c.objval()
@method("str", "begin", "end", "cbegin", "cend", "insert", "replace")
def _(c): raise Unsupported("string " + c.name)
@model("std::to_string")
def _(c):
    v = c.val(0); f = z3.Function("to_string_" + str(v.sort()).replace(" ", ""), v.sort(), c.en.SS); return f(v)

def free_operator(c):
    en = c.en; op = c.name[8:]
    ka = c.kind(0)[0]; kb = c.kind(1)[0] if c.n > 1 else None
    en.trusted.add("std operator" + op)
    if op == "<<": 
        c.lv(0)
        for i in range(1, c.n):
            try: c.val(i)
            except Unsupported: pass
        return Ref(c.lv(0)) if False else Opaque("ostream")
    if "nullopt" in (ka, kb):
        i = 0 if kb == "nullopt" else 1
        v = c.val(i); r = Not(v.has)
        return r if op == "==" else Not(r)
    if ka == "opt" or kb == "opt":
        a, b = c.val(0), c.val(1)
        sub = en.p.kind(c.t(0))[1] if ka == "opt" else en.p.kind(c.t(1))[1]
        def prim(x, y):
            kk = en.p.kind(sub)
            if op in ("==", "!="):
                e = en.feq(x, y) if kk[0] == "double" else eq_tree(x, y)
                return e if op == "==" else Not(e)
            return en.binop(op, x, y, sub, c.st)
        if ka == "opt" and kb == "opt":
            if op == "==": return z3.If(And(a.has, b.has), prim(a.val, b.val), a.has == b.has)
            if op == "!=": return z3.If(And(a.has, b.has), prim(a.val, b.val), a.has != b.has)
        elif ka == "opt":
            if op == "==": return And(a.has, prim(a.val, b))
            if op == "!=": return Or(Not(a.has), prim(a.val, b))
            if op in ("<", "<="): return Or(Not(a.has), prim(a.val, b))
            return And(a.has, prim(a.val, b))
        else:
            if op == "==": return And(b.has, prim(a, b.val))
            if op == "!=": return Or(Not(b.has), prim(a, b.val))
        raise Unsupported("optional comparison " + op)
    a = c.val(0); b = c.val(1) if c.n > 1 else None
    if c.st.dead: return None
    if isinstance(a, Iter) or isinstance(b, Iter): return iter_binop(en, op, a, b, c.st)
    if ka == "str" or kb == "str":
        if op == "+":
            if z3.is_int(a): a = chstr(en, a)
            if z3.is_int(b): b = chstr(en, b)
            return concat(en, a, b)
        if op == "==": return a == b
        if op == "!=": return a != b
        if op in ("<", ">"): return lt(en, a, b) if op == "<" else lt(en, b, a)
        if op == "<=>": raise Unsupported("<=>")
    if ka in ("ptr", "nullptr") or kb in ("ptr", "nullptr"):
        r = ptr_eq(E.nullable(a), E.nullable(b))
        return r if op == "==" else Not(r)
    if ka in ("vec", "pair", "tuple", "map", "set", "arr", "variant") and op in ("==", "!="):
        r = eq_tree(a, b); return r if op == "==" else Not(r)
    if ka == "dur" and op in ("<", ">", "<=", ">=", "==", "!=", "+", "-"):
        if is_leaf(a) and is_leaf(b) and c.t(0) == c.t(1): return en.binop(op, a, b, c.t(0), c.st)
        return en.symbolic(c.rett(), "dur_op")
    if ka == "dur" : return en.symbolic(c.rett(), "dur_op")
    if ka == "fn" or kb == "fn":
        f = a if ka == "fn" else b
        r = z3.BoolVal(False) if is_closure(f) else en.fresh("fn_empty", z3.BoolSort())
        return r if op == "==" else Not(r)
    if ka == "opaque": return Opaque("op") if c.retkind()[0] == "opaque" else en.symbolic(c.rett(), "opaque_op")
    raise Unsupported(f"operator{op} on {ka},{kb}")

# ------------------------------------------------------------------------------------ conversions (text)
# Text is modelled by uninterpreted parse functions: what a text denotes is fixed, not computed.
# ------------------------------------------------------------------------------------ ROS
def dur_sec(en, ns):
    if en.real: return z3.ToReal(ns) / 1000000000
    f = z3.Function("duration_seconds", z3.IntSort(), E.F64); r = f(ns); zero = z3.FPVal(0.0, E.F64)
    en.fact(And(Not(z3.fpIsNaN(r)), Not(z3.fpIsInf(r)), (ns > 0) == z3.fpLT(zero, r), (ns < 0) == z3.fpLT(r, zero), (ns == 0) == z3.fpIsZero(r)))
    return r
@model("rclcpp::Duration::seconds")
def _(c): return dur_sec(c.en, c.objval().f["ns_"])
@model("rclcpp::Duration::nanoseconds", "rclcpp::Time::nanoseconds")
def _(c): return c.objval().f["ns_"]
@model("rclcpp::Time::seconds")
def _(c): return dur_sec(c.en, c.objval().f["ns_"])
@model("rclcpp::Time::get_clock_type")
def _(c): return c.objval().f["ct_"]
def mkdur(en, c, t, ns): 
    k = en.p.kind(t); d = en.default(t); f = dict(d.f); f["ns_"] = ns; return Rec(k[1], f)
@model("rclcpp::Duration::from_nanoseconds")
def _(c): return mkdur(c.en, c, c.rett(), c.val(0))
@model("rclcpp::Duration::from_seconds")
def _(c):
    x = c.val(0); ns = c.en.fresh("ns", z3.IntSort())
    if c.en.real: y = x * 1000000000; c.en.fact(z3.If(y >= 0, And(z3.ToReal(ns) <= y, y < z3.ToReal(ns) + 1), And(z3.ToReal(ns) >= y, y > z3.ToReal(ns) - 1)))
    return mkdur(c.en, c, c.rett(), ns)
@model("ctor:rclcpp::Duration")
def _(c):
    if c.n == 0: return c.en.default(c.objt)
    if c.n == 2: return mkdur(c.en, c, c.objt, z3.simplify(c.val(0) * 1000000000 + c.val(1)))
    v = c.val(0); return mkdur(c.en, c, c.objt, v if is_leaf(v) else c.en.fresh("ns", z3.IntSort()))
@model("ctor:rclcpp::Time")
def _(c):
    if c.n == 0: return c.en.default(c.objt)
    d = c.en.default(c.objt); f = dict(d.f)
    if c.n >= 2 and c.kind(1)[0] == "int": f["ns_"] = c.val(0) * 1000000000 + c.val(1); f["ct_"] = c.val(2) if c.n > 2 else f["ct_"]
    else: f["ns_"] = c.val(0); f["ct_"] = c.val(1) if c.n > 1 else f["ct_"]
    return Rec(d.name, f)
def timecmp(c):
    en = c.en; a, b = c.objval(), c.val(0); op = c.name[8:]
    if "ct_" in a.f and "ct_" in b.f: en.throw(c.st, a.f["ct_"] != b.f["ct_"], E.Exc("std::runtime_error"))
    x, y = a.f["ns_"], b.f["ns_"]
    if op in ("+", "-"):
        ns = z3.simplify(x + y if op == "+" else x - y)
        if "ct_" in a.f and "ct_" not in b.f: return Rec(a.name, {**a.f, "ns_": ns})
        return mkdur(en, c, c.rett(), ns)
    return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
for _o in "== != < > <= >= + -".split():
    MODELS["rclcpp::Time::operator" + _o] = timecmp; MODELS["rclcpp::Duration::operator" + _o] = timecmp

# ------------------------------------------------------------------------------------ console output (no effect on the values under contract)
def stream_out(c):
    for i in range(c.n):
        if c.kind(i)[0] in ("fn", "opaque", "lambda"): continue
        try: c.val(i)
        except Unsupported: pass
    return Ref(c.obj) if c._obj is not None else Opaque("ostream")
for _n in ("operator<<", "flush", "write", "put"): METHODS[("opaque", _n)] = stream_out

@model("__assert_fail", "__assert", "abort", "std::abort", "std::terminate", "std::__glibcxx_assert_fail")
def _(c):
    c.en.oblige("assertion-holds", c.st, z3.BoolVal(False), "assert"); c.st.dead = True
@method("match", "str", "conv")
def _(c):
    if c.n and not (z3.is_int_value(c.val(0)) and c.val(0).as_long() == 0): raise Unsupported("capture group")
    return c.objval()
import libstr
@model("rclcpp::get_logger", "rclcpp::Logger::get_child")
def _(c): return E.Opaque("logger")
@model("std::chrono::duration::zero")
def _(c): return z3.IntVal(0)
@model("std::const_pointer_cast")
def _(c): return c.val(0)
