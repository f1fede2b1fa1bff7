"""Value trees of the symbolic store.

Leaves are z3 terms.  Containers are structure-of-arrays: a vector of T is a length plus the value
tree of T with every leaf lifted to an Array over Int; maps lift over the key sort.
"""
import z3

class Unsupported(Exception):
    pass

class Rec:
    __slots__ = ("name", "f")
    def __init__(self, name, f):
        self.name, self.f = name, f
    def __repr__(self): return f"Rec({self.name},{self.f})"

class Opt:
    __slots__ = ("has", "val")
    def __init__(self, has, val): self.has, self.val = has, val
    def __repr__(self): return f"Opt({self.has},{self.val})"

class Vec:
    __slots__ = ("len", "elem")
    def __init__(self, ln, elem): self.len, self.elem = ln, elem
    def __repr__(self): return f"Vec({self.len},{self.elem})"

class Map:
    """dom: Array K Bool; val: tree lifted over K (None for sets)."""
    __slots__ = ("dom", "val")
    def __init__(self, dom, val): self.dom, self.val = dom, val
    def __repr__(self): return f"Map({self.dom},{self.val})"

class Opaque:
    __slots__ = ("name",)
    def __init__(self, name=""): self.name = name
    def __repr__(self): return f"Opaque({self.name})"

class LV:
    """A guarded set of locations [(guard, root, path)]; guards are disjoint and exhaustive."""
    __slots__ = ("alts",)
    def __init__(self, alts): self.alts = alts
    @staticmethod
    def one(root, path=()): return LV([(True, root, tuple(path))])
    def ext(self, *els): return LV([(g, r, p + tuple(els)) for g, r, p in self.alts])
    def __repr__(self): return f"LV({self.alts})"

class Ref:
    """A reference bound to a location."""
    __slots__ = ("lv",)
    def __init__(self, lv): self.lv = lv

class Ptr:
    """A raw pointer (or iterator-like) value: guarded targets [(guard, target)];
    target is None (null), ('lv', LV) or ('id', class_key, term)."""
    __slots__ = ("alts",)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return f"Ptr({self.alts})"

class Iter:
    """Iterator into a vector (pos: Int term) or a map (pos: key term, end: Bool)."""
    __slots__ = ("kind", "lv", "pos", "end", "n")
    def __init__(self, kind, lv, pos, end=None): self.kind, self.lv, self.pos, self.end = kind, lv, pos, end
    def __repr__(self): return f"Iter({self.kind},{self.lv},{self.pos},{self.end})"

class Closure:
    __slots__ = ("expr", "env", "this", "fid", "caps", "frame")
    def __init__(self, expr, env, this, fid, frame): self.expr, self.env, self.this, self.fid, self.frame = expr, env, this, fid, frame

class Fn:
    """Function value given by a Python callable (engine, state, args)->value, or bound method."""
    __slots__ = ("py",)
    def __init__(self, py): self.py = py

def is_leaf(v): return isinstance(v, z3.ExprRef)

def tmap(fn, v):
    """map fn over leaves"""
    if is_leaf(v): return fn(v)
    if isinstance(v, Rec): return Rec(v.name, {k: tmap(fn, x) for k, x in v.f.items()})
    if isinstance(v, Opt): return Opt(fn(v.has), tmap(fn, v.val))
    if isinstance(v, Vec): return Vec(fn(v.len), tmap(fn, v.elem))
    if isinstance(v, Map): return Map(fn(v.dom), None if v.val is None else tmap(fn, v.val))
    if v is None or isinstance(v, (Opaque,)): return v
    if isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1] is None: return v
    return v

def tmap2(fn, a, b):
    if a is b: return a
    if is_leaf(a) and is_leaf(b):
        return a if a.eq(b) else fn(a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        ks = list(a.f)
        if set(ks) != set(b.f):
            raise Unsupported(f"merge of records {a.name}/{b.name} with different fields")
        out = {}
        same = True
        for k in ks:
            out[k] = tmap2(fn, a.f[k], b.f[k])
            same = same and out[k] is a.f[k]
        return a if same else Rec(a.name, out)
    if isinstance(a, Opt) and isinstance(b, Opt): return Opt(tmap2(fn, a.has, b.has), tmap2(fn, a.val, b.val))
    if isinstance(a, Vec) and isinstance(b, Vec): return Vec(tmap2(fn, a.len, b.len), tmap2(fn, a.elem, b.elem))
    if isinstance(a, Map) and isinstance(b, Map):
        return Map(tmap2(fn, a.dom, b.dom), None if a.val is None else tmap2(fn, a.val, b.val))
    return None

def leaves(v, pre=()):
    if is_leaf(v): yield pre, v
    elif isinstance(v, Rec):
        for k, x in v.f.items(): yield from leaves(x, pre + (k,))
    elif isinstance(v, Opt):
        yield pre + ("?",), v.has
        yield from leaves(v.val, pre + ("!",))
    elif isinstance(v, Vec):
        yield pre + ("#",), v.len
        yield from leaves(v.elem, pre + ("[]",))
    elif isinstance(v, Map):
        yield pre + ("dom",), v.dom
        if v.val is not None: yield from leaves(v.val, pre + ("{}",))

_simp = {}
def simp(b):
    return z3.simplify(b)

def And(*xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return z3.BoolVal(False)
        if z3.is_true(x): continue
        if z3.is_false(x): return x
        out.append(x)
    if not out: return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(*out)

def Or(*xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return z3.BoolVal(True)
        if z3.is_false(x): continue
        if z3.is_true(x): return x
        out.append(x)
    if not out: return z3.BoolVal(False)
    return out[0] if len(out) == 1 else z3.Or(*out)

def Not(x):
    if x is True: return z3.BoolVal(False)
    if x is False: return z3.BoolVal(True)
    if z3.is_true(x): return z3.BoolVal(False)
    if z3.is_false(x): return z3.BoolVal(True)
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)

def Ite(c, a, b):
    if c is True or (not isinstance(c, bool) and z3.is_true(c)): return a
    if c is False or (not isinstance(c, bool) and z3.is_false(c)): return b
    if a.eq(b): return a
    if a.sort() == z3.BoolSort():
        if z3.is_true(a) and z3.is_false(b): return c
        if z3.is_false(a) and z3.is_true(b): return Not(c)
        if z3.is_true(a): return Or(c, b)
        if z3.is_false(b): return And(c, a)
        if z3.is_false(a): return And(Not(c), b)
        if z3.is_true(b): return Or(Not(c), a)
    return z3.If(c, a, b)

def ite_tree(c, a, b):
    if a is b: return a
    if c is True or (not isinstance(c, bool) and z3.is_true(c)): return a
    if c is False or (not isinstance(c, bool) and z3.is_false(c)): return b
    if isinstance(a, Opaque) or isinstance(b, Opaque): return a if isinstance(a, Opaque) else b
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        pa, pb = as_ptr(a), as_ptr(b)
        return Ptr(merge_alts([(And(c, g), t) for g, t in pa.alts] + [(And(Not(c), g), t) for g, t in pb.alts]))
    if isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind:
        if not same_lv(a.lv, b.lv): raise Unsupported("merge of iterators into different containers")
        return Iter(a.kind, a.lv, Ite(c, a.pos, b.pos), None if a.end is None else Ite(c, a.end, b.end))
    if isinstance(a, Ref) and isinstance(b, Ref):
        return Ref(LV(merge_lv([(And(c, g), r, p) for g, r, p in a.lv.alts] + [(And(Not(c), g), r, p) for g, r, p in b.lv.alts])))
    if isinstance(a, Rec) and isinstance(b, Rec):
        ks = list(a.f)
        if set(ks) != set(b.f): raise Unsupported(f"merge of {a.name} and {b.name}")
        out, same = {}, True
        for k in ks:
            out[k] = ite_tree(c, a.f[k], b.f[k]); same = same and out[k] is a.f[k]
        return a if same else Rec(a.name, out)
    if isinstance(a, Opt) and isinstance(b, Opt): return Opt(Ite(c, a.has, b.has), ite_tree(c, a.val, b.val))
    if isinstance(a, (Closure, Fn)) or isinstance(b, (Closure, Fn)):
        return Opaque("function")
    r = tmap2(lambda x, y: Ite(c, x, y), a, b)
    if r is None: raise Unsupported(f"cannot merge {type(a)} and {type(b)}")
    return r

def same_lv(a, b):
    if len(a.alts) != len(b.alts): return False
    return all(r1 == r2 and path_eq(p1, p2) for (_, r1, p1), (_, r2, p2) in zip(a.alts, b.alts))

def path_eq(p, q):
    if len(p) != len(q): return False
    for x, y in zip(p, q):
        if x[0] != y[0]: return False
        if len(x) > 1:
            if isinstance(x[1], str):
                if x[1] != y[1]: return False
            elif not x[1].eq(y[1]): return False
    return True

def merge_lv(alts):
    out = []
    for g, r, p in alts:
        if not isinstance(g, bool) and z3.is_false(g): continue
        for i, (g2, r2, p2) in enumerate(out):
            if r2 == r and path_eq(p, p2):
                out[i] = (Or(g2, g), r2, p2); break
        else: out.append((g, r, p))
    return out

def merge_alts(alts):
    out = []
    for g, t in alts:
        if not isinstance(g, bool) and z3.is_false(g): continue
        for i, (g2, t2) in enumerate(out):
            if t is None and t2 is None:
                out[i] = (Or(g2, g), t); break
            if t is not None and t2 is not None and t[0] == t2[0] == "lv" and same_lv(t[1], t2[1]):
                out[i] = (Or(g2, g), t); break
            if t is not None and t2 is not None and t[0] == t2[0] == "id" and t[1] == t2[1] and t[2].eq(t2[2]):
                out[i] = (Or(g2, g), t); break
        else: out.append((g, t))
    return out

def as_ptr(v):
    if isinstance(v, Ptr): return v
    if is_leaf(v): return Ptr([(True, ("id", None, v))])
    raise Unsupported(f"not a pointer: {v}")

def select_tree(v, idx): return tmap(lambda t: z3.Select(t, idx), v)
def store_tree(v, idx, x):
    if isinstance(v, Opaque): return v
    if is_leaf(v):
        if not is_leaf(x): raise Unsupported("store of structured value into leaf")
        return z3.Store(v, idx, x)
    if isinstance(v, Rec):
        return Rec(v.name, {k: (store_tree(v.f[k], idx, x.f[k])) for k in v.f})
    if isinstance(v, Opt): return Opt(z3.Store(v.has, idx, x.has), store_tree(v.val, idx, x.val))
    if isinstance(v, Vec): return Vec(z3.Store(v.len, idx, x.len), store_tree(v.elem, idx, x.elem))
    if isinstance(v, Map): return Map(z3.Store(v.dom, idx, x.dom), None if v.val is None else store_tree(v.val, idx, x.val))
    raise Unsupported(f"store into {type(v)}")

def eq_tree(a, b):
    """structural identity of two value trees (floating point: identity, NaN equal to NaN)"""
    if a is b: return z3.BoolVal(True)
    if is_leaf(a) and is_leaf(b): return z3.BoolVal(True) if a.eq(b) else a == b
    if isinstance(a, Rec): return And(*[eq_tree(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Opt): return And(a.has == b.has, z3.Implies(a.has, eq_tree(a.val, b.val)))
    if isinstance(a, Vec):
        # elements beyond the length are irrelevant
        if a.len.eq(b.len) and same_terms(a.elem, b.elem): return z3.BoolVal(True)
        k = z3.FreshConst(z3.IntSort(), "k")
        return And(a.len == b.len, z3.ForAll([k], z3.Implies(And(k >= 0, k < a.len), eq_tree(select_tree(a.elem, k), select_tree(b.elem, k)))))
    if isinstance(a, Map):
        if same_terms(a, b): return z3.BoolVal(True)
        k = z3.FreshConst(a.dom.sort().domain(), "k")
        vv = z3.BoolVal(True) if a.val is None else eq_tree(select_tree(a.val, k), select_tree(b.val, k))
        return And(z3.ForAll([k], And(z3.Select(a.dom, k) == z3.Select(b.dom, k), z3.Implies(z3.Select(a.dom, k), vv))))
    if isinstance(a, Opaque) or a is None: return z3.BoolVal(True)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return ptr_eq(as_ptr(a), as_ptr(b))
    raise Unsupported(f"eq of {type(a)}")

def same_terms(a, b):
    la, lb = list(leaves(a)), list(leaves(b))
    return len(la) == len(lb) and all(x[1].eq(y[1]) for x, y in zip(la, lb))

def ptr_eq(a, b):
    out = []
    for g1, t1 in a.alts:
        for g2, t2 in b.alts:
            if t1 is None and t2 is None: e = True
            elif t1 is None: e = (t2[2] == 0) if t2[0] == "id" else False
            elif t2 is None: e = (t1[2] == 0) if t1[0] == "id" else False
            elif t1[0] == "id" and t2[0] == "id": e = t1[2] == t2[2]
            elif t1[0] == "lv" and t2[0] == "lv": e = lv_same(t1[1], t2[1])
            else: e = False
            out.append(And(g1, g2, e))
    return Or(*out)

def lv_same(a, b):
    out = []
    for g1, r1, p1 in a.alts:
        for g2, r2, p2 in b.alts:
            if r1 != r2 or len(p1) != len(p2): continue
            cs, ok = [g1, g2], True
            for x, y in zip(p1, p2):
                if x[0] != y[0]: ok = False; break
                if len(x) > 1:
                    if isinstance(x[1], str):
                        if x[1] != y[1]: ok = False; break
                    else: cs.append(x[1] == y[1])
            if ok: out.append(And(*cs))
    return Or(*out)
