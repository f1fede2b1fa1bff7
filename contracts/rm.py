"""contracts on the resource manager (H06-H09)"""
import z3
import engine as E, lib
from values import *
HI = "hardware_interface::"; UNIT = "resource_manager.cpp"; RM, RS = HI + "ResourceManager::", HI + "ResourceStorage::"; ROOTS = [RM + "*", RS + "*", HI + "find_common_hardware_interfaces"]
BD = [__import__("front").VERIF + "/stubs/rclcpp_lifecycle"]
z3.set_param("warning", False)
UNKNOWN, UNCONF, INACTIVE, ACTIVE, FINAL = range(5); OK, ERR, DEACT = 0, 1, 2
S = E.Str; i, j, k = z3.Ints("i j k"); key, hw = z3.Const("key", S), z3.Const("hw", S)
def sel(a, *ks):
    for x in ks: a = z3.Select(a, x)
    return a
def inr(x, n): return And(0 <= x, x < n)
def fa(vs, f, *p):
    try: return z3.ForAll(vs, f, patterns=[z3.MultiPattern(*q) if isinstance(q, tuple) else q for q in p]) if p else z3.ForAll(vs, f)
    except z3.Z3Exception: return z3.ForAll(vs, f)
def member(v, x): return z3.Exists([k], And(inr(k, v.len), sel(v.elem, k) == x))
def at(v, h):
    """the list a map of lists holds under a key"""
    return Vec(sel(v.len, h), sel(v.elem, h))
def distinct(v): return fa([i, j], z3.Implies(And(0 <= i, i < j, j < v.len), sel(v.elem, i) != sel(v.elem, j)), (sel(v.elem, i), sel(v.elem, j)))
def among(v, dom): return fa([i], z3.Implies(inr(i, v.len), sel(dom, sel(v.elem, i))), sel(v.elem, i))
def same_map(a, b):
    x, y = dict(flat(a)), dict(flat(b)); return And(*[x[p] == y[p] for p in x])
def flat(v, p=()):
    if is_leaf(v): yield p, v
    elif isinstance(v, Rec):
        for n, x in v.f.items(): yield from flat(x, p + (n,))
    elif isinstance(v, Map):
        yield p + ("dom",), v.dom
        if v.val is not None: yield from flat(v.val, p + ("val",))
    elif isinstance(v, Vec):
        yield p + ("len",), v.len
        yield from flat(v.elem, p + ("elem",))
    elif isinstance(v, Opt):
        yield p + ("has",), v.has
        yield from flat(v.val, p + ("value",))
def same(a, b, but=()):
    x, y = dict(flat(a)), dict(flat(b)); return And(*[x[p] == y[p] for p in x if p[0] not in but])
AC, AS, CM, SM, CL, HW, GRP = "available_command_interfaces_", "available_state_interfaces_", "command_interface_map_", "state_interface_map_", "claimed_command_interface_map_", "hardware_info_map_", "hw_group_state_"
LOCKS = dict(interfaces="resource_interfaces_lock_", claimed="claimed_command_interfaces_lock_", resources="resources_lock_", limiters="joint_limiters_lock_")
class Manager:
    """a resource manager in any state that meets the invariant of its storage"""
    def __init__(self, en, st, prog, inv=True, bags=False):
        """bags: the invariant speaks of the sets of names listed, not of positions"""
        self.en, self.prog, self.bags = en, prog, bags
        if bags: sets(en)
        self.cls = prog.find(RM + "claim_command_interface")["cls"]; self.scls = prog.find(RS + "clear")["cls"]
        self.store = en.new_root(st, en.symbolic(self.scls, "storage"), "storage"); v = en.symbolic(self.cls, "manager"); f = dict(v.f); f["resource_storage_"] = Ptr([(True, ("lv", self.store))])
        self.lv = en.new_root(st, Rec(v.name, f), "manager")
        if inv:
            for n, g in self.inv(st): st.assume(g)
        en.contracts["ros2_control::has_item"] = self.has_item
    def s(self, st, f=None): return self.en.read(st, self.store if f is None else self.store.ext(("f", f)))
    def m(self, st, f): return self.en.read(st, self.lv.ext(("f", f)))
    def inv(self, st):
        g = self.s(st); ac, as_, cm, sm, cl, info = (g.f[x] for x in (AC, AS, CM, SM, CL, HW)); D = lambda v: v.dom
        am = among if not self.bags else lambda v, dom: fa([key], z3.Implies(mem(named(self.en, v), key), sel(dom, key)), mem(named(self.en, v), key))
        yield "available-command-interfaces-are-known", am(ac, D(cm)); yield "available-state-interfaces-are-known", am(as_, D(sm))
        yield "available-command-interfaces-are-distinct", distinct(ac); yield "available-state-interfaces-are-distinct", distinct(as_)
        yield "claims-are-recorded-for-known-interfaces", fa([key], z3.Implies(sel(D(cm), key), sel(D(cl), key)), sel(D(cm), key))
        for f, mp in (("command_interfaces", cm), ("state_interfaces", sm)):
            l = info.val.f[f]
            if self.bags:
                q = lambda h, x: MEM(sel(l.len, h), sel(l.elem, h), x); h2 = z3.Const("hw2", S)
                yield "components-list-known-" + f, fa([hw, key], z3.Implies(And(sel(D(info), hw), q(hw, key)), sel(D(mp), key)), q(hw, key))
                yield "components-own-what-they-list-" + f, fa([hw, h2, key], z3.Implies(And(sel(D(info), hw), sel(D(info), h2), q(hw, key), q(h2, key)), hw == h2), (q(hw, key), q(h2, key))); continue
            yield "components-list-known-" + f, fa([hw, i], z3.Implies(And(sel(D(info), hw), inr(i, sel(l.len, hw))), sel(D(mp), sel(l.elem, hw, i))), sel(l.elem, hw, i))
            h2 = z3.Const("hw2", S); yield "components-list-distinct-" + f, fa([hw, h2, i, j], z3.Implies(And(sel(D(info), hw), sel(D(info), h2), inr(i, sel(l.len, hw)), inr(j, sel(l.len, h2)), sel(l.elem, hw, i) == sel(l.elem, h2, j)), And(hw == h2, i == j)), (sel(l.elem, hw, i), sel(l.elem, h2, j)))
            yield "list-lengths-" + f, fa([hw], sel(l.len, hw) >= 0, sel(l.len, hw))
    def held(self, st, lock):
        """the lock objects in scope that hold the given mutex"""
        m = self.lv.ext(("f", LOCKS[lock])); return [t for t, mx, cls, how in self.en.lock_log if how in ("block", "try") and any(z3.is_true(z3.simplify(lv_same(x, m))) for x in mx) and any(is_leaf(v) and v.eq(t) for v in st.store.values())]
    def has_item(self, e, s, x):
        """C01"""
        c, it = e.read(s, x.lv(0)), x.val(1)
        if isinstance(c, Map): return sel(c.dom, it)
        r = e.fresh("present", z3.BoolSort()); w = e.fresh("where", z3.IntSort())
        s.assume(z3.If(r, And(inr(w, c.len), sel(c.elem, w) == it), fa([i], z3.Implies(inr(i, c.len), sel(c.elem, i) != it), sel(c.elem, i)))); return r
    def is_field(self, lv, f):
        return any(z3.is_true(z3.simplify(lv_same(lv, self.store.ext(("f", f))))) for _ in (0,)) if len(lv.alts) == 1 else False
def in_field(lv, root, f):
    return any(r == root.alts[0][1] and p and p[0] == ("f", f) for _, r, p in lv.alts)
class Claims:
    name = "claims"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = RM + "{claim_command_interface, release_command_interface, command_interface_is_claimed, command_interface_is_available}"
    def build(self, prog, t):
        P = {"H06"}
        def start(q):
            en = t.engine(prog); st = E.State(); m = Manager(en, st, prog); K = en.fresh("key_given", S); f = prog.find(RM + q)
            en.opaque_unknown = False; return en, st, m, K, f, Ref(en.new_root(st, K, "key"))
        def guard(en, m, P, n):
            """claims are looked at and changed only under their lock, and the change belongs to the same locked section as the look"""
            looks = []
            def look(e, s, x):
                if x._obj is not None and in_field(x.obj, m.store, CL):
                    h = m.held(s, "claimed"); e.oblige("claims-looked-at-under-their-lock", s, Or(*h), "safety"); looks.append((h, s.clone()))
            def write(e, s, root, path):
                if root == m.store.alts[0][1] and path and path[0] == ("f", CL):
                    h = m.held(s, "claimed"); e.oblige("claims-changed-under-their-lock", s, Or(*h), "safety")
                    if n == "claim_command_interface": e.oblige("the-look-and-the-change-belong-together", s, Or(*[x for x in h if any(any(y.eq(x) for y in l) for l, _ in looks)]), "safety")
            en.method_hook, en.write_hook = look, write
        def end(en, m, pre, st, n, *cov, throws=False):
            en.method_hook = en.write_hook = None
            if not throws:
                for s, x in en.throw_sinks[0]: t.require(P, n + ":no-throw", en, s, z3.BoolVal(False))
            t.safety(P, en); t.cover(P, n + ":entry", en, pre)
            for c in cov: t.cover(P, n + ":return", en, st, c)
        # is available, is claimed
        q = "command_interface_is_available"; en, st, m, K, f, a = start(q); pre = st.clone(); R = en.call_fn(f, st, this=m.lv, args=[a]); av = m.s(pre, AC)
        t.require(P, q + ":exactly-when-listed", en, st, R == member(av, K)); t.require(P, q + ":changes-nothing", en, st, same(m.s(st), m.s(pre))); end(en, m, pre, st, q, R)
        q = "command_interface_is_claimed"; en, st, m, K, f, a = start(q); guard(en, m, P, q); pre = st.clone(); R = en.call_fn(f, st, this=m.lv, args=[a]); av, cl = m.s(pre, AC), m.s(pre, CL)
        t.require(P, q + ":exactly-when-available-and-marked", en, st, R == And(member(av, K), sel(cl.val, K))); t.require(P, q + ":changes-nothing", en, st, same(m.s(st), m.s(pre))); end(en, m, pre, st, q, R)
        # release
        def released(en, m, st, pre, K, n):
            a, b = m.s(pre, CL), m.s(st, CL)
            t.require(P, n + ":the-interface-is-free", en, st, And(sel(b.dom, K), Not(sel(b.val, K))))
            t.require(P, n + ":no-other-claim-is-touched", en, st, fa([key], z3.Implies(key != K, And(sel(b.dom, key) == sel(a.dom, key), sel(b.val, key) == sel(a.val, key)))))
            t.require(P, n + ":nothing-else-changes", en, st, same(m.s(st), m.s(pre), (CL,)))
        q = "release_command_interface"; en, st, m, K, f, a = start(q); guard(en, m, P, q); pre = st.clone(); en.call_fn(f, st, this=m.lv, args=[a]); released(en, m, st, pre, K, q)
        for n, g in m.inv(st): t.require(P, q + ":" + n, en, st, g)
        end(en, m, pre, st, q)
        # claim
        q = "claim_command_interface"; en, st, m, K, f, a = start(q); guard(en, m, P, q); loans = []
        def loan(e, s, x):
            v = e.symbolic(x.objt, "loan"); loans.append((x.val(0), x.val(1), s.clone())); return v
        en.contracts[HI + "LoanedCommandInterface::LoanedCommandInterface"] = loan
        pre = st.clone(); en.call_fn(f, st, this=m.lv, args=[a]); av, cl0, cl1 = m.s(pre, AC), m.s(pre, CL), m.s(st, CL); free = And(member(av, K), Not(sel(cl0.val, K)))
        t.require(P, q + ":succeeds-only-for-a-free-interface", en, st, free)
        t.require(P, q + ":it-is-claimed-afterwards", en, st, And(sel(cl1.dom, K), sel(cl1.val, K)))
        t.require(P, q + ":no-other-claim-is-touched", en, st, fa([key], z3.Implies(key != K, And(sel(cl1.dom, key) == sel(cl0.dom, key), sel(cl1.val, key) == sel(cl0.val, key)))))
        t.require(P, q + ":nothing-else-changes", en, st, same(m.s(st), m.s(pre), (CL,)))
        for n, g in m.inv(st): t.require(P, q + ":" + n, en, st, g)
        t.require(P, q + ":one-loan", en, st, z3.BoolVal(len(loans) == 1))
        for s, x in en.throw_sinks[0]:
            t.require(P, q + ":refused-only-when-not-free", en, s, Not(free)); t.require(P, q + ":a-refusal-changes-nothing", en, s, same(m.s(s), m.s(pre)))
        end(en, m, pre, st, q, z3.BoolVal(True), throws=True)
        for p, d, s in loans:
            t.require(P, q + ":the-loan-is-of-the-interface-named", en, s, ptr_is(p, sel(m.s(pre, CM).val, K)))
            # what the loan does when it ends, at any later time
            e2 = en; s2 = s.clone(); later = e2.symbolic(m.scls, "later"); e2.write(s2, m.store, later)
            if a.lv.alts[0][1] in s2.store: e2.write(s2, a.lv, e2.fresh("the_text_given_is_gone", S))
            for n, g in m.inv(s2): s2.assume(g)
            p2 = s2.clone(); e2.apply_fn(d, [], s2); released(e2, m, s2, p2, K, "end-of-loan"); t.safety(P, e2)
def ptr_is(p, x):
    if is_leaf(p): return p == x
    return Or(*[And(g, (a[1][1] == x) if isinstance(a, tuple) and a and a[0] == "id" else False) for g, a in p.alts]) if not is_leaf(p) else p == x
CLAIMS = Claims()
# ---------------------------------------------------------------- lists as sets
MEM, IDX = (z3.Function(n, z3.IntSort(), z3.ArraySort(z3.IntSort(), S), S, r) for n, r in (("member", z3.BoolSort()), ("index_of", z3.IntSort())))
def sets(en):
    """the list with length n and elements e, as a set of names (definition of member by its two directions)"""
    n, e = z3.Int("n"), z3.Const("e", z3.ArraySort(z3.IntSort(), S))
    en.fact(z3.ForAll([n, e, key], z3.Implies(MEM(n, e, key), And(inr(IDX(n, e, key), n), sel(e, IDX(n, e, key)) == key)), patterns=[MEM(n, e, key)]))
    en.fact(z3.ForAll([n, e, key, i], z3.Implies(And(inr(i, n), sel(e, i) == key), MEM(n, e, key)), patterns=[z3.MultiPattern(MEM(n, e, key), sel(e, i))]))
def named(en, v):
    """the same list under fresh names (patterns may not contain case distinctions)"""
    n = v.len
    if not z3.is_const(n): n = en.fresh("len", z3.IntSort()); en.fact(n == v.len)
    return Vec(n, en.named(v.elem))
def mem(v, x, n=None): return MEM(v.len if n is None else n, v.elem, x)
HC = HI + "HardwareComponent::"
SUCCESS, FAILURE, ERROR = 97, 98, 99
REQ = {"configure": ([UNCONF], {SUCCESS: INACTIVE, FAILURE: UNCONF}), "cleanup": ([INACTIVE], {SUCCESS: UNCONF}), "shutdown": ([UNCONF, INACTIVE, ACTIVE], {SUCCESS: FINAL}), "activate": ([INACTIVE], {SUCCESS: ACTIVE, FAILURE: INACTIVE}), "deactivate": ([ACTIVE], {SUCCESS: INACTIVE, FAILURE: ACTIVE})}
class One:
    """one hardware component, seen through its contract (H04): its state is ghost state"""
    def __init__(self, en, st, prog, m, boom=True):
        self.en, self.m = en, m; self.name, self.group = en.fresh("component_name", S), en.fresh("group", S); self.state = en.new_root(st, en.fresh("state", z3.IntSort()), "state"); st.assume(And(self.id(st) >= 1, self.id(st) <= 4)); st.assume(sel(m.s(st, HW).dom, self.name))
        ct = prog.strip_ref(prog.find(RS + "configure_hardware")["args"][0]["t"]); self.lv = en.new_root(st, en.symbolic(ct, "component"), "component")
        nm, gr = en.new_root(st, self.name, "its_name"), en.new_root(st, self.group, "its_group"); self.asked = en.new_root(st, z3.IntVal(0), "requests"); self.reqs = []; self.boomed = en.new_root(st, z3.BoolVal(False), "threw")
        en.contracts[HC + "get_name"] = lambda e, s, x: Ref(nm); en.contracts[HC + "get_group_name"] = lambda e, s, x: Ref(gr); en.contracts[HC + "get_lifecycle_id"] = lambda e, s, x: self.id(s)
        for q in REQ: en.contracts[HC + q] = self.request(q, boom)
        def cur(e, s, x):
            v = e.symbolic(prog.strip_ref(x.ret), "state"); s.assume(v.f["id_"] == self.id(s)); return Ref(e.new_root(s, v, "state"))
        en.contracts[HC + "get_lifecycle_state"] = cur
    def threw(self, st): return self.en.read(st, self.boomed)
    def id(self, st): return self.en.read(st, self.state)
    def request(self, q, boom):
        def h(e, s, x):
            if boom:
                b = e.fresh("driver_throws", z3.BoolSort()); s2 = s.clone(); e.write(s, self.boomed, Or(self.threw(s), b)); e.write(s, self.asked, e.read(s, self.asked) + z3.If(b, 1, 0)); o = e.fresh("something_else", z3.BoolSort()); e.throw(s, And(b, o), E.Exc("std::exception")); e.throw(s, b, E.Exc("int"))
                if s.dead: return None
            legal, tab = REQ[q]; s0 = self.id(s); r = e.fresh("result", z3.IntSort()); s.assume(Or(r == SUCCESS, r == FAILURE, r == ERROR)); err = z3.If(s0 == UNCONF, UNCONF, z3.If(e.fresh("handled", z3.BoolSort()), UNCONF, FINAL))
            new = z3.If(Or(*[s0 == l for l in legal]), z3.If(r == SUCCESS, tab[SUCCESS], z3.If(r == FAILURE, tab.get(FAILURE, err), err)), s0)
            e.write(s, self.state, new); e.write(s, self.asked, e.read(s, self.asked) + 1); self.reqs.append((q, s.clone()))
            v = e.symbolic(e.p.strip_ref(x.ret), "state"); s.assume(v.f["id_"] == new); return Ref(e.new_root(s, v, "state"))
        return h
    def own(self, st, f): l = self.m.s(st, HW).val.f[f]; return at(l, self.name)
class Availability:
    name = "availability"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = RS + "{configure_hardware, cleanup_hardware, shutdown_hardware, activate_hardware, deactivate_hardware, remove_all_hardware_interfaces_from_available_list, set_component_state}"
    LISTS = ((AC, "command_interfaces"), (AS, "state_interfaces")); SHORT = {AC: "command", AS: "state"}
    GOAL = {"configure": INACTIVE, "cleanup": UNCONF, "shutdown": FINAL, "activate": ACTIVE, "deactivate": INACTIVE}
    def up(self, id): return Or(id == INACTIVE, id == ACTIVE)
    def own_are(self, m, st, own, up):
        """the component's interfaces are available exactly when up"""
        for a, f in self.LISTS:
            v, l = named(m.en, m.s(st, a)), named(m.en, own(st, f)); yield self.SHORT[a] + "-interfaces-available-as-the-state-says", z3.ForAll([key], z3.Implies(mem(l, key), mem(v, key) == up), patterns=[mem(v, key), mem(l, key)])
    def effect(self, m, pre, st, own, up):
        """the component's interfaces are available exactly when up (None: as before), all others as before"""
        for a, f in self.LISTS:
            v0, v1, l = (named(m.en, y) for y in (m.s(pre, a), m.s(st, a), own(pre, f))); x = key
            yield f"{self.SHORT[a]}-interfaces-available-as-the-state-says-others-as-before", z3.ForAll([x], mem(v1, x) == (mem(v0, x) if up is None else z3.If(mem(l, x), up, mem(v0, x))), patterns=[mem(v1, x), mem(v0, x)])
    def loops(self, en, m, own, st0):
        """the loops over the component's lists: what was processed so far is available, or not (as the loop does)"""
        def choose(e, s, stmt, frame, n):
            if n is None: return None
            adds = not reaches(en.p, stmt, "erase")
            for a, f in self.LISTS:
                l = own(st0, f)
                if n.eq(l.len) or z3.is_true(z3.simplify(n == l.len)):
                    v0, l = named(en, m.s(s, a)), named(en, l)
                    def inv(x, it, a=a, l=l, v0=v0):
                        v = named(en, m.s(x, a)); k0 = key
                        return [("available-so-far", z3.ForAll([k0], mem(v, k0) == (Or(mem(v0, k0), mem(l, k0, it)) if adds else And(mem(v0, k0), Not(mem(l, k0, it)))), patterns=[mem(v, k0), mem(v0, k0)])), ("listed-once", distinct(v)), ("length", v.len >= 0)]
                    return inv
            return None
        en.loop_invs.append(choose)
    def start(self, prog, t, q, boom=True):
        en = t.engine(prog); st = E.State(); m = Manager(en, st, prog, bags=True); c = One(en, st, prog, m, boom); return en, st, m, c, prog.find(RS + q)
    def build(self, prog, t):
        P = {"H09"}
        # taking all interfaces of a component out of the lists
        q = "remove_all_hardware_interfaces_from_available_list"; en, st, m, c, f = self.start(prog, t, q); self.loops(en, m, c.own, st.clone()); pre = st.clone()
        en.call_fn(f, st, this=m.store, args=[Ref(en.new_root(st, c.name, "name"))])
        for n, g in list(self.effect(m, pre, st, c.own, z3.BoolVal(False))) + list(m.inv(st)): t.require(P, q + ":" + n, en, st, g)
        t.require(P, q + ":nothing-else-changes", en, st, same(m.s(st), m.s(pre), (AC, AS)))
        for s, x in en.throw_sinks[0]: t.require(P, q + ":no-throw", en, s, z3.BoolVal(False))
        t.safety(P, en); t.cover(P, q + ":entry", en, pre)
        # the five transitions
        for w, goal in self.GOAL.items(): self.transition(prog, t, P, w, goal)
    def removal(self, m, c):
        """its contract"""
        def h(e, s, x):
            nm = x.val(0); e.oblige("interfaces-of-the-component-at-hand", s, nm == c.name, "pre"); pre = s.clone(); self.havoc(e, m, s)
            for n, g in list(self.effect(m, pre, s, c.own, z3.BoolVal(False))) + list(m.inv(s)): s.assume(g)
        return h
    def havoc(self, e, m, s):
        for a, _ in self.LISTS:
            v = m.s(s, a); n = e.fresh("len", z3.IntSort()); e.fact(n >= 0); e.write(s, m.store.ext(("f", a)), Vec(n, e.fresh("elem", v.elem.sort())))
    def transition(self, prog, t, P, w, goal):
        q = w + "_hardware"; en, st, m, c, f = self.start(prog, t, q); self.loops(en, m, c.own, st.clone())
        en.contracts[RS + "remove_all_hardware_interfaces_from_available_list"] = self.removal(m, c)
        for n, g in self.own_are(m, st, c.own, self.up(c.id(st))): st.assume(g)
        pre = st.clone(); R = en.call_fn(f, st, this=m.store, args=[Ref(c.lv)])
        for n, g in self.effect(m, pre, st, c.own, self.up(c.id(st))): t.require(P, q + ":" + n, en, st, g)
        for n, g in m.inv(st): t.require(P, q + ":" + n, en, st, g)
        t.require(P, q + ":success-means-the-state-was-reached", en, st, z3.Implies(R, c.id(st) == goal))
        t.require(P, q + ":the-state-reached-means-success", en, st, z3.Implies(And(c.id(st) == goal, Not(c.threw(st))), R))
        t.require(P, q + ":the-driver-is-asked-once", en, st, en.read(st, c.asked) == 1)
        for r, s in c.reqs: t.require(P, q + ":the-driver-is-asked-for-this-transition", en, s, z3.BoolVal(r == w))
        self.frame(t, P, q, en, m, c, pre, st)
        for s, x in en.throw_sinks[0]:
            t.require(P, q + ":exceptions-leave-only-when-not-handled", en, s, And(c.threw(s), Not(m.s(s, "handle_exception_")))); t.require(P, q + ":an-exception-changes-nothing", en, s, And(same(m.s(s), m.s(pre)), c.id(s) == c.id(pre)))
        t.safety(P, en); t.cover(P, q + ":entry", en, pre); t.cover(P, q + ":return", en, st, R)
    def frame(self, t, P, q, en, m, c, pre, st):
        a, b = m.s(pre, GRP), m.s(st, GRP)
        t.require(P, q + ":nothing-else-changes", en, st, same(m.s(st), m.s(pre), (AC, AS, GRP)))
        t.require(P, q + ":no-other-group-is-touched", en, st, fa([key], z3.Implies(key != c.group, And(sel(b.dom, key) == sel(a.dom, key), sel(b.val, key) == sel(a.val, key)))))
def reaches(prog, stmt, name, depth=4):
    """does the statement, or what it calls, call a member function of this name"""
    stack, seen = [(stmt, depth)], set()
    while stack:
        x, d = stack.pop()
        if isinstance(x, list): stack += [(y, d) for y in x]
        elif isinstance(x, dict):
            c = x.get("callee")
            if isinstance(c, dict):
                if c.get("name") == name: return True
                f = prog.fns.get(c.get("id"))
                if f is not None and d and c["id"] not in seen: seen.add(c["id"]); stack.append((f.get("body"), d - 1))
            stack += [(y, d) for y in x.values() if isinstance(y, (dict, list))]
    return False
AVAIL = Availability()
class Requests:
    """asking for a life cycle state"""
    name = "state-requests"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = RS + "set_component_state, " + RM + "set_component_state"
    def build(self, prog, t): self.of_one(prog, t, {"H09"}); self.by_name(prog, t, {"H09"})
    def transition(self, m, c, w):
        """the contract of one transition (availability)"""
        def h(e, s, x):
            e.oblige("transition-of-the-component-at-hand", s, z3.BoolVal(z3.is_true(z3.simplify(lv_same(x.lv(0), c.lv)))), "pre"); e.oblige("asked-only-for-transitions-that-exist", s, Or(*[c.id(s) == l for l in REQ[w][0]]), "pre")
            pre = s.clone(); b = And(e.fresh("exception_leaves", z3.BoolSort()), Not(m.s(s, "handle_exception_")))
            sx = s.clone(); sx.assume(b); e.write(sx, c.boomed, z3.BoolVal(True)); e.write(sx, c.asked, e.read(sx, c.asked) + 1); e.throw_sinks[-1].append((sx, E.Exc("std::exception"))); s.assume(Not(b))
            threw = e.fresh("driver_threw", z3.BoolSort()); r = e.fresh("result", z3.IntSort()); s.assume(Or(r == SUCCESS, r == FAILURE, r == ERROR)); s0 = c.id(s); legal, tab = REQ[w]; err = z3.If(e.fresh("handled", z3.BoolSort()), UNCONF, FINAL)
            err = z3.If(s0 == UNCONF, UNCONF, err); new = z3.If(And(Not(threw), Or(*[s0 == l for l in legal])), z3.If(r == SUCCESS, tab[SUCCESS], z3.If(r == FAILURE, tab.get(FAILURE, err), err)), s0)
            e.write(s, c.state, new); e.write(s, c.boomed, Or(c.threw(s), threw)); e.write(s, c.asked, e.read(s, c.asked) + 1); e.write(s, c.failed, Or(e.read(s, c.failed), threw, r != SUCCESS)); AVAIL.havoc(e, m, s)
            g = m.s(s, GRP); ng = tmap(lambda l: e.fresh("groups", l.sort()), g); e.write(s, m.store.ext(("f", GRP)), ng)
            s.assume(fa([key], z3.Implies(key != c.group, And(sel(ng.dom, key) == sel(g.dom, key), sel(ng.val, key) == sel(g.val, key)))))
            for n, q in list(AVAIL.effect(m, pre, s, c.own, AVAIL.up(new))) + list(m.inv(s)): s.assume(q)
            R = e.fresh("reached", z3.BoolSort()); s.assume(z3.Implies(R, new == AVAIL.GOAL[w])); s.assume(z3.Implies(And(new == AVAIL.GOAL[w], Not(threw)), R)); return R
        return h
    def of_one(self, prog, t, P):
        q = "set_component_state"; en, st, m, c, _ = AVAIL.start(prog, t, "configure_hardware"); f = prog.find(RS + q); f = f[0] if isinstance(f, list) else f
        c.failed = en.new_root(st, z3.BoolVal(False), "a_transition_failed")
        for w in REQ: en.contracts[RS + w + "_hardware"] = self.transition(m, c, w)
        told = en.new_root(st, z3.IntVal(0), "told")
        en.contracts["call:std::function"] = lambda e, s, x: e.write(s, told, e.read(s, told) + 1)
        for n, g in AVAIL.own_are(m, st, c.own, AVAIL.up(c.id(st))): st.assume(g)
        target = en.symbolic(prog.strip_ref(f["args"][1]["t"]), "target"); T = target.f["id_"]; pre = st.clone(); R = en.call_fn(f, st, this=m.store, args=[Ref(c.lv), Ref(en.new_root(st, target, "target"))])
        known = Or(*[T == x for x in (UNCONF, INACTIVE, ACTIVE, FINAL)]); asked = en.read(st, c.asked)
        for n, g in AVAIL.effect(m, pre, st, c.own, AVAIL.up(c.id(st))): t.require(P, q + ":" + n, en, st, g)
        for n, g in m.inv(st): t.require(P, q + ":" + n, en, st, g)
        t.require(P, q + ":success-means-the-state-was-reached", en, st, z3.Implies(R, And(known, c.id(st) == T)))
        t.require(P, q + ":refused-only-when-finalized-or-a-transition-failed", en, st, z3.Implies(And(known, Not(R)), Or(And(c.id(pre) == FINAL, T != FINAL), en.read(st, c.failed))))
        t.require(P, q + ":no-driver-is-asked-when-already-there-or-finalized-or-the-state-is-no-state", en, st, z3.Implies(Or(Not(known), c.id(pre) == T, c.id(pre) == FINAL), And(asked == 0, c.id(st) == c.id(pre))))
        AVAIL.frame(t, P, q, en, m, c, pre, st)
        for s, x in en.throw_sinks[0]: t.require(P, q + ":exceptions-leave-only-when-not-handled", en, s, And(c.threw(s), Not(m.s(s, "handle_exception_"))))
        for s, x in en.throw_sinks[0]:
            for n, g in AVAIL.effect(m, pre, s, c.own, AVAIL.up(c.id(s))): t.require(P, q + ":exception:" + n, en, s, g)
        t.safety(P, en); t.cover(P, q + ":entry", en, pre); t.cover(P, q + ":return", en, st, R)
    def by_name(self, prog, t, P):
        q = "set_component_state"; en = t.engine(prog); st = E.State(); m = Manager(en, st, prog, bags=True); parts = Parts(en, st, prog, m); f = prog.find(RM + q)
        asked = en.new_root(st, z3.IntVal(0), "asked"); said = en.new_root(st, z3.BoolVal(False), "said"); st0 = st.clone()
        nm, tg = en.fresh("wanted", S), en.symbolic(prog.strip_ref(f["args"][1]["t"]), "target"); tl = en.new_root(st, tg, "target")
        def act(e, s, x):
            e.oblige("only-the-component-named-is-acted-on", s, parts.name(s, x.lv(0)) == nm, "pre"); g = e.read(s, x.lv(1)).f["id_"]
            e.oblige("it-is-asked-for-the-state-named", s, g == resolved, "pre"); e.oblige("under-the-lock-of-the-components", s, Or(*m.held(s, "resources")), "safety")
            r = e.fresh("reached", z3.BoolSort()); e.write(s, asked, e.read(s, asked) + 1); e.write(s, said, r); return r
        en.contracts[RS + q] = act
        L = {"unconfigured": UNCONF, "inactive": INACTIVE, "active": ACTIVE, "finalized": FINAL}; lab = tg.f["label_"]; resolved = tg.f["id_"]
        for l, n in L.items(): resolved = z3.If(And(tg.f["id_"] == 0, lab == en.strlit(l)), n, resolved)
        known = sel(m.s(st, HW).dom, nm); st.assume(z3.Implies(known, parts.has(st, nm))); pre = st.clone()
        R = en.call_fn(f, st, this=m.lv, args=[Ref(en.new_root(st, nm, "name")), Ref(tl)])
        t.require(P, q + ":by-name:an-unknown-component-is-refused", en, st, z3.Implies(Not(known), And(R == ERR, en.read(st, asked) == 0)))
        t.require(P, q + ":by-name:a-known-component-is-asked-once", en, st, z3.Implies(known, en.read(st, asked) == 1))
        t.require(P, q + ":by-name:the-result-is-what-it-said", en, st, z3.Implies(known, R == z3.If(en.read(st, said), z3.IntVal(OK), z3.IntVal(ERR))))
        t.require(P, q + ":by-name:nothing-else-changes", en, st, same(m.s(st), m.s(pre)))
        for s, x in en.throw_sinks[0]: t.require(P, q + ":by-name:no-throw", en, s, z3.BoolVal(False))
        t.safety(P, en); t.cover(P, q + ":by-name:entry", en, pre); t.cover(P, q + ":by-name:return", en, st, R == OK)
class Parts:
    """the components in the storage, each known by its list and index; what they are is ghost state"""
    KINDS = ("actuators_", "sensors_", "systems_")
    def __init__(self, en, st, prog, m):
        self.en, self.m = en, m; self.NAME = {k: z3.Const("name_of_" + k, z3.ArraySort(z3.IntSort(), S)) for k in self.KINDS}
        en.contracts[HC + "get_name"] = lambda e, s, x: Ref(e.new_root(s, self.name(s, x.obj), "its_name"))
    def where(self, lv):
        """[(guard, list, index)]"""
        out = []
        for g, r, p in lv.alts:
            if r != self.m.store.alts[0][1] or len(p) < 2 or p[0][0] != "f" or p[0][1] not in self.KINDS: raise Unsupported("component " + str(p))
            out.append((g, p[0][1], p[1][1]))
        return out
    def get(self, table, lv):
        r = None
        for g, k, n in reversed(self.where(lv)): v = sel(table[k], n); r = v if r is None else z3.If(g if not isinstance(g, bool) else z3.BoolVal(g), v, r)
        return r
    def name(self, s, lv): return self.get(self.NAME, lv)
    def has(self, s, nm): return Or(*[z3.Exists([k], And(inr(k, self.m.s(s, K).len), sel(self.NAME[K], k) == nm)) for K in self.KINDS])
REQUESTS = Requests()
class Chained:
    """the interfaces of chainable controllers"""
    name = "chained-interfaces"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = RM + "make_controller_{exported_state,reference}_interfaces_{available,unavailable}"
    def build(self, prog, t):
        P = {"H09"}
        for kind, a, mp in (("exported_state", AS, "controllers_exported_state_interfaces_map_"), ("reference", AC, "controllers_reference_interfaces_map_")):
            for how in ("available", "unavailable"):
                q = f"make_controller_{kind}_interfaces_{how}"; en = t.engine(prog); st = E.State(); m = Manager(en, st, prog, bags=True); nm = en.fresh("controller", S); f = prog.find(RM + q); st0 = st.clone()
                l = at(m.s(st, mp).val, nm); known = sel(m.s(st, mp).dom, nm); dom = m.s(st, CM if a == AC else SM).dom
                st.assume(fa([key], z3.Implies(And(known, mem(l, key)), sel(dom, key)), mem(l, key)))
                def write(e, s, root, path):
                    if root == m.store.alts[0][1] and path and path[0] == ("f", a): e.oblige("lists-changed-under-their-lock", s, Or(*m.held(s, "interfaces")), "safety")
                def add_items(e, s, x):
                    """C01: what was there and what is added, each once"""
                    o = x.lv(0); v0, y = named(e, e.read(s, o)), named(e, x.val(1)); n = e.fresh("len", z3.IntSort()); v1 = Vec(n, e.fresh("elem", v0.elem.sort())); e.fact(n >= 0)
                    s.assume(fa([key], mem(v1, key) == Or(mem(v0, key), mem(y, key)), mem(v1, key), mem(v0, key))); s.assume(z3.Implies(distinct(v0), distinct(v1))); e.write(s, o, v1)
                en.contracts["ros2_control::add_items"] = add_items
                def choose(e, s, stmt, frame, n):
                    if n is None or not (n.eq(l.len) or z3.is_true(z3.simplify(n == l.len))): return None
                    v0 = named(e, m.s(s, a)); adds = not reaches(prog, stmt, "erase")
                    def inv(x, it):
                        v = named(e, m.s(x, a)); return [("so-far", fa([key], mem(v, key) == (Or(mem(v0, key), mem(l, key, it)) if adds else And(mem(v0, key), Not(mem(l, key, it)))), mem(v, key), mem(v0, key))), ("listed-once", distinct(v)), ("length", v.len >= 0)]
                    return inv
                en.loop_invs.append(choose); pre = st.clone(); en.write_hook = write; en.call_fn(f, st, this=m.lv, args=[Ref(en.new_root(st, nm, "controller"))]); en.write_hook = None
                v0, v1 = named(en, m.s(pre, a)), named(en, m.s(st, a))
                t.require(P, q + ":exactly-the-controllers-interfaces-change", en, st, fa([key], mem(v1, key) == (Or(mem(v0, key), mem(l, key)) if how == "available" else And(mem(v0, key), Not(mem(l, key)))), mem(v1, key), mem(v0, key)))
                for n, g in m.inv(st): t.require(P, q + ":" + n, en, st, g)
                t.require(P, q + ":nothing-else-changes", en, st, same(m.s(st), m.s(pre), (a,)))
                for s, x in en.throw_sinks[0]: t.require(P, q + ":refused-only-for-an-unknown-controller", en, s, And(Not(known), same(m.s(s), m.s(pre))))
                t.safety(P, en); t.cover(P, q + ":entry", en, pre); t.cover(P, q + ":return", en, st)
CHAINED = Chained()
# ---------------------------------------------------------------- command mode switch (H07)
def both(en, out, a, b): return fa([key], mem(out, key) == And(mem(a, key), mem(b, key)), mem(out, key), mem(a, key), mem(b, key))
class Common:
    name = "common-interfaces"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = HI + "find_common_hardware_interfaces"
    def build(self, prog, t):
        P = {"H07"}; q = "find_common_hardware_interfaces"; en = t.engine(prog); st = E.State(); sets(en); f = prog.find(HI + q)
        vt = prog.strip_ref(f["args"][0]["t"]); la, lb, lo = (en.new_root(st, en.symbolic(vt, n), n) for n in ("own", "wanted", "result")); out = lambda s: named(en, en.read(s, lo))
        a, b = en.read(st, la), en.read(st, lb)
        def choose(e, s, stmt, frame, n):
            if e.at_range is None or not isinstance(e.at_range[1], Vec): return None
            r = named(e, e.at_range[1])
            def inv(x, it):
                # what was found so far: the common names among the first ones of the list that is gone through
                v = named(e, e.read(x, lo)); return [("found-so-far", fa([key], mem(v, key) == And(mem(a, key), mem(b, key), mem(r, key, it)), mem(v, key), mem(r, key, it))), ("length", v.len >= 0)]
            return inv
        en.loop_invs.append(choose); pre = st.clone(); en.call_fn(f, st, args=[Ref(la), Ref(lb), Ref(lo)])
        t.require(P, q + ":exactly-the-names-in-both-lists", en, st, both(en, out(st), named(en, a), named(en, b)))
        t.require(P, q + ":length", en, st, en.read(st, lo).len >= 0)
        t.require(P, q + ":the-lists-given-stay-the-same", en, st, And(same(en.read(st, la), a), same(en.read(st, lb), b)))
        for s, x in en.throw_sinks[0]: t.require(P, q + ":no-throw", en, s, z3.BoolVal(False))
        t.safety(P, en); t.cover(P, q + ":entry", en, pre); t.cover(P, q + ":return", en, st, out(st).len > 0)
COMMON = Common()
def flags(en, x, phi):
    """what the local flags changed by a loop say: one that starts out true stays so exactly while phi does (one that starts out false: the opposite)"""
    for r, ps in en.loop_mod.items():
        if isinstance(r, tuple) and r and r[0] == "v" and r in en.loop_start.store:
            v0 = en.loop_start.store[r]
            if is_leaf(v0) and z3.is_bool(v0) and r in x.store:
                v0 = z3.simplify(v0)
                if z3.is_true(v0): yield "flag-says-what-happened", x.store[r] == phi
                elif z3.is_false(v0): yield "flag-says-what-happened", x.store[r] == Not(phi)
class Switch:
    name = "mode-switch"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = RM + "{prepare,perform}_command_mode_switch"; ASK = ("actuators_", "systems_")
    def build(self, prog, t):
        for q in ("prepare_command_mode_switch", "perform_command_mode_switch"): self.one(prog, t, {"H07"}, q)
    def one(self, prog, t, P, q):
        en = t.engine(prog); st = E.State(); m = Manager(en, st, prog, bags=True); parts = Parts(en, st, prog, m); f = prog.find(RM + q); I, B = z3.IntSort(), z3.BoolSort()
        vt = prog.strip_ref(f["args"][0]["t"]); ls, lp = (en.new_root(st, en.symbolic(vt, n), n) for n in ("start", "stop")); start, stop = named(en, en.read(st, ls)), named(en, en.read(st, lp))
        info = m.s(st, HW); own = lambda K, x: at(info.val.f["command_interfaces"], sel(parts.NAME[K], x))
        allow = m.m(st, "allow_controller_activation_with_inactive_hardware_"); handle = m.m(st, "params_").f["handle_exceptions"]
        CONC, WIT = ({K: z3.Function(n + K, I, r) for K in self.ASK} for n, r in (("concerned_", B), ("common_interface_", S)))
        STATE = {K: z3.Const("state_of_" + K, z3.ArraySort(I, I)) for K in Parts.KINDS}
        asked, accepted = ({K: en.new_root(st, en.fresh(n + K, z3.ArraySort(I, r)), n + K) for K in Parts.KINDS} for n, r in (("asked_", I), ("accepted_", B)))
        A, ok = (lambda s, K: en.named(en.read(s, asked[K]))), (lambda s, K: en.named(en.read(s, accepted[K])))
        en.contracts["joint_limits::JointLimiterInterface::reset_internals"] = lambda e, s, x: None
        for K in Parts.KINDS:
            st.assume(fa([i], And(sel(A(st, K), i) == 0, Not(sel(ok(st, K), i))), sel(A(st, K), i), sel(ok(st, K), i)))
            st.assume(fa([i], z3.Implies(inr(i, m.s(st, K).len), sel(info.dom, sel(parts.NAME[K], i))), sel(parts.NAME[K], i)))
        for K in self.ASK:
            o = own(K, i); c = CONC[K](i)
            en.fact(fa([i, key], z3.Implies(And(mem(o, key), Or(mem(start, key), mem(stop, key))), c), (mem(o, key), c)))
            en.fact(fa([i], z3.Implies(c, And(mem(o, WIT[K](i)), Or(mem(start, WIT[K](i)), mem(stop, WIT[K](i))))), c))
        def all_ok(s, K, n): return fa([i], z3.Implies(And(inr(i, n), CONC[K](i)), sel(ok(s, K), i)), sel(ok(s, K), i), CONC[K](i))
        en.contracts[HC + "get_lifecycle_id"] = lambda e, s, x: parts.get(STATE, x.obj)
        def common(e, s, x):
            a, b, o = named(e, x.val(0)), named(e, x.val(1)), x.lv(2); n = e.fresh("len", I); v = Vec(n, e.fresh("elem", e.read(s, o).elem.sort())); e.fact(n >= 0)
            s.assume(both(e, v, a, b)); s.assume(z3.Implies(n > 0, mem(v, sel(v.elem, z3.IntVal(0))))); e.write(s, o, v)
        en.contracts[HI + "find_common_hardware_interfaces"] = common
        def step(e, s, x):
            (g, K, n), = parts.where(x.obj); a, b = named(e, x.val(0)), named(e, x.val(1)); o = own(K, n); c = STATE[K][n]
            for w, v, l in (("start", a, start), ("stop", b, stop)): e.oblige(f"a-component-is-given-its-own-{w}-interfaces", s, fa([key], mem(v, key) == And(mem(o, key), mem(l, key)), mem(v, key), mem(o, key)), "pre")
            e.oblige("only-components-concerned-are-asked", s, Or(a.len > 0, b.len > 0), "pre"); e.oblige("only-in-a-state-that-permits-it", s, Or(c == ACTIVE, And(c == INACTIVE, Or(allow, a.len == 0))), "pre")
            e.oblige("asked-once", s, sel(A(s, K), n) == 0, "pre")
            e.write(s, asked[K], z3.Store(A(s, K), n, sel(A(s, K), n) + 1)); e.throw(s, e.fresh("driver_throws", B), E.Exc("std::exception")); e.throw(s, e.fresh("driver_throws_something", B), E.Exc("int"))
            r = e.fresh("answer", I); s.assume(Or(r == OK, r == ERR, r == DEACT)); e.write(s, accepted[K], z3.Store(ok(s, K), n, r == OK)); return r
        other = lambda e, s, x: e.oblige("the-other-step-is-not-asked-for", s, z3.BoolVal(False), "pre")
        for w in ("prepare", "perform"): en.contracts[HC + w + "_command_mode_switch"] = step if q.startswith(w) else other
        def choose(e, s, stmt, frame, n):
            if e.at_range is None or len(e.at_range[0].alts) != 1: return None
            g, r, p = e.at_range[0].alts[0]
            if r != m.store.alts[0][1] or not p or p[0][0] != "f" or p[0][1] not in self.ASK or len(p) != 1: return None
            K = p[0][1]
            def inv(x, it):
                a, o = A(x, K), ok(x, K); yield "not-yet-asked", fa([i], z3.Implies(i >= it, And(sel(a, i) == 0, Not(sel(o, i)))), sel(a, i), sel(o, i))
                yield from flags(e, x, all_ok(x, K, it))
            return inv
        en.loop_invs.append(choose); pre = st.clone()
        R = en.call_fn(f, st, this=m.lv, args=[Ref(ls), Ref(lp)])
        cm, av = m.s(pre, CM), named(en, m.s(pre, AC)); good = lambda l: And(fa([i], z3.Implies(inr(i, l.len), sel(cm.dom, sel(l.elem, i))), sel(l.elem, i)), fa([i], z3.Implies(inr(i, l.len), mem(av, sel(l.elem, i))), sel(l.elem, i)))
        fit = And(good(start), good(stop)) if q.startswith("prepare") else z3.BoolVal(True); every = And(*[all_ok(st, K, m.s(pre, K).len) for K in self.ASK])
        none = lambda s: And(*[fa([i], sel(A(s, K), i) == 0, sel(A(s, K), i)) for K in Parts.KINDS])
        t.require(P, q + ":success-exactly-when-every-component-concerned-accepted", en, st, R == And(fit, every))
        if q.startswith("prepare"): t.require(P, q + ":nobody-is-asked-about-unknown-or-unavailable-interfaces", en, st, z3.Implies(Not(fit), none(st)))
        t.require(P, q + ":sensors-are-not-asked", en, st, fa([i], sel(A(st, "sensors_"), i) == 0, sel(A(st, "sensors_"), i)))
        t.require(P, q + ":the-storage-stays-the-same", en, st, same(m.s(st), m.s(pre), () if q.startswith("prepare") else ("start_interfaces_buffer_", "stop_interfaces_buffer_", "joint_limiters_interface_")))
        for s, x in en.throw_sinks[0]: t.require(P, q + ":exceptions-leave-only-when-not-handled", en, s, Not(handle))
        t.safety(P, en); t.cover(P, q + ":entry", en, pre); t.cover(P, q + ":return", en, st, R)
SWITCH = Switch()
# ---------------------------------------------------------------- the read and write cycles (H08, H10)
class Cycle:
    """what each driver does is given beforehand (an arbitrary function of the component); the cycle is compared with the fold of the components in order"""
    name = "cycle"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = RM + "{read, write}, " + RS + "update_hardware_component_group_state"
    LISTS = {"read": ("actuators_", "sensors_", "systems_"), "write": ("actuators_", "systems_")}
    def build(self, prog, t):
        for q in ("read", "write"): self.one(prog, t, q)
    def one(self, prog, t, q):
        P, PR = {"H08"}, {"H10"}; rd = q == "read"; I, B = z3.IntSort(), z3.BoolSort(); KS = Parts.KINDS
        en = t.engine(prog, real=True); en.opaque_products = True; st = E.State(); m = Manager(en, st, prog, bags=True); parts = Parts(en, st, prog, m); f = prog.find(RM + q); info = m.s(st, HW)
        F = lambda n, *s: {K: z3.Function(n + "_" + K, I, *s) for K in KS}
        OWN, THROWS, RES, DUE, GROUP, LIFE0, LIFE1, UP, LAST, LASTCT = F("lock_obtained", B), F("driver_throws", B), F("driver_result", I), F("due", B), F("group", S), F("state_before", I), F("state_after_driver", I), F("up_after_deactivation", B), F("last_time", I), F("last_clock", I)
        GS, CNT, ANYE, ANYD = F("groups_after", z3.ArraySort(S, I)), F("failed_so_far", I), F("any_failed", B), F("any_deactivated", B); AV = {a: F("available" + a, S, B) for a in (AC, AS)}
        nm = lambda K, x: sel(parts.NAME[K], x); own = lambda K, x, fl: at(info.val.f[fl], nm(K, x)); empty = en.strlit("")
        ghost = lambda n, s: {K: en.new_root(st, en.fresh(n + K, z3.ArraySort(I, s)), n + K) for K in KS}
        calls, erred, deact, life = ghost("calls_", I), ghost("told_error_", I), ghost("deactivated_", I), ghost("state_", I); G = lambda s, g, K: en.named(en.read(s, g[K])); upd = lambda s, g, K, x, v: en.write(s, g[K], z3.Store(en.read(s, g[K]), x, v))
        inc = lambda s, g, K, x: upd(s, g, K, x, sel(en.read(s, g[K]), x) + 1)
        CT, R = en.fresh("clock_type", I), m.s(st, "cm_update_rate_"); st.assume(And(CT > 0, CT <= 3)); st.assume(And(R > 0, R <= 100000000)); time0 = en.new_root(st, z3.IntVal(0), "time_of_this_cycle")
        for K in KS:
            st.assume(fa([i], And(*[sel(G(st, g, K), i) == 0 for g in (calls, erred, deact)]), *[sel(G(st, g, K), i) for g in (calls, erred, deact)])); st.assume(fa([i], sel(G(st, life, K), i) == LIFE0[K](i), sel(G(st, life, K), i)))
            st.assume(fa([i], z3.Implies(inr(i, m.s(st, K).len), sel(info.dom, nm(K, i))), nm(K, i)))
            en.fact(fa([i], And(Or(*[RES[K](i) == x for x in (OK, ERR, DEACT)])), RES[K](i))); en.fact(fa([i], Or(LASTCT[K](i) == 0, LASTCT[K](i) == CT), LASTCT[K](i)))
        rate = lambda K, x: sel(info.val.f["rw_rate"], nm(K, x)); own_rate = lambda K, x: Not(Or(rate(K, x) == 0, rate(K, x) == R)); ab = lambda x: z3.If(x >= 0, x, -x)
        called = lambda K, x: And(OWN[K](x), DUE[K](x)); ores = lambda K, x: z3.If(called(K, x), z3.If(THROWS[K](x), z3.IntVal(ERR), RES[K](x)), z3.IntVal(OK))
        fin = lambda K, x: z3.If(GROUP[K](x) == empty, ores(K, x), z3.If(ores(K, x) != OK, ores(K, x), sel(GS[K](x), GROUP[K](x))))
        failed = lambda K, x: And(OWN[K](x), (fin(K, x) != OK) if rd else fin(K, x) == ERR); deactr = lambda K, x: z3.BoolVal(False) if rd else And(OWN[K](x), fin(K, x) == DEACT); lifen = lambda K, x: z3.If(called(K, x), LIFE1[K](x), LIFE0[K](x)); deacted = lambda K, x: And(deactr(K, x), lifen(K, x) == ACTIVE)
        lists_d = m.m(st, "return_failed_hardware_names_on_return_deactivate_write_cycle_"); named_ = lambda K, x: Or(failed(K, x), And(deactr(K, x), lists_d))
        def unfold(e, K, n):
            """the definitions, for the component number n"""
            e.fact(GS[K](n + 1) == z3.If(And(OWN[K](n), GROUP[K](n) != empty, ores(K, n) != OK), z3.Store(GS[K](n), GROUP[K](n), ores(K, n)), GS[K](n))); e.fact(CNT[K](n + 1) == CNT[K](n) + z3.If(named_(K, n), 1, 0)); e.fact(ANYE[K](n + 1) == Or(ANYE[K](n), failed(K, n))); e.fact(ANYD[K](n + 1) == Or(ANYD[K](n), deactr(K, n)))
            for a, fl in Availability.LISTS:
                A = AV[a][K]; e.fact(z3.ForAll([key], A(n + 1, key) == z3.If(mem(own(K, n, fl), key), z3.If(failed(K, n), z3.BoolVal(False), z3.If(deacted(K, n), UP[K](n), A(n, key))), A(n, key)), patterns=[A(n + 1, key), A(n, key)]))
        # ---- the components
        C = en.contracts; W = parts.where
        cur = [None]
        def one(lv):
            (g, K, n), = W(lv); cur[0] = (K, n); return K, n
        stat = lambda e, s, x: Ref(e.new_root(s, e.symbolic(e.p.strip_ref(x.ret), "statistics"), "statistics")); C[HC + "get_read_statistics"] = C[HC + "get_write_statistics"] = stat; C["ros2_control::MovingAverageStatistics::update_statistics"] = C[HI + "HardwareComponentStatisticsData::update_statistics"] = lambda e, s, x: None
        C[HC + "get_group_name"] = lambda e, s, x: Ref(e.new_root(s, (lambda K, n: GROUP[K](n))(*one(x.obj)), "its_group")); C[HC + "get_lifecycle_id"] = lambda e, s, x: (lambda K, n: sel(G(s, life, K), n))(*one(x.obj))
        def mutex(e, s, x): K, n = one(x.obj); return Ref(x.obj.ext(("f", "component_mutex_")))
        C[HC + "get_mutex"] = mutex
        def try_lock(mx):
            if len(mx) == 1 and len(mx[0].alts) == 1 and mx[0].alts[0][1] == m.store.alts[0][1] and len(mx[0].alts[0][2]) > 1 and mx[0].alts[0][2][0][1] in KS: K, n = one(mx[0]); return OWN[K](n)
        en.try_lock = try_lock
        # one decision: now is nearer to the component's own period than the next cycle
        due = lambda p, k, r: ab(p * k - 1) <= ab((p + 1 / r) * k - 1)
        near = lambda x, ns: And(z3.ToReal(ns) - 1 < x * 1000000000, x * 1000000000 < z3.ToReal(ns) + 1)
        lem = lambda x, ns, k, r: z3.Implies(And(k > 0, r > 0, r <= 100000000, x == 1 / k, near(x, ns)), due(z3.ToReal(ns) / 1000000000, k, r))
        if rd: x_, n_, k_, r_ = z3.Real("x"), z3.Int("n"), z3.Real("k"), z3.Real("r"); e2 = t.engine(prog, real=True); t.require(PR | P, "lemma:a-component-never-run-is-due", e2, None, lem(x_, n_, k_, r_))
        def from_seconds(e, s, x):
            v = x.val(0); ns = e.fresh("ns", I); e.fact(near(v, ns))
            if cur[0]: K, n = cur[0]; e.fact(lem(v, ns, z3.ToReal(rate(K, n)), z3.ToReal(R)))
            return lib.mkdur(e, x, x.rett(), ns)
        C["rclcpp::Duration::from_seconds"] = from_seconds
        def tval(e, s, t_, ns, ct): v = e.symbolic(t_, "time"); return Rec(v.name, {**v.f, "ns_": ns, "ct_": ct})
        def now(e, s, x): ns = e.fresh("now", I); e.write(s, time0, ns); return tval(e, s, e.p.strip_ref(x.ret), ns, CT)
        C["rclcpp::Clock::now"] = now
        last = lambda e, s, x: (lambda K, n: Ref(e.new_root(s, tval(e, s, e.p.strip_ref(x.ret), LAST[K](n), LASTCT[K](n)), "last")))(*one(x.obj)); C[HC + f"get_last_{q}_time"] = last
        C[HC + f"get_last_{'write' if rd else 'read'}_time"] = lambda e, s, x: e.oblige("rate:the-last-time-of-the-same-kind", s, z3.BoolVal(False), "pre") or Ref(e.new_root(s, e.symbolic(e.p.strip_ref(x.ret), "t"), "t"))
        per = en.symbolic(prog.strip_ref(f["args"][1]["t"]), "period")
        def drive(e, s, x):
            K, n = one(x.obj); T, D = x.val(0), x.val(1); T, D = T.f["ns_"], D.f["ns_"]; e.oblige("locked", s, OWN[K](n), "pre"); e.oblige("rate:given-the-time-of-this-cycle", s, T == e.read(s, time0), "pre")
            first = ab(z3.ToReal(D) - 1000000000 / z3.ToReal(rate(K, n))) <= 1
            e.oblige("rate:given-the-period-of-the-cycle", s, z3.Implies(Not(own_rate(K, n)), D == per.f["ns_"]), "pre"); e.oblige("rate:given-the-time-since-the-last-time", s, z3.Implies(And(own_rate(K, n), LASTCT[K](n) != 0), D == T - LAST[K](n)), "pre"); e.oblige("rate:given-its-own-period-the-first-time", s, z3.Implies(And(own_rate(K, n), LASTCT[K](n) == 0), first), "pre")
            inc(s, calls, K, n); upd(s, life, K, n, LIFE1[K](n)); o = e.fresh("something_else", B); e.throw(s, And(THROWS[K](n), o), E.Exc("std::exception")); e.throw(s, THROWS[K](n), E.Exc("int")); return RES[K](n)
        C[HC + q] = drive; C[HC + ("write" if rd else "read")] = lambda e, s, x: e.oblige("the-other-half-of-the-cycle-is-not-run", s, z3.BoolVal(False), "pre") or z3.IntVal(OK)
        def err(e, s, x):
            K, n = one(x.obj); inc(s, erred, K, n); upd(s, life, K, n, e.fresh("state", I)); v = e.symbolic(e.p.strip_ref(x.ret), "state"); return Ref(e.new_root(s, v, "state"))
        C[HC + "error"] = err
        def cut(e, s, x):
            """H09: the interfaces of the named component are withdrawn"""
            N = x.val(0); h = lambda y, fl: mem(at(info.val.f[fl], N), y); old = {a: named(e, m.s(s, a)) for a, _ in Availability.LISTS}; AVAIL.havoc(e, m, s)
            for a, fl in Availability.LISTS: v = named(e, m.s(s, a)); e.fact(fa([key], mem(v, key) == And(mem(old[a], key), Not(h(key, fl))), mem(v, key), mem(old[a], key)))
        C[RS + "remove_all_hardware_interfaces_from_available_list"] = cut
        def setst(e, s, x):
            """H09: the component is asked for the state; its interfaces are available as its state says, others as before"""
            N, T = x.val(0), e.read(s, x.lv(1)); K, n = cur[0]; e.oblige("only-the-component-itself-is-deactivated", s, N == nm(K, n), "pre"); e.oblige("it-is-asked-to-be-inactive", s, T.f["id_"] == INACTIVE, "pre"); inc(s, deact, K, n); upd(s, life, K, n, e.fresh("state", I))
            old = {a: named(e, m.s(s, a)) for a, _ in Availability.LISTS}; AVAIL.havoc(e, m, s); g = m.s(s, GRP)
            for a, fl in Availability.LISTS: v = named(e, m.s(s, a)); e.fact(fa([key], mem(v, key) == z3.If(mem(own(K, n, fl), key), UP[K](n), mem(old[a], key)), mem(v, key), mem(old[a], key)))
            r = e.fresh("answer", I); s.assume(Or(r == OK, r == ERR)); return r
        C[RM + "set_component_state"] = setst
        status = lambda s: m.m(s, "read_write_status"); gval = lambda g, x: z3.If(sel(g.dom, x), sel(g.val, x), z3.IntVal(OK)); order = []
        def choose(e, s, stmt, frame, n):
            if e.at_range is None or len(e.at_range[0].alts) != 1: return None
            _, r, p = e.at_range[0].alts[0]
            if r != m.store.alts[0][1] or len(p) != 1 or p[0][0] != "f" or p[0][1] not in KS: return None
            K = p[0][1]; e.oblige("every-list-once", s, z3.BoolVal(K not in order and K in self.LISTS[q]), "pre"); order.append(K); s0 = s.clone(); r0 = status(s).f["result"]; n0 = status(s).f["failed_hardware_names"]; g0 = m.s(s, GRP)
            e.fact(fa([key], sel(GS[K](z3.IntVal(0)), key) == gval(g0, key), sel(GS[K](z3.IntVal(0)), key))); e.fact(And(CNT[K](0) == n0.len, Not(ANYE[K](0)), Not(ANYD[K](0))))
            for a, _ in Availability.LISTS: v = named(e, m.s(s, a)); A = AV[a][K]; e.fact(z3.ForAll([key], A(0, key) == mem(v, key), patterns=[A(0, key)]))
            def inv(x, it):
                if not z3.is_const(it) and not z3.is_int_value(it):
                    pr = z3.simplify(it - 1); unfold(e, K, pr); tm = e.read(x, time0)
                    k_ = z3.ToReal(rate(K, pr)); pd = z3.ToReal(tm - LAST[K](pr)) / 1000000000; ran = sel(e.read(x, calls[K]), pr) == 1
                    e.oblige("rate:run-exactly-when-its-turn", x, z3.Implies(OWN[K](pr), ran == z3.If(And(own_rate(K, pr), LASTCT[K](pr) != 0), due(pd, k_, z3.ToReal(R)), z3.BoolVal(True))), "invariant")
                    x.pc.append(DUE[K](pr) == ran)      # what was decided in the iteration that ends here
                c, er, de = (G(x, g, K) for g in (calls, erred, deact)); g, names, res = m.s(x, GRP), status(x).f["failed_hardware_names"], status(x).f["result"]
                yield "called-exactly-when-its-turn", And(fa([i], z3.Implies(And(0 <= i, i < it), sel(c, i) == z3.If(called(K, i), 1, 0)), sel(c, i)), fa([i], z3.Implies(i >= it, sel(c, i) == 0), sel(c, i)))
                yield "states", fa([i], z3.Implies(i >= it, sel(G(x, life, K), i) == LIFE0[K](i)), sel(G(x, life, K), i))
                yield "told-of-the-error-exactly-when-failed", And(fa([i], z3.Implies(And(0 <= i, i < it), sel(er, i) == z3.If(failed(K, i), 1, 0)), sel(er, i)), fa([i], z3.Implies(i >= it, sel(er, i) == 0), sel(er, i)))
                yield "deactivated-exactly-when-asked-and-active", And(fa([i], z3.Implies(And(0 <= i, i < it), sel(de, i) == z3.If(deacted(K, i), 1, 0)), sel(de, i)), fa([i], z3.Implies(i >= it, sel(de, i) == 0), sel(de, i)))
                yield "state-of-the-groups", fa([key], gval(g, key) == sel(GS[K](it), key), sel(g.val, key), sel(g.dom, key), sel(GS[K](it), key))
                yield "one-name-per-failed-component", And(names.len == CNT[K](it), names.len >= n0.len)
                yield "the-failed-components-are-named-in-order", fa([i], z3.Implies(And(0 <= i, i < it, named_(K, i)), And(n0.len <= CNT[K](i), CNT[K](i) < names.len, sel(names.elem, CNT[K](i)) == nm(K, i))), CNT[K](i))
                yield "names-before-stay", fa([i], z3.Implies(And(0 <= i, i < n0.len), sel(names.elem, i) == sel(n0.elem, i)), sel(names.elem, i), sel(n0.elem, i))
                yield "the-result-is-that-of-the-components", res == z3.If(Or(r0 == ERR, ANYE[K](it)), z3.IntVal(ERR), z3.If(Or(r0 == DEACT, ANYD[K](it)), z3.IntVal(DEACT), r0))
                for a, _ in Availability.LISTS: v = named(e, m.s(x, a)); A = AV[a][K]; yield Availability.SHORT[a] + "-interfaces-withdrawn-from-failed-components-only", z3.ForAll([key], mem(v, key) == A(it, key), patterns=[mem(v, key), A(it, key)]); yield "length", v.len >= 0
                h = m.s(x, HW); yield "the-components-stay-known", And(*[h.val.f[n_].elem == info.val.f[n_].elem for n_ in ("command_interfaces", "state_interfaces")], *[h.val.f[n_].len == info.val.f[n_].len for n_ in ("command_interfaces", "state_interfaces")], h.val.f["rw_rate"] == info.val.f["rw_rate"], fa([key], z3.Implies(sel(info.dom, key), sel(h.dom, key)), sel(h.dom, key), sel(info.dom, key)))
            return inv
        en.loop_invs.append(choose); pre = st.clone(); time = en.symbolic(prog.strip_ref(f["args"][0]["t"]), "time")
        Rv = en.call_fn(f, st, this=m.lv, args=[Ref(en.new_root(st, time, "time")), Ref(en.new_root(st, per, "period"))])
        L = self.LISTS[q]; N = {K: m.s(pre, K).len for K in L}; held = Or(*[v for v, mx, cls, how in en.lock_log if how == "try" and any(z3.is_true(z3.simplify(lv_same(y, m.lv.ext(("f", LOCKS["resources"]))))) for y in mx)]); busy = Not(held)
        t.require(P, q + ":every-list-of-components-is-gone-through", en, st, z3.BoolVal(sorted(order) == sorted(L)))
        names, res = Rv.f["failed_hardware_names"], Rv.f["result"]; anye, anyd = Or(*[ANYE[K](N[K]) for K in L]), Or(*[ANYD[K](N[K]) for K in L]); ran = lambda g: z3.Implies(held, g)
        t.require(P, q + ":the-result-is-that-of-the-components", en, st, ran(res == z3.If(anye, z3.IntVal(ERR), z3.If(anyd, z3.IntVal(DEACT), z3.IntVal(OK)))))
        tot = lambda K: CNT[K](N[K]) - CNT[K](0)
        t.require(P, q + ":one-name-per-failed-component", en, st, ran(names.len == z3.Sum([tot(K) for K in L])))
        for K in L:
            t.require(P, f"{q}:the-failed-ones-of-{K}-are-named-in-order", en, st, ran(fa([i], z3.Implies(And(inr(i, N[K]), named_(K, i)), And(inr(CNT[K](i), names.len), sel(names.elem, CNT[K](i)) == nm(K, i))), CNT[K](i))))
            for P_ in (P | PR,): t.require(P_, f"{q}:each-of-{K}-is-run-exactly-when-its-turn", en, st, ran(fa([i], z3.Implies(inr(i, N[K]), sel(G(st, calls, K), i) == z3.If(called(K, i), 1, 0)), sel(G(st, calls, K), i))))
            for g, w, h in ((erred, "told-of-its-failure", failed), (deact, "deactivated-when-asked-for-and-active", deacted)): t.require(P, f"{q}:each-of-{K}-is-{w}", en, st, ran(fa([i], z3.Implies(inr(i, N[K]), sel(G(st, g, K), i) == z3.If(h(K, i), 1, 0)), sel(G(st, g, K), i))))
        for K in order[1:]: pass
        for a, _ in Availability.LISTS:
            v = named(en, m.s(st, a)); v0 = named(en, m.s(pre, a)); chain = [fa([key], mem(v0, key) == AV[a][order[0]](0, key), mem(v0, key))] if order else []
            if order:
                t.require(P, f"{q}:{Availability.SHORT[a]}-interfaces-withdrawn-from-failed-components-only", en, st, ran(And(z3.ForAll([key], AV[a][order[0]](0, key) == mem(v0, key)), *[z3.ForAll([key], AV[a][y](0, key) == AV[a][x](N[x], key)) for x, y in zip(order, order[1:])], z3.ForAll([key], mem(v, key) == AV[a][order[-1]](N[order[-1]], key)))))
        g0, g1 = m.s(pre, GRP), m.s(st, GRP)
        if order: t.require(P, q + ":state-of-the-groups", en, st, ran(And(z3.ForAll([key], sel(GS[order[0]](0), key) == gval(g0, key)), *[z3.ForAll([key], sel(GS[y](0), key) == sel(GS[x](N[x]), key)) for x, y in zip(order, order[1:])], z3.ForAll([key], gval(g1, key) == sel(GS[order[-1]](N[order[-1]]), key)))))
        t.require(P, q + ":nothing-is-done-while-components-are-loaded", en, st, z3.Implies(busy, And(res == OK, names.len == 0, *[fa([i], sel(G(st, g, K), i) == 0, sel(G(st, g, K), i)) for g in (calls, erred, deact) for K in KS])))
        t.require(P, q + ":nothing-else-changes", en, st, same(m.s(st), m.s(pre), (AC, AS, GRP, HW)))
        for s, x in en.throw_sinks[0]: t.require(P, q + ":exceptions-leave-only-when-not-handled", en, s, Not(m.m(pre, "params_").f["handle_exceptions"]))
        rate_ = lambda n: n.startswith("rate:"); t.safety(P, en, of=lambda n: not rate_(n)); t.safety(PR, en, of=rate_); t.cover(P | PR, q + ":entry", en, pre); t.cover(P | PR, q + ":return", en, st)
CYCLE = Cycle()
