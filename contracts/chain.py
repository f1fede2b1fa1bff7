"""contracts on chainable controllers (C04)"""
import z3
import engine as E, lib
from values import *
CI = "controller_interface::"; CC, CB = CI + "ChainableControllerInterface::", CI + "ControllerInterfaceBase::"; UNIT = "controllers.cpp"; ROOTS = [CC + "*", CB + "*"]
BD = [__import__("front").VERIF + "/stubs/rclcpp_lifecycle", __import__("front").VERIF + "/stubs/rclcpp/node", __import__("front").VERIF + "/stubs/realtime_tools"]
UNKNOWN, UNCONF, INACTIVE, ACTIVE, FINAL = range(5); OK, ERR = 0, 1; TRANS = [10, 11, 12, 13, 14, 15]
class Ctl:
    """a chainable controller with user callbacks about which nothing is known; its node exists (init was called)"""
    def __init__(self, en, st, prog, t):
        self.en, self.prog = en, prog
        self.cls = prog.find(CC + "update")["cls"]; base = prog.find(CB + "get_lifecycle_id")["cls"]
        v = en.symbolic(self.cls, "controller"); f = dict(v.f); it = prog.kind(prog.field(base, "impl_"))[1]
        impl = en.symbolic(it, "impl"); g = dict(impl.f); self.node = en.new_root(st, en.symbolic(prog.kind(prog.field(it, "node_"))[1], "node"), "node")
        g["node_"] = Ptr([(True, ("lv", self.node))]); self.impl = en.new_root(st, Rec(impl.name, g), "impl"); f["impl_"] = Ptr([(True, ("lv", self.impl))])
        self.lv = en.new_root(st, Rec(v.name, f), "controller"); self.ghost = {}; self.args = {}
        st.assume(self.inv(st)); st.assume(And(self.id(st) >= 0, self.id(st) <= 15))
    def get(self, st, lv, *p):
        for x in p: lv = lv.ext(("f", x))
        return self.en.read(st, lv)
    def id(self, st): return self.get(st, self.node, "st_", "id_")
    def cached(self, st): return self.get(st, self.impl, "lifecycle_id_")
    def chained(self, st): return self.get(st, self.lv, "in_chained_mode_")
    def inv(self, st):
        c = self.cached(st); return Or(c == self.id(st), *[c == x for x in TRANS])
    def callback(self, st, q, res):
        g = self.en.new_root(st, z3.IntVal(0), "calls"); self.ghost[q] = g; self.args[q] = []
        def h(e, s, x):
            e.write(s, g, e.read(s, g) + 1); self.args[q].append((x.vals(), s.clone())); return res(s) if callable(res) else res
        self.en.contracts[CC + q] = h
    def n(self, st, q): return self.en.read(st, self.ghost[q])
class Gate:
    name = "chained-mode"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = CC + "{update, set_chained_mode, is_in_chained_mode, on_set_chained_mode}, " + CB + "{get_lifecycle_id, get_lifecycle_state}"
    def build(self, prog, t):
        P = {"C04"}; UR, UC, SC = "update_reference_from_subscribers", "update_and_write_commands", "on_set_chained_mode"
        def end(en, pre, st, n, *cov):
            for s, x in en.throw_sinks[0]: t.require(P, n + ":no-throw", en, s, z3.BoolVal(False))
            t.safety(P, en); t.cover(P, n + ":entry", en, pre)
            for c in cov: t.cover(P, n + ":return", en, st, c)
        # one update step
        f = prog.find(CC + "update"); en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t)
        res = {q: en.fresh(q, z3.IntSort()) for q in (UR, UC)}
        for q in res: c.callback(st, q, res[q])
        args = [Ref(en.new_root(st, en.symbolic(prog.strip_ref(a["t"]), a["name"]), a["name"])) for a in f["args"]]; pre = st.clone()
        R = en.call_fn(f, st, this=c.lv, args=args); ch = c.chained(pre); ok = Or(ch, res[UR] == OK)
        t.require(P, "update:references-from-subscribers-exactly-when-not-chained", en, st, c.n(st, UR) == z3.If(ch, 0, 1))
        t.require(P, "update:commands-exactly-when-references-were-obtained", en, st, c.n(st, UC) == z3.If(ok, 1, 0))
        t.require(P, "update:reports-the-result-of-the-last-step", en, st, R == z3.If(ok, res[UC], res[UR]))
        t.require(P, "update:mode-unchanged", en, st, c.chained(st) == ch)
        for q in (UR, UC):
            for a, s in c.args[q]: t.require(P, "update:" + q + ":given-time-and-period", en, s, And(*[eq_tree(x, en.read(pre, y.lv)) for x, y in zip(a, args)]))
        for a, s in c.args[UC]: t.require(P, "update:references-before-commands", en, s, c.n(s, UR) == z3.If(ch, 0, 1))
        end(en, pre, st, "update", ch, Not(ch))
        # changing the mode
        f = prog.find(CC + "set_chained_mode"); en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t)
        agree, want = en.fresh("agrees", z3.BoolSort()), en.fresh("wanted", z3.BoolSort()); c.callback(st, SC, agree); pre = st.clone()
        R = en.call_fn(f, st, this=c.lv, args=[want]); active = c.id(pre) == ACTIVE
        t.require(P, "set_chained_mode:asks-exactly-when-not-active", en, st, c.n(st, SC) == z3.If(active, 0, 1))
        t.require(P, "set_chained_mode:mode-afterwards", en, st, c.chained(st) == z3.If(And(Not(active), agree), want, c.chained(pre)))
        t.require(P, "set_chained_mode:reports-the-change", en, st, R == And(Not(active), agree))
        for a, s in c.args[SC]: t.require(P, "set_chained_mode:asks-about-the-wanted-mode", en, s, And(a[0] == want, c.chained(s) == c.chained(pre)))
        t.require(P, "set_chained_mode:cached-state-stays-right", en, st, c.inv(st)); end(en, pre, st, "set_chained_mode", agree, active)
        f = prog.find(CC + "is_in_chained_mode"); en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t); pre = st.clone()
        t.require(P, "is_in_chained_mode:reports-the-mode", en, st, en.call_fn(f, st, this=c.lv, args=[]) == c.chained(pre)); t.require(P, "is_in_chained_mode:mode-unchanged", en, st, c.chained(st) == c.chained(pre)); end(en, pre, st, "is_in_chained_mode")
        f = prog.find(CC + "on_set_chained_mode"); en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t); pre = st.clone()
        t.require(P, "on_set_chained_mode:agrees-by-default", en, st, en.call_fn(f, st, this=c.lv, args=[en.fresh("wanted", z3.BoolSort())])); t.require(P, "on_set_chained_mode:mode-unchanged", en, st, c.chained(st) == c.chained(pre)); end(en, pre, st, "on_set_chained_mode")
        f = prog.find(CB + "get_lifecycle_id"); en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t); pre = st.clone()
        R = en.call_fn(f, st, this=c.lv, args=[]); t.require(P, "get_lifecycle_id:is-the-state-of-the-node", en, st, R == c.id(pre)); t.require(P, "get_lifecycle_id:cached-state-stays-right", en, st, And(c.inv(st), c.id(st) == c.id(pre))); end(en, pre, st, "get_lifecycle_id", True)
GATE = Gate()

i, j, key = z3.Int("i"), z3.Int("j"), z3.Const("key", E.Str)
def sel(a, k): return z3.Select(a, k)
def fa(vs, f, *p):
    try: return z3.ForAll(vs, f, patterns=list(p)) if p else z3.ForAll(vs, f)
    except z3.Z3Exception: return z3.ForAll(vs, f)
class Exports:
    name = "exported-interfaces"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = CC + "{export_state_interfaces, export_reference_interfaces}"
    def build(self, prog, t):
        P = {"C04"}
        for kind, q, values, M in (("state", "export_state_interfaces", "state_interfaces_values_", "exported_state_interface"), ("reference", "export_reference_interfaces", "reference_interfaces_", "exported_reference_interface")):
            self.export(prog, t, P, kind, q, values, M + "s_", M + "_names_", "ordered_" + M + "s_")
    def export(self, prog, t, P, kind, q, values, MAP, NAMES, ORDER):
        en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t); f = prog.find(CC + q); S = E.Str
        PN, PP, starts = z3.Function("name_of", z3.IntSort(), S), z3.Function("prefix_of", z3.IntSort(), S), z3.Function("str_starts_with", S, S, z3.BoolSort())
        node = c.get(st, c.node, "n_"); old, new = prog.find(CC + "on_" + q), prog.find(CC + "on_" + q + "_list")
        V = en.symbolic(prog.strip_ref(old["ret"]), "old_style"); L = en.symbolic(prog.strip_ref(new["ret"]), "new_style")
        for x in (V, L): st.assume(x.len < 1 << 40)
        VN, VP = V.elem.f["handle_name_"], V.elem.f["prefix_name_"]; n1, tot = V.len, V.len + L.len
        a0 = en.fresh("allocated", z3.IntSort()); top = en.new_root(st, a0, "allocated"); st.assume(a0 >= 0)
        en.fact(fa([i], z3.Implies(And(0 <= i, i < L.len), And(sel(L.elem, i) > 0, sel(L.elem, i) <= a0)), sel(L.elem, i)))
        I = z3.IntSort(); N, X, Rv = z3.Function("name_at", I, S), z3.Function("prefix_at", I, S), z3.Function("pointer_at", I, I)
        en.fact(fa([i], And(N(i) == z3.If(i < n1, sel(VN, i), PN(sel(L.elem, i - n1))), X(i) == z3.If(i < n1, sel(VP, i), PP(sel(L.elem, i - n1))), Rv(i) == z3.If(i < n1, a0 + 1 + i, sel(L.elem, i - n1))), N(i)))
        for g in (X, Rv): en.fact(fa([i], And(N(i) == z3.If(i < n1, sel(VN, i), PN(sel(L.elem, i - n1))), X(i) == z3.If(i < n1, sel(VP, i), PP(sel(L.elem, i - n1))), Rv(i) == z3.If(i < n1, a0 + 1 + i, sel(L.elem, i - n1))), g(i)))
        en.fact(fa([i], z3.Implies(i >= 0, N(n1 + i) == PN(sel(L.elem, i))), sel(L.elem, i)))
        def first(e, s, x):
            if kind == "reference": e.write(s, c.lv.ext(("f", values)), e.symbolic(prog.field(c.cls, values), "values"))
            self.vals = c.get(s, c.lv, values).len; return V
        en.contracts[CC + "on_" + q] = first; en.contracts[CC + "on_" + q + "_list"] = lambda e, s, x: L
        def accessor(g):
            def h(e, s, x):
                lv = x.obj; r, p = lv.alts[0][1], lv.alts[0][2]
                if isinstance(r, str) and r.startswith("heap:"): return {"get_name": PN, "get_prefix_name": PP}[g](p[0][1])
                return e.read(s, lv.ext(("f", {"get_name": "handle_name_", "get_prefix_name": "prefix_name_"}[g])))
            return h
        for g in ("get_name", "get_prefix_name"):
            for cl in ("Handle", "StateInterface", "CommandInterface"): en.contracts["hardware_interface::" + cl + "::" + g] = accessor(g)
        def make(e, s, x):
            """a new interface that carries on the names of the one it is made from (H02)"""
            lv = x.lv(0); n = e.read(s, top) + 1; e.write(s, top, n)
            s.assume(And(PN(n) == e.read(s, lv.ext(("f", "handle_name_"))), PP(n) == e.read(s, lv.ext(("f", "prefix_name_")))))
            if prog.T(x.info["params"][0]).get("rvalue"):
                for m in ("handle_name_", "prefix_name_"): e.write(s, lv.ext(("f", m)), e.fresh("moved_from", S))
            return n
        en.contracts["std::make_shared"] = make
        def add(e, s, x):
            """C01: appended unless present"""
            v = e.read(s, x.lv(0)); y = x.val(1); has = e.fresh("present", z3.BoolSort()); w = e.fresh("where", z3.IntSort())
            if isinstance(y, Ptr): y = y.alts[0][1][2]
            s.assume(z3.If(has, And(0 <= w, w < v.len, sel(v.elem, w) == y), fa([i], z3.Implies(And(0 <= i, i < v.len), sel(v.elem, i) != y), sel(v.elem, i))))
            e.write(s, x.lv(0), Vec(z3.If(has, v.len, v.len + 1), z3.If(has, v.elem, z3.Store(v.elem, v.len, y))))
        en.contracts["ros2_control::add_item"] = add
        distinct = lambda m: fa([i, j], z3.Implies(And(0 <= i, i < j, j < m), N(i) != N(j)), z3.MultiPattern(N(i), N(j)))
        only = lambda d, m: fa([key], z3.Implies(sel(d, key), z3.Exists([i], And(0 <= i, i < m, N(i) == key))), sel(d, key)); all_ = lambda d, m: fa([i], z3.Implies(And(0 <= i, i < m), sel(d, N(i))), N(i))
        def size(e, s, x):
            m = x.objval(); n = e.fresh("size", z3.IntSort())
            s.assume(And(n >= 0, z3.Implies(And(distinct(tot), only(m.dom, tot), all_(m.dom, tot)), n == tot))); return n
        for u in ("std::unordered_map::size", "std::map::size"): en.contracts[u] = size
        def local(s, name): return [v for r, v in s.store.items() if str(r).split("!")[0].split("#")[0] == name]
        def inv(s, m):
            mp, nm, od = (c.get(s, c.lv, z) for z in (MAP, NAMES, ORDER)); out = []
            R = en.read(s, result["lv"])
            r = lambda n, g: out.append((n, g))
            r("as-many-as-processed", And(R.len == m, nm.len == m, od.len == m, en.read(s, top) == a0 + z3.If(m < n1, m, n1)))
            r("results", fa([i], z3.Implies(And(0 <= i, i < m), sel(R.elem, i) == Rv(i)), sel(R.elem, i)))
            r("names-carried-on", fa([i], z3.Implies(And(0 <= i, i < m), And(PN(Rv(i)) == N(i), PP(Rv(i)) == X(i))), Rv(i)))
            r("prefixes", fa([i], z3.Implies(And(0 <= i, i < m), starts(X(i), node)), X(i)))
            r("distinct", distinct(m)); r("all-in-the-map", all_(mp.dom, m)); r("only-these-in-the-map", only(mp.dom, m))
            r("map-refers-to-them", fa([i], z3.Implies(And(0 <= i, i < m), sel(mp.val, N(i)) == Rv(i)), N(i)))
            r("name-list", fa([i], z3.Implies(And(0 <= i, i < m), sel(nm.elem, i) == N(i)), sel(nm.elem, i))); r("ordered-list", fa([i], z3.Implies(And(0 <= i, i < m), sel(od.elem, i) == Rv(i)), sel(od.elem, i)))
            v = en.read(s, result["V"])
            r("rest-untouched", And(v.len == n1, fa([i], z3.Implies(And(m <= i, i < n1), And(sel(v.elem.f["handle_name_"], i) == sel(VN, i), sel(v.elem.f["prefix_name_"], i) == sel(VP, i))))))
            return out
        result = {}
        def choose(e, s, stmt, frame, n):
            if n is None: return None
            which = 0 if n.eq(V.len) else 1 if n.eq(L.len) else None
            if which is None: return None
            # the result and the list the controller gave, by what they are rather than by name
            for r, v in s.store.items():
                if not isinstance(v, Vec): continue
                lv = LV.one(r)
                if v.len.eq(V.len) and isinstance(v.elem, Rec): result["V"] = lv
                if is_leaf(v.elem) and v.elem.sort() == z3.ArraySort(z3.IntSort(), z3.IntSort()) and not v.len.eq(L.len): result.setdefault("lv", lv)
            return (lambda x, m: inv(x, m)) if which == 0 else (lambda x, m: inv(x, n1 + m))
        en.loop_invs.append(choose)
        pre = st.clone(); R = en.call_fn(f, st, this=c.lv, args=[])
        mp = c.get(st, c.lv, MAP); r = lambda x: sel(R.elem, x); inr = lambda x: And(0 <= x, x < R.len)
        n = q + ":"
        t.require(P, n + "every-interface-exported", en, st, And(R.len == tot, fa([i], z3.Implies(inr(i), And(PN(r(i)) == N(i), PP(r(i)) == X(i))))))
        t.require(P, n + "own-interfaces-as-given", en, st, fa([i], z3.Implies(And(inr(i), i >= n1), r(i) == sel(L.elem, i - n1))))
        t.require(P, n + "names-begin-with-the-controller's", en, st, fa([i], z3.Implies(inr(i), starts(PP(r(i)), node))))
        t.require(P, n + "names-distinct", en, st, fa([i, j], z3.Implies(And(0 <= i, i < j, j < R.len), PN(r(i)) != PN(r(j)))))
        t.require(P, n + "map-holds-exactly-these", en, st, And(fa([i], z3.Implies(inr(i), And(sel(mp.dom, PN(r(i))), sel(mp.val, PN(r(i))) == r(i)))), only(mp.dom, tot)))
        t.require(P, n + "mode-unchanged", en, st, c.chained(st) == c.chained(pre))
        good = And(fa([i], z3.Implies(And(0 <= i, i < tot), starts(X(i), node))), distinct(tot), self.vals == n1 if kind == "reference" else True)
        for s, x in en.throw_sinks[0]: t.require(P, n + "throws-only-for-bad-interfaces", en, s, Not(good))
        t.safety(P, en); t.cover(P, n + "entry", en, pre); t.cover(P, n + "return", en, st, tot == 0)
EXPORTS = Exports()
class Tracking:
    """the number the state queries use follows the state of the node"""
    name = "state-tracking"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = CB + "{init, configure} and the life cycle callbacks registered there"
    def build(self, prog, t):
        P = {"C04"}; en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t); fns = {}
        f = [x for x in prog.find(CB + "init") if len(x["args"]) == 1][0]
        en.contracts["std::make_shared"] = lambda e, s, x: Ptr([(True, ("lv", c.node))])
        en.contracts[CB + "auto_declare"] = lambda e, s, x: None
        en.contracts[CB + "on_init"] = lambda e, s, x: e.symbolic(x.ret, "on_init")
        for k in ("configure", "cleanup", "activate", "deactivate", "shutdown", "error"):
            def got(e, s, x, k=k): fns[k] = (x.val(0), s.clone())
            en.contracts["rclcpp_lifecycle::LifecycleNode::register_on_" + k] = got
        def stop(e, s, x): e.write(s, c.node.ext(("f", "st_"), ("f", "id_")), z3.IntVal(FINAL)); return Ref(c.node.ext(("f", "st_")))
        en.contracts["rclcpp_lifecycle::LifecycleNode::shutdown"] = stop
        params = Ref(en.new_root(st, en.symbolic(prog.strip_ref(f["args"][0]["t"]), "params"), "params"))
        R = en.call_fn(f, st, this=c.lv, args=[params])
        t.require(P, "init:every-callback-registered", en, st, z3.BoolVal(len(fns) == 6))
        t.safety(P, en); t.cover(P, "init:entry", en, st)
        LNI = "rclcpp_lifecycle::node_interfaces::LifecycleNodeInterface::"
        for q in ("enable_introspection", "stop_async_handler_thread", "release_interfaces"): en.contracts[CB + q] = lambda e, s, x: None
        for q in ("is_running", "reset_variables", "is_initialized"): en.contracts["realtime_tools::AsyncFunctionHandler::" + q] = lambda e, s, x: e.symbolic(x.ret, "handler") if x.ret and prog.kind(x.ret)[0] != "void" else None
        for k, (fn, s) in fns.items():
            # the node is in the transition the callback belongs to (rclcpp_lifecycle); everything else is arbitrary
            calls = en.new_root(s, z3.IntVal(0), "calls"); res = en.fresh("result", z3.IntSort()); args = []
            def user(e, x, y): e.write(x, calls, e.read(x, calls) + 1); args.append((y.val(0), x.clone())); return res
            en.contracts[LNI + "on_" + k] = user
            new = en.fresh("transition", z3.IntSort()); s.assume(Or(*[new == x for x in TRANS])); en.write(s, c.node.ext(("f", "st_"), ("f", "id_")), new)
            en.write(s, c.impl.ext(("f", "lifecycle_id_")), en.fresh("cached", z3.IntSort())); prev = Ref(en.new_root(s, en.symbolic(self.state_t(prog), "previous"), "previous"))
            pre = s.clone(); R = en.apply_fn(fn, [prev], s)
            t.require(P, f"{k}:the-controller-is-asked-once", en, s, en.read(s, calls) == 1); t.require(P, f"{k}:its-answer-is-passed-on", en, s, R == res)
            for v, x in args:
                t.require(P, f"{k}:given-the-previous-state", en, x, eq_tree(v, en.read(pre, prev.lv))); t.require(P, f"{k}:cached-state-tells-of-the-transition", en, x, c.cached(x) == new)
            t.require(P, f"{k}:cached-state-tells-of-the-transition-afterwards", en, s, c.cached(s) == new); t.cover(P, f"{k}:return", en, s)
        t.safety(P, en)
        # configure
        f = prog.find(CB + "configure"); en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t)
        def conf(e, s, x): n = e.fresh("state", z3.IntSort()); s.assume(And(n >= 0, n <= 4)); e.write(s, c.node.ext(("f", "st_"), ("f", "id_")), n); return Ref(c.node.ext(("f", "st_")))
        en.contracts["rclcpp_lifecycle::LifecycleNode::configure"] = conf
        INT, BOOL = z3.Function("int_parameter", E.Str, z3.IntSort()), z3.Function("bool_parameter", E.Str, z3.BoolSort())
        def param(e, s, x): v = e.symbolic(x.ret, "parameter"); return Rec(v.name, dict(v.f, n_=e.as_str(x.val(0)) if hasattr(e, "as_str") else x.val(0)))
        en.contracts["rclcpp::Node::get_parameter"] = param
        def as_(fn):
            def h(e, s, x): return fn(x.objval().f["n_"])
            return h
        en.contracts["rclcpp::Parameter::as_int"] = as_(INT); en.contracts["rclcpp::Parameter::as_bool"] = as_(BOOL)
        en.contracts["realtime_tools::AsyncFunctionHandlerParams::initialize"] = lambda e, s, x: e.write(s, x.obj, e.symbolic(x.objt, "async_params"))
        en.contracts["std::make_unique"] = lambda e, s, x: Ptr([(True, ("lv", e.new_root(s, e.symbolic(prog.kind(x.ret)[1], "new"), "new")))])
        for q in ("init", "start_thread"): en.contracts["realtime_tools::AsyncFunctionHandler::" + q] = lambda e, s, x: None
        en.contracts["hardware_interface::MovingAverageStatistics::reset"] = en.contracts["ros2_control::MovingAverageStatistics::reset"] = lambda e, s, x: None
        pre = st.clone(); R = en.call_fn(f, st, this=c.lv, args=[])
        t.require(P, "configure:cached-state-is-the-node's", en, st, c.cached(st) == c.id(st)); t.safety(P, en); t.cover(P, "configure:return", en, st)
    def state_t(self, prog): return prog.strip_ref(prog.find(CB + "get_lifecycle_state")["ret"])
TRACK = Tracking()
class Step:
    """one update of a controller, in the thread of the loop or handed to its own"""
    name = "one-update"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = CB + "{trigger_update, get_update_rate, is_async, prepare_for_deactivation, wait_for_trigger_update_to_finish}"
    def build(self, prog, t):
        P = {"C05"}; f = prog.find(CB + "trigger_update"); en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t); H = "realtime_tools::AsyncFunctionHandler::"; res, had = en.fresh("result", z3.IntSort()), en.fresh("accepted", z3.BoolSort())
        own, handed = (en.new_root(st, z3.IntVal(0), n) for n in ("updates", "handed_over")); given = []; args = [Ref(en.new_root(st, en.symbolic(prog.strip_ref(a["t"]), a["name"]), a["name"])) for a in f["args"]]; tv, pv = (en.read(st, a.lv) for a in args)
        def upd(e, s, x): e.write(s, own, e.read(s, own) + 1); given.append((x.val(0), x.val(1), s.clone())); return res
        for q in (CB, CC): en.contracts[q + "update"] = upd
        def hand(e, s, x):
            e.write(s, handed, e.read(s, handed) + 1); given.append((x.val(0), x.val(1), s.clone())); v = e.symbolic(x.ret, "answer"); return Rec(v.name, dict(v.f, first=had, second=res))
        en.contracts[H + "trigger_async_callback"] = hand
        for q in ("get_current_callback_time", "get_last_execution_time"): en.contracts[H + q] = lambda e, s, x: Ref(e.new_root(s, e.symbolic(prog.strip_ref(x.ret), "v"), "v")) if prog.is_ref(x.ret) else e.symbolic(x.ret, "v")
        for q in ("get_clock", "get_logger"): en.contracts["rclcpp_lifecycle::LifecycleNode::" + q] = en.contracts["rclcpp::Node::" + q] = lambda e, s, x: e.symbolic(x.ret, "v")
        def minus(e, s, x): return e.symbolic(x.ret, "difference")
        en.contracts["rclcpp::Time::operator-"] = minus
        asy, skip = c.get(st, c.impl, "is_async_"), c.get(st, c.impl, "skip_async_triggers_"); pre = st.clone(); R = en.call_fn(f, st, this=c.lv, args=args); n, h = en.read(st, own), en.read(st, handed)
        t.require(P, "updated-once-in-the-loop's-thread-unless-asynchronous", en, st, n == z3.If(asy, 0, 1)); t.require(P, "asynchronous:handed-over-once-unless-being-deactivated", en, st, h == z3.If(And(asy, Not(skip)), 1, 0))
        for a, b, s in given: t.require(P, "given-the-time-and-the-period", en, s, And(eq_tree(a, tv), eq_tree(b, pv)))
        t.require(P, "the-result-is-the-controller's", en, st, And(R.f["result"] == z3.If(And(asy, skip), z3.IntVal(OK), res), R.f["successful"] == z3.If(asy, And(Not(skip), had), True)))
        pr = R.f["period"]; t.require(P, "the-period-reported-is-the-one-given", en, st, z3.Implies(Not(asy), And(pr.has, eq_tree(pr.val, pv)))); t.safety(P, en)
        for w, g in (("synchronous", Not(asy)), ("asynchronous", asy)): t.cover(P, "return:" + w, en, st, g)
        # what the manager asks for
        for q, fl in (("is_async", "is_async_"), ("get_update_rate", None)):
            f = prog.find(CB + q); en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t); want = c.get(st, c.impl, fl) if fl else c.get(st, c.impl, "ctrl_itf_params_", "update_rate"); t.require(P, q + ":as-configured", en, st, en.call_fn(f, st, this=c.lv, args=[]) == want); t.safety(P, en)
        # nothing is handed over once its deactivation is being prepared, and what was handed over has finished
        f = prog.find(CB + "prepare_for_deactivation"); en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t); run = en.fresh("its_thread_runs", z3.BoolSort()); waits = en.new_root(st, z3.IntVal(0), "waits"); seen = []
        en.contracts[H + "is_running"] = lambda e, s, x: run
        def wait(e, s, x): e.write(s, waits, e.read(s, waits) + 1); seen.append(s.clone())
        en.contracts[H + "wait_for_trigger_cycle_to_finish"] = wait
        hv = c.get(st, c.impl, "async_handler_"); asy = c.get(st, c.impl, "is_async_"); en.call_fn(f, st, this=c.lv, args=[]); has = hv != 0 if is_leaf(hv) else z3.BoolVal(True)
        t.require(P, "deactivation:nothing-is-handed-over-any-more", en, st, c.get(st, c.impl, "skip_async_triggers_")); t.require(P, "deactivation:waits-for-the-update-under-way", en, st, z3.Implies(And(asy, run, has), en.read(st, waits) == 1))
        for s in seen: t.require(P, "deactivation:waits-after-handing-over-has-stopped", en, s, c.get(s, c.impl, "skip_async_triggers_"))
        t.safety(P, en); t.cover(P, "deactivation:return", en, st, run)
        f = prog.find(CB + "cancel_deactivation"); en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t); en.call_fn(f, st, this=c.lv, args=[]); t.require(P, "deactivation-cancelled:updates-are-handed-over-again", en, st, Not(c.get(st, c.impl, "skip_async_triggers_"))); t.safety(P, en)
        # an activated controller is handed its updates
        f = [x for x in prog.find(CB + "init") if len(x["args"]) == 1][0]; en = t.engine(prog); st = E.State(); c = Ctl(en, st, prog, t); fns = []
        en.contracts["std::make_shared"] = lambda e, s, x: Ptr([(True, ("lv", c.node))]); en.contracts[CB + "auto_declare"] = lambda e, s, x: None; en.contracts[CB + "on_init"] = lambda e, s, x: e.symbolic(x.ret, "on_init")
        for k in ("configure", "cleanup", "deactivate", "shutdown", "error"): en.contracts["rclcpp_lifecycle::LifecycleNode::register_on_" + k] = lambda e, s, x: None
        en.contracts["rclcpp_lifecycle::LifecycleNode::register_on_activate"] = lambda e, s, x: fns.append((x.val(0), s.clone())); en.contracts["rclcpp_lifecycle::LifecycleNode::shutdown"] = lambda e, s, x: Ref(c.node.ext(("f", "st_")))
        en.call_fn(f, st, this=c.lv, args=[Ref(en.new_root(st, en.symbolic(prog.strip_ref(f["args"][0]["t"]), "params"), "params"))]); seen = []
        for q in ("enable_introspection",): en.contracts[CB + q] = lambda e, s, x: None
        for q in ("is_running", "reset_variables"): en.contracts[H + q] = lambda e, s, x: e.symbolic(x.ret, "handler") if x.ret and prog.kind(x.ret)[0] != "void" else None
        def user(e, s, x): seen.append(s.clone()); return e.fresh("result", z3.IntSort())
        en.contracts["rclcpp_lifecycle::node_interfaces::LifecycleNodeInterface::on_activate"] = user
        for fn, s in fns: en.write(s, c.impl.ext(("f", "skip_async_triggers_")), en.fresh("skips", z3.BoolSort())); en.apply_fn(fn, [Ref(en.new_root(s, en.symbolic(prog.strip_ref(prog.find(CB + "get_lifecycle_state")["ret"]), "previous"), "previous"))], s); t.require(P, "activated:updates-are-handed-over", en, s, Not(c.get(s, c.impl, "skip_async_triggers_"))); t.cover(P, "activated:return", en, s)
        t.require(P, "activated:the-callback-is-registered", en, None, z3.BoolVal(len(fns) == 1)); t.safety(P, en)
STEP = Step()
