"""contracts on the controller manager (C05, C06)"""
import z3
import engine as E, lib
from values import *
from rm import fa, sel, inr, MEM, sets, named, mem, flat, same, flags
CMN = "controller_manager::"; CM = CMN + "ControllerManager::"; UNIT = "controller_manager.cpp"; CB = "controller_interface::ControllerInterfaceBase::"; RM = "hardware_interface::ResourceManager::"
BD = [__import__("front").VERIF + "/stubs/rclcpp_lifecycle"]
UNKNOWN, UNCONF, INACTIVE, ACTIVE, FINAL = range(5); OK, ERR = 0, 1
S = E.Str; I, B = z3.IntSort(), z3.BoolSort(); i, j = z3.Ints("i j"); key, obj = z3.Const("key", S), z3.Int("obj")
ab = lambda x: z3.If(x >= 0, x, -x)
ROOTS = [CM + "*", CM + "RTControllerListWrapper::*", "(anonymous namespace)::*"]; AN = "(anonymous namespace)::"
class World:
    """a controller manager with any list of controllers; each controller is an object of its own with a clock reading of its own"""
    def __init__(self, en, st, prog):
        self.en, self.prog = en, prog; sets(en); f = prog.find(CM + "update")
        self.lv = en.new_root(st, en.symbolic(f["cls"], "manager"), "manager")
        g = [x for x in prog.fns_of(CM + "RTControllerListWrapper::update_and_get_used_by_rt_list")] if hasattr(prog, "fns_of") else [prog.find(CM + "RTControllerListWrapper::update_and_get_used_by_rt_list")]
        self.ls = en.new_root(st, en.symbolic(prog.strip_ref(g[0]["ret"]), "controllers"), "controllers"); L = self.list = en.read(st, self.ls)
        self.C, self.NAME, self.LAST, self.n = L.elem.f["c"], L.elem.f["info"].f["name"], L.elem.f["last_update_cycle_time"], L.len
        for a in (self.C, self.LAST):
            st.assume(fa([i, j], z3.Implies(And(inr(i, self.n), inr(j, self.n), sel(a, i) == sel(a, j)), i == j), (sel(a, i), sel(a, j)))); st.assume(fa([i], z3.Implies(inr(i, self.n), sel(a, i) > 0), sel(a, i)))
        st.assume(fa([i, j], z3.Implies(And(inr(i, self.n), inr(j, self.n), sel(self.NAME, i) == sel(self.NAME, j)), i == j), (sel(self.NAME, i), sel(self.NAME, j))))
        en.contracts[CM + "RTControllerListWrapper::update_and_get_used_by_rt_list"] = lambda e, s, x: Ref(self.ls)
    def m(self, st, *p):
        lv = self.lv
        for x in p: lv = lv.ext(("f", x))
        return self.en.read(st, lv)
    def who(self, lv):
        """the controller object a call is made on"""
        a = lv.alts
        if len(a) != 1: raise Unsupported("call on one of several controllers")
        g, r, p = a[0]
        if isinstance(r, str) and r.startswith("heap:"): return p[0][1]
        raise Unsupported("controller " + str(r) + str(p))
    def ghost(self, st, n, s, init=None):
        r = self.en.new_root(st, self.en.fresh(n, z3.ArraySort(I, s)), n)
        if init is not None: st.assume(fa([i], sel(self.en.read(st, r), i) == init, sel(self.en.read(st, r), i)))
        return r
class Update:
    """what each controller does is given beforehand; the cycle is compared with the fold over the list of controllers"""
    name = "update"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = CM + "update"
    def build(self, prog, t):
        P = {"C05"}; en = t.engine(prog, real=True); en.opaque_products = True; st = E.State(); w = World(en, st, prog); f = prog.find(CM + "update"); C = en.contracts; C_, n = w.C, w.n
        time, per = (en.symbolic(prog.strip_ref(a["t"]), a["name"]) for a in f["args"]); CT = en.fresh("clock_type", I); st.assume(And(CT > 0, CT <= 3, time.f["ct_"] == CT))
        STATE, RATE, RES, LIFE = (z3.Function(x, I, I) for x in ("state_of", "rate_of", "result_of", "last_time_of")); ASYNC, THROWS, DUE, TAKEN = (z3.Function(x, I, B) for x in ("is_async", "throws", "due", "update_taken")); STARTED = en.fresh("clock_started", B)
        R = w.m(st, "update_rate_"); st.assume(And(R > 0, R <= 100000000)); en.fact(fa([obj], And(RATE(obj) > 0, RATE(obj) < 2**32), RATE(obj))); en.fact(fa([obj], Or(RES(obj) == 0, RES(obj) == 1), RES(obj)))
        tt = en.base_tid(prog.strip_ref(f["args"][0]["t"])); en.heap_types["heap:rclcpp::Time"] = tt; LT = lambda s, x: en.read(s, LV.one("heap:rclcpp::Time", (("h", sel(w.LAST, x)),))); last0 = lambda x: LT(pre, x).f["ns_"]
        calls = w.ghost(st, "calls", I, 0); stopped = en.new_root(st, z3.IntVal(0), "stopped"); now_ = en.new_root(st, z3.IntVal(0), "time_of_this_controller"); G = lambda s, g: en.named(en.read(s, g))
        st.assume(fa([i], z3.Implies(inr(i, n), LT(st, i).f["ct_"] == CT), sel(w.LAST, i))); pre = st.clone()
        sw = lambda x: w.m(pre, "switch_params_", x); inreq = lambda x, *ls: Or(*[mem(named(en, sw(l)), x) for l in ls]); nm = lambda x: sel(w.NAME, x); cid = lambda x: sel(C_, x); group = lambda x: Vec(sel(w.list.elem.f["controllers_chain_group"].len, x), sel(w.list.elem.f["controllers_chain_group"].elem, x))
        held = lambda x: And(sw("do_switch"), Or(And(Not(sw("activate_asap")), inreq(nm(x), "activate_request", "deactivate_request", "to_chained_mode_request", "from_chained_mode_request")), And(ASYNC(cid(x)), inreq(nm(x), "deactivate_request"))))
        eligible = lambda x: And(STATE(cid(x)) == ACTIVE, Not(held(x))); called = lambda x: And(eligible(x), DUE(x)); failed = lambda x: And(called(x), Or(THROWS(cid(x)), RES(cid(x)) != OK))
        due = lambda p, k, r: ab(p * k - 1) <= ab((p + 1 / r) * k - 1); near = lambda x, ns: And(z3.ToReal(ns) - 1 < x * 1000000000, x * 1000000000 < z3.ToReal(ns) + 1); full = lambda x: RATE(cid(x)) >= R; D_ = lambda s: w.m(s, "rt_buffer_", "deactivate_controllers_list")
        DL, ANYF, CUR = z3.Function("to_be_deactivated", I, S, B), z3.Function("any_failed", I, B), z3.Function("time_of", I, I); cur_ = lambda s: z3.If(STARTED, en.read(s, now_), time.f["ns_"])
        def num(c):
            if z3.is_select(c) and c.arg(0).eq(C_): return c.arg(1)
            raise Unsupported("controller outside the list")
        # the environment
        clk = en.fresh("clock", I); en.fact(clk > 0)
        C["rclcpp::Node::get_clock"] = C["rclcpp_lifecycle::LifecycleNode::get_clock"] = lambda e, s, x: clk
        C["rclcpp::Clock::started"] = lambda e, s, x: STARTED; C["rclcpp::Clock::get_clock_type"] = lambda e, s, x: CT
        tval = lambda e, t_, ns: (lambda v: Rec(v.name, {**v.f, "ns_": ns, "ct_": CT}))(e.symbolic(t_, "time"))
        def now(e, s, x): ns = e.fresh("now", I); e.write(s, now_, ns); return tval(e, e.p.strip_ref(x.ret), ns)
        C["rclcpp::Clock::now"] = now; C["rclcpp::Node::now"] = lambda e, s, x: tval(e, e.p.strip_ref(x.ret), e.fresh("now", I))
        C[CB + "get_lifecycle_id"] = lambda e, s, x: STATE(w.who(x.obj)); C[CB + "get_update_rate"] = lambda e, s, x: RATE(w.who(x.obj)); C[CB + "is_async"] = lambda e, s, x: ASYNC(w.who(x.obj))
        def trigger(e, s, x):
            c = w.who(x.obj); k = num(c); e.oblige("only-active-controllers-are-updated", s, STATE(c) == ACTIVE, "pre"); e.oblige("not-while-it-is-being-switched", s, Not(held(k)), "pre"); e.oblige("at-most-once-per-cycle", s, sel(G(s, calls), c) == 0, "pre")
            D = x.val(1).f["ns_"]; first = last0(k) == 0; e.oblige("period-is-the-time-since-the-previous-update", s, z3.Implies(Not(first), D == cur_(s) - last0(k)), "pre"); e.oblige("first-period-is-that-of-the-cycle-or-its-own", s, z3.Implies(first, z3.If(full(k), D == per.f["ns_"], ab(z3.ToReal(D) - 1000000000 / z3.ToReal(RATE(c))) <= 1)), "pre")
            e.write(s, calls, z3.Store(e.read(s, calls), c, sel(e.read(s, calls), c) + 1)); o = e.fresh("something_else", B); e.throw(s, And(THROWS(c), o), E.Exc("std::exception")); e.throw(s, THROWS(c), E.Exc("int"))
            v = e.symbolic(x.ret, "status"); return Rec(v.name, {**v.f, "result": RES(c), "successful": TAKEN(c)})
        C[CB + "trigger_update"] = trigger
        C["ros2_control::MovingAverageStatistics::add_measurement"] = lambda e, s, x: None; C[CM + "RTBufferVariables::get_concatenated_string"] = lambda e, s, x: Ref(e.new_root(s, e.fresh("text", S), "text"))
        for q in ("perform_hardware_command_mode_change", "activate_controllers", "publish_activity", "manage_switch"): C[CM + q] = lambda e, s, x: None
        C[RM + "enforce_command_limits"] = lambda e, s, x: None
        def add(e, s, x):
            """C01: the item is a member afterwards, the others stay"""
            v, y = named(e, e.read(s, x.lv(0))), x.val(1); o = Vec(e.fresh("len", I), e.fresh("elem", v.elem.sort())); e.fact(o.len >= 0); e.fact(fa([key], mem(o, key) == Or(mem(v, key), key == y), mem(o, key), mem(v, key))); e.write(s, x.lv(0), o)
        C["ros2_control::add_item"] = add
        USES = z3.Function("uses_an_interface_of_a_fallback", S, B)
        def users(e, s, x):
            """only adds names of active controllers that use an interface of the one given"""
            v = named(e, e.read(s, x.lv(2))); o = Vec(e.fresh("len", I), e.fresh("elem", v.elem.sort())); e.fact(o.len >= 0); e.fact(fa([key], z3.Implies(mem(v, key), mem(o, key)), mem(v, key))); e.fact(fa([key], z3.Implies(mem(o, key), Or(mem(v, key), USES(key))), mem(o, key))); e.write(s, x.lv(2), o)
        C["(anonymous namespace)::get_active_controllers_using_command_interfaces_of_controller"] = users
        def from_seconds(e, s, x): v = x.val(0); ns = e.fresh("ns", I); e.fact(near(v, ns)); return lib.mkdur(e, x, x.rett(), ns)
        C["rclcpp::Duration::from_seconds"] = from_seconds
        C["ros2_control::has_item"] = lambda e, s, x: mem(named(e, e.read(s, x.lv(0))), x.val(1))
        told = []
        def stop(e, s, x): told.append((named(e, x.val(1)), s.clone())); e.write(s, stopped, e.read(s, stopped) + 1)
        C[CM + "deactivate_controllers"] = stop; order = []
        def unfold(e, k): e.fact(ANYF(k + 1) == Or(ANYF(k), failed(k))); e.fact(fa([key], DL(k + 1, key) == Or(DL(k, key), And(failed(k), mem(group(k), key))), DL(k + 1, key), DL(k, key)))
        def status(e, x):
            """the local that holds the result: OK exactly while no controller failed"""
            for r in e.loop_mod:
                v0 = e.loop_start.store.get(r) if isinstance(r, tuple) and r and r[0] == "v" else None
                if v0 is not None and is_leaf(v0) and r in e.local_types and e.p.T(e.local_types[r])["s"] == prog.T(f["ret"])["s"] and z3.is_int_value(z3.simplify(v0)) and z3.simplify(v0).as_long() == OK: yield r
        def main(e, s):
            order.append(1); e.oblige("one-pass-over-the-controllers", s, z3.BoolVal(len(order) == 1), "pre"); d0 = named(e, D_(s)); e.oblige("nothing-to-deactivate-before", s, d0.len == 0, "pre"); e.fact(And(Not(ANYF(0)), fa([key], Not(DL(0, key)), DL(0, key))))
            def inv(x, it):
                if not z3.is_const(it) and not z3.is_int_value(it):
                    k = z3.simplify(it - 1); unfold(e, k); ran = sel(G(x, calls), cid(k)) == 1; kr, r = z3.ToReal(RATE(cid(k))), z3.ToReal(R); p = z3.ToReal(cur_(x) - last0(k)) / 1000000000
                    e.oblige("updated-only-when-active-and-not-being-switched", x, z3.Implies(ran, eligible(k)), "invariant"); e.oblige("at-least-the-rate-of-the-manager:updated-every-cycle", x, z3.Implies(And(eligible(k), full(k)), ran), "invariant")
                    e.oblige("slower:updated-at-the-cycle-nearest-to-its-period", x, z3.Implies(And(eligible(k), Not(full(k))), ran == Or(time.f["ns_"] == 0, last0(k) == 0, due(p, kr, r))), "invariant")
                    x.pc.append(DUE(k) == ran); x.pc.append(z3.Implies(ran, CUR(k) == cur_(x)))
                c = G(x, calls); d = named(e, D_(x))
                yield "updated", And(fa([i], z3.Implies(And(0 <= i, i < it), sel(c, cid(i)) == z3.If(called(i), 1, 0)), cid(i)), fa([i], z3.Implies(And(i >= it, i < n), sel(c, cid(i)) == 0), cid(i)))
                yield "time-of-the-last-update", And(fa([i], z3.Implies(And(0 <= i, i < it), LT(x, i).f["ns_"] == z3.If(And(called(i), Or(THROWS(cid(i)), TAKEN(cid(i)))), CUR(i), last0(i))), sel(w.LAST, i)), fa([i], z3.Implies(And(i >= it, i < n), LT(x, i).f["ns_"] == last0(i)), sel(w.LAST, i)), fa([i], z3.Implies(inr(i, n), LT(x, i).f["ct_"] == CT), sel(w.LAST, i)))
                yield "the-groups-of-the-failed-are-to-be-deactivated", fa([key], mem(d, key) == DL(it, key), mem(d, key), DL(it, key)); yield "length", And(d.len >= 0, z3.Implies(d.len > 0, ANYF(it)))
                for r in status(e, x): yield "the-result-is-not-ok-exactly-when-one-failed", (x.store[r] == OK) == Not(ANYF(it))
            return inv
        def joined(e, s, l, more=False):
            """a loop that adds the names of a list to the list of those to deactivate"""
            d0, l = named(e, D_(s)), named(e, l)
            def inv(x, it): d = named(e, D_(x)); yield "the-names-gone-through-are-added", fa([key], mem(d, key) == Or(mem(d0, key), mem(l, key, it)), mem(d, key), mem(d0, key)); yield "length", And(d.len >= 0, z3.Implies(d.len > 0, Or(d0.len > 0, it > 0)))
            return inv
        U_ = lambda s: w.m(s, "rt_buffer_", "activate_controllers_using_interfaces_list")
        def others(e, s):
            def inv(x, it):
                u = named(e, U_(x)); yield "only-users-of-the-interfaces-of-fallbacks", fa([key], z3.Implies(mem(u, key), USES(key)), mem(u, key)); yield "length", And(u.len >= 0, w.m(x, "rt_buffer_", "fallback_controllers_list").len >= 0)
            return inv
        def choose(e, s, stmt, frame, n_):
            if e.at_range is None or len(e.at_range[0].alts) != 1 or "elem" not in dir(e.read(s, e.at_range[0])): return None
            lv = e.at_range[0]; g, r, p = lv.alts[0]; L = w.ls.alts[0][1]; M = w.lv.alts[0][1]; fs = [y[1] for y in p if y[0] == "f"]
            if r == L and not p: return main(e, s)
            if r == L and fs == ["controllers_chain_group"]: return joined(e, s, e.read(s, lv))
            if r == M and fs == ["rt_buffer_", "activate_controllers_using_interfaces_list"]: return joined(e, s, e.read(s, lv))
            return others(e, s)
        en.loop_invs.append(choose); tv = Rec(time.name, time.f)
        Rv = en.call_fn(f, st, this=w.lv, args=[Ref(en.new_root(st, tv, "time")), Ref(en.new_root(st, per, "period"))])
        c, N = G(st, calls), w.n; live = Not(st.dead) if not isinstance(st.dead, bool) else True
        t.require(P, "every-controller-has-its-turn", en, st, And(z3.BoolVal(order == [1]), fa([i], z3.Implies(inr(i, N), sel(c, cid(i)) == z3.If(called(i), 1, 0)), cid(i))))
        t.require(P, "the-time-of-an-update-is-kept-for-the-next", en, st, fa([i], z3.Implies(inr(i, N), LT(st, i).f["ns_"] == z3.If(And(called(i), Or(THROWS(cid(i)), TAKEN(cid(i)))), CUR(i), last0(i))), sel(w.LAST, i)))
        t.require(P, "the-result-is-an-error-exactly-when-one-failed", en, st, (Rv == OK) == Not(ANYF(N)))
        t.require(P, "the-groups-of-failed-controllers-are-deactivated-once", en, st, And(en.read(st, stopped) <= 1, fa([key], z3.Implies(DL(N, key), en.read(st, stopped) == 1), DL(N, key)), z3.Implies(en.read(st, stopped) == 1, ANYF(N))))
        t.require(P, "deactivation-is-asked-for-in-one-place", en, None, z3.BoolVal(len(told) <= 1))
        for v, s in told: t.require(P, "every-name-of-the-group-of-a-failed-controller-is-deactivated", en, s, fa([key], z3.Implies(DL(N, key), mem(v, key)), DL(N, key))); t.require(P, "only-groups-of-failed-controllers-and-users-of-the-interfaces-of-fallbacks-are-deactivated", en, s, fa([key], z3.Implies(mem(v, key), Or(DL(N, key), USES(key))), mem(v, key)))
        ph = [r for r in en.heap_types if r.endswith("Params")]
        handle = lambda s: en.read(s, LV.one(ph[0], (("h", w.m(s, "params_")), ("f", "handle_exceptions"))))
        for s, x in en.throw_sinks[0]: t.require(P, "exceptions-leave-only-when-not-handled-or-there-is-no-time", en, s, Or(Not(handle(s)), And(Not(STARTED), time.f["ns_"] == 0)))
        t.safety(P, en); t.cover(P, "entry", en, pre); t.cover(P, "return", en, st)
UPDATE = Update()
class Stop:
    """what a group's deactivation does to each of its controllers"""
    name = "deactivation"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = CM + "deactivate_controllers"
    def build(self, prog, t):
        P = {"C05"}; en = t.engine(prog); st = E.State(); w = World(en, st, prog); f = prog.find(CM + "deactivate_controllers"); C = en.contracts; C_, n = w.C, w.n; cid = lambda x: sel(C_, x); G = lambda s, g: en.named(en.read(s, g))
        names = en.new_root(st, en.symbolic(prog.strip_ref(f["args"][1]["t"]), "names"), "names"); L = named(en, en.read(st, names)); st.assume(fa([i, j], z3.Implies(And(inr(i, L.len), inr(j, L.len), sel(L.elem, i) == sel(L.elem, j)), i == j), (sel(L.elem, i), sel(L.elem, j))))
        STATE = z3.Function("state_of", I, I); THROWS, CHAIN = (z3.Function(x, I, B) for x in ("throws", "is_chainable")); stops, freed, mode, life = (w.ghost(st, x, I) for x in ("deactivations", "releases", "left_chained_mode", "state_now"))
        for g in (stops, freed, mode): st.assume(fa([i], sel(G(st, g), i) == 0, sel(G(st, g), i)))
        st.assume(fa([i], sel(G(st, life), i) == STATE(i), sel(G(st, life), i))); refs, sts = (en.new_root(st, en.fresh(x, z3.ArraySort(S, B)), x) for x in ("references_withdrawn", "states_withdrawn"))
        for g in (refs, sts): st.assume(fa([key], Not(sel(G(st, g), key)), sel(G(st, g), key)))
        inc = lambda s, g, c, v=1: en.write(s, g, z3.Store(en.read(s, g), c, sel(en.read(s, g), c) + v))
        C[CB + "get_lifecycle_id"] = lambda e, s, x: sel(G(s, life), w.who(x.obj)); C[CB + "is_chainable"] = lambda e, s, x: CHAIN(w.who(x.obj)); C[CB + "get_node"] = lambda e, s, x: w.who(x.obj)
        def off(e, s, x):
            c = x.obj.alts[0][2][0][1] if len(x.obj.alts) == 1 else None
            e.oblige("only-active-controllers-are-deactivated", s, sel(G(s, life), c) == ACTIVE, "pre"); e.oblige("deactivated-once", s, sel(G(s, stops), c) == 0, "pre"); inc(s, stops, c); e.write(s, life, z3.Store(e.read(s, life), c, e.fresh("state", I)))
            o = e.fresh("something_else", B); e.throw(s, And(THROWS(c), o), E.Exc("std::exception")); e.throw(s, THROWS(c), E.Exc("int")); return Ref(e.new_root(s, e.symbolic(prog.strip_ref(x.ret), "state"), "state"))
        C["rclcpp_lifecycle::LifecycleNode::deactivate"] = off
        C[CB + "release_interfaces"] = lambda e, s, x: inc(s, freed, w.who(x.obj))
        def chained(e, s, x): c = w.who(x.obj); e.oblige("chained-mode-is-left", s, Not(x.val(0)), "pre"); inc(s, mode, c); return e.fresh("agrees", B)
        C[CB + "set_chained_mode"] = chained
        C[RM + "make_controller_reference_interfaces_unavailable"] = lambda e, s, x: e.write(s, refs, z3.Store(e.read(s, refs), x.val(0), z3.BoolVal(True))); C[RM + "make_controller_exported_state_interfaces_unavailable"] = lambda e, s, x: e.write(s, sts, z3.Store(e.read(s, sts), x.val(0), z3.BoolVal(True)))
        act = lambda x: STATE(cid(x)) == ACTIVE; one = lambda g, x, c: sel(g, cid(x)) == z3.If(c, 1, 0); NM = lambda x: sel(w.NAME, x)
        def said(x, it):
            ds, fr, md, lf, rf, sf = (G(x, g) for g in (stops, freed, mode, life, refs, sts)); on = lambda i: And(mem(L, NM(i), it), act(i)); fine = lambda i: And(on(i), Not(THROWS(cid(i))))
            yield "deactivated-exactly-when-listed-and-active", fa([i], z3.Implies(inr(i, n), one(ds, i, on(i))), cid(i)); yield "its-interfaces-are-released", fa([i], z3.Implies(inr(i, n), one(fr, i, fine(i))), cid(i)); yield "chained-mode-is-left", fa([i], z3.Implies(inr(i, n), one(md, i, And(fine(i), CHAIN(cid(i))))), cid(i))
            for g, wd in ((rf, "references"), (sf, "states")): yield f"its-{wd}-are-withdrawn", fa([i], z3.Implies(inr(i, n), sel(g, NM(i)) == And(fine(i), CHAIN(cid(i)))), NM(i))
            yield "states", fa([i], z3.Implies(And(inr(i, n), Not(mem(L, NM(i), it))), sel(lf, cid(i)) == STATE(cid(i))), cid(i))
        def choose(e, s, stmt, frame, n_):
            if e.at_range is None or len(e.at_range[0].alts) != 1: return None
            g, r, p = e.at_range[0].alts[0]
            return said if r == names.alts[0][1] and not p else None
        en.loop_invs.append(choose); pre = st.clone(); en.call_fn(f, st, this=w.lv, args=[Ref(w.ls), Ref(names)])
        for nm_, g in said(st, L.len):
            if nm_ != "states": t.require(P, nm_, en, st, g)
        ph = [r for r in en.heap_types if r.endswith("Params")]
        for s, x in en.throw_sinks[0]: t.require(P, "exceptions-leave-only-when-not-handled", en, s, Not(en.read(s, LV.one(ph[0], (("h", w.m(s, "params_")), ("f", "handle_exceptions"))))))
        t.safety(P, en); t.cover(P, "entry", en, pre); t.cover(P, "return", en, st)
STOP = Stop()
class Groups:
    """the chain group of a controller is the set of controllers connected with it"""
    name = "chain-groups"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = "get_full_chain_spec, build_controller_full_chain_map_cache"
    def graph(self, en, v):
        """v: what each known controller follows and precedes"""
        EDGE = z3.Function("linked", S, S, B); x, y = z3.Const("x", S), z3.Const("y", S); L = lambda q, c: Vec(sel(v.val.f[q].len, c), sel(v.val.f[q].elem, c)); q = ("following_controllers", "preceding_controllers")
        for l in q: en.fact(z3.ForAll([x, y], z3.Implies(mem(L(l, x), y), EDGE(x, y)), patterns=[mem(L(l, x), y)]))
        en.fact(z3.ForAll([x, y], z3.Implies(EDGE(x, y), Or(*[mem(L(l, x), y) for l in q])), patterns=[EDGE(x, y)])); self.L = L; return EDGE
    def build(self, prog, t):
        P = {"C05"}; x, y = z3.Const("x", S), z3.Const("y", S)
        def result(dom, EDGE, reach, c, old, d, own=True):
            """d: what the search from c makes of the list old"""
            yield "what-was-listed-stays", fa([key], z3.Implies(mem(old, key), mem(d, key)), mem(old, key), mem(d, key)); yield "the-controller-is-listed-when-known", z3.Implies(sel(dom, c), mem(d, c)); yield "length", d.len >= 0
            yield "only-controllers-connected-are-added", fa([key], z3.Implies(mem(d, key), Or(mem(old, key), And(reach(key), sel(dom, key)))), mem(d, key)); yield "all-linked-to-one-that-is-added", z3.ForAll([x, y], z3.Implies(And(mem(d, x), Or(Not(mem(old, x)), And(x == c, sel(dom, c))) if own else Not(mem(old, x)), EDGE(x, y), sel(dom, y)), mem(d, y)), patterns=[z3.MultiPattern(mem(d, x), EDGE(x, y))])
        def add(e, s, z):
            v, k = named(e, e.read(s, z.lv(0))), z.val(1); o = Vec(e.fresh("len", I), e.fresh("elem", v.elem.sort())); e.fact(o.len >= 0); e.fact(fa([key], mem(o, key) == Or(mem(v, key), key == k), mem(o, key), mem(v, key))); e.write(s, z.lv(0), o)
        cur = []
        def call(dom, EDGE, reach):
            def h(e, s, z):
                c, old = z.val(0), named(e, e.read(s, z.lv(2)))
                for l in cur: e.fact(fa([i], z3.Implies(And(inr(i, l.len), sel(l.elem, i) == c), mem(l, c)), sel(l.elem, i)))     # an instance of the definition of member
                e.oblige("searched-from-a-connected-controller", s, reach(c, c), "pre"); d = Vec(e.fresh("len", I), e.fresh("elem", old.elem.sort())); e.fact(d.len >= 0)
                for n_, g in result(dom, EDGE, lambda k: reach(c, k), c, old, d): e.fact(g)
                e.write(s, z.lv(2), d)
            return h
        # the search
        en = t.engine(prog); st = E.State(); sets(en); f = prog.find(AN + "get_full_chain_spec"); spec, out = (en.new_root(st, en.symbolic(prog.strip_ref(f["args"][k]["t"]), n), n) for k, n in ((1, "specification"), (2, "list"))); v = en.read(st, spec); dom = en.named(v.dom); v = Map(dom, v.val); EDGE = self.graph(en, v); REACH = z3.Function("connected", S, B)
        en.fact(z3.ForAll([x, y], z3.Implies(And(REACH(x), EDGE(x, y)), REACH(y)), patterns=[z3.MultiPattern(REACH(x), EDGE(x, y))])); c = en.fresh("controller", S); st.assume(REACH(c)); old = named(en, en.read(st, out)); reach = lambda a, k: REACH(k)
        en.contracts["ros2_control::add_item"] = add; en.contracts["ros2_control::has_item"] = lambda e, s, z: mem(named(e, e.read(s, z.lv(0))), z.val(1)); en.contracts[AN + "get_full_chain_spec"] = call(dom, EDGE, reach)
        def choose(e, s, stmt, frame, n_):
            if e.at_range is None or len(e.at_range[0].alts) != 1: return None
            g, r, p = e.at_range[0].alts[0]
            if r != spec.alts[0][1]: return None
            d0, l = named(e, e.read(s, out)), named(e, e.at_range[1]); cur[:] = [l]
            def inv(z, it):
                d = named(e, e.read(z, out)); yield from result(dom, EDGE, REACH, c, d0, d, False); yield "all-gone-through-are-listed", fa([key], z3.Implies(And(mem(l, key, it), sel(dom, key)), mem(d, key)), mem(l, key, it), mem(d, key))
            return inv
        en.loop_invs.append(choose); pre = st.clone(); en.call_fn(f, st, this=None, args=[Ref(en.new_root(st, c, "name")), Ref(spec), Ref(out)]); d = named(en, en.read(st, out))
        for n_, g in result(dom, EDGE, REACH, c, old, d): t.require(P, "search:" + n_, en, st, g)
        t.require(P, "search:unknown-controllers-change-nothing", en, st, z3.Implies(Not(sel(dom, c)), And(d.len == old.len, d.elem == old.elem))); t.safety(P, en); t.cover(P, "search:entry", en, pre); t.cover(P, "search:return", en, st)
        cur.clear()
        # the groups of all
        en = t.engine(prog); st = E.State(); sets(en); f = prog.find(AN + "build_controller_full_chain_map_cache"); spec, out = (en.new_root(st, en.symbolic(prog.strip_ref(f["args"][k]["t"]), n), n) for k, n in ((0, "specification"), (1, "groups"))); v = en.read(st, spec); dom = v.dom; EDGE = self.graph(en, v); R2 = z3.Function("connected_with", S, S, B)
        en.fact(z3.ForAll([x], R2(x, x), patterns=[R2(x, x)])); en.contracts["ros2_control::add_item"] = add; en.contracts[AN + "get_full_chain_spec"] = call(dom, EDGE, R2)
        def good(s, of):
            m = en.read(s, out); md, ml, me = const(m.dom), const(m.val.len), const(m.val.elem); g = lambda k: Vec(sel(ml, k), sel(me, k))
            yield "a-group-for-known-controllers-only", fa([x], z3.Implies(sel(md, x), sel(dom, x)), sel(md, x)); yield "in-its-own-group", fa([x], z3.Implies(sel(md, x), mem(g(x), x)), sel(md, x)); yield "only-connected-ones-in-a-group", z3.ForAll([x, y], z3.Implies(And(sel(md, x), mem(g(x), y)), R2(x, y)), patterns=[mem(g(x), y)])
            yield "all-linked-to-a-member-are-members", z3.ForAll([x, key, y], z3.Implies(And(sel(md, x), mem(g(x), key), EDGE(key, y), sel(dom, y)), mem(g(x), y)), patterns=[z3.MultiPattern(mem(g(x), key), EDGE(key, y))])
            yield "a-group-for-every-controller", of(md)
        def const(a):
            if z3.is_const(a): return a
            n = en.fresh("named", a.sort()); en.fact(n == a); return n
        def choose2(e, s, stmt, frame, n_):
            if e.at_range is None or len(e.at_range[0].alts) != 1 or e.at_range[0].alts[0][1] != spec.alts[0][1] or e.at_range[0].alts[0][2]: return None
            K = e.loop_keys; return lambda z, it: good(z, lambda md: fa([i], z3.Implies(And(0 <= i, i < it), sel(md, K(i))), K(i)))
        en.loop_invs.append(choose2); pre = st.clone(); en.call_fn(f, st, this=None, args=[Ref(spec), Ref(out)])
        for n_, g in good(st, lambda md: fa([x], z3.Implies(sel(dom, x), sel(md, x)), sel(dom, x))): t.require(P, "groups:" + n_, en, st, g)
        t.safety(P, en); t.cover(P, "groups:entry", en, pre); t.cover(P, "groups:return", en, st)
GROUPS = Groups()
