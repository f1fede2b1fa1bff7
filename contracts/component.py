"""contracts on the hardware component wrapper: life cycle (H04) and the read/write gates (H05)"""
import z3
import engine as E, lib
from values import *
HI = "hardware_interface::"; UNIT = "hardware_component.cpp"; HC, HCI = HI + "HardwareComponent::", HI + "HardwareComponentInterface::"
BD = [__import__("front").VERIF + "/stubs/rclcpp_lifecycle"]
ROOTS = [HC + "*", HCI + "*"]; LNI = "rclcpp_lifecycle::node_interfaces::LifecycleNodeInterface::"
UNKNOWN, UNCONF, INACTIVE, ACTIVE, FINAL = range(5); SUCCESS, FAILURE, ERROR = 97, 98, 99
LABELS = ["unknown", "unconfigured", "inactive", "active", "finalized"]; CALLBACKS = ["on_configure", "on_cleanup", "on_shutdown", "on_activate", "on_deactivate", "on_error"]
OK, ERR, DEACT = 0, 1, 2
class Comp:
    """a component with a driver about which nothing is known but the life cycle protocol"""
    def __init__(self, en, st, prog, t, P):
        self.en, self.prog = en, prog
        drv = {f["q"]: f for f in prog.fns.values()}
        hc, hci = drv[HC + "read"]["cls"], drv[HCI + "trigger_read"]["cls"]
        v = en.symbolic(hci, "driver"); f = dict(v.f)
        impl = en.symbolic(prog.kind(prog.field(hci, "impl_"))[1], "impl"); self.impl = en.new_root(st, impl, "impl"); f["impl_"] = Ptr([(True, ("lv", self.impl))])
        self.has_async = en.fresh("asynchronous", z3.BoolSort()); h = en.new_root(st, en.symbolic(prog.kind(prog.field(hci, "async_handler_"))[1], "handler"), "handler"); f["async_handler_"] = Ptr([(self.has_async, ("lv", h)), (Not(self.has_async), None)])
        f["impl_"] = Ptr([(True, ("lv", self.impl))]); self.drv = en.new_root(st, Rec(v.name, f), "driver")
        c = en.symbolic(hc, "component"); g = dict(c.f); g["impl_"] = Ptr([(True, ("lv", self.drv))])
        for s in ("read_statistics_", "write_statistics_"):
            r = dict(g[s].f)
            for k in r: r[k] = Ptr([(True, ("lv", en.new_root(st, z3.IntVal(0), k)))])
            g[s] = Rec(g[s].name, r)
        self.lv = en.new_root(st, Rec(c.name, g), "component")
        self.ghost = {k: en.new_root(st, z3.IntVal(0), k) for k in CALLBACKS + ["init", "read", "write", "paused", "prepared", "measured"]}
        st.assume(self.inv(st)); st.assume(And(*[z3.Implies(self.id(st) == i, self.label(st) == en.strlit(l)) for i, l in enumerate(LABELS)])); st.assume(And(self.id(st) >= 0, self.id(st) <= 4))
        self.res = {k: en.fresh(k + "_result", z3.IntSort()) for k in CALLBACKS + ["init"]}
        for r in self.res.values(): st.assume(Or(*[r == x for x in (SUCCESS, FAILURE, ERROR)]))
        self.rres = {k: en.fresh(k + "_result", z3.IntSort()) for k in ("read", "write")}
        for r in self.rres.values(): st.assume(Or(*[r == x for x in (OK, ERR, DEACT)]))
        self.state0 = self.id(st)
        for k in CALLBACKS: en.contracts[LNI + k] = self.callback(k)
        en.contracts[HCI + "init"] = self.init
        def bump(k):
            def h(e, s, c): e.write(s, self.ghost[k], e.read(s, self.ghost[k]) + 1)
            return h
        en.contracts["realtime_tools::AsyncFunctionHandler::pause_execution"] = bump("paused")
        en.contracts[HCI + "enable_introspection"] = lambda e, s, c: None
        en.contracts["ros2_control::MovingAverageStatistics::reset"] = lambda e, s, c: None
        en.contracts["ros2_control::MovingAverageStatistics::add_measurement"] = bump("measured")
        def cyc(k):
            def h(e, s, c):
                bump(k)(e, s, c)
                e.oblige(f"{k}-only-in-a-permitted-state", s, Or(self.id(s) == ACTIVE, And(k == "read", self.id(s) == INACTIVE)), "safety")
                if k == "write": e.oblige("never-writes-a-sensor", s, self.type(s) != e.strlit("sensor"), "safety")
                return self.rres[k]
            return h
        for k in ("read", "write"): en.contracts[HCI + k] = cyc(k)
    def rec(self, st): return st.store[self.drv.alts[0][1]]
    def id(self, st): return self.rec(st).f["lifecycle_state_"].f["id_"]
    def label(self, st): return self.rec(st).f["lifecycle_state_"].f["label_"]
    def type(self, st): return self.rec(st).f["info_"].f["type"]
    def cache(self, st): return st.store[self.impl.alts[0][1]].f["lifecycle_id_cache_"]
    def inv(self, st): return self.cache(st) == self.id(st)
    def n(self, st, k): return self.en.read(st, self.ghost[k])
    def none_but(self, st, *ks): return And(*[self.n(st, k) == 0 for k in self.ghost if k not in ks and k not in ("paused", "prepared", "measured")])
    def callback(self, k):
        def h(e, s, c):
            e.oblige(f"{k}:given-the-current-state", s, And(eq_tree(c.val(0), self.rec(s).f["lifecycle_state_"])), "safety")
            e.oblige(f"{k}:asynchronous-cycles-are-paused", s, Or(Not(self.has_async), self.n(s, "paused") > 0), "safety")
            e.oblige(f"{k}:driven-by-one-thread", s, Or(*[t for t, mx, cls, how in e.lock_log if how == "block" and any(z3.is_true(z3.simplify(lv_same(m, self.lv.ext(("f", "component_mutex_"))))) for m in mx) and any(is_leaf(v) and v.eq(t) for v in s.store.values())]), "safety")
            e.write(s, self.ghost[k], self.n(s, k) + 1)
            return self.res[k]
        return h
    def init(self, e, s, c):
        e.write(s, self.ghost["init"], self.n(s, "init") + 1); return self.res["init"]
    def after_error(self, s0):
        """the state error handling ends in from primary state s0, and whether the driver is asked"""
        return z3.If(Or(s0 == UNKNOWN, s0 == UNCONF), s0, z3.If(self.res["on_error"] == SUCCESS, UNCONF, FINAL))
# request -> (legal primary states, callback, {result: state or "error"})
REQ = {"initialize": ([UNKNOWN], "init", {SUCCESS: UNCONF, FAILURE: FINAL, ERROR: FINAL}),
       "configure": ([UNCONF], "on_configure", {SUCCESS: INACTIVE, FAILURE: UNCONF, ERROR: "error"}),
       "cleanup": ([INACTIVE], "on_cleanup", {SUCCESS: UNCONF, FAILURE: "error", ERROR: "error"}),
       "shutdown": ([UNCONF, INACTIVE, ACTIVE], "on_shutdown", {SUCCESS: FINAL, FAILURE: "error", ERROR: "error"}),
       "activate": ([INACTIVE], "on_activate", {SUCCESS: ACTIVE, FAILURE: INACTIVE, ERROR: "error"}),
       "deactivate": ([ACTIVE], "on_deactivate", {SUCCESS: INACTIVE, FAILURE: ACTIVE, ERROR: "error"}),
       "error": ([INACTIVE, ACTIVE, FINAL], "on_error", {SUCCESS: UNCONF, FAILURE: FINAL, ERROR: FINAL})}
class LifeCycle:
    name = "life-cycle"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = HC + "{initialize, configure, cleanup, shutdown, activate, deactivate, error}, HardwareComponentInterface::{set_lifecycle_state, get_lifecycle_state, get_lifecycle_id, pause_async_operations, prepare_for_activation}"
    def build(self, prog, t):
        P = {"H04"}
        for q, (legal, cb, table) in REQ.items():
            f = prog.find(HC + q); en = t.engine(prog); st = E.State(); c = Comp(en, st, prog, t, P); pre = st.clone(); s0 = c.id(pre); R = None
            args = [Ref(en.new_root(st, en.symbolic(prog.strip_ref(a["t"]), a["name"]), a["name"])) for a in f["args"]]
            R = en.call_fn(f, st, this=c.lv, args=args)
            ok = Or(*[s0 == s for s in legal]); err = c.after_error(s0)
            asked = And(ok, Or(*[c.res[cb] == r for r, x in table.items() if x == "error"])) if cb != "on_error" else z3.BoolVal(False)
            want = z3.If(ok, z3.If(c.res[cb] == SUCCESS, table[SUCCESS], z3.If(c.res[cb] == FAILURE, *[err if x == "error" else z3.IntVal(x) for x in (table[FAILURE], table[ERROR])])), s0)
            t.require(P, q + ":ends-in-the-prescribed-state", en, st, c.id(st) == want)
            t.require(P, q + ":state-name-matches", en, st, And(*[z3.Implies(c.id(st) == i, c.label(st) == en.strlit(l)) for i, l in enumerate(LABELS)]))
            t.require(P, q + ":cached-state-matches", en, st, c.inv(st))
            t.require(P, q + ":driver-asked-exactly-when-legal", en, st, c.n(st, cb) == z3.If(ok, 1, 0))
            if cb != "on_error": t.require(P, q + ":error-handling-exactly-when-needed", en, st, c.n(st, "on_error") == z3.If(And(asked, s0 != UNCONF), 1, 0))
            t.require(P, q + ":no-other-callback", en, st, c.none_but(st, cb, "on_error"))
            t.require(P, q + ":returns-the-current-state", en, st, lv_same(R.lv, c.drv.ext(("f", "lifecycle_state_"))) if isinstance(R, Ref) else eq_tree(R, c.rec(st).f["lifecycle_state_"]))
            t.require(P, q + ":kind-of-component-unchanged", en, st, eq_tree(c.rec(pre).f["info_"], c.rec(st).f["info_"]))
            for s, x in en.throw_sinks[0]: t.require(P, q + ":no-throw", en, s, z3.BoolVal(False))
            t.safety(P, en); t.cover(P, q + ":entry", en, pre); t.cover(P, q + ":legal", en, st, ok)
LIFE = LifeCycle()

class Cycles:
    name = "cycles"; unit = UNIT; roots = ROOTS; body_dirs = BD; function = HC + "{read, write, error}, HardwareComponentInterface::{trigger_read, trigger_write, init (the asynchronous cycle)}"
    def build(self, prog, t):
        P = {"H05"}
        for k in ("read", "write"): self.cycle(prog, t, P, k)
        self.asynchronous(prog, t, P)
    def cycle(self, prog, t, P, k):
        f = prog.find(HC + k); en = t.engine(prog); st = E.State(); c = Comp(en, st, prog, t, P)
        trig = en.new_root(st, z3.IntVal(0), "triggered"); started, later = en.fresh("asynchronous_cycle_started", z3.BoolSort()), en.fresh("later_result", z3.IntSort())
        args = [Ref(en.new_root(st, en.symbolic(prog.strip_ref(a["t"]), a["name"]), a["name"])) for a in f["args"]]
        def trigger(e, s, x):
            e.write(s, trig, e.read(s, trig) + 1)
            e.oblige("cycle-started-only-in-a-permitted-state", s, And(z3.BoolVal(k == "read"), Or(c.id(s) == ACTIVE, c.id(s) == INACTIVE)), "safety")
            e.oblige("cycle-started-with-the-given-time", s, And(eq_tree(x.val(0), e.read(s, args[0].lv)), eq_tree(x.val(1), e.read(s, args[1].lv))), "safety")
            return Rec("pair", {"first": started, "second": later})
        en.contracts["realtime_tools::AsyncFunctionHandler::trigger_async_callback"] = trigger
        is_async = c.rec(st).f["info_"].f["is_async"]; st.assume(z3.Implies(is_async, c.has_async))
        impl0 = st.store[c.impl.alts[0][1]].f; info = impl0[k + "_return_info_"]
        lt = "last_%s_cycle_time_" % k; comp = lambda s: s.store[c.lv.alts[0][1]].f
        ct = lambda v: v.f["ct_"] if "ct_" in v.f else None
        same_clock = en.read(st, args[0].lv)
        pre = st.clone(); s0 = c.id(pre); sensor = c.type(pre) == en.strlit("sensor")
        for w in ("clock_type", "ct_"):
            if w in same_clock.f: st.assume(Or(comp(st)[lt].f[w] == 0, comp(st)[lt].f[w] == same_clock.f[w])); pre = st.clone()
        R = en.call_fn(f, st, this=c.lv, args=args)
        may = Or(s0 == ACTIVE, s0 == INACTIVE) if k == "read" else And(Not(sensor), s0 == ACTIVE)
        direct = And(may, Not(is_async))
        res = z3.If(is_async, z3.If(started, info, OK) if k == "read" else info, c.rres[k])
        t.require(P, k + ":driver-asked-exactly-in-the-states-that-allow-it", en, st, And(c.n(st, k) == z3.If(direct, 1, 0), en.read(st, trig) == (z3.If(And(may, is_async), 1, 0) if k == "read" else 0)))
        t.require(P, k + ":no-other-callback", en, st, c.none_but(st, k, "on_error"))
        t.require(P, k + ":reports-the-result", en, st, R == z3.If(may, res, OK))
        fail = And(may, res == ERR)
        t.require(P, k + ":a-failure-runs-error-handling-once", en, st, c.n(st, "on_error") == z3.If(fail, 1, 0))
        t.require(P, k + ":state-afterwards", en, st, c.id(st) == z3.If(fail, c.after_error(s0), s0))
        t.require(P, k + ":cached-state-matches", en, st, c.inv(st))
        timed = Or(And(may, Or(Not(is_async), started) if k == "read" else z3.BoolVal(True)), And(Or(*[s0 == x for x in (UNKNOWN, UNCONF, FINAL)]), Not(sensor) if k == "write" else z3.BoolVal(True)))
        a, b, now = comp(pre)[lt], comp(st)[lt], en.read(pre, args[0].lv)
        t.require(P, k + ":records-the-time-of-a-completed-cycle", en, st, And(z3.Implies(timed, eq_tree(b, now)), z3.Implies(Not(timed), eq_tree(a, b))))
        for s, x in en.throw_sinks[0]: t.require(P, k + ":no-throw", en, s, z3.BoolVal(False))
        t.safety(P, en); t.cover(P, k + ":entry", en, pre); t.cover(P, k + ":failed", en, st, fail); t.cover(P, k + ":async", en, st, And(may, is_async))
    def asynchronous(self, prog, t, P):
        """the function handed to the asynchronous handler by init"""
        en = t.engine(prog); st = E.State(); c = Comp(en, st, prog, t, P); f = prog.find(HCI + "init"); del en.contracts[HCI + "init"]; fns = []
        class Handed(Exception): pass
        def got(e, s, x): fns.append((x.val(0), s)); raise Handed
        en.contracts["realtime_tools::AsyncFunctionHandler::init"] = got
        for q in ("realtime_tools::AsyncSchedulingPolicy::AsyncSchedulingPolicy", "realtime_tools::AsyncSchedulingPolicy::to_string"): en.contracts[q] = lambda e, s, x: e.symbolic(x.objt if x.q.endswith("AsyncSchedulingPolicy::AsyncSchedulingPolicy") else x.ret, "opaque")
        en.contracts["std::make_unique"] = lambda e, s, x: Ptr([(True, ("lv", e.new_root(s, e.symbolic(prog.kind(x.ret)[1], "handler"), "handler")))])
        try: en.call_fn(f, st, this=c.drv, args=[Ref(en.new_root(st, en.symbolic(prog.strip_ref(f["args"][0]["t"]), "params"), "params"))])
        except Handed: pass
        fn, st = fns[0]; sensor = c.type(st) == en.strlit("sensor")
        # any state in which a cycle may have been started
        def put(*path_val):
            *path, v = path_val; lv = path[0]
            for x in path[1:]: lv = lv.ext(("f", x))
            en.write(st, lv, v)
        ids = en.fresh("state", z3.IntSort())
        put(c.drv, "lifecycle_state_", "id_", ids); put(c.impl, "lifecycle_id_cache_", ids); st.assume(Or(ids == ACTIVE, ids == INACTIVE))
        for k in ("read", "write"): put(c.impl, k + "_return_info_", en.fresh("last_" + k, z3.IntSort()))
        pre = st.clone(); pi = pre.store[c.impl.alts[0][1]].f
        rd = prog.find(HC + "read"); args = [Ref(en.new_root(st, en.symbolic(prog.strip_ref(a["t"]), a["name"]), a["name"])) for a in rd["args"]]
        R = en.apply_fn(fn, args, st); po = st.store[c.impl.alts[0][1]].f
        writes = And(c.rres["read"] == OK, Not(sensor), ids == ACTIVE)
        t.require(P, "async:reads-once", en, st, c.n(st, "read") == 1)
        t.require(P, "async:writes-exactly-when-active-after-a-good-read", en, st, c.n(st, "write") == z3.If(writes, 1, 0))
        t.require(P, "async:stores-the-read-result", en, st, po["read_return_info_"] == c.rres["read"])
        t.require(P, "async:stores-the-write-result", en, st, po["write_return_info_"] == z3.If(writes, c.rres["write"], pi["write_return_info_"]))
        t.require(P, "async:no-other-callback", en, st, c.none_but(st, "read", "write"))
        t.require(P, "async:state-unchanged", en, st, And(c.id(st) == ids, c.inv(st)))
        for s, x in en.throw_sinks[0]: t.require(P, "async:no-throw", en, s, z3.BoolVal(False))
        t.safety(P, en); t.cover(P, "async:entry", en, pre); t.cover(P, "async:write", en, st, writes)
CYCLES = Cycles()
