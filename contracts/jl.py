"""contracts on joint_limits: the limit computations and the two limiters (J01-J05)"""
import z3
import spec, engine as E
from values import *

PB_TOL = 0.002; EXC_TOL = 0.0087
UNIT_R = "range_limiter.cpp"; UNIT_S = "soft_limiter.cpp"
ROOTS_R = ["joint_limits::JointSaturationLimiter*", "joint_limits::compute_*", "joint_limits::update_prev_command", "joint_limits::is_limited", "joint_limits::internal::*"]
ROOTS_S = ["joint_limits::JointSoftLimiter*", "joint_limits::compute_*", "joint_limits::update_prev_command", "joint_limits::is_limited", "joint_limits::internal::*"]
ALLJ = ("J01", "J02", "J03", "J04", "J05")

def fin(en, x): return en.is_fin(x)
def nn(en, x): return Not(en.is_nan(x))
def zero(en): return en.dval(0.0)

def wf_limits(en, L):
    """what a user hands to the limiter: enabled limits are numbers in the right order, disabled ones are unset or ordered"""
    f = L.f; z = zero(en)
    c = [("position-limits", Ite(f["has_position_limits"], And(fin(en, f["min_position"]), fin(en, f["max_position"]), en.fle(f["min_position"], f["max_position"])),
             Or(And(en.is_nan(f["min_position"]), en.is_nan(f["max_position"])), And(fin(en, f["min_position"]), fin(en, f["max_position"]), en.fle(f["min_position"], f["max_position"])))))]
    for k in ("velocity", "acceleration", "deceleration", "jerk", "effort"):
        m = f["max_" + k]
        c.append((k + "-limit", Ite(f[f"has_{k}_limits"], And(fin(en, m), en.fle(z, m)), Or(en.is_nan(m), en.fle(z, m)))))
    return c

def fadd(en, a, b): return en.farith("+", a, b)
def fsub(en, a, b): return en.farith("-", a, b)
def fmul(en, a, b): return en.farith("*", a, b)
def fdiv(en, a, b): return en.farith("/", a, b)
def smin(en, a, b): return z3.If(en.flt(b, a), b, a)      # std::min
def optn(en, o): return And(o.has, nn(en, o.val))         # present and a number

def pos_dt(en, dt): return And(fin(en, dt), en.flt(zero(en), dt))

class PosLimits(spec.Pure):
    q = "joint_limits::compute_position_limits"; props = ALLJ
    def requires(self, en, A): return wf_limits(en, A[1]) + [("dt", pos_dt(en, A[5]))]
    def throws(self, en, A):
        L, pos = A[1].f, A[3]
        return And(L["has_position_limits"], pos.has, Or(en.flt(fadd(en, L["max_position"], en.dval(EXC_TOL)), pos.val), en.flt(pos.val, fsub(en, L["min_position"], en.dval(EXC_TOL)))))
    def step(self, en, A):
        """the distance one step may cover, and the reference it is measured from"""
        L, vel, pos, prev, dt = A[1].f, A[2], A[3], A[4], A[5]
        va = z3.If(vel.has, en.fabs(vel.val), zero(en))
        reach = z3.If(L["has_acceleration_limits"], fadd(en, va, fmul(en, L["max_acceleration"], dt)), L["max_velocity"])
        delta = fmul(en, smin(en, L["max_velocity"], reach), dt)
        usable = And(prev.has, fin(en, prev.val))
        ref = z3.If(usable, prev.val, pos.val)
        return delta, ref, Or(usable, pos.has)
    def ensures(self, en, A, R):
        L = A[1].f; lo, up = R.f["lower_limit"], R.f["upper_limit"]
        delta, ref, has = self.step(en, A)
        inside = And(fin(en, ref), Not(en.flt(ref, L["min_position"])), Not(en.flt(L["max_position"], ref)))
        return [(ALLJ, "interval-ordered", Not(en.flt(up, lo))),
                (("J01", "J02", "J05"), "inside-position-limits", z3.Implies(L["has_position_limits"], And(nn(en, lo), nn(en, up), en.fle(L["min_position"], lo), en.fle(lo, up), en.fle(up, L["max_position"])))),
                (("J03",), "step-bound", z3.Implies(And(L["has_velocity_limits"], has, inside), And(en.fle(fsub(en, ref, delta), lo), en.fle(up, fadd(en, ref, delta)))))]

class VelLimits(spec.Pure):
    q = "joint_limits::compute_velocity_limits"; props = ALLJ
    def requires(self, en, A): return wf_limits(en, A[1]) + [("dt", pos_dt(en, A[5])), ("desired", nn(en, A[2]))]
    def ensures(self, en, A, R):
        L, des, pos, prev, dt = A[1].f, A[2], A[3], A[4], A[5]
        lo, up = R.f["lower_limit"], R.f["upper_limit"]; z = zero(en)
        hv = L["has_velocity_limits"]; mx = L["max_velocity"]
        d = fmul(en, L["max_acceleration"], dt)
        measured = And(L["has_position_limits"], optn(en, pos))
        acc = And(L["has_acceleration_limits"], prev.has, fin(en, prev.val))
        in_range = And(en.fle(en.fneg(mx), prev.val), en.fle(prev.val, mx))
        unrestricted = Or(Not(measured), And(en.fle(L["min_position"], pos.val), en.fle(pos.val, L["max_position"]),
                          en.fle(mx, fdiv(en, fsub(en, L["max_position"], pos.val), dt)), en.fle(fdiv(en, fsub(en, L["min_position"], pos.val), dt), en.fneg(mx))))
        above = And(measured, en.flt(L["max_position"], pos.val)); below = And(measured, en.flt(pos.val, L["min_position"]))
        far = And(measured, Or(en.flt(fadd(en, L["max_position"], en.dval(PB_TOL)), pos.val), en.flt(pos.val, fsub(en, L["min_position"], en.dval(PB_TOL)))))
        near = And(en.flt(pos.val, fadd(en, L["max_position"], en.dval(PB_TOL))), en.flt(fsub(en, L["min_position"], en.dval(PB_TOL)), pos.val))
        stopped = And(hv, Or(And(above, near, en.fle(z, des)), And(below, near, en.fle(des, z)), far))
        at = And(hv, measured, en.fle(L["min_position"], pos.val), en.fle(pos.val, L["max_position"]))
        is0 = lambda x: en.feq(x, z)
        return [(ALLJ, "interval-ordered", And(nn(en, lo), nn(en, up), en.fle(lo, up))),
                (("J02", "J05"), "disabled-is-unbounded", z3.Implies(Not(hv), And(lo == en.dval(float("-inf")), up == en.dval(float("inf"))))),
                (("J01", "J05"), "inside-velocity-limit", z3.Implies(hv, And(en.fle(en.fneg(mx), lo), en.fle(up, mx)))),
                (("J03",), "step-bound", z3.Implies(And(hv, acc, in_range, unrestricted), And(en.fle(fsub(en, prev.val, d), lo), en.fle(up, fadd(en, prev.val, d))))),
                (("J04",), "stopped-outside", z3.Implies(And(stopped, Not(acc)), And(is0(lo), is0(up)))),
                (("J04",), "braking-outside", z3.Implies(And(stopped, acc), And(Or(is0(lo), And(en.flt(lo, z), en.fle(fadd(en, prev.val, d), lo))), Or(is0(up), And(en.flt(z, up), en.fle(up, fsub(en, prev.val, d))))))),
                (("J04",), "approach-upper", z3.Implies(And(at, Not(acc)), en.fle(up, fdiv(en, fsub(en, L["max_position"], pos.val), dt)))),
                (("J04",), "approach-lower", z3.Implies(And(at, Not(acc)), en.fle(fdiv(en, fsub(en, L["min_position"], pos.val), dt), lo)))]

class EffLimits(spec.Pure):
    q = "joint_limits::compute_effort_limits"; props = ALLJ
    def requires(self, en, A): return wf_limits(en, A[0])
    def outward(self, en, A):
        L, pos, vel = A[0].f, A[1], A[2]; z = zero(en)
        pv = And(L["has_position_limits"], optn(en, pos), optn(en, vel))
        low = And(pv, en.fle(pos.val, L["min_position"]), en.fle(vel.val, z))
        high = And(pv, en.fle(L["max_position"], pos.val), en.fle(z, vel.val), Not(low))
        v = And(L["has_velocity_limits"], optn(en, vel))
        fastn = And(v, en.flt(vel.val, en.fneg(L["max_velocity"]))); fastp = And(v, en.flt(L["max_velocity"], vel.val))
        return Or(low, fastn), Or(high, fastp)
    def ensures(self, en, A, R):
        L = A[0].f; lo, up = R.f["lower_limit"], R.f["upper_limit"]; z = zero(en); he = L["has_effort_limits"]; mx = L["max_effort"]
        nolow, nohigh = self.outward(en, A)
        return [(ALLJ, "interval-ordered", And(nn(en, lo), nn(en, up), en.fle(lo, up))),
                (("J02", "J05"), "disabled-is-unbounded", z3.Implies(Not(he), And(lo == en.dval(float("-inf")), up == en.dval(float("inf"))))),
                (("J01", "J05"), "inside-effort-limit", z3.Implies(he, And(en.fle(en.fneg(mx), lo), en.fle(up, mx)))),
                (("J04",), "no-outward-effort-low", z3.Implies(And(he, nolow), en.fle(z, lo))),
                (("J04",), "no-outward-effort-high", z3.Implies(And(he, nohigh), en.fle(up, z)))]

class AccLimits(spec.Pure):
    q = "joint_limits::compute_acceleration_limits"; props = ("J01", "J02", "J05")
    def requires(self, en, A): return wf_limits(en, A[0]) + [("desired", nn(en, A[1]))]
    def bound(self, en, A):
        L, des, vel = A[0].f, A[1], A[2]; z = zero(en)
        dec = And(L["has_deceleration_limits"], vel.has, Or(And(en.flt(des, z), en.flt(z, vel.val)), And(en.flt(z, des), en.flt(vel.val, z))))
        return dec, z3.If(dec, L["max_deceleration"], L["max_acceleration"]), Or(dec, L["has_acceleration_limits"])
    def ensures(self, en, A, R):
        lo, up = R.f["lower_limit"], R.f["upper_limit"]
        dec, m, lim = self.bound(en, A)
        return [(self.props, "interval-ordered", And(nn(en, lo), nn(en, up), en.fle(lo, up))),
                (self.props, "acceleration-interval", z3.If(lim, And(en.feq(lo, en.fneg(m)), en.feq(up, m)), And(lo == en.dval(float("-inf")), up == en.dval(float("inf")))))]

POS, VEL, EFF, ACC = PosLimits(), VelLimits(), EffLimits(), AccLimits()
HELPERS = (POS, VEL, EFF, ACC)
FIELDS = ("position", "velocity", "effort", "acceleration", "jerk")

def no_nan(en, D): return And(*[Or(Not(D.f[k].has), nn(en, D.f[k].val)) for k in FIELDS])

class Enforce:
    """on_enforce of one limiter, verified against the contracts of the limit computations"""
    def __init__(self, soft):
        self.soft = soft; self.unit = UNIT_S if soft else UNIT_R; self.roots = ROOTS_S if soft else ROOTS_R
        self.function = "joint_limits::JointSoftLimiter::on_enforce" if soft else "joint_limits::JointSaturationLimiter<JointControlInterfacesData>::on_enforce"
        self.name = "JointSoftLimiter::on_enforce" if soft else "JointSaturationLimiter::on_enforce"
    def setup(self, prog, t, call=True):
        nm = "joint_limits::JointSoftLimiter::on_enforce" if self.soft else "joint_limits::JointSaturationLimiter::on_enforce"
        fn = prog.find(nm)
        if isinstance(fn, list):
            fn = [f for f in fn if any("JointControlInterfacesData" in str(prog.T(prog.strip_ref(a["t"])).get("s", "")) for a in f["args"])]
            if len(fn) != 1: raise Unsupported("on_enforce specialisation not found")
            fn = fn[0]
        en = t.engine(prog); st = E.State()
        for c in HELPERS: en.contracts[c.q] = c.handler()
        cls = prog.kind(fn["cls"])[1]
        self_ = en.symbolic(fn["cls"], "self")
        ft = {f: ty for f, ty, _ in prog.fields(cls)}
        L = en.symbolic(prog.kind(ft["joint_limits_"])[1], "limits")
        self_.f["joint_limits_"] = Vec(z3.IntVal(1), en.const_elem(L, z3.IntSort()))
        S = en.symbolic(prog.kind(ft["soft_joint_limits_"])[1], "soft")
        nsoft = en.fresh("nsoft", z3.IntSort())
        st.assume(And(nsoft >= 0, nsoft <= 1))
        self_.f["soft_joint_limits_"] = Vec(nsoft, en.const_elem(S, z3.IntSort()))
        jn = en.symbolic(prog.kind(ft["joint_names_"])[1], "joint_name")
        self_.f["joint_names_"] = Vec(z3.IntVal(1), en.const_elem(jn, z3.IntSort()))
        prev = self_.f["prev_command_"]
        this = en.new_root(st, self_, "self")
        vals, args = [], []
        for nmx, a in zip(("actual", "desired", "dt"), fn["args"]):
            v = en.symbolic(prog.strip_ref(a["t"]), nmx); vals.append(v); args.append(Ref(en.new_root(st, v, nmx)))
        actual, desired, dt = vals
        for _, g in wf_limits(en, L): st.assume(g)
        dts = en.lib.dur_sec(en, dt.f["ns_"])
        pre = st.clone()
        r = en.call_fn(fn, st, this=this, args=args)
        return dict(en=en, st=st, pre=pre, r=r, L=L, S=S, nsoft=nsoft, prev=prev, actual=actual, desired=desired, dts=dts, this=this, out=en.read(st, args[1].lv) if not st.dead else None, args=args, jn=jn, fn=fn)
    def build(self, prog, t):
        x = self.setup(prog, t); en, st = x["en"], x["st"]
        L, D, O, P, A, dt = x["L"].f, x["desired"], x["out"], x["prev"], x["actual"], x["dts"]
        ok = en.flt(zero(en), dt)
        POSP = {"J05"} if self.soft else {"J01"}
        TRANS = {"J05"} if self.soft else {"J02"}
        t.cover(POSP | TRANS | ({"J03", "J04"} if not self.soft else set()), "limited-return", en, st, And(ok, O.f["position"].has, O.f["velocity"].has, O.f["effort"].has))
        o = lambda k: O.f[k]; d = lambda k: D.f[k]
        num = lambda v: optn(en, v)
        z = zero(en)
        sym = lambda v, m: And(en.fle(en.fneg(m), v), en.fle(v, m))
        # ---- hard limits on everything handed on
        inpos = And(en.fle(L["min_position"], o("position").val), en.fle(o("position").val, L["max_position"]))
        hyp = And(ok, num(o("position")), L["has_position_limits"])
        if self.soft:
            S = x["S"].f
            hs = And(x["nsoft"] >= 1, fin(en, S["min_position"]), fin(en, S["max_position"]))
            hyp = And(hyp, Or(Not(hs), And(en.fle(L["min_position"], S["min_position"]), en.fle(S["max_position"], L["max_position"]))))
        t.require(POSP, "position-inside", en, st, z3.Implies(hyp, inpos))
        t.require(POSP, "velocity-inside", en, st, z3.Implies(And(ok, num(o("velocity")), L["has_velocity_limits"]), sym(o("velocity").val, L["max_velocity"])))
        t.require(POSP, "effort-inside", en, st, z3.Implies(And(ok, num(o("effort")), L["has_effort_limits"]), sym(o("effort").val, L["max_effort"])))
        dec, m, lim = ACC.bound(en, [x["L"], d("acceleration").val, A.f["velocity"]])
        t.require(POSP, "acceleration-inside", en, st, z3.Implies(And(ok, num(o("acceleration")), lim), sym(o("acceleration").val, m)))
        t.require(POSP, "jerk-inside", en, st, z3.Implies(And(ok, num(o("jerk")), L["has_jerk_limits"]), sym(o("jerk").val, L["max_jerk"])))
        # ---- transparency
        unchanged = lambda k: And(o(k).has == d(k).has, z3.Implies(d(k).has, o(k).val == d(k).val))
        veq = lambda k: And(o(k).has == d(k).has, z3.Implies(d(k).has, Or(en.feq(o(k).val, d(k).val), And(en.is_nan(o(k).val), en.is_nan(d(k).val)))))
        t.require(TRANS, "no-step-no-change", en, st, z3.Implies(Not(ok), And(Not(x["r"]), *[unchanged(k) for k in FIELDS])))
        for k in FIELDS:
            t.require(TRANS, k + "-presence", en, st, And(o(k).has == d(k).has, z3.Implies(And(d(k).has, en.is_nan(d(k).val)), en.is_nan(o(k).val)), z3.Implies(num(d(k)), nn(en, o(k).val))))
        t.require(TRANS, "reports-exactly-changes", en, st, x["r"] == Or(*[Not(veq(k)) for k in FIELDS]))
        t.require(TRANS, "joint-name", en, st, O.f["joint_name"] == D.f["joint_name"])
        if not self.soft:
            for k in ("velocity", "effort"):
                t.require({"J02"}, k + "-disabled-passes", en, st, z3.Implies(Not(L[f"has_{k}_limits"]), veq(k)))
            t.require({"J02"}, "acceleration-disabled-passes", en, st, z3.Implies(And(Not(L["has_acceleration_limits"]), Not(L["has_deceleration_limits"])), veq("acceleration")))
        # ---- the computed limits, as the spec sees them: the reference is the remembered command, seeded from the measurement on the first call
        first = And(*[Not(P.f[k].has) for k in FIELDS])
        def seed(k):
            pk, ak, dk = P.f[k], A.f[k], D.f[k]
            return Opt(z3.If(And(first, dk.has), Or(ak.has, num(dk)), pk.has), z3.If(And(first, dk.has), z3.If(ak.has, ak.val, dk.val), pk.val))
        if not self.soft:
            nmv = x["jn"]
            def lims(c, a):
                ret = prog.find(c.q)["ret"] if not isinstance(prog.find(c.q), list) else None
                R = c.apply(en, ret, a)
                return R.f["lower_limit"], R.f["upper_limit"]
            ks = {"position": lambda: lims(POS, [nmv, x["L"], A.f["velocity"], A.f["position"], seed("position"), dt]),
                  "velocity": lambda: lims(VEL, [nmv, x["L"], D.f["velocity"].val, A.f["position"], seed("velocity"), dt]),
                  "effort": lambda: lims(EFF, [x["L"], A.f["position"], A.f["velocity"], dt]),
                  "acceleration": lambda: lims(ACC, [x["L"], D.f["acceleration"].val, A.f["velocity"]]),
                  "jerk": lambda: (en.fneg(L["max_jerk"]), L["max_jerk"])}
            for k in FIELDS:
                lo, up = ks[k]()
                inside = And(Not(en.flt(d(k).val, lo)), Not(en.flt(up, d(k).val)))
                t.require({"J02"}, k + "-inside-untouched", en, st, z3.Implies(And(ok, num(d(k)), inside), veq(k)))
            # ---- step bounds
            delta, ref, has = POS.step(en, [nmv, x["L"], A.f["velocity"], A.f["position"], seed("position"), dt])
            refin = And(fin(en, ref), Not(en.flt(ref, L["min_position"])), Not(en.flt(L["max_position"], ref)))
            t.require({"J03"}, "position-step", en, st, z3.Implies(And(ok, num(o("position")), L["has_velocity_limits"], has, refin), And(en.fle(fsub(en, ref, delta), o("position").val), en.fle(o("position").val, fadd(en, ref, delta)))))
            pv = seed("velocity"); dv = fmul(en, L["max_acceleration"], dt)
            t.require({"J03"}, "velocity-step", en, st, z3.Implies(And(ok, num(o("velocity")), L["has_velocity_limits"], L["has_acceleration_limits"], pv.has, fin(en, pv.val), sym(pv.val, L["max_velocity"]), Not(And(L["has_position_limits"], num(A.f["position"])))),
                      And(en.fle(fsub(en, pv.val, dv), o("velocity").val), en.fle(o("velocity").val, fadd(en, pv.val, dv)))))
            Q = en.read(st, x["this"].ext(("f", "prev_command_")))
            for k in FIELDS:
                q, s = Q.f[k], seed(k)
                t.require({"J03"}, k + "-remembered", en, st, z3.Implies(ok, z3.If(num(o(k)), And(q.has, q.val == o(k).val), z3.Implies(num(P.f[k]), And(q.has, q.val == P.f[k].val)))))
            # ---- J04 at the level of the limiter
            thr = POS.throws(en, [nmv, x["L"], A.f["velocity"], A.f["position"], seed("position"), dt])
            t.require({"J04"}, "refused-far-outside", en, st, z3.Implies(And(ok, num(d("position"))), Not(thr)))
            nolow, nohigh = EFF.outward(en, [x["L"], A.f["position"], A.f["velocity"], dt])
            t.require({"J04"}, "no-outward-effort", en, st, z3.Implies(And(ok, L["has_effort_limits"], num(o("effort"))), And(z3.Implies(nolow, en.fle(z, o("effort").val)), z3.Implies(nohigh, en.fle(o("effort").val, z)))))
            V = VEL.ensures(en, [nmv, x["L"], D.f["velocity"].val, A.f["position"], seed("velocity"), dt], Rec("v", {"lower_limit": o("velocity").val, "upper_limit": o("velocity").val}))
            for props, n, g in V:
                if "J04" in props and n.startswith(("stopped", "approach")):
                    t.require({"J04"}, "velocity-" + n, en, st, z3.Implies(And(ok, num(o("velocity"))), g))
            for s, xx in en.throw_sinks[0]:
                t.require({"J04", "J02"}, "throws-only-far-outside", en, s, And(ok, num(d("position")), thr))
        t.safety(POSP, en)

class Update(object):
    """update_prev_command: remembers exactly the non-NaN commands"""
    name = "update_prev_command"; function = "joint_limits::update_prev_command"; unit = UNIT_R; roots = ROOTS_R
    def build(self, prog, t):
        fn = prog.find(self.function); en = t.engine(prog); st = E.State()
        D = en.symbolic(prog.strip_ref(fn["args"][0]["t"]), "desired"); P = en.symbolic(prog.strip_ref(fn["args"][1]["t"]), "prev")
        a = [Ref(en.new_root(st, D)), Ref(en.new_root(st, P))]
        en.call_fn(fn, st, args=a)
        Q = en.read(st, a[1].lv)
        for k in FIELDS:
            q, p, d = Q.f[k], P.f[k], D.f[k]
            t.require({"J03"}, k, en, st, z3.If(optn(en, d), And(q.has, q.val == d.val), And(q.has == p.has, z3.Implies(p.has, q.val == p.val))))
        t.safety({"J03"}, en); t.cover({"J03"}, "return", en, st)

RANGE = Enforce(False); SOFT = Enforce(True); UPD = Update()
HT = [spec.PureTarget(c, UNIT_R, ROOTS_R) for c in HELPERS]
