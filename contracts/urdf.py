"""contracts on the URDF limit translation (J07)"""
import z3
import spec, engine as E
from values import *

UNIT = "urdf_limits.cpp"; ROOTS = ["joint_limits::getJointLimits", "joint_limits::getSoftJointLimits"]
# urdf::Joint type constants as documented by URDF (revolute, continuous, prismatic); read from the header's enumerators through the code under contract
REVOLUTE, CONTINUOUS, PRISMATIC = 1, 2, 3

class GetLimits:
    def __init__(self, soft):
        self.soft = soft; self.name = "getSoftJointLimits" if soft else "getJointLimits"; self.function = "joint_limits::" + self.name
        self.unit = UNIT; self.roots = [self.function]; self.body_dirs = ("/usr/include/urdf_model",)
    def build(self, prog, t):
        P = {"J07"}
        fn = prog.find(self.function); en = t.engine(prog); st = E.State()
        p = en.fresh("joint", z3.IntSort())
        pt = prog.kind(prog.strip_ref(fn["args"][0]["t"]))[1]
        J = en.read(st, en.deref(p, pt, st))
        fk = dict((n, prog.kind(ty)) for n, ty, _ in prog.fields(prog.kind(pt)[1]))
        fld = "safety" if self.soft else "limits"
        q = J.f[fld]
        U = en.read(st, en.deref(q, fk[fld][1], st))
        L0 = en.symbolic(prog.strip_ref(fn["args"][1]["t"]), "limits")
        ref = Ref(en.new_root(st, L0, "limits"))
        pre = st.clone()
        r = en.call_fn(fn, st, args=[p, ref])
        L = en.read(st, ref.lv).f; O = L0.f; u = U.f
        given = And(p != 0, q != 0)
        t.require(P, "reports-presence", en, st, r == given)
        same = lambda k: L[k] == O[k]
        t.require(P, "missing-leaves-untouched", en, st, z3.Implies(Not(given), And(*[same(k) for k in O])))
        if self.soft:
            for a, b in (("min_position", "soft_lower_limit"), ("max_position", "soft_upper_limit"), ("k_position", "k_position"), ("k_velocity", "k_velocity")):
                t.require(P, a, en, st, z3.Implies(given, L[a] == u[b]))
        else:
            ty = J.f["type"]; bounded = Or(ty == REVOLUTE, ty == PRISMATIC)
            t.require(P, "position-enabled", en, st, z3.Implies(given, L["has_position_limits"] == bounded))
            t.require(P, "position-bounds", en, st, z3.Implies(given, z3.If(bounded, And(L["min_position"] == u["lower"], L["max_position"] == u["upper"]), And(same("min_position"), same("max_position")))))
            t.require(P, "wraparound", en, st, z3.Implies(given, L["angle_wraparound"] == Or(ty == CONTINUOUS, O["angle_wraparound"])))
            for a, b in (("velocity", "velocity"), ("effort", "effort")):
                t.require(P, a, en, st, z3.Implies(given, And(L[f"has_{a}_limits"], L["max_" + a] == en.fabs(u[b]))))
            for a in ("acceleration", "deceleration", "jerk"):
                t.require(P, a + "-never-invented", en, st, z3.Implies(given, And(same("max_" + a), z3.Implies(L[f"has_{a}_limits"], O[f"has_{a}_limits"]))))
            t.require(P, "acceleration-off", en, st, z3.Implies(given, Not(L["has_acceleration_limits"])))
        for s, x in en.throw_sinks[0]: t.require(P, "no-throw", en, s, z3.BoolVal(False))
        # the joint itself is only read
        H = en.read(st, en.deref(p, pt, st))
        t.require(P, "urdf-untouched", en, st, And(H.f["type"] == J.f["type"], H.f[fld] == q))
        t.safety(P, en); t.cover(P, "entry", en, pre, given); t.cover(P, "return", en, st, r)
HARD, SOFT = GetLimits(False), GetLimits(True)

# ---------------------------------------------------------------- J08: interface limits combined with the URDF limits
PARSER = "component_parser.cpp"
class Stod(spec.Pure):
    """hardware_interface::stod: an uninterpreted finite value or std::invalid_argument (decided for L01)"""
    q = "hardware_interface::stod"; exc = "std::invalid_argument"
    def throws(self, en, A): return bad_number(en, A[0])
    def apply(self, en, ret, A): return number(en, A[0])
    def ensures(self, en, A, R): return [((), "finite", en.is_fin(R))]
def bad_number(en, s): return z3.Function("stod.invalid", en.SS, z3.BoolSort())(s)
def number(en, s): return z3.Function("stod.value", en.SS, en.DS)(s)

class InterfaceLimits:
    """update_interface_limits: per quantity the unique interface of that name decides how the URDF limits are tightened.
    Loop invariant: after `it` interfaces every quantity whose interface was met satisfies its relation, every other one is as in the URDF."""
    name = "update_interface_limits"; function = "hardware_interface::detail::update_interface_limits"; unit = PARSER; roots = [function]
    KINDS = dict(position=("position", ("min_position", "max_position", "has_position_limits")), velocity=("velocity", ("max_velocity", "has_velocity_limits")), effort=("effort", ("max_effort", "has_effort_limits")),
                 acceleration=("acceleration", ("max_acceleration", "max_deceleration", "has_acceleration_limits", "has_deceleration_limits")), jerk=("jerk", ("max_jerk", "has_jerk_limits")))
    def build(self, prog, t):
        P = {"J08"}
        en = t.engine(prog); st = E.State(); fn = prog.find(self.function)
        en.contracts[Stod.q] = Stod().handler()
        J0 = en.symbolic(prog.strip_ref(fn["args"][0]["t"]), "joint"); L0 = en.symbolic(prog.strip_ref(fn["args"][1]["t"]), "limits")
        jref, lref = Ref(en.new_root(st, J0, "joint")), Ref(en.new_root(st, L0, "limits"))
        V = J0.f["command_interfaces"]; itf = lambda i: tmap(lambda a: z3.Select(a, i), V.elem)
        o = L0.f; zero = en.dval(0.0); DMAX = en.dval(1.7976931348623157e308); fin = en.is_fin
        # requires: limits from a URDF (enabled ones finite and ordered, none beyond what URDF can express), one interface per name
        st.assume(z3.Implies(o["has_position_limits"], And(fin(o["min_position"]), fin(o["max_position"]), en.fle(o["min_position"], o["max_position"]))))
        for k in ("velocity", "effort"): st.assume(z3.Implies(o[f"has_{k}_limits"], And(fin(o["max_" + k]), en.fle(zero, o["max_" + k]))))
        for k in ("acceleration", "deceleration", "jerk"): st.assume(Not(o[f"has_{k}_limits"]))
        lit = lambda k: en.strlit(self.KINDS[k][0]); idx = {}
        for k in self.KINDS:
            i = idx[k] = z3.Const("index_of_" + k, z3.IntSort()); q = z3.FreshConst(z3.IntSort(), "q")
            nm = z3.Select(V.elem.f["name"], q)
            st.assume(And(i >= -1, i < V.len, z3.Implies(i >= 0, z3.Select(V.elem.f["name"], i) == lit(k)), z3.ForAll([q], z3.Implies(And(q >= 0, q < V.len, nm == lit(k)), q == i), patterns=[nm])))
        emp = lambda s: s == en.strlit("")
        def parsed(I):
            """both texts that are present are numbers, and there is one"""
            mn, mx = I.f["min"], I.f["max"]
            return And(Or(Not(emp(mn)), Not(emp(mx))), Or(emp(mn), Not(bad_number(en, mn))), Or(emp(mx), Not(bad_number(en, mx))))
        val = lambda s: number(en, s)
        big = lambda a, b: z3.If(en.fle(a, b), b, a)
        small = lambda a, b: z3.If(en.fle(a, b), a, b)
        def rel(k, L):
            I = itf(idx[k]); on = I.f["enable_limits"]; mn, mx = I.f["min"], I.f["max"]; ok = parsed(I)
            R = []
            if k == "position":
                had = o["has_position_limits"]; lo0, hi0 = z3.If(had, o["min_position"], en.fneg(DMAX)), z3.If(had, o["max_position"], DMAX)
                lo, hi, on_ = L["min_position"], L["max_position"], L["has_position_limits"]
                R.append(("position-on", z3.Implies(on, on_ == Or(had, ok)))); R.append(("position-off", z3.Implies(Not(on), And(Not(on_), en.feq(lo, en.fneg(DMAX)), en.feq(hi, DMAX)))))
                R.append(("position-never-looser", z3.Implies(on, And(en.fle(lo0, lo), en.fle(hi, hi0)))))
                R.append(("position-lower-is-intersection", z3.Implies(on, en.feq(lo, z3.If(And(ok, Not(emp(mn))), big(lo0, val(mn)), lo0)))))
                R.append(("position-upper-is-intersection", z3.Implies(on, en.feq(hi, z3.If(And(ok, Not(emp(mx))), small(hi0, val(mx)), hi0)))))
            elif k in ("velocity", "effort"):
                had = o[f"has_{k}_limits"]; m0 = z3.If(had, o["max_" + k], DMAX); m, on_ = L["max_" + k], L[f"has_{k}_limits"]
                w = z3.If(And(ok, Not(emp(mn))), small(m0, en.fabs(val(mn))), m0); w = z3.If(And(ok, Not(emp(mx))), small(w, en.fabs(val(mx))), w)
                R.append((k + "-on", z3.Implies(on, on_ == Or(had, ok)))); R.append((k + "-off", z3.Implies(Not(on), Not(on_))))
                R.append((k + "-never-looser", z3.Implies(on, And(en.fle(zero, m), en.fle(m, m0)))))
                R.append((k + "-is-least-magnitude", z3.Implies(on, en.feq(m, w))))
            elif k == "acceleration":
                a, d = L["max_acceleration"], L["max_deceleration"]; hm, hx = And(ok, Not(emp(mn))), And(ok, Not(emp(mx)))
                R.append(("acceleration-flag", L["has_acceleration_limits"] == And(hx, on))); R.append(("deceleration-flag", L["has_deceleration_limits"] == And(hm, on)))
                R.append(("acceleration-magnitude", z3.Implies(L["has_acceleration_limits"], en.feq(a, en.fabs(val(mx)))))); R.append(("deceleration-magnitude", z3.Implies(L["has_deceleration_limits"], en.feq(d, en.fabs(val(mn))))))
                R.append(("acceleration-text-ignored", z3.Implies(Not(ok), And(a == o["max_acceleration"], d == o["max_deceleration"]))))
            else:
                g = And(ok, Not(emp(mx)))
                R.append(("jerk-flag", L["has_jerk_limits"] == And(g, on))); R.append(("jerk-magnitude", L["max_jerk"] == z3.If(g, en.fabs(val(mx)), o["max_jerk"])))
            return R
        def inv(x, it):
            L = en.read(x, lref.lv).f; out = []
            for k, (_, fs) in self.KINDS.items():
                met = And(idx[k] >= 0, idx[k] < it)
                for n, g in rel(k, L): out.append((n, z3.Implies(met, g)))
                out.append((k + "-untouched-before", z3.Implies(Not(met), And(*[L[f] == o[f] for f in fs]))))
            out.append(("wraparound-untouched", L["angle_wraparound"] == o["angle_wraparound"]))
            return out
        en.loop_invs.append(lambda e, s, stmt, frame, n: inv if n is not None and z3.is_expr(n) and n.eq(V.len) else None)
        pre = st.clone()
        en.call_fn(fn, st, args=[jref, lref])
        L = en.read(st, lref.lv).f; on = J0.f["enable_limits"]
        for k, (_, fs) in self.KINDS.items():
            met = And(on, idx[k] >= 0)
            for n, g in rel(k, L): t.require(P, n, en, st, z3.Implies(met, g))
            t.require(P, k + "-untouched", en, st, z3.Implies(And(on, idx[k] < 0), And(*[L[f] == o[f] for f in fs])))
        t.require(P, "wraparound-untouched", en, st, L["angle_wraparound"] == o["angle_wraparound"])
        t.require(P, "joint-level-off", en, st, z3.Implies(Not(on), And(*[Not(L[f"has_{k}_limits"]) for k in ("position", "velocity", "acceleration", "deceleration", "jerk", "effort")], *[en.fle(DMAX, L["max_" + k]) for k in ("position", "velocity", "acceleration", "deceleration", "jerk", "effort")], en.fle(L["min_position"], en.fneg(DMAX)))))
        for s, x in en.throw_sinks[0]: t.require(P, "no-throw", en, s, z3.BoolVal(False))
        J1 = en.read(st, jref.lv)
        t.safety(P, en); t.cover(P, "entry", en, pre, on); t.cover(P, "return", en, st, on)
IFLIM = InterfaceLimits()
