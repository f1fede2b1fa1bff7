"""contracts on the text conversions (L01 scalars, L02 booleans and arrays); std::string is a sequence of bytes"""
import z3
import spec, engine as E, libstr
from values import *
N = "hardware_interface::"
ROOTS = ["verif::uses", N + "stod", N + "stof", N + "parse_bool", N + "parse_string_array"]
UNIT = "lexical_casts.cpp"
S = z3.StringSort()
text = lambda en: z3.Const("text", S)
def start(t, prog, f):
    en = t.engine(prog, strmode="seq"); st = E.State(); s = text(en)
    st.assume(z3.Length(s) < 1 << 62)
    for i in range(2): st.assume(z3.Implies(z3.Length(s) > i, And(z3.StrToCode(s.at(i)) >= 0, z3.StrToCode(s.at(i)) < 256)))
    return en, st, s
def run(t, P, en, st, f, s, nm, exc, bad=None):
    """calls f(s); every exit by exception is one of exc and only when bad"""
    pre = st.clone()
    R = en.call_fn(f, st, args=[Ref(en.new_root(st, s, "text"))])
    if isinstance(R, Ref): R = en.read(st, R.lv)
    for x, e in en.throw_sinks[0]:
        t.require(P, nm + ":throws-a-declared-exception", en, x, z3.BoolVal(e.typ in exc))
        if bad is not None: t.require(P, nm + ":throws-only-if", en, x, bad)
    if bad is not None: t.require(P, nm + ":throws-if", en, st, Not(bad))
    t.safety(P, en); t.cover(P, nm + ":entry", en, pre); t.cover(P, nm + ":return", en, st)
    return R
class Integers:
    name = "integers"; function = N + "stoi8/16/32, stoui8/16/32, stoi_generic, stoui_generic"; unit = UNIT; roots = ROOTS
    def build(self, prog, t):
        P = {"L01"}
        for u in (False, True):
            for bits in (8, 16, 32):
                nm = f"sto{'u' if u else ''}i{bits}"; f = prog.find(N + nm); en, st, s = start(t, prog, f)
                ok, n, v = libstr.parsed_int(en, s, 10)
                lo, hi = (0, (1 << bits) - 1) if u else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
                bad = Not(And(ok, n == z3.Length(s), v >= lo, v <= hi))
                R = run(t, P, en, st, f, s, nm, ("std::invalid_argument", "std::out_of_range"), bad)
                t.require(P, nm + ":value", en, st, R == v)
def real_text(en, s, k):
    """(s is a real number, its value)"""
    plus = z3.StrToCode(s.at(0)) == 43
    a = s; b = z3.SubString(s, 1, z3.Length(s) - 1)
    def whole(x):
        n, fit, v = libstr.parsed_real(en, x, k)
        return And(z3.Length(x) > 0, n == z3.Length(x), fit, en.is_fin(v if k == "double" else z3.fpFPToFP(E.RNE, v, E.F64))), v
    wa, va = whole(a); wb, vb = whole(b)
    return z3.If(And(z3.Length(s) > 0, plus), And(wb, z3.StrToCode(s.at(1)) != 45), wa), z3.If(plus, vb, va)
class Reals:
    name = "reals"; function = N + "stod, stof, impl::parse_floating_point_with_from_chars"; unit = UNIT; roots = ROOTS
    def build(self, prog, t):
        P = {"L01"}
        for k, nm in (("double", "stod"), ("float", "stof")):
            f = prog.find(N + nm); en, st, s = start(t, prog, f)
            # the same text, however it was cut out
            en.fact(z3.SubString(s, 0, z3.Length(s)) == s)
            for x in (s,): en.fact(z3.Implies(z3.StrToCode(x.at(0)) == 43, libstr.parsed_real(en, x, k)[0] == 0))
            ok, v = real_text(en, s, k)
            R = run(t, P, en, st, f, s, nm, ("std::invalid_argument",), Not(ok))
            t.require(P, nm + ":value", en, st, R == v)
            t.require(P, nm + ":finite", en, st, And(Not(z3.fpIsNaN(R)), Not(z3.fpIsInf(R))))
# ---------------------------------------------------------------- booleans
def word(w):
    return z3.Concat(*[z3.Union(z3.Re(c), z3.Re(c.upper())) for c in w])
class ParseBool:
    q = N + "parse_bool"
    def handler(self):
        def h(en, st, c):
            s = c.val(0)
            if st.dead: return None
            en.throw(st, Not(z3.Function("is_boolean", S, z3.BoolSort())(s)), E.Exc("std::invalid_argument"))
            return z3.Function("boolean_value", S, z3.BoolSort())(s)
        return h
class Stod:
    q = N + "stod"
    def handler(self):
        def h(en, st, c):
            s = c.val(0)
            if st.dead: return None
            v = z3.Function("number_value", S, E.F64)(s)
            en.throw(st, Not(z3.Function("is_number", S, z3.BoolSort())(s)), E.Exc("std::invalid_argument"))
            en.fact(z3.Implies(z3.Function("is_number", S, z3.BoolSort())(s), And(Not(z3.fpIsNaN(v)), Not(z3.fpIsInf(v)))))
            return v
        return h
class Booleans:
    name = "booleans"; function = N + "parse_bool, to_lower_case"; unit = UNIT; roots = ROOTS
    def build(self, prog, t):
        P = {"L02"}; f = prog.find(N + "parse_bool"); en, st, s = start(t, prog, f)
        for i in range(2, 8): st.assume(z3.Implies(z3.Length(s) > i, And(z3.StrToCode(s.at(i)) >= 0, z3.StrToCode(s.at(i)) < 256)))
        def is_word(w):
            return And(z3.Length(s) == len(w), *[Or(z3.StrToCode(s.at(i)) == ord(c), z3.StrToCode(s.at(i)) == ord(c.upper())) for i, c in enumerate(w)])
        yes, no = is_word("true"), is_word("false")
        R = run(t, P, en, st, f, s, "parse_bool", ("std::invalid_argument",), Not(Or(yes, no)))
        t.require(P, "parse_bool:value", en, st, R == yes)
# ---------------------------------------------------------------- arrays
WS = z3.Star(z3.Union(*[z3.Re(z3.StringVal(c)) for c in " \t\n\r\v\f"]))
TOKEN = libstr.parse_re(r"[^\s,\[\]]+")
ARRAY = z3.Concat(z3.Re("["), WS, z3.Option(z3.Concat(TOKEN, z3.Star(z3.Concat(WS, z3.Re(","), WS, TOKEN)), WS)), z3.Re("]"))
class Arrays:
    name = "arrays"; function = N + "parse_array<int|float|double|bool|std::string>, parse_string_array"; unit = UNIT; roots = ROOTS
    def build(self, prog, t):
        P = {"L02"}; seen = set()
        fs = prog.find(N + "parse_array"); fs = (fs if isinstance(fs, list) else [fs]) + [prog.find(N + "parse_string_array")]
        for f in fs:
            k = prog.kind(prog.kind(f["ret"])[1]); nm = "parse_array<" + ("string" if k[0] == "str" else k[0]) + ">"
            if f["name"] == "parse_string_array": nm = "parse_string_array"
            seen.add(k[0])
            en, st, s = start(t, prog, f)
            for c in (Stod(), ParseBool()): en.contracts[c.q] = c.handler()
            en.regexes = []
            toks = libstr.tokens(en, s, TOKEN); n = toks.len; i = z3.Int("i"); tok = lambda i: z3.Select(toks.elem, i)
            num = lambda x: z3.Function("number_value", S, E.F64)(x); isnum = lambda x: z3.Function("is_number", S, z3.BoolSort())(x)
            if k[0] == "str": conv, val = (lambda x: z3.BoolVal(True)), (lambda x, r: r == x)
            elif k[0] == "bool": conv, val = (lambda x: z3.Function("is_boolean", S, z3.BoolSort())(x)), (lambda x, r: r == z3.Function("boolean_value", S, z3.BoolSort())(x))
            elif k[0] == "double": conv, val = isnum, (lambda x, r: r == num(x))
            elif k[0] == "float":
                mx = en.dval(3.4028234663852886e38)
                conv, val = (lambda x: And(isnum(x), en.fle(z3.fpAbs(num(x)), mx))), (lambda x, r: r == z3.fpFPToFP(E.RNE, num(x), E.F32))
            else:
                b, sg = k[1], k[2]; lo, hi = (en.dval(-2.0 ** (b - 1)), en.dval(2.0 ** (b - 1))) if sg else (en.dval(0.0), en.dval(2.0 ** b))
                tr = lambda x: z3.Function("math_trunc", E.F64, E.F64)(x)
                conv = lambda x: And(isnum(x), en.feq(tr(num(x)), num(x)), en.fle(lo, num(x)), en.flt(num(x), hi))
                val = lambda x, r: r == z3.Function("d2i", E.F64, z3.IntSort())(num(x))
            pre = st.clone()
            R = en.call_fn(f, st, args=[Ref(en.new_root(st, s, "text"))])
            if isinstance(R, Ref): R = en.read(st, R.lv)
            array = z3.InRe(s, ARRAY)
            # the languages the code tests, as relations between predicates
            for x, e in en.throw_sinks[0]:
                t.require(P, nm + ":throws-invalid_argument", en, x, z3.BoolVal(e.typ == "std::invalid_argument"))
                t.require(P, nm + ":throws-only-if-not-an-array-of-convertible-values", en, x, Or(Not(array), Exists_(i, And(0 <= i, i < n), Not(conv(tok(i))), tok(i))))
            t.require(P, nm + ":accepts-only-arrays", en, st, array)
            t.require(P, nm + ":one-value-per-element", en, st, R.len == n)
            t.require(P, nm + ":every-element-convertible", en, st, z3.ForAll([i], z3.Implies(And(0 <= i, i < n), conv(tok(i))), patterns=[tok(i)]))
            t.require(P, nm + ":value-of-each-element-in-order", en, st, z3.ForAll([i], z3.Implies(And(0 <= i, i < n), val(tok(i), z3.Select(R.elem, i)))))
            t.safety(P, en); t.cover(P, nm + ":entry", en, pre); t.cover(P, nm + ":return", en, st)
        if not seen >= {"int", "double", "float", "bool", "str"}: raise Unsupported("parse_array instances: " + ", ".join(sorted(seen)))
def Exists_(i, rng, p, pat): return z3.Exists([i], And(rng, p))
INTS, REALS, BOOLS, ARRAYS = Integers(), Reals(), Booleans(), Arrays()
