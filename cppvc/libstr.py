"""library contracts on text: string iterators, std::from_chars, std::stol/stoul, std::regex (strings as z3 sequences)"""
import z3
from values import *
import engine as E, lib
from lib import model, method, MODELS, METHODS, slen, code_at

def text(en, st, it): return en.read(st, it.lv)
def is_str(v): return isinstance(v, Iter) and v.kind == "str"
@method("str", "begin", "cbegin")
def _(c): return Iter("str", c.obj, z3.IntVal(0))
@method("str", "end", "cend")
def _(c): return Iter("str", c.obj, slen(c.en, c.objval()))
_data = METHODS["str", "data"]
@method("str", "data")
def _(c): return Iter("str", c.obj, z3.IntVal(0)) if c.en.strmode == "seq" else _data(c)

def between(en, st, a, b):
    s = text(en, st, a); return z3.SubString(s, a.pos, b.pos - a.pos)
def uf(name, *sorts): return z3.Function(name, *sorts)

# ---- std::from_chars on reals: a maximal prefix is parsed; the result is stored only on success
@model("std::from_chars")
def _(c):
    en = c.en; a, b = c.val(0), c.val(1)
    if not (is_str(a) and is_str(b)): raise Unsupported("from_chars over " + str(type(a)))
    s = text(en, c.st, a)
    en.oblige("from_chars:range", c.st, And(0 <= a.pos, a.pos <= b.pos, b.pos <= z3.Length(s)), "safety")
    if c.n > 3 and not defaulted(c, 3): raise Unsupported("from_chars with a format")
    k = en.p.kind(c.t(2)); t = between(en, c.st, a, b)
    if k[0] not in ("double", "float"): raise Unsupported("from_chars of " + k[0])
    n, fit, val = parsed_real(en, t, k[0])
    l = c.lv(2); old = en.read(c.st, l)
    en.write(c.st, l, z3.If(And(n > 0, fit), val, old))
    return Rec("std::from_chars_result", {"ptr": Iter("str", a.lv, z3.simplify(a.pos + n)), "ec": z3.If(n == 0, z3.IntVal(22), z3.If(fit, z3.IntVal(0), z3.IntVal(34)))})
def parsed_real(en, t, k):
    """length of the longest prefix of t that is a real number, whether it is representable, and its value"""
    S = z3.StringSort(); tag = "" if k == "double" else "32"; srt = E.F64 if k == "double" else E.F32
    n, fit, val = uf("real_len" + tag, S, z3.IntSort())(t), uf("real_fits" + tag, S, z3.BoolSort())(t), uf("real_value" + tag, S, srt)(t)
    en.fact(And(n >= 0, n <= z3.Length(t)))
    return n, fit, val
# ---- std::stol, std::stoul
def parsed_int(en, s, base):
    """(parses, length of the parsed prefix, its mathematical value)"""
    S = z3.StringSort()
    ok, n, v = uf(f"int_ok{base}", S, z3.BoolSort())(s), uf(f"int_len{base}", S, z3.IntSort())(s), uf(f"int_value{base}", S, z3.IntSort())(s)
    en.fact(z3.Implies(ok, And(n >= 1, n <= z3.Length(s))))
    # grammar of a complete integer: white space, at most one sign, digits
    whole = And(ok, n == z3.Length(s)); m = z3.Contains(s, z3.StringVal("-"))
    en.fact(z3.Implies(And(whole, v < 0), m)); en.fact(z3.Implies(And(whole, m), v <= 0))
    return ok, n, v
def sto(c, bits, signed):
    en = c.en; s = c.val(0); base = 10
    if en.strmode != "seq": raise Unsupported(c.name)
    if c.n > 2:
        b = c.val(2)
        if not z3.is_int_value(b): raise Unsupported("base")
        base = b.as_long()
    ok, n, v = parsed_int(en, s, base)
    en.throw(c.st, Not(ok), E.Exc("std::invalid_argument"))
    if c.st.dead: return z3.IntVal(0)
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (-((1 << bits) - 1), (1 << bits) - 1)
    en.throw(c.st, Not(And(v >= lo, v <= hi)), E.Exc("std::out_of_range"))
    if c.st.dead: return z3.IntVal(0)
    if c.n > 1:
        p = c.val(1)
        if isinstance(p, Ptr):
            for g, t in p.alts:
                if t is None: continue
                if g is not True and not z3.is_true(g): raise Unsupported("guarded out pointer")
                en.write(c.st, t[1], n)
    return v if signed else z3.If(v < 0, v + (1 << bits), v)
for _n, _b, _s in (("stol", 64, True), ("stoll", 64, True), ("stoi", 32, True), ("stoul", 64, False), ("stoull", 64, False)):
    MODELS["std::" + _n] = (lambda b, s: lambda c: sto(c, b, s))(_b, _s)
# ---- std::transform in place over a string
_transform = MODELS["std::transform"]
@model("std::transform")
def _(c):
    en = c.en
    a, b, o = c.val(0), c.val(1), c.val(2)
    if not is_str(a): return _transform(c)
    if not (is_str(o) and lib.same_root(a.lv, o.lv) and z3.is_int_value(a.pos) and a.pos.as_long() == 0 and z3.is_int_value(o.pos) and o.pos.as_long() == 0): raise Unsupported("transform of a part of a string")
    s = text(en, c.st, a)
    if not z3.simplify(b.pos == z3.Length(s)).eq(z3.BoolVal(True)): raise Unsupported("transform of a part of a string")
    f = c.val(3); x = z3.Const(f"ch!{en.nfresh}", z3.IntSort()); en.nfresh += 1
    y = en.apply_fn(f, [x], c.st)
    if isinstance(y, Ref): y = en.read(c.st, y.lv)
    r = en.fresh("transformed", en.SS); en.fact(z3.Length(r) == z3.Length(s))
    # the contract at the first positions (every instance of "for each position")
    for i in range(8):
        ci, ri = code_at(en, s, z3.IntVal(i)), code_at(en, r, z3.IntVal(i))
        en.fact(z3.Implies(i < z3.Length(s), And(0 <= ci, ci < 256, ri == z3.substitute(y, (x, ci)))))
    en.write(c.st, a.lv, r); return Iter("str", a.lv, b.pos)
@model("std::tolower", "tolower", "std::toupper", "toupper")
def _(c):
    v = c.val(0); lo = c.name == "tolower"
    return z3.If(And(v >= 65, v <= 90), v + 32, v) if lo else z3.If(And(v >= 97, v <= 122), v - 32, v)
# ---- std::regex (ECMAScript): patterns are translated into regular languages
class Re_(Exception): pass
def parse_re(p):
    """the language of a pattern (anchors at the ends only; classes, groups, alternatives, * + ?)"""
    i = [0]; S = lambda x: z3.Re(z3.StringVal(x)); anyc = z3.Union(z3.Range(chr(0), chr(255)), z3.Range(chr(0), chr(0))) if False else z3.Range("\\u{0}", "\\u{ff}")
    sp = z3.Union(*[S(ch) for ch in " \t\n\r\v\f"]); dig = z3.Range("0", "9")
    word = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), dig, S("_"))
    comp = lambda r: z3.Intersect(anyc, z3.Complement(r))
    esc = {"s": sp, "d": dig, "w": word, "S": comp(sp), "D": comp(dig), "W": comp(word), "n": S("\n"), "t": S("\t"), "r": S("\r")}
    def peek(): return p[i[0]] if i[0] < len(p) else ""
    def alt():
        xs = [seq()]
        while peek() == "|": i[0] += 1; xs.append(seq())
        return xs[0] if len(xs) == 1 else z3.Union(*xs)
    def seq():
        xs = []
        while peek() and peek() not in "|)":
            ch = peek()
            if ch == "^":
                if i[0] != 0: raise Unsupported("regex anchor")
                i[0] += 1; continue
            if ch == "$":
                if i[0] != len(p) - 1: raise Unsupported("regex anchor")
                i[0] += 1; continue
            a = atom()
            while peek() and peek() in "*+?{":
                if peek() == "{": raise Unsupported("regex repetition")
                q = peek(); i[0] += 1
                a = {"*": z3.Star, "+": z3.Plus, "?": z3.Option}[q](a)
            xs.append(a)
        return S("") if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)
    def atom():
        ch = peek(); i[0] += 1
        if ch == "(":
            if p[i[0]:i[0] + 2] == "?:": i[0] += 2
            elif peek() == "?": raise Unsupported("regex lookahead")
            r = alt()
            if peek() != ")": raise Unsupported("regex group")
            i[0] += 1; return r
        if ch == "[":
            neg = peek() == "^"
            if neg: i[0] += 1
            xs = []
            while peek() != "]":
                c1 = peek(); i[0] += 1
                if c1 == "\\":
                    e = peek(); i[0] += 1; xs.append(esc.get(e) if e in esc else S(e)); continue
                if peek() == "-" and p[i[0] + 1] != "]":
                    i[0] += 1; c2 = peek(); i[0] += 1; xs.append(z3.Range(c1, c2)); continue
                xs.append(S(c1))
            i[0] += 1; r = xs[0] if len(xs) == 1 else z3.Union(*xs)
            return comp(r) if neg else r
        if ch == "\\":
            e = peek(); i[0] += 1; return esc.get(e) if e in esc else S(e)
        if ch == ".": return comp(z3.Union(S("\n"), S("\r")))
        if ch in "*+?{": raise Unsupported("regex")
        return S(ch)
    r = alt()
    if i[0] != len(p): raise Unsupported("regex syntax")
    return r
_same = {}
def same_language(a, b):
    """decided by the solver: no word tells the two languages apart"""
    k = (a.sexpr(), b.sexpr())
    if k not in _same:
        x = z3.String("x"); s = z3.Solver(); s.set("timeout", 10000); s.add(z3.InRe(x, a) != z3.InRe(x, b)); _same[k] = s.check() == z3.unsat
    return _same[k]
@lib.ctor("regex")
def _(c, k):
    v = c.val(0) if c.n else None
    if v is None or not z3.is_string_value(v): raise Unsupported("regex text")
    if c.n > 1 and not defaulted(c, 1): raise Unsupported("regex flags")
    return Regex(v.as_string())
class Regex(Opaque):
    __slots__ = ("pattern",)
    def __init__(self, p):
        self.pattern = p; self.name = "regex"
@model("std::regex_match")
def _(c):
    s = c.val(0); r = c.val(1)
    if not isinstance(r, Regex) or (c.n > 2 and not defaulted(c, 2)): raise Unsupported("regex_match")
    return z3.InRe(s, parse_re(r.pattern))
def defaulted(c, i):
    e = c.argx[i] if i < len(c.argx) else None
    while e is not None and e.get("k") in ("ImplicitCastExpr", "CXXConstructExpr", "MaterializeTemporaryExpr") and (e.get("sub") is not None or len(e.get("c", [])) == 1): e = e.get("sub") or e["c"][0]
    return e is not None and e.get("name", "").split("::")[-1] in ("ECMAScript", "general", "match_default")
TOKENS = []          # (language, tag): languages whose successive matches were asked for
def tokens(en, s, lang):
    """the successive matches of a language in a text, in order"""
    for l, t in TOKENS:
        if same_language(l, lang): break
    else:
        t = len(TOKENS); TOKENS.append((lang, t)); l = lang
    S = z3.StringSort(); n = uf(f"matches{t}", S, z3.IntSort())(s); arr = uf(f"match{t}", S, z3.ArraySort(z3.IntSort(), S))(s); i = z3.Int("i")
    full = z3.Full(z3.ReSort(S))
    en.fact(n >= 0); en.fact((n == 0) == Not(z3.InRe(s, z3.Concat(full, l, full))))
    return Vec(n, arr)
@lib.ctor("regex_iter")
def _(c, k):
    if c.n == 0: return Iter("tok", None, z3.IntVal(-1))
    a, b, r = c.val(0), c.val(1), c.val(2)
    if not (is_str(a) and is_str(b) and isinstance(r, Regex)): raise Unsupported("regex iterator")
    s = text(c.en, c.st, a)
    if not (z3.is_int_value(a.pos) and a.pos.as_long() == 0 and z3.simplify(b.pos == z3.Length(s)).eq(z3.BoolVal(True))): raise Unsupported("regex iterator over a part")
    lv = c.en.new_root(c.st, tokens(c.en, s, parse_re(r.pattern)), "tokens")
    return Iter("tok", lv, z3.IntVal(0))

# ---- further members of std::string on sequences
@method("str", "replace")
def _(c):
    en = c.en; s = c.objval()
    if en.strmode != "seq" or c.n != 3: raise Unsupported("string replace")
    a, n, x = c.val(0), c.val(1), c.val(2)
    if isinstance(a, Iter): raise Unsupported("string replace by iterators")
    L = z3.Length(s); en.throw(c.st, a > L, E.Exc("std::out_of_range"))
    if c.st.dead: return Ref(c.obj)
    w = z3.If(n > L - a, L - a, n)
    en.write(c.st, c.obj, z3.Concat(z3.SubString(s, 0, a), x, z3.SubString(s, a + w, L - a - w))); return Ref(c.obj)
@method("str", "insert")
def _(c):
    en = c.en; s = c.objval()
    if en.strmode != "seq": raise Unsupported("string insert")
    a = c.val(0)
    if isinstance(a, Iter) or c.n not in (2, 3): raise Unsupported("string insert")
    x = c.val(1)
    if c.n == 3:
        if not (z3.is_int_value(x) and x.as_long() == 1): raise Unsupported("string insert count")
        x = lib.chstr(en, c.val(2))
    L = z3.Length(s); en.throw(c.st, a > L, E.Exc("std::out_of_range"))
    if c.st.dead: return Ref(c.obj)
    en.write(c.st, c.obj, z3.Concat(z3.SubString(s, 0, a), x, z3.SubString(s, a, L - a))); return Ref(c.obj)
@method("str", "pop_back")
def _(c):
    en = c.en; s = c.objval()
    if en.strmode != "seq": raise Unsupported("string pop_back")
    en.oblige("string-nonempty", c.st, z3.Length(s) > 0, "safety"); en.write(c.st, c.obj, z3.SubString(s, 0, z3.Length(s) - 1))
def charset(x):
    if not z3.is_string_value(x): raise Unsupported("set of characters")
    return sorted({chr(b) for b in x.as_string().encode().decode("unicode_escape").encode("latin1")} if "\\" in x.as_string() else set(x.as_string()))
def outside(en, s, x, last):
    """position of the first (last) character of s that is not in the set x, or npos: determined by the text and the set"""
    cs = charset(x); tag = "_".join(str(ord(ch)) for ch in cs)
    r = z3.Function(("last" if last else "first") + "_not_of_" + tag, z3.StringSort(), z3.IntSort())(s)
    C = z3.Star(z3.Union(*[z3.Re(z3.StringVal(ch)) for ch in cs]) if len(cs) > 1 else z3.Re(z3.StringVal(cs[0])))
    L = z3.Length(s); member = lambda i: Or(*[z3.StrToCode(z3.SubString(s, i, 1)) == ord(ch) for ch in cs])
    rest = z3.SubString(s, r + 1, L - r - 1) if last else z3.SubString(s, 0, r)
    en.fact(z3.If(z3.InRe(s, C), r == lib.NPOS, And(r >= 0, r < L, Not(member(r)), z3.InRe(rest, C))))
    # there is no such character before the first or after the last one
    f, l = (z3.Function(w + "_not_of_" + tag, z3.StringSort(), z3.IntSort())(s) for w in ("first", "last"))
    en.fact(z3.If(z3.InRe(s, C), And(f == lib.NPOS, l == lib.NPOS), And(f >= 0, f <= l, l < L)))
    return r, C, member
_find = METHODS["str", "find_first_not_of"]
@method("str", "find_first_not_of", "find_last_not_of")
def _(c):
    if c.en.strmode != "seq" or c.n > 1 and not (c.name == "find_first_not_of" and z3.is_int_value(c.val(1)) and c.val(1).as_long() == 0 or c.name == "find_last_not_of" and z3.is_int_value(c.val(1)) and c.val(1).as_long() == lib.NPOS): return _find(c)
    x = c.val(0)
    if z3.is_int(x): x = lib.chstr(c.en, x)
    return outside(c.en, c.objval(), x, c.name == "find_last_not_of")[0]
