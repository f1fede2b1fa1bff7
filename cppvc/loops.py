"""Loop summaries.

A loop is described exactly by the recurrence of every location its body changes:
    h(0) = value before the loop,   h(j+1) = value after one iteration started from h(j).
The recurrences are solved where they have a closed form (constant, counter, first/last assignment,
array fill, last write, conditional append); the solutions are added as universally quantified facts
and the body is executed a second time, now with those facts, to generate its obligations for an
arbitrary iteration.  Extra inductive invariants can be supplied by a contract; their base case and
step are then obligations of their own.
"""
import z3
from values import *

MAX_UNROLL = 12

def subst_value(v, subs):
    if is_leaf(v): return z3.substitute(v, *subs)
    if isinstance(v, Rec): return Rec(v.name, {k: subst_value(x, subs) for k, x in v.f.items()})
    if isinstance(v, Opt): return Opt(z3.substitute(v.has, *subs), subst_value(v.val, subs))
    if isinstance(v, Vec): return Vec(z3.substitute(v.len, *subs), subst_value(v.elem, subs))
    if isinstance(v, Map): return Map(z3.substitute(v.dom, *subs), None if v.val is None else subst_value(v.val, subs))
    if isinstance(v, Iter): return Iter(v.kind, subst_lv(v.lv, subs), z3.substitute(v.pos, *subs), None if v.end is None else z3.substitute(v.end, *subs))
    if isinstance(v, Ref): return Ref(subst_lv(v.lv, subs))
    if isinstance(v, Ptr): return Ptr([(sub_b(g, subs), None if t is None else ("lv", subst_lv(t[1], subs)) if t[0] == "lv" else ("id", t[1], z3.substitute(t[2], *subs))) for g, t in v.alts])
    return v
def sub_b(g, subs): return g if isinstance(g, bool) else z3.substitute(g, *subs)
def subst_lv(lv, subs):
    if lv is None: return None
    return LV([(sub_b(g, subs), r, tuple((el[0], z3.substitute(el[1], *subs)) if len(el) > 1 and is_leaf(el[1]) else el for el in p)) for g, r, p in lv.alts])

def occurs(t, x):
    """does const x (by id) occur in t"""
    seen, stack, xi = set(), [t], x.get_id()
    while stack:
        a = stack.pop(); i = a.get_id()
        if i == xi: return True
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(a): stack.append(a.body())
        else: stack.extend(a.children())
    return False

def leaf_updates(v, old):
    """rewrite array term v as a guarded sequence of stores over `old`: list of (cond, idx, val) or None"""
    if v.eq(old): return []
    if z3.is_store(v):
        r = leaf_updates(v.arg(0), old)
        return None if r is None else r + [(z3.BoolVal(True), v.arg(1), v.arg(2))]
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = leaf_updates(v.arg(1), old), leaf_updates(v.arg(2), old)
        if a is None or b is None: return None
        c = v.arg(0)
        return [(And(c, g), i, x) for g, i, x in a] + [(And(Not(c), g), i, x) for g, i, x in b]
    return None

def value_updates(v, old):
    """v as guarded overwrite of old: list of (cond, val)"""
    if v.eq(old): return []
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = value_updates(v.arg(1), old), value_updates(v.arg(2), old)
        c = v.arg(0)
        return [(And(c, g), x) for g, x in a] + [(And(Not(c), g), x) for g, x in b]
    return [(z3.BoolVal(True), v)]

def run_loop(en, st, pre, body, inc, n, s):
    fr = en.frames[-1]; en.at_range, en.loop_range = en.loop_range, None   # what a range loop runs over
    for h in en.loop_invs:
        inv = h(en, st, s, fr, n)
        if inv is not None and en.at_range is not None and len(en.at_range) == 3:
            N, inv0 = en.at_range[1].len, inv
            def inv(x, it):
                yield "within-the-list", it <= N
                yield from inv0(x, it)
        if inv is not None: return invariant_rule(en, st, pre, body, inc, n, s, inv)
    base = len(st.pc)
    outs = []
    # ---- 1. iterations whose condition is decided are executed one by one
    cur = st
    cnt = 0
    offset = 0
    while cnt <= MAX_UNROLL:
        probe = cur.clone()
        en.no_obl += 1
        nf = len(en.facts); fpt = dict(en.fp_terms)
        sinks = en.throw_sinks; en.throw_sinks = [[] for _ in sinks]
        try: c = z3.simplify(pre(probe, z3.IntVal(cnt)))
        finally: en.no_obl -= 1; del en.facts[nf:]; en.fp_terms = fpt; en.throw_sinks = sinks
        if probe.dead or not (z3.is_true(c) or z3.is_false(c)): break
        if cnt == MAX_UNROLL: break
        c = pre(cur, z3.IntVal(cnt))
        if z3.is_false(z3.simplify(c)):
            outs.append((cur.clone(), None)); cur.dead = True; break
        ctl = {"breaks": [], "continues": []}; fr.loops.append(ctl)
        body(cur); fr.loops.pop()
        outs += [(b, None) for b in ctl["breaks"]]
        alts = [(x, None) for x in ctl["continues"]] + ([] if cur.dead else [(cur.clone(), None)])
        ns, _ = en.merge_states(base, alts)
        if ns is None: cur.dead = True; break
        inc(ns); cur.become(ns); cnt += 1
        if cur.dead: break
    if not cur.dead:
        if cnt: 
            pre0 = pre; k0 = cnt
            pre = lambda x, it: pre0(x, z3.simplify(it + k0))
            if n is not None: n = z3.simplify(n - k0)
        x = cur.clone()
        outs += summarise(en, x, pre, body, inc, n, s)
    ns, _ = en.merge_states(base, outs)
    if ns is None: st.dead = True
    else: st.become(ns)

def one_iteration(en, x, pre, body, inc, it):
    """returns (cond, notcond_state, end_state|None, breaks, returns, throws)"""
    fr = en.frames[-1]
    base = len(x.pc)
    nret = len(fr.returns)
    en.throw_sinks.append([])
    ctl = {"breaks": [], "continues": []}; fr.loops.append(ctl)
    try:
        c = pre(x, it)
        done = x.clone()
        if not x.dead:
            done.assume(Not(c)); x.assume(c)
            if not x.dead: body(x)
        fr.loops.pop()
        alts = [(y, None) for y in ctl["continues"]] + ([] if x.dead else [(x.clone(), None)])
        ns, _ = en.merge_states(base, alts)
        if ns is not None:
            inc(ns)
            if ns.dead: ns = None
    finally:
        thrown = en.throw_sinks.pop()
        if fr.loops and fr.loops[-1] is ctl: fr.loops.pop()
    rets = fr.returns[nret:]; del fr.returns[nret:]
    return c, done, ns, ctl["breaks"], rets, thrown

def invariant_rule(en, st, pre, body, inc, n, s, inv):
    """the textbook rule: inv holds on entry, one arbitrary iteration preserves it, it is all that is known afterwards.
    inv(x, it) -> [(name, formula)] over the state x before iteration number it"""
    fr = en.frames[-1]; where = en.cur_line; base = len(st.pc)
    it = en.fresh("iteration", z3.IntSort())
    mod = {}; H = {}
    for rnd in range(10):
        x = st.clone()
        for r, ps in mod.items():
            def hv(p, t, r=r, ps=ps):
                if p not in ps: return t
                if (r, p) not in H: H[(r, p)] = en.fresh("loop_" + "_".join(map(str, p[-2:])), t.sort())
                return H[(r, p)]
            x.store[r] = en.leafmap(x.store[r], hv)
        start = x.clone()
        nf, fpt, nl = len(en.facts), dict(en.fp_terms), list(en.loop_log)
        x.pc.append(it >= 0)
        if n is not None: x.pc.append(it <= n)
        en.no_obl += 1
        try: c, done, end, brk, rets, thr = one_iteration(en, x, pre, body, inc, it)
        finally: en.no_obl -= 1
        del en.facts[nf:]; en.fp_terms = fpt; en.loop_log = nl
        new = False
        for z in ([end] if end is not None else []) + [done]:
            for r in z.store:
                if isinstance(r, str) and r.startswith("heap:") and r not in st.store: st.store[r] = en.heap_init[r]; new = True
        if end is not None:
            for r in list(st.store):
                if r not in start.store or end.store.get(r) is start.store[r]: continue
                d0, d1 = en.leafdict(start.store[r]), en.leafdict(end.store[r])
                if set(d0) != set(d1): raise Unsupported(f"loop changes the shape of {r} at {where}")
                for p in d0:
                    if not d0[p].eq(d1[p]) and p not in mod.setdefault(r, set()): mod[r].add(p); new = True
                check_nonleaf(start.store[r], end.store[r], where)
        if not new: break
    else: raise Unsupported("loop does not stabilise at " + str(where))
    en.loop_mod, en.loop_start = mod, st      # what the loop changes, for invariants over local variables
    for nm, f in inv(st, z3.IntVal(0)): en.oblige(nm + ":base", st, f, "invariant")
    x = st.clone()
    ends = {r: en.leafdict(end.store[r]) for r in mod} if end is not None else {}
    for r, ps in mod.items():
        ini = en.leafdict(st.store[r])
        def hv(p, t, r=r):
            if (r, p) not in H or p not in mod[r]: return t
            h = H[(r, p)]
            if z3.is_int(h) and r in ends:
                d = z3.simplify(ends[r][p] - h)
                if z3.is_int_value(d): return z3.simplify(ini[p] + d * it)     # counter
            if p and p[-1] == "#" and z3.is_int(h): en.fact(h >= 0)
            return h
        x.store[r] = en.leafmap(x.store[r], hv)
    x.pc.append(it >= 0)
    if n is not None: x.pc.append(it <= n)
    for nm, f in inv(x, it): x.pc.append(f)
    c, done, end, brk, rets, thr = one_iteration(en, x, pre, body, inc, it)
    en.loop_mod, en.loop_start = mod, st
    if end is not None:
        for nm, f in inv(end, it + 1): en.oblige(nm + ":step", end, f, "invariant")
    fr.returns += rets
    en.throw_sinks[-1] += thr
    en.loop_log.append(dict(where=where, rule="invariant", modified=len(H)))
    outs = [(done, None)] if not done.dead else []
    outs += [(b, None) for b in brk]
    ns, _ = en.merge_states(base, outs)
    if ns is None: st.dead = True
    else: st.become(ns)

def summarise(en, st, pre, body, inc, n, s):
    fr = en.frames[-1]
    where = en.cur_line
    base = len(st.pc)
    outer = list(en.ctx)
    en.nfresh += 1
    it = z3.Int(f"it!{en.nfresh}")
    K = en.fresh("exit_it", z3.IntSort())
    st.pc.append(z3.simplify(K >= 0)) if False else en.fact(K >= 0)
    # ---- pass 1: which leaves change
    mod = {}
    for rnd in range(8):
        for r in list(mod):
            if r not in st.store: st.store[r] = en.root_value(st, r)
        x = st.clone()
        en.ctx = outer + [it]
        H = {}
        for r, ps in mod.items():
            def hv(p, t, r=r, ps=ps):
                if p in ps:
                    if (r, p) not in H: H[(r, p)] = en.fresh("loop_" + "_".join(map(str, p[-2:])), t.sort())
                    return H[(r, p)]
                return t
            x.store[r] = en.leafmap(x.store[r], hv)
        start = x.clone()
        nf, fpt = len(en.facts), dict(en.fp_terms)
        en.no_obl += 1; nobl = len(en.obls)
        x.pc += [it >= 0, it <= K]
        try: c, done, end, brk, rets, thr = one_iteration(en, x, pre, body, inc, it)
        finally: en.no_obl -= 1; en.ctx = outer
        facts1 = en.facts[nf:]; del en.facts[nf:]; en.fp_terms = fpt
        new = False
        for z in ([end] if end is not None else []) + [done]:
            for r in z.store:
                if isinstance(r, str) and r.startswith("heap:") and r not in st.store: st.store[r] = en.heap_init[r]; new = True
        if end is not None:
            for r in st.store:
                if r not in start.store: continue
                if end.store.get(r) is start.store[r]: continue
                d0, d1 = en.leafdict(start.store[r]), en.leafdict(end.store[r])
                if set(d0) != set(d1):
                    # structural change of an opaque/pointer location
                    raise Unsupported(f"loop changes the shape of {r} at {where}")
                for p in d0:
                    if not d0[p].eq(d1[p]) and p not in mod.setdefault(r, set()):
                        mod[r].add(p); new = True
                check_nonleaf(start.store[r], end.store[r], where)
        if not new: break
    else: raise Unsupported("loop does not stabilise at " + str(where))
    mod = {r: ps for r, ps in mod.items() if ps}
    # ---- closed forms
    init = {k: en.leafdict(st.store[k[0]])[k[1]] for k in H}
    e = {}
    if end is not None:
        for k in H: e[k] = z3.simplify(en.leafdict(end.store[k[0]])[k[1]])
    hyps = facts1 + x.pc[base:]
    closed = {}
    if end is not None:
        solve(en, it, K, H, e, init, closed, end.pc[base:], facts1)
    subs_closed = [(H[k], v) for k, v in closed.items()]
    # trip count
    cc = z3.simplify(z3.substitute(c, *subs_closed)) if subs_closed else z3.simplify(c)
    N = n
    if N is None: N = trip_count(cc, it)
    simple = not brk and not rets and not thr and N is not None
    # ---- pass 2
    x = st.clone(); en.ctx = outer + [it]
    for r, ps in mod.items():
        x.store[r] = en.leafmap(x.store[r], lambda p, t, r=r: closed.get((r, p), H[(r, p)]) if (r, p) in H else t)
    nf = len(en.facts)
    x.pc += [it >= 0, it <= K]
    # invariants supplied by contracts
    invs = []
    for h in en.loop_hints:
        r = h(en, dict(line=where, stmt=s, it=it, start=x, init=st, frame=fr, K=K, H=H, closed=closed))
        if r: invs += r
    base2 = len(x.pc)
    fn_cont = None
    if end is not None:
        # all earlier iterations completed normally
        condj = z3.substitute(And(*end.pc[base:]), *subs_closed) if subs_closed else And(*end.pc[base:])
        j = z3.FreshConst(z3.IntSort(), "j")
        contj = z3.substitute(condj, (it, j))
        if not z3.is_true(contj):
            allprev = z3.ForAll([j], z3.Implies(And(j >= 0, j < it), contj))
            x.pc.append(allprev)
    else: x.pc.append(it == 0)
    for inv in invs: x.pc.append(inv["f"](x))
    start2 = x.clone()
    try: c2, done, end2, brk, rets, thr = one_iteration(en, x, pre, body, inc, it)
    finally: en.ctx = outer
    nb = len(facts_new := en.facts[nf:]); del en.facts[nf:]
    for inv in invs:
        # base case and step
        i0 = z3.substitute(inv["f"](start2), (it, z3.IntVal(0)))
        en.ctx = outer
        so = st.clone(); en.oblige(inv["name"] + ":base", so, subst_init(i0, H, init, it), "invariant")
        if end2 is not None:
            en.facts += facts_new
            en.oblige(inv["name"] + ":step", end2, inv["f"](end2), "invariant")
            del en.facts[nf:]
    # quantify what was learnt about one iteration over all iterations
    for f in facts_new:
        if occurs(f, it): en.fact(quant(it, K, f))
        else: en.fact(f)
    for k in H:
        if k in closed or k not in e: continue
        hj = H[k]
        en.fact(z3.substitute(hj, (it, z3.IntVal(0))) == init[k])
        ek = z3.substitute(e[k], *subs_closed) if subs_closed else e[k]
        nxt = z3.substitute(hj, (it, it + 1))
        j = z3.FreshConst(z3.IntSort(), "j")
        body_f = z3.Implies(And(it >= 0, it < K), nxt == ek)
        en.fact(z3.ForAll([j], z3.substitute(body_f, (it, j)), patterns=[z3.substitute(hj, (it, j))]))
    for inv in invs:
        en.fact(quant(it, K, inv["f"](start2)))
    en.loop_log.append(dict(where=where, closed=len(closed), modified=len(H), exits=len(brk) + len(rets) + len(thr)))
    # ---- exits, at iteration K
    sub = [(it, K)]
    if simple:
        N = z3.simplify(N)
        Nn = z3.simplify(z3.If(N > 0, N, z3.IntVal(0)))
        en.fact(K == Nn) if not outer else en.fact(K == Nn)
    outs = []
    def at_exit(z):
        y = State_at(z, sub); return y
    en._subst = sub
    if not done.dead:
        y = at_exit(done)
        if N is not None and simple: pass
        if not y.dead: outs.append((y, None))
    for b in brk:
        y = at_exit(b)
        if not y.dead: outs.append((y, None))
    for rst, v in rets:
        fr.returns.append((at_exit(rst), subst_value(v, sub) if v is not None else None))
    for tst, exc in thr:
        en.throw_sinks[-1].append((at_exit(tst), exc))
    return outs

def subst_init(f, H, init, it):
    subs = [(z3.substitute(h, (it, z3.IntVal(0))), init[k]) for k, h in H.items()]
    return z3.substitute(f, *subs) if subs else f

def State_at(z, sub):
    y = z.clone()
    y.pc = []
    for p in z.pc: y.pc.append(z3.substitute(p, *sub))
    y.store = {r: subst_value(v, sub) for r, v in z.store.items()}
    return y

def check_nonleaf(a, b, where):
    """pointers / references / closures must not change in the loop (no summary for them)"""
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if a is b: return
        if isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == len(b.alts) and all(
            (t1 is None and t2 is None) or (t1 and t2 and t1[0] == t2[0] == "lv" and same_lv(t1[1], t2[1])) for (_, t1), (_, t2) in zip(a.alts, b.alts)): return
        raise Unsupported("loop assigns a pointer variable at " + str(where))
    if isinstance(a, Rec) and isinstance(b, Rec):
        for k in a.f: check_nonleaf(a.f[k], b.f[k], where)
    elif isinstance(a, Opt) and isinstance(b, Opt): check_nonleaf(a.val, b.val, where)
    elif isinstance(a, Iter) and isinstance(b, Iter):
        if not same_lv(a.lv, b.lv): raise Unsupported("loop re-seats an iterator")

def quant(it, K, f):
    j = z3.FreshConst(z3.IntSort(), "j")
    g = z3.substitute(z3.Implies(And(it >= 0, it <= K), f), (it, j))
    return z3.ForAll([j], g)

def trip_count(c, it):
    """c <=> it < B"""
    neg = False
    while z3.is_not(c): c = c.arg(0); neg = not neg
    if z3.is_app_of(c, z3.Z3_OP_LE): a, b, op = c.arg(0), c.arg(1), "<="
    elif z3.is_app_of(c, z3.Z3_OP_GE): a, b, op = c.arg(1), c.arg(0), "<="
    elif z3.is_app_of(c, z3.Z3_OP_LT): a, b, op = c.arg(0), c.arg(1), "<"
    elif z3.is_app_of(c, z3.Z3_OP_GT): a, b, op = c.arg(1), c.arg(0), "<"
    else: return None
    # a op b
    if neg: a, b, op = b, a, "<" if op == "<=" else "<="
    # want it + k (op) B
    d = z3.simplify(a - it)
    if occurs(d, it) or occurs(b, it): return None
    B = b - d
    if op == "<=": B = B + 1
    return z3.simplify(B)

def depends_open(t, H, closed, me):
    for k, h in H.items():
        if k in closed or k == me: continue
        if occurs(t, h): return True
    return False

def solve(en, it, K, H, e, init, closed, endpc, facts1):
    progress = True
    solved_facts = set()
    cond_counters = {}
    pcs = And(*endpc)
    while progress:
        progress = False
        subs = [(H[k], v) for k, v in closed.items()]
        for k in H:
            if k in closed or k in solved_facts: continue
            h = H[k]
            t = z3.simplify(z3.substitute(e[k], *subs)) if subs else e[k]
            if depends_open_unsolved(t, H, closed, solved_facts, k): continue
            # constant
            if t.eq(h): closed[k] = init[k]; progress = True; continue
            # counter
            if z3.is_int(h):
                d = z3.simplify(t - h)
                if z3.is_int_value(d) or (not occurs(d, it) and not any(occurs(d, x) for x in H.values())):
                    closed[k] = z3.simplify(init[k] + d * it); progress = True; continue
                u = value_updates(t, h)
                if u and all(z3.is_int_value(z3.simplify(v - h)) and z3.simplify(v - h).as_long() >= 0 and not occurs(g, h) for g, v in u):
                    count_facts(en, it, K, h, u, init[k]); solved_facts.add(k); progress = True; continue
            if z3.is_array(h):
                u = leaf_updates(t, h)
                if u is not None and len(u) >= 1:
                    ok = array_facts(en, it, K, h, u, init[k])
                    if ok: solved_facts.add(k); progress = True
                continue
            if z3.is_bool(h):
                ht = z3.simplify(z3.substitute(t, (h, z3.BoolVal(True)))); hf = z3.simplify(z3.substitute(t, (h, z3.BoolVal(False))))
                if z3.is_true(ht) or z3.is_false(hf) or ht.eq(hf) or True:
                    if z3.is_true(ht): u = [(hf, z3.BoolVal(True))]
                    elif z3.is_false(hf): u = [(Not(ht), z3.BoolVal(False))]
                    elif ht.eq(hf): u = [(z3.BoolVal(True), ht)]
                    elif en.valid(facts1 + list(endpc), ht, timeout=1500): u = [(hf, z3.BoolVal(True))]
                    elif en.valid(facts1 + list(endpc), Not(hf), timeout=1500): u = [(Not(ht), z3.BoolVal(False))]
                    elif z3.is_false(ht) or z3.is_true(hf): continue   # toggles
                    else: u = [(ht == hf, ht)] if not occurs(ht, h) and en.valid(facts1 + list(endpc), Or(ht == hf, And(ht, Not(hf))), timeout=1500) else None
                    if u is None: continue
                    last_value_facts(en, it, K, h, u, init[k]); solved_facts.add(k); progress = True
                continue
            u = value_updates(t, h)
            if all(not occurs(g, h) and not occurs(v, h) for g, v in u):
                last_value_facts(en, it, K, h, u, init[k]); solved_facts.add(k); progress = True

def depends_open_unsolved(t, H, closed, solved, me):
    for k, h in H.items():
        if k in closed or k in solved or k == me: continue
        if occurs(t, h): return True
    return False

def fa(vs, f, pats=None):
    return z3.ForAll(vs, f, patterns=pats) if pats else z3.ForAll(vs, f)

def count_facts(en, it, K, h, u, init):
    at = lambda t, j: z3.substitute(t, (it, j))
    j, l = z3.FreshConst(z3.IntSort(), "j"), z3.FreshConst(z3.IntSort(), "l")
    delta = z3.simplify(z3.Sum([z3.If(g, z3.simplify(v - h), z3.IntVal(0)) for g, v in u]))
    hj = at(h, j)
    en.fact(at(h, z3.IntVal(0)) == init)
    en.fact(fa([j], z3.Implies(And(j >= 0, j < K), at(h, j + 1) == hj + at(delta, j)), [hj]))
    en.fact(fa([j], z3.Implies(And(j >= 0, j <= K), hj >= init), [hj]))
    hl = at(h, l)
    en.fact(fa([j, l], z3.Implies(And(j >= 0, j <= l, l <= K), hj <= hl), [z3.MultiPattern(hj, hl)]))
    en.fact(fa([j, l], z3.Implies(And(j >= 0, j < l, l <= K), hj + at(delta, j) <= hl), [z3.MultiPattern(hj, hl)]))
    maxd = max(z3.simplify(v - h).as_long() for _, v in u)
    en.fact(fa([j], z3.Implies(And(j >= 0, j <= K), hj <= init + j * maxd), [hj]))
    # every increment position is hit by some iteration (unit increments)
    if maxd == 1:
        en.nfresh += 1
        outer = en.ctx
        src = z3.Function(f"incby!{en.nfresh}", *[g.sort() for g in outer], z3.IntSort(), z3.IntSort())
        y = z3.FreshConst(z3.IntSort(), "y"); sy = src(*outer, y)
        gd = z3.simplify(z3.substitute(delta, (it, sy)) == 1)
        en.fact(fa([j, y], z3.Implies(And(j >= 0, j <= K, y >= init, y < hj), And(sy >= 0, sy < j, gd, at(h, sy) == y)), [z3.MultiPattern(hj, sy)]))
        en.incsrc = getattr(en, "incsrc", {}); en.incsrc[h.decl().name()] = lambda t: src(*outer, t)

def last_value_facts(en, it, K, h, u, init):
    """h(0)=init; h(j+1) = v(j) if g(j) else h(j)"""
    at = lambda t, j: z3.substitute(t, (it, j))
    g = Or(*[c for c, _ in u])
    val = u[-1][1]
    for c, v in reversed(u[:-1]): val = Ite(c, v, val)
    j, l = z3.FreshConst(z3.IntSort(), "j"), z3.FreshConst(z3.IntSort(), "l")
    en.nfresh += 1
    w = z3.Function(f"lastw!{en.nfresh}", *[x.sort() for x in en.ctx], z3.IntSort(), z3.IntSort())
    W = lambda t: w(*en.ctx, t)
    hj = at(h, j)
    en.fact(at(h, z3.IntVal(0)) == init)
    en.fact(fa([j], z3.Implies(And(j >= 0, j < K), at(h, j + 1) == Ite(at(g, j), at(val, j), hj)), [hj]))
    en.fact(fa([j], z3.Implies(And(j >= 0, j <= K), And(W(j) >= -1, W(j) < j,
        z3.Implies(W(j) == -1, hj == init),
        z3.Implies(W(j) >= 0, And(at(g, W(j)), hj == at(val, W(j)))))), [hj]))
    if z3.is_true(z3.simplify(g)):
        en.fact(fa([j], z3.Implies(And(j >= 0, j <= K), W(j) == j - 1), [hj]))
    else:
        en.fact(fa([j, l], z3.Implies(And(j >= 0, j <= K, l > W(j), l < j, l >= 0), Not(at(g, l))), trigger(hj, at(g, l), l)))

def trigger(hj, body, l):
    """a multi-pattern using a function application of l occurring in body"""
    found = []
    def walk(t):
        if z3.is_quantifier(t): return
        if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and any(c.eq(l) for c in t.children()): found.append(t); return
        for c in t.children(): walk(c)
    walk(body)
    if found: return [z3.MultiPattern(hj, f) for f in found[:4]]
    return None

def array_facts(en, it, K, h, u, init):
    at = lambda t, j: z3.substitute(t, (it, j))
    dom = h.sort().domain()
    j, l = z3.FreshConst(z3.IntSort(), "j"), z3.FreshConst(z3.IntSort(), "l")
    xx = z3.FreshConst(dom, "x")
    hj = at(h, j)
    # index it + c
    if dom == z3.IntSort():
        offs = [z3.simplify(i - it) for _, i, _ in u]
        if all(not occurs(o, it) for o in offs) and all(o.eq(offs[0]) for o in offs):
            c = offs[0]
            def fix(t): return z3.simplify(z3.substitute(t, (z3.Select(h, u[0][1]), z3.Select(init, u[0][1])), (z3.Select(h, it), z3.Select(init, it)) if u[0][1].eq(it) else (z3.Select(h, u[0][1]), z3.Select(init, u[0][1]))))
            uu = [(fix(g), fix(v)) for g, _, v in u]
            # successive stores to the same cell read the previous one
            ok = all(not occurs(g, h) and not occurs(v, h) for g, v in uu)
            if ok:
                val = z3.Select(init, xx); jj = xx - c
                new = z3.Select(init, xx)
                for g, v in uu: new = Ite(at(g, jj), at(v, jj), new)
                en.fact(fa([j, xx], z3.Implies(And(j >= 0, j <= K), z3.Select(hj, xx) == z3.If(And(jj >= 0, jj < j), new, z3.Select(init, xx))), [z3.Select(hj, xx)]))
                en.fact(at(h, z3.IntVal(0)) == init)
                return True
    if all(not occurs(g, h) and not occurs(v, h) and not occurs(i, h) for g, i, v in u) and len(u) >= 1:
        en.nfresh += 1
        w = z3.Function(f"lastw!{en.nfresh}", *[x.sort() for x in en.ctx], z3.IntSort(), dom, z3.IntSort())
        W = lambda t, y: w(*en.ctx, t, y)
        hit = lambda t, y: Or(*[And(at(g, t), at(i, t) == y) for g, i, _ in u])
        def val(t, y):
            r = at(u[0][2], t)
            for g, i, v in u[1:]: r = Ite(And(at(g, t), at(i, t) == y), at(v, t), r)
            return r
        sel = z3.Select(hj, xx)
        en.fact(at(h, z3.IntVal(0)) == init)
        en.fact(fa([j, xx], z3.Implies(And(j >= 0, j <= K), And(W(j, xx) >= -1, W(j, xx) < j,
            z3.Implies(W(j, xx) == -1, sel == z3.Select(init, xx)),
            z3.Implies(W(j, xx) >= 0, And(hit(W(j, xx), xx), sel == val(W(j, xx), xx))))), [sel]))
        en.fact(fa([j, xx, l], z3.Implies(And(j >= 0, j <= K, l > W(j, xx), l < j, l >= 0), Not(hit(l, xx))), trigger(sel, And(*[at(i, l) == at(i, l + 0) if False else at(g, l) for g, i, _ in u] + [at(i, l) == xx for _, i, _ in u]), l)))
        # direct consequence used often: the cell written in iteration l
        if len(u) == 1:
            g, i, v = u[0]
            # stores through a strictly increasing index never collide
            sel2 = z3.Select(hj, at(i, l))
            inj = en.valid([], z3.BoolVal(False), timeout=1) if False else None
        return True
    return False
