"""discharging obligations with the external solvers (z3 new release, z3 4.8, cvc5), in parallel"""
import subprocess, time, re, os, struct, shutil
from concurrent.futures import ThreadPoolExecutor
import z3
from values import And, Not, Or

SOLVERS = [("z3", ["z3-new", "-smt2", "-T:{t}", "{f}"]), ("cvc5", ["cvc5", "--lang=smt2", "--tlimit={ms}", "--produce-models", "{f}"]), ("z3-4.8", ["z3", "-smt2", "-T:{t}", "{f}"])]
CORE = ("z3-core", ["z3-new", "-smt2", "-T:{t}", "tactic.default_tactic=smt", "{f}"])   # without the preprocessing of quantifiers
SOLVERS = [s for s in SOLVERS if shutil.which(s[1][0])]

def smt2(facts, pc, goal=None):
    s = z3.Solver()
    for f in facts: s.add(f)
    for p in pc: s.add(p)
    if goal is not None: s.add(z3.Not(goal))
    txt = s.to_smt2()
    return txt
def smt2_embedded(facts, pc, goal=None):
    """the same obligation under the order embedding of IEEE values (None when there is no FP or it does not apply)"""
    import fpabs
    fs = list(facts) + list(pc) + ([z3.Not(goal)] if goal is not None else [])
    r = fpabs.embed(fs)
    if r is None: return None
    s = z3.Solver()
    for f in r: s.add(f)
    return s.to_smt2()

GENERIC = {"fadd", "fsub", "fmul", "fdiv", "i2d", "d2i", "duration_seconds", "str_len", "str_concat"}
class Prep:
    """shared work over the obligations of one engine: cone of influence and order embedding"""
    def __init__(self): self.syms = {}; self.keep = []; self.abs = None
    def S(self, t):
        i = t.get_id()
        r = self.syms.get(i)
        if r is not None: return r
        self.keep.append(t)
        out = frozenset()
        if z3.is_quantifier(t): out = self.S(t.body())
        elif z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out = frozenset([d.name()])
            for c in t.children():
                s = self.S(c)
                if s: out = out | s if out else s
        self.syms[i] = out
        return out
    def C(self, t):
        """the uninterpreted constants of a term"""
        if not hasattr(self, "consts"): self.consts = {}
        i = t.get_id(); r = self.consts.get(i)
        if r is not None: return r
        self.keep.append(t); out = frozenset()
        if z3.is_quantifier(t): out = self.C(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0: out = frozenset([t.decl().name()]) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else out
            for c in t.children():
                s = self.C(c)
                if s: out = out | s if out else s
        self.consts[i] = out
        return out
    def relevant(self, facts, seeds):
        """facts sharing (transitively) an uninterpreted symbol with the goal or path condition"""
        cur = set()
        for t in seeds: cur |= self.S(t)
        todo = [(f, self.S(f)) for f in facts]; chosen = set()
        ch = True
        while ch:
            ch = False; rest = []
            for f, sf in todo:
                if not sf or (sf - GENERIC) & cur or (sf <= GENERIC and sf & cur):
                    chosen.add(f.get_id()); cur |= sf; ch = True
                else: rest.append((f, sf))
            todo = rest
        return [f for f in facts if f.get_id() in chosen]
    def embedded(self, facts, pc, goal=None):
        """the obligation under the order embedding of IEEE values (None when it does not apply)"""
        import fpabs
        if self.abs is None: self.abs = fpabs.Abs()
        fs = list(facts) + list(pc) + ([z3.Not(goal)] if goal is not None else [])
        self.keep += fs
        try: r = [self.abs.tr(f) for f in fs]
        except fpabs.NotTranslatable as x:
            self.why = str(x); return None
        s = z3.Solver()
        for f in r + self.abs.side: s.add(f)
        return s.to_smt2()

class Job:
    def __init__(self, item, prep, cover=False):
        self.item, self.prep, self.cover = item, prep, cover
        self.result = None
    def goal(self): return None if self.cover else self.item["goal"]
    def facts(self):
        if not hasattr(self, "_f"): self._f = self.prep.relevant(self.item["facts"], self.item["pc"] + ([] if self.cover else [self.item["goal"]]))
        return self._f
    def emb(self):
        if self.item.get("nl"):
            import nl
            N = nl.Nl(); tr = N.tr; g = self.goal(); g = tr(g) if g is not None else None; return smt2([tr(x) for x in self.facts()] + N.extra, [tr(x) for x in self.item["pc"]] + N.extra, g)
        return self.prep.embedded(self.facts(), self.item["pc"], self.goal())
    def sliced(self):
        """the obligation from only those hypotheses that speak of the goal's own constants (fewer hypotheses: a proof remains a proof)"""
        g = self.prep.C(self.goal())
        f = [x for x in self.facts() if self.prep.C(x) <= g]; p = [x for x in self.item["pc"] if self.prep.C(x) <= g]
        return smt2(f, p, self.goal())
    def full(self): return smt2(self.facts(), self.item["pc"], self.goal())

def run_jobs(jobs, work, timeouts=(25, 40, 20), emb_timeout=20, cover_timeout=2, par=8):
    """phase 1: embedding; phase 2: the bit-exact obligation for what is left"""
    with ThreadPoolExecutor(max_workers=par) as ex:
        futs = []
        for i, j in enumerate(jobs):
            if j.result is not None: futs.append(None); continue
            e = j.emb()
            futs.append(ex.submit(discharge1, e, work, i, cover_timeout if j.cover else 4 if j.item.get("real") else emb_timeout) if e is not None else None)
        for j, f in zip(jobs, futs):
            if f is not None: j.result = f.result()
        for j in jobs:
            if not j.cover and j.item.get("real") and (j.result is None or j.result.status != "proved") and not getattr(j.result, "embsat", False): ring_try(j)
        futs = []
        for i, j in enumerate(jobs):
            r = j.result
            if j.cover or not j.item.get("real") or r is None or r.status == "proved" or r.embsat: futs.append(None); continue
            futs.append(ex.submit(discharge1, j.sliced(), work, f"s{i}", 8, r, "+sliced"))
        for j, f in zip(jobs, futs):
            if f is not None: j.result = f.result()
        futs = []
        for i, j in enumerate(jobs):
            r = j.result
            if r is not None and r.status == "proved": futs.append(None); continue
            futs.append(ex.submit(discharge, j.full(), work, i, timeouts if not j.cover else (cover_timeout, 0, 0), True, r))
        for j, f in zip(jobs, futs):
            if f is not None: j.result = f.result()

def ring_try(j):
    import ring
    t = time.time()
    def late(*_): raise ring.No("time")
    import signal
    old = signal.signal(signal.SIGALRM, late); signal.alarm(20)
    try: ok = ring.prove(j.item["pc"], j.item["goal"])
    finally: signal.alarm(0); signal.signal(signal.SIGALRM, old)
    if ok:
        r = j.result = j.result or Result()
        r.status, r.backend = "proved", "sympy rational normal form"; r.time += time.time() - t

def discharge1(txt, workdir, idx, timeout, prev=None, tag="+embedding"):
    r = prev or Result()
    p = os.path.join(workdir, f"e{idx}.smt2")
    with open(p, "w") as f: f.write(txt)
    quick = [(SOLVERS[1], min(timeout, 4))] if "forall" in txt and "Real" not in txt else []
    for (name, cmd), to in [(CORE, min(timeout, 4))] + quick + [(SOLVERS[0], timeout)]:
        st, reason, out, dt = run_solver(name, cmd, p, to)
        r.time += dt; r.tries.append((name + tag, st, reason, round(dt, 2)))
        if st == "unsat": r.status, r.backend = "proved", name + tag
        if prev is None: r.embsat = st == "sat"
        if st != "unknown": break
    return r

DEADLINE = [None]
def run_solver(name, cmd, path, timeout):
    if DEADLINE[0] is not None:
        timeout = min(timeout, DEADLINE[0] - time.time())
        if timeout < .5: return "unknown", "timeout", "", 0.0
    c = [a.format(t=int(timeout), ms=int(timeout * 1000), f=path) for a in cmd]
    t = time.time()
    try: p = subprocess.run(c, capture_output=True, text=True, timeout=timeout + 15)
    except subprocess.TimeoutExpired: return "unknown", "timeout", "", time.time() - t
    out = p.stdout
    first = next((l.strip() for l in out.splitlines() if l.strip() in ("sat", "unsat", "unknown", "timeout")), "unknown")
    reason = ""
    if first == "timeout": first, reason = "unknown", "timeout"
    m = re.search(r'reason-unknown\s+"?([^"\)]*)', out)
    if m: reason = m.group(1)
    if first == "unknown" and ("interrupted" in reason or time.time() - t > timeout * 0.95): reason = "timeout"
    return first, reason, out, time.time() - t

class Result:
    def __init__(self): self.status = "unknown"; self.backend = ""; self.time = 0.0; self.model = ""; self.reason = ""; self.tries = []; self.embsat = False

def discharge(txt, workdir, idx, timeouts=(20, 30, 20), want_model=True, prev=None):
    r = prev or Result()
    path = os.path.join(workdir, f"o{idx}.smt2")
    with open(path, "w") as f:
        f.write("(set-option :produce-models true)\n" + txt + "\n(get-info :reason-unknown)\n" + ("(get-model)\n" if want_model else ""))
    first = [] if "FloatingPoint" in txt or "fp." in txt else [(CORE, min(4, timeouts[0]))]
    for (name, cmd), to in first + list(zip(SOLVERS, timeouts)):
        if to <= 0: continue
        st, reason, out, dt = run_solver(name, cmd, path, to)
        r.time += dt; r.tries.append((name, st, reason, round(dt, 2)))
        if st == "unsat":
            r.status, r.backend = "proved", name; break
        if st == "sat":
            r.status, r.backend, r.model = "failed", name, out; break
        r.reason = reason or r.reason; r.status = "unknown"
    return r

def parse_model(txt):
    """constants of the model: name -> python value (FP bits as float, Bool, Int)"""
    vals = {}
    for m in re.finditer(r"\(define-fun\s+(\|[^|]*\||[^\s()]+)\s+\(\)\s+(\(_ FloatingPoint 11 53\)|Float64|Bool|Int|Real)\s+(.*?)\)\s*(?=\(define-fun|\)\s*$|\n\s*\(define|\Z)", txt, re.S):
        n, s, v = m.group(1).strip("|"), m.group(2), m.group(3).strip()
        try:
            if s == "Bool": vals[n] = v.startswith("true")
            elif s == "Int":
                mm = re.match(r"\(- (\d+)\)?", v); vals[n] = -int(mm.group(1)) if mm else int(re.match(r"\d+", v).group(0))
            elif s == "Real":
                vals[n] = v
            else:
                vals[n] = fpval(v)
        except Exception: pass
    return vals
def fpval(v):
    if "+oo" in v: return float("inf")
    if "-oo" in v: return float("-inf")
    if "NaN" in v: return float("nan")
    if "+zero" in v: return 0.0
    if "-zero" in v: return -0.0
    m = re.match(r"\(fp #b([01]) #b([01]{11}) (#x([0-9a-f]{13})|#b([01]{52}))", v)
    s, e = int(m.group(1), 2), int(m.group(2), 2)
    f = int(m.group(4), 16) if m.group(4) else int(m.group(5), 2)
    return struct.unpack("<d", struct.pack("<Q", (s << 63) | (e << 52) | f))[0]
