"""bounded exploration of the real code: replays the verifier's counterexamples, searches for failing inputs,
and stands in (labelled bounded) where the verifier cannot decide"""
import os, subprocess, threading, time, shutil, math
import front
VERIF, REPO = front.VERIF, front.REPO
INC = ["-I" + os.path.join(VERIF, "harness", "common"), "-I" + os.path.join(VERIF, "stubs"), "-I" + REPO] + ["-I" + os.path.join(REPO, i) for i in front.INCLUDES]

class Harness:
    """a C++ program over /repo's sources: argv = property seconds seed [seeds-file]; prints FAIL.../OK n"""
    def __init__(self, src, repo_srcs=(), libs=(), flags=(), par=4, std="c++20", includes=()):
        self.src, self.repo_srcs, self.libs, self.flags, self.par, self.std, self.includes = src, repo_srcs, libs, flags, par, std, includes
        self.thread = None
    def compile_cmd(self, exe):
        return ["g++", "-std=" + self.std, "-O1", "-w", "-D_GLIBCXX_ASSERTIONS"] + list(self.flags) + ["-I" + os.path.join(VERIF, i) for i in self.includes] + INC + [os.path.join(VERIF, "harness", self.src)] + [os.path.join(REPO, s) for s in self.repo_srcs] + list(self.libs) + ["-o", exe]
    def prepare(self, work):
        self.exe = os.path.join(work, "harness"); self.err = None; self.objs = []
        def go():
            try: self.build(work)
            except subprocess.TimeoutExpired: self.err = "compiler timeout"
        self.thread = threading.Thread(target=go); self.thread.start()
    def build(self, work):
        # one object per source, in parallel
        base = ["g++", "-std=" + self.std, "-O1", "-w", "-D_GLIBCXX_ASSERTIONS"] + list(self.flags) + ["-I" + os.path.join(VERIF, i) for i in self.includes] + INC
        procs = []
        for i, s in enumerate([os.path.join(VERIF, "harness", self.src)] + [os.path.join(REPO, s) for s in self.repo_srcs]):
            o = os.path.join(work, f"h{i}.o")
            procs.append((o, subprocess.Popen(base + ["-c", s, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        for o, p in procs:
            _, e = p.communicate(timeout=400)
            if p.returncode: self.err = (self.err or "") + e[-1500:]
        if self.err: return
        p = subprocess.run(["g++"] + [o for o, _ in procs] + list(self.libs) + ["-o", self.exe], capture_output=True, text=True, timeout=200)
        if p.returncode: self.err = p.stderr[-1500:]
    def __call__(self, prop, budget, seeds, work, seed, thorough):
        if self.thread is None: self.prepare(work)
        self.thread.join(); self.thread = None
        if self.err: return dict(failure=None, known=[], summary="the harness does not compile against this tree", evaluations=0, compiled=False, error=self.err)
        sf = os.path.join(work, "seeds.txt")
        with open(sf, "w") as f:
            for s in seeds:
                for k, v in s.items():
                    if isinstance(v, bool): v = int(v)
                    if isinstance(v, (int, float)): f.write(f"{k.split('!')[0]}={float(v)!r}\n" if not (isinstance(v, float) and (math.isnan(v) or math.isinf(v))) else f"{k.split('!')[0]}={'nan' if math.isnan(v) else ('inf' if v > 0 else '-inf')}\n")
                f.write("--\n")
        par = self.par if budget > 5 else 2
        ps = [subprocess.Popen([self.exe, prop, str(budget), str(seed * 100 + i)] + ([sf] if i == 0 else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=work) for i in range(par)]
        n = 0; failure = None; samples = []
        for i, p in enumerate(ps):
            try: out, err = p.communicate(timeout=budget * 3 + 60)
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate(); continue
            if p.returncode == 0:
                for l in out.splitlines():
                    if l.startswith("OK "): n += int(l.split()[1])
                    if l.startswith("SAMPLE "): samples.append(l[7:])
            elif out.startswith("FAIL") or "\nFAIL" in out:
                failure = failure or out[out.index("FAIL"):][:6000]
            else:
                failure = failure or f"the code under test crashed (exit {p.returncode}) on: {out[-1500:]}\n{err[-1500:]}"
        return dict(failure=failure, known=[], summary=f"{n} executions of the real code, {'FAILED' if failure else 'no failure'}", evaluations=n, compiled=True, samples=samples[:3], rerun=" ".join(self.compile_cmd("/tmp/h")) + f" && /tmp/h {prop} {budget} {seed*100}")
