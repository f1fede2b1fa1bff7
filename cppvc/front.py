"""extraction of the functions under contract from /repo's current tree"""
import os, re, subprocess, json, hashlib, tempfile
import engine
from values import Unsupported
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
INCLUDES = ["joint_limits/include", "hardware_interface/include", "controller_interface/include", "transmission_interface/include", "controller_manager/include"]
class ExtractError(Exception): pass
def flags():
    rd = subprocess.run(["clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
    return ["-std=c++20", "-I" + os.path.join(VERIF, "stubs"), "-I" + REPO] + ["-I" + os.path.join(REPO, i) for i in INCLUDES] + ["-resource-dir=" + rd, "-I/usr/include/urdfdom", "-DCPPVC_EXTRACT"]
def ensure_exporter():
    exe = os.path.join(VERIF, "build", "cppvc-export")
    src = os.path.join(VERIF, "cppvc", "exporter", "export.cpp")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        subprocess.run(["bash", os.path.join(VERIF, "cppvc", "exporter", "build.sh")], check=True, capture_output=True)
    return exe
def extract(unit, roots, body_dirs=()):
    exe = ensure_exporter()
    with tempfile.TemporaryDirectory(prefix="cppvc-") as td:
        out = os.path.join(td, "o.json")
        cmd = [exe, os.path.join(VERIF, "units", unit), "-o", out] + ["--body-dir=" + d for d in [REPO, os.path.join(VERIF, "units")] + list(body_dirs)] + ["--root=" + r for r in roots] + ["--"] + flags()
        p = subprocess.run(cmd, capture_output=True, text=True)
        if not os.path.exists(out): raise ExtractError("extraction produced nothing: " + p.stderr[-800:])
        d = json.load(open(out))
    if d.get("errors"): raise ExtractError("the source does not parse: " + p.stderr[-1200:])
    p = engine.Program(d); p.fingerprint = fingerprint(d); return p

def fingerprint(d):
    """what the extracted functions say, without their places in the files"""
    H = lambda v: hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:24]
    def strip(x):
        if isinstance(x, dict):
            d = [(strip(k), strip(v)) for k, v in x.items() if k not in ("l", "line", "endline", "file", "col", "loc")]
            return sorted(H([k, v]) for k, v in d) if len({k for k, v in d}) < len(d) else dict(d)
        if isinstance(x, list): return [strip(v) for v in x]
        if isinstance(x, str): return re.sub(r"[^\s()]*/[^\s()]*:\d+:\d+", "@", x)
        return x
    return H(strip(d))

def key(tg): return tg.unit + " " + hashlib.sha256(json.dumps([list(tg.roots), [str(b) for b in getattr(tg, "body_dirs", ())]]).encode()).hexdigest()[:12]
