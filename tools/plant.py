#!/usr/bin/env python3
"""plant.py gen <id>...|all : writes seeded/<id> from tools/bugs/*.py ; plant.py try <id> [PROP...] : demo on clean and patched copies, then the checks"""
import sys, os, subprocess, json, glob, shutil, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
for f in sorted(glob.glob(V + "/tools/bugs/*.py")):
    for b in runpy.run_path(f)["BUGS"]: BUGS[b["id"]] = b
INCL = "-I. -Ijoint_limits/include -Ihardware_interface/include -Icontroller_interface/include -Itransmission_interface/include -Icontroller_manager/include"
def gen(b):
    d = f"{V}/seeded/{b['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="plant-"); subprocess.run(["git", "-C", "/repo", "worktree", "list"], capture_output=True)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x", shell=True, check=True)
    for f, o, n in b["edits"]:
        s = open(f"{w}/{f}").read(); assert s.count(o) == 1, (b["id"], f, s.count(o), o); open(f"{w}/{f}", "w").write(s.replace(o, n))
    p = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(p); shutil.rmtree(w)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(b["demo"].lstrip("\n"))
    if b.get("stubs", True): shutil.copytree(V + "/stubs", d + "/stubs")
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# run with cwd /repo: compiles the demonstration against the real sources and runs it
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++20 -w -O1 {b.get('flags','')} -I"$D/stubs" {INCL} "$D/demo.cpp" {' '.join(b.get('srcs', []))} {b.get('libs','-lfmt')} -o "$W/demo" || exit 3
cd "$W" && timeout 60 ./demo
""")
    os.chmod(d + "/demo.sh", 0o755)
def trybug(i, props):
    d = f"{V}/seeded/{i}"; w = "/tmp/rb-" + i; subprocess.run(["rm", "-rf", w]); subprocess.run(["cp", "-a", "/repo", w])
    subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."])
    a = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
    subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], check=True)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
    print(i, "demo clean", a.returncode, a.stderr[-600:] if a.returncode else "", "| patched", b.returncode, (b.stdout + b.stderr)[-300:])
    for p in props or [json.load(open(d + "/meta.json"))["property"]]:
        c = subprocess.run(["python3-vt", V + "/cppvc/check.py", p], env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
        print("  ", p, c.returncode, c.stdout.strip()[-700:], c.stderr[-300:])
        if c.returncode == 1: print("      ", open(V + f"/replay-out/{p}.txt").read()[:600].replace("\n", "\n       "))
    subprocess.run(["rm", "-rf", w])
if sys.argv[1] == "gen":
    for i in (BUGS if sys.argv[2] == "all" else sys.argv[2:]): gen(BUGS[i])
else: 
    if sys.argv[2] in BUGS and not os.path.exists(f"{V}/seeded/{sys.argv[2]}"): gen(BUGS[sys.argv[2]])
    trybug(sys.argv[2], sys.argv[3:])
