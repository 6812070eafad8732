#!/usr/bin/env python3
"""development aid: apply small changes to a private copy of /repo and see whether the check of the property reports them.
usage: mutants.py LIST.py [ID...]   LIST.py defines M = [(id, property, file, old, new), ..]"""
import os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if not os.environ.get("IN_NS"):
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    subprocess.run(["unshare", "-m", sys.executable] + sys.argv, env=dict(os.environ, IN_NS="1", MW=w))
    shutil.rmtree(w)
    sys.exit()
subprocess.run(["mount", "--bind", os.environ["MW"] + "/repo", "/repo"], check=True)
g = {}
exec(open(sys.argv[1]).read(), g)
for id, prop, f, old, new in g["M"]:
    if sys.argv[2:] and id not in sys.argv[2:]: continue
    p = "/repo/source/" + f
    subprocess.run("cd /repo && git checkout -q -- .", shell=True)
    s = open(p).read()
    if old not in s: print(id, prop, "OLD TEXT NOT FOUND", flush=True); continue
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run([sys.executable, "symcheck.py", prop, "--tier", "quick"], cwd=here, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    a = [l.strip() for l in r.stdout.splitlines() if l.strip().startswith("assertion")]
    print(id, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc %d" % r.returncode), (a[0][:110] if a else (r.stdout + r.stderr)[-300:] if r.returncode != 1 else ""), flush=True)
