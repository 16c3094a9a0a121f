#!/usr/bin/env python3
"""tools/coverage.py OUT: statement coverage of /repo by all harness units (random part), for finding code no unit drives."""
import glob, json, os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.argv = [sys.argv[0]] + sys.argv[1:]
from units import UNITS
REPO = os.environ.get("VERIF_REPO", "/repo"); out = sys.argv[1]
w = tempfile.mkdtemp(prefix="verif-cover.")
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", PATH="/opt/veriftools/go1.25.14/bin:" + os.environ["PATH"])
profs = []
for pkg in sorted({u["pkg"] for u in UNITS.values()}):
    repl = {os.path.join(REPO, "zz_verif", d, os.path.basename(f)): f for d in ("vh", pkg) for f in glob.glob(os.path.join(H, "harness", d, "*.go"))}
    ov = os.path.join(w, pkg + ".json"); json.dump({"Replace": repl}, open(ov, "w"))
    for f in ("go.mod", "go.sum"): shutil.copy(os.path.join(REPO, f), w)
    b = os.path.join(w, pkg)
    subprocess.run(["go", "test", "-c", "-vet=off", "-cover", "-coverpkg=./client/...,./emerge/...,./internal/...,./simulations/...", "-overlay", ov, "-modfile", os.path.join(w, "go.mod"), "-o", b, "./zz_verif/" + pkg], cwd=REPO, env=env, check=True)
    for name, u in UNITS.items():
        if u["pkg"] != pkg or u.get("race") or u.get("progs"): continue
        p = os.path.join(w, name + ".cov")
        e = dict(env, VH_UNIT=u.get("name", name), VH_OPS="", VH_RAND=str(u.get("rand", (50, 0))[0]), VH_OUT=os.path.join(w, "t"), VH_SEED="1", VH_TIER="quick", VH_PROP="")
        r = subprocess.run([b, "-test.run", "^TestVerif$", "-test.coverprofile", p], cwd=w, env=e, capture_output=True, timeout=900)
        print(name, r.returncode, flush=True)
        if os.path.exists(p): profs.append(p)
hit = {}
for p in profs:
    for l in open(p):
        if l.startswith("mode:"): continue
        k, c = l.rsplit(" ", 1); hit[k] = hit.get(k, 0) + int(c)
with open(out, "w") as f:
    f.write("mode: count\n")
    for k in sorted(hit): f.write("%s %d\n" % (k, hit[k]))
shutil.rmtree(w)
