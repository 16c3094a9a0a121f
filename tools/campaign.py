#!/usr/bin/env python3
"""tools/campaign.py N SEED OUT [file-substring...]: N random small changes per source
file that still compile and pass the tests of /repo; which checks see them?"""
import json, os, random, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); GO = "/opt/veriftools/go1.25.14/bin/go"
MAP = {  # file -> properties to try, in order
 "emerge/agent/agent.go": "C01 C02 C18 C05 C27 C09 C03", "emerge/agent/builder.go": "C27 C01 C18", "emerge/agent/atomic_state.go": "C01 C03", "emerge/agent/pool.go": "C22",
 "emerge/agent/neighbor_storage.go": "C05", "emerge/core/phase.go": "C01 C17 C09", "emerge/core/state.go": "C15", "emerge/core/pattern.go": "C23 C14",
 "internal/resource/token.go": "C04", "emerge/swarm/swarm.go": "C06 C08 C21 C10 C09", "emerge/swarm/phase_convergence.go": "C09",
 "emerge/swarm/goal_directed.go": "C29 C10 C12", "emerge/swarm/swarm_continuous_run.go": "C11", "emerge/swarm/thresholds.go": "C10 C11 C29",
 "emerge/swarm/config.go": "C16 C15", "emerge/swarm/goal_constants.go": "C16", "emerge/swarm/limits.go": "C16", "emerge/scale/scale.go": "C26 C16",
 "client/emerge/custom.go": "C16", "client/emerge/builder.go": "C16", "client/emerge/emerge.go": "C16", "emerge/goal/config.go": "C26 C24", "emerge/goal/manager.go": "C18",
 "emerge/monitoring/convergence.go": "C12 C13", "internal/emerge/convergence.go": "C12 C13", "emerge/convergence/monitor.go": "C14", "emerge/monitoring/monitor.go": "C13", "internal/emerge/metrics.go": "C13",
 "emerge/strategy/phase_nudge.go": "C17", "emerge/strategy/frequency_lock.go": "C17", "emerge/strategy/energy_aware.go": "C17", "emerge/strategy/pulse.go": "C17", "emerge/strategy/adaptive.go": "C17",
 "emerge/decision/simple.go": "C18", "internal/config/swarm.go": "C15", "internal/config/agent.go": "C27", "internal/emerge/basin.go": "C28", "internal/topology/full.go": "C07", "internal/topology/ring.go": "C07", "internal/topology/star.go": "C07", "internal/topology/mesh.go": "C07", "internal/topology/random.go": "C07", "internal/topology/smallworld.go": "C07",
 "emerge/completion/engine.go": "C23", "emerge/monitoring/patterns.go": "C23", "internal/emerge/pattern.go": "C25 C23",
 "simulations/emerge/simulation/metrics.go": "C19", "simulations/emerge/simulation/batch_manager.go": "C19", "simulations/emerge/simulation/agent.go": "C26 C20", "simulations/emerge/simulation/simulation.go": "C20",
 "simulations/emerge/simulation/builder.go": "C26 C20", "simulations/emerge/simulation/pattern/pattern.go": "C26", "simulations/emerge/ui/runner.go": "C24", "simulations/display/controller.go": "C24", "simulations/display/display.go": "C30", "simulations/display/text_display.go": "C30", "simulations/emerge/main.go": "C24", "simulations/emerge/config.go": "C24",
}
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    pick = sys.argv[4:]
    tool = tempfile.mktemp(prefix="mutgen-"); run([GO, "build", "-o", tool, os.path.join(HERE, "mutgen", "main.go")], check=True)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["tests"]) if False else None
    jobs = []
    for f, props in MAP.items():
        if pick and not any(p in f for p in pick): continue
        p = os.path.join("/repo", f)
        if not os.path.exists(p): print("no", f); continue
        ms = [json.loads(l) for l in run([tool, p]).stdout.splitlines()]
        random.Random("%s-%d" % (f, seed)).shuffle(ms)
        jobs += [(f, props.split(), ms)]
    log = open(out, "a")
    def one(f, props, m):
        d = tempfile.mkdtemp(prefix="mut.", dir="/tmp"); r = os.path.join(d, "repo")
        try:
            run(["cp", "-a", "/repo", r])
            b = open(os.path.join(r, f), "rb").read()
            open(os.path.join(r, f), "wb").write(b[:m["start"]] + m["text"].encode() + b[m["end"]:])
            if run([GO, "build", "./..."], cwd=r).returncode: return None
            try: t = run("timeout -k 5 150 %s test -vet=off -timeout 100s -count=1 $(%s list ./... | grep -vE '/(e2e|emerge/swarm)$')" % (GO, GO), shell=True, cwd=r, timeout=200)
            except subprocess.TimeoutExpired: return "tests"
            if t.returncode: return "tests"
            for p in props:
                try: c = run([sys.executable, os.path.join(V, "check.py"), p, "--seed", "1"], env=dict(os.environ, VERIF_REPO=r, VERIF_SKIP_MODELS="1"), timeout=900)
                except subprocess.TimeoutExpired: return "TIMEOUT " + p
                if c.returncode == 1: return p + " " + next((l for l in c.stdout.splitlines() if "rejected" in l), "")[:140]
                if c.returncode: return "ERROR %s %s" % (p, c.stdout[-300:].replace("\n", " "))
            return "MISSED"
        finally: shutil.rmtree(d, ignore_errors=True)
    def filework(j):
        f, props, ms = j; done = 0
        for m in ms[:8 * n]:
            if done >= n: break
            v = one(f, props, m)
            if v is None or v == "tests": continue
            done += 1
            log.write("%s | %s | %s\n" % (v, f, m["what"].replace("\n", " "))); log.flush()
    with cf.ThreadPoolExecutor(int(os.environ.get("PAR", "3"))) as ex: list(ex.map(filework, jobs))
    log.write("DONE\n"); os.unlink(tool)
main()
