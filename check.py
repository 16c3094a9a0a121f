#!/usr/bin/env python3
"""Decides one property of /repo with the TLA+ specifications in spec/.

  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--keep]

1. TLC checks the property on the specification itself (small constants, all
   behaviours).
2. TLC generates operation sequences from the specification.
3. The Go harness, compiled against /repo's working tree, replays them (and
   seeded random cases) on the real code and records traces.
4. TLC validates every recorded trace against the specification; an event that
   is not a specified step is a violation.
Exit 0: held.  Exit 1 + VIOLATION line: broken.  Exit 2: the check failed.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from units import PROPS, UNITS
REPO = os.environ.get("VERIF_REPO", "/repo")
MOD = "github.com/carlisia/bio-adapt"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GO = "/opt/veriftools/go1.25.14/bin/go"

class Fail(Exception):
    pass

def log(*a):
    print(*a, flush=True)

class Check:
    def __init__(self, prop, tier, seed, keep):
        self.prop, self.tier, self.seed, self.keep = prop, tier, seed, keep
        self.ti = 1 if tier == "thorough" else 0
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "model_states": 0, "trace_states": 0, "generated_sequences": 0,
                    "events": {}, "models": [], "units": [], "samples": []}
        self.violations = []
        self.kfs = {}
        shutil.copytree(os.path.join(HERE, "spec"), os.path.join(self.work, "spec"))

    def pick(self, v):
        return v[self.ti] if isinstance(v, (tuple, list)) else v

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg, env=None, args=(), workers=8, timeout=600, name=None):
        sd = os.path.join(self.work, "spec")
        md = tempfile.mkdtemp(dir=self.work, prefix="md")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx10g", "-Xss64m", "-cp", CP, "tlc2.TLC",
               "-config", cfg, "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
               "-nowarning"] + list(args) + [module + ".tla"]
        e = dict(os.environ); e.update(env or {})
        out = os.path.join(self.work, "tlc-%s.out" % (name or module))
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=sd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = -1
        shutil.rmtree(md, ignore_errors=True)
        txt = "".join(l for l in open(out, errors="replace")
                      if not l.startswith(("Parsing file", "Semantic processing", "Linting of")))
        m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", txt)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return rc, txt, gen, dist

    def mc(self, module, cfg, tier_min=0, args=()):
        if self.ti < tier_min:
            return
        t = time.time()
        rc, txt, gen, dist = self.tlc(module, cfg, timeout=850 if self.ti == 0 else 3600, name=cfg, args=args)
        if rc != 0:
            raise Fail("model checking of %s with %s failed (rc %s)\n%s" % (module, cfg, rc, txt[-4000:]))
        self.cov["model_states"] += dist
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"].append({"module": module, "config": cfg, "distinct_states": dist, "generated": gen,
                                   "wall_s": round(time.time() - t, 1)})
        log("  model %s/%s: %d distinct states" % (module, cfg, dist))

    def gen(self, g, dst):
        env = {"DEPTH": str(self.pick(g.get("depth", 3))), "GENLIM": str(self.pick(g.get("lim", 0)))}
        for k, v in g.get("env", {}).items():
            env[k] = str(self.pick(v))
        args, workers = [], 8
        if g.get("mode") == "sim":
            args = ["-simulate", "num=%d" % self.pick(g["num"]), "-depth", str(self.pick(g["depth"]) + 2),
                    "-seed", str(self.seed)]
            workers = 1
        rc, txt, gen, dist = self.tlc(g["mod"], g.get("cfg", g["mod"] + ".cfg"), env=env, args=args,
                                      workers=workers, name="gen-" + g["mod"])
        if rc != 0:
            raise Fail("generation with %s failed (rc %s)\n%s" % (g["mod"], rc, txt[-4000:]))
        n = 0
        seen = set()
        lim = self.pick(g.get("max", 10**9))
        lines = []
        for line in txt.splitlines():
            m = re.match(r'^<<"T", "(.*)">>$', line)
            if m:
                s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
                if s not in seen:
                    seen.add(s)
                    lines.append(s)
        lines.sort()
        if len(lines) > lim:
            import random
            lines = sorted(random.Random(self.seed).sample(lines, lim))
        with open(dst, "a") as f:
            for s in lines:
                f.write(s + "\n")
        n = len(lines)
        if n == 0:
            raise Fail("generation with %s produced nothing\n%s" % (g["mod"], txt[-3000:]))
        self.cov["generated_sequences"] += n
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        log("  generated %d sequences from %s" % (n, g["mod"]))

    # ---- Go --------------------------------------------------------------
    def goenv(self):
        e = dict(os.environ)
        e.update(HOME="/root", PATH="/opt/veriftools/go1.25.14/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
                 GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
                 GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
        return e

    def build(self, pkg, race):
        out = os.path.join(self.work, "bin-%s%s" % (pkg, "-race" if race else ""))
        if os.path.exists(out):
            return out
        repl = {}
        for d in ("vh", pkg):
            for f in glob.glob(os.path.join(HERE, "harness", d, "*.go")):
                repl[os.path.join(REPO, "zz_verif", d, os.path.basename(f))] = f
        ov = os.path.join(self.work, "overlay-%s.json" % pkg)
        json.dump({"Replace": repl}, open(ov, "w"))
        # go.mod and go.sum are used through copies: the build never writes in /repo
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), os.path.join(self.work, f))
        cmd = [GO, "test", "-c", "-vet=off", "-overlay", ov, "-modfile", os.path.join(self.work, "go.mod"), "-o", out]
        if race:
            cmd.append("-race")
        cmd.append("./zz_verif/" + pkg)
        r = subprocess.run(cmd, cwd=REPO, env=self.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise Fail("harness build failed:\n" + r.stdout[-4000:])
        return out

    def program(self, path):
        """Builds a main package of /repo."""
        out = os.path.join(self.work, "prog-" + path.replace("/", "_"))
        if not os.path.exists(out):
            for f in ("go.mod", "go.sum"):
                shutil.copy(os.path.join(REPO, f), os.path.join(self.work, f))
            r = subprocess.run([GO, "build", "-modfile", os.path.join(self.work, "go.mod"), "-o", out, "./" + path], cwd=REPO,
                               env=self.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise Fail("build of %s failed:\n%s" % (path, r.stdout[-4000:]))
        return out

    def execute(self, unit, ops, tag=""):
        u = UNITS[unit]
        b = self.build(u["pkg"], u.get("race", False))
        out = os.path.join(self.work, "trace-%s%s.ndjson" % (unit, tag))
        racelog = os.path.join(self.work, "race-%s%s" % (unit, tag))
        env = self.goenv()
        env.update(VH_UNIT=u.get("name", unit), VH_OPS=ops or "", VH_RAND=str(self.pick(u.get("rand", 0))),
                   VH_OUT=out, VH_SEED=str(self.seed), VH_TIER=self.tier, VH_PROP=self.prop,
                   GORACE="halt_on_error=0 exitcode=0 log_path=%s" % racelog)
        env.update({k: str(self.pick(v)) for k, v in u.get("env", {}).items()})
        for k, path in u.get("progs", {}).items():
            env[k] = self.program(path)
        lim = self.pick(u.get("timeout", (600, 3000)))
        sd = os.path.join(self.work, "run"); os.makedirs(sd, exist_ok=True)
        try:
            r = subprocess.run([b, "-test.run", "^TestVerif$", "-test.timeout", "%ds" % lim], cwd=sd, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=lim + 30)
            rc, err = r.returncode, (r.stdout + r.stderr).decode("utf8", "replace")
        except subprocess.TimeoutExpired as x:
            raise Fail("harness %s did not finish within %d s" % (unit, lim))
        open(os.path.join(self.work, "run-%s%s.log" % (unit, tag)), "w").write(err)
        abnormal = None
        if rc == 1 and u.get("race") and glob.glob(racelog + "*") and "race detected during execution" in err:
            rc = 0
        if rc not in (0, 3):
            m = re.search(r"(fatal error: [^\n]*|panic: [^\n]*)", err)
            if m and "test timed out" not in m.group(1) and "out of memory" not in m.group(1):
                abnormal = re.sub(r'[^ -~]|["\\]', " ", m.group(1))[:120]
            else:
                raise Fail("harness %s failed (rc %s)\n%s" % (unit, rc, err[-4000:]))
        races = glob.glob(racelog + "*")
        lines = []
        if os.path.exists(out):
            for l in open(out):
                l = l.strip()
                try:
                    json.loads(l); lines.append(l)
                except Exception:
                    pass
        hang = rc == 3
        if abnormal:
            hdr = json.loads(lines[0])["h"] if lines else {"u": 0}
            lines.append(json.dumps({"h": hdr, "ev": [{"op": "FATAL", "msg": abnormal}]}))
        if races:
            txt = open(races[0]).read()
            fr = re.findall(r"^  ([\w./()*\-]+)\(", txt, re.M)
            hdr = json.loads(lines[0])["h"] if lines else {"u": 0}
            lines.append(json.dumps({"h": hdr, "ev": [{"op": "RACE", "msg": ("data race " + " ".join(fr[:4]))[:160]}]}))
        with open(out, "w") as f:
            for l in lines:
                f.write(l + "\n")
        return out, len(lines), err, (abnormal is not None or hang)

    # ---- trace validation -------------------------------------------------
    def validate(self, unit, trace, count=True):
        u = UNITS[unit]
        traces = [json.loads(l) for l in open(trace)]
        if not traces:
            raise Fail("unit %s recorded no trace" % unit)
        total = sum(len(t["ev"]) + 1 for t in traces)
        mod = u["spec"]
        consts = {"TwoPi": 6283185, "One": 1000000, "Tol": 3}
        consts.update(u.get("consts", {}))
        cfg = os.path.join(self.work, "spec", "%s-%s.cfg" % (mod, unit))
        with open(cfg, "w") as f:
            f.write("INIT TInit\nNEXT TNext\nINVARIANT NoBad\nCHECK_DEADLOCK FALSE\nCONSTANTS\n")
            f.write("  Init0 <- TraceInit0\n  Step <- TraceStep\n")
            for k, v in consts.items():
                f.write("  %s = %s\n" % (k, v))
        rc, txt, gen, dist = self.tlc(mod, os.path.basename(cfg), env={"TRACE": trace, "PROP": self.prop},
                                      workers=8, timeout=850 if self.ti == 0 else 3600, name="trace-" + unit)
        kf = {}
        for m in re.finditer(r'<<"KF", (\d+), (\d+), "([^"]*)">>', txt):
            kf.setdefault(m.group(3), (int(m.group(1)), int(m.group(2))))
        m = re.search(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"(.*?)"\s*>>', txt, re.S)
        if m:
            return traces, (int(m.group(1)), int(m.group(2)), m.group(3)), kf
        if rc in (75, 76):
            # a recorded step on which the specification is not even defined
            w = re.findall(r"/\\ t = (\d+)", txt), re.findall(r"/\\ i = (\d+)", txt)
            if w[0] and w[1] and int(w[1][-1]) < len(traces[int(w[0][-1]) - 1]["ev"]):
                return traces, (int(w[0][-1]), int(w[1][-1]) + 1, "outside the domain of the specification"), kf
        if rc != 0:
            raise Fail("validation of %s failed (rc %s)\n%s" % (unit, rc, txt[-4000:]))
        if dist != total:
            raise Fail("validation of %s visited %d states, expected %d" % (unit, dist, total))
        if count:
            self.cov["trace_states"] += dist
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["traces_validated_against_impl"] += len(traces)
            hist = self.cov["events"]
            for t in traces:
                for e in t["ev"]:
                    hist[e["op"]] = hist.get(e["op"], 0) + 1
            if len(self.cov["samples"]) < 4:
                s = json.dumps(min(traces, key=lambda t: abs(len(t["ev"]) - 4)))
                self.cov["samples"].append({"unit": unit, "trace": s[:900]})
            self.cov["units"].append({"unit": unit, "traces": len(traces), "events": total - len(traces)})
            log("  unit %s: %d traces, %d events accepted" % (unit, len(traces), total - len(traces)))
        return traces, None, kf

    def violation(self, unit, trace, pos, why):
        rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "%s-%s-%d.json" % (self.prop, unit, self.seed))
        json.dump({"property": self.prop, "unit": unit, "seed": self.seed, "tier": self.tier, "event": pos,
                   "why": why, "trace": trace}, open(p, "w"), indent=1)
        ev = trace["ev"][pos - 1] if 0 < pos <= len(trace["ev"]) else None
        log("  rejected event %d of unit %s: %s" % (pos, unit, why))
        log("  event: %s" % json.dumps(ev)[:1500])
        log("VIOLATION property=%s replay=%s" % (self.prop, p))
        self.violations.append(p)

    def run_unit(self, unit):
        u = UNITS[unit]
        ops = None
        if u.get("gens"):
            ops = os.path.join(self.work, "ops-%s.ndjson" % unit)
            for g in u["gens"]:
                if self.ti >= g.get("tier_min", 0):
                    self.gen(g, ops)
        trace, n, err, abn = self.execute(unit, ops)
        traces, bad, kf = self.validate(unit, trace)
        if bad and traces[bad[0] - 1]["ev"][bad[1] - 1]["op"] == "HANG":
            # a hang is believed only if it shows again
            for again in range(2):
                trace2, n, err, abn = self.execute(unit, ops, "-again%d" % again)
                traces2, bad2, kf2 = self.validate(unit, trace2, count=False)
                if bad2:
                    traces, bad = traces2, bad2
                    break
            else:
                raise Fail("not reproduced: %s" % (bad,))
        for k, where in kf.items():
            self.kfs.setdefault(k, (unit, where))
        if bad:
            self.violation(unit, traces[bad[0] - 1], bad[1], bad[2])

    def known(self):
        path = os.path.join(HERE, "known-findings.json")
        listed = {f["id"]: f for f in json.load(open(path))["findings"] if "id" in f}
        for k, (unit, where) in sorted(self.kfs.items()):
            f = listed.get(k)
            if f and self.prop in f["properties"]:
                log("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
            else:
                trace = [json.loads(l) for l in open(os.path.join(self.work, "trace-%s.ndjson" % unit))][where[0] - 1]
                self.violation(unit, trace, where[1], "unlisted deviation " + k)

    def run(self):
        P = PROPS[self.prop]
        # (measuring the checks against changed code skips the models, which do not depend on it)
        for m in P.get("mc", []) if not os.environ.get("VERIF_SKIP_MODELS") else []:
            self.mc(*m)
        for unit in P["units"]:
            if self.ti < UNITS[unit].get("tier_min", 0):
                continue
            self.run_unit(unit)
            if self.violations:
                break
        self.known()

    def evidence(self):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        P = PROPS[self.prop]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations),
              "assumptions": P.get("assumptions", []) + [
                  "observations are compared in units of 1e-6 with a tolerance of a few units unless the spec says otherwise",
                  "the model is exhaustive only within the constants of its configuration"]}
        json.dump(ev, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1)

def replay(path):
    r = json.load(open(path))
    c = Check(r["property"], r["tier"], r["seed"], False)
    try:
        # 1. the recorded trace is still rejected by the specification
        p = os.path.join(c.work, "replayed.ndjson")
        open(p, "w").write(json.dumps(r["trace"]) + "\n")
        _, bad, _ = c.validate(r["unit"], p, count=False)
        log("recorded trace: %s" % ("rejected, " + bad[2] if bad else "accepted by the specification"))
        # 2. the same cases on the current tree
        c.run_unit(r["unit"])
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    return 1 if c.violations else 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--unit")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    c = Check(a.prop, a.tier, a.seed, a.keep)
    rc = 2
    try:
        if a.unit:
            c.run_unit(a.unit); c.known()
        else:
            c.run()
            c.evidence()
        rc = 1 if c.violations else 0
        log("%s %s: %s in %.1f s (%d traces)" % (a.prop, a.tier, "HELD" if rc == 0 else "BROKEN", time.time() - c.t0,
                                           c.cov["traces_validated_against_impl"]))
    except Fail as x:
        log("CHECK-ERROR %s: %s" % (a.prop, x))
    finally:
        if a.keep:
            log("kept " + c.work)
        else:
            shutil.rmtree(c.work, ignore_errors=True)
    return rc

if __name__ == "__main__":
    sys.exit(main())
