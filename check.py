#!/usr/bin/env python3
"""Decide one property: python3 check.py <ID>.   VERIF_SEED, VERIF_TIER=quick|thorough.

Stages (see checks.json):
  mc    TLC explores a bounded model of the specification and checks its invariants
  gen   TLC enumerates (or samples) behaviours of the specification for replay
  drv   the Go driver, built from /repo's working tree, executes behaviours and random scenarios
        on the real code and records traces
  val   TLC accepts or rejects every recorded trace against the specification
Only a rejected trace of the real code is a violation (exit 1); anything else that goes wrong is exit 2.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
SPEC = os.path.join(HERE, "spec")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
GO = "/opt/veriftools/go1.27.3/bin/go"
if not os.path.exists(GO):
    GO = "go"


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, case=None, detail=""):
        Exception.__init__(self, what)
        self.what, self.case, self.detail = what, case, detail


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off",
             GOCACHE=os.path.join(BUILD, "gocache"))
    e["PATH"] = os.path.dirname(GO) + ":" + e.get("PATH", "") if "/" in GO else e.get("PATH", "")
    return e


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              universal_newlines=True, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        raise CheckError("timeout after %ds: %s" % (timeout, " ".join(cmd)[:200]))


def build_java():
    out = os.path.join(BUILD, "java")
    os.makedirs(out, exist_ok=True)
    srcs = sorted(glob.glob(os.path.join(HERE, "java", "*.java")))
    if all(os.path.exists(os.path.join(out, os.path.basename(s)[:-5] + ".class")) and
           os.path.getmtime(os.path.join(out, os.path.basename(s)[:-5] + ".class")) >= os.path.getmtime(s) for s in srcs):
        return
    p = run(["javac", "-cp", CP, "-d", out] + srcs, 120)
    if p.returncode:
        raise CheckError("javac: " + p.stderr[-2000:])


def build_go(race=False):
    out = os.path.join(BUILD, "drv-race" if race else "drv")
    cmd = [GO, "build"] + (["-race"] if race else []) + ["-o", out, "."]
    env = goenv()
    if race:
        env["CGO_ENABLED"] = "1"
    p = run(cmd, 600, cwd=os.path.join(HERE, "harness"), env=env)
    if p.returncode:
        raise CheckError("go build: " + p.stderr[-3000:])
    return out


class Ctx:
    def __init__(self, pid, tmp, seed, tier):
        self.pid, self.tmp, self.seed, self.tier = pid, tmp, seed, tier
        self.lock = threading.Lock()
        self.states = self.transitions = self.cases = self.events = 0
        self.samples, self.mc, self.gens = [], [], {}
        self.nmeta = 0

    def tlc(self, module, cfg, consts=None, extra=(), timeout=600, env=None, workers=8, heap="6g"):
        with self.lock:
            self.nmeta += 1
            meta = os.path.join(self.tmp, "meta%d" % self.nmeta)
        cfgpath = os.path.join(SPEC, cfg + ".cfg")
        if consts:
            s = open(cfgpath).read()
            for k, v in consts.items():
                s, n = re.subn(r"\b%s = .*" % re.escape(k), "%s = %s" % (k, v), s)
                if n != 1:
                    raise CheckError("constant %s not in %s" % (k, cfg))
            cfgpath = meta + ".cfg"
            open(cfgpath, "w").write(s)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss900m", "-Xmx" + heap, "-Djava.io.tmpdir=" + self.tmp, "-cp", os.path.join(BUILD, "java") + ":" + CP,
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfgpath]
        cmd += list(extra) + [module + ".tla"]
        p = run(cmd, timeout, cwd=SPEC, env=e)
        p.stdout = "\n".join(l for l in p.stdout.splitlines() if not re.match("(Loading|Parsing|Semantic|Linting) ", l))
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated(?: \([\d,]+ s/min\))?, ([\d,]+) distinct states found", p.stdout)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if not m:
            m = re.findall(r"Progress.*?: ([\d,]+) states checked", p.stdout) or re.findall(r"([\d,]+) states checked", p.stdout)
            gen = dist = int(m[-1].replace(",", "")) if m else 0
        with self.lock:
            self.states += dist
            self.transitions += gen
        return p, gen, dist

    # -- stages ---------------------------------------------------------------------------
    def opt(self, st, k, default=None):
        v = st.get(k, default)
        return v

    def merged(self, st):
        st = dict(st)
        if self.tier == "thorough" and "thorough" in st:
            th = st.pop("thorough")
            for k, v in th.items():
                if k == "consts" and "consts" in st:
                    v = dict(st["consts"], **v)
                st[k] = v
        return st

    def do_mc(self, st):
        st = self.merged(st)
        extra = []
        if "simulate" in st:
            extra = ["-simulate", "num=%d" % st["simulate"], "-depth", str(st.get("depth", 100)), "-seed", str(self.seed)]
        t = time.time()
        p, gen, dist = self.tlc(st["module"], st.get("cfg", st["module"]), st.get("consts"), extra,
                                timeout=st.get("timeout", 800), workers=st.get("workers", 4))
        if st.get("refute"):   # a deliberately wrong variant, which TLC has to refute
            if p.returncode != 12:
                raise CheckError("model %s: wrong variant not refuted (TLC exit %d)\n%s" % (st["module"], p.returncode, p.stdout[-3000:]))
            with self.lock:
                self.mc.append("%s%s: wrong variant, refuted as it should" % (st["module"], json.dumps(st.get("consts", {}))))
            return
        if p.returncode != 0:
            raise CheckError("model %s: TLC exit %d\n%s" % (st["module"], p.returncode, p.stdout[-3000:]))
        with self.lock:
            self.mc.append("%s%s: %d distinct states, %d generated, %.1fs%s" % (
                st["module"], json.dumps(st.get("consts", {})), dist, gen, time.time() - t,
                " (random simulation)" if extra else " (exhaustive)"))

    def do_gen(self, st):
        st = self.merged(st)
        extra = []
        if "simulate" in st:
            extra = ["-simulate", "num=%d" % st["simulate"], "-depth", str(st.get("depth", 100)), "-seed", str(self.seed)]
        p, gen, dist = self.tlc(st["module"], st.get("cfg", "Gen" + st["module"]), st.get("consts"), extra,
                                timeout=st.get("timeout", 600), workers=st.get("workers", 6))
        if p.returncode != 0:
            raise CheckError("generator %s: TLC exit %d\n%s" % (st["module"], p.returncode, p.stdout[-3000:]))
        beh = set()
        for line in p.stdout.splitlines():
            if line.startswith('"GEN '):
                beh.add(json.loads(line)[4:])
        if not beh:
            raise CheckError("generator %s produced nothing\n%s" % (st["module"], p.stdout[-2000:]))
        path = os.path.join(self.tmp, st["name"] + ".gen.json")
        open(path, "w").write("[" + ",\n".join(sorted(beh)) + "]")
        self.gens[st["name"]] = path
        with self.lock:
            self.mc.append("%s: %d behaviours generated for replay" % (st["module"], len(beh)))

    def do_drv(self, st, rnd):
        st = self.merged(st)
        race = st.get("race", False)
        drv = os.path.join(BUILD, "drv-race" if race else "drv")
        out = os.path.join(self.tmp, "trace-%s-%d.json" % (st["suite"], rnd))
        cmd = [drv, "-suite", st["suite"], "-seed", str(self.seed + 1000003 * rnd), "-tier", self.tier, "-out", out]
        if "gen" in st:
            cmd += ["-in", self.gens[st["gen"]]]
        cmd += st.get("args", [])
        env = goenv()
        env.update(GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0", GOMEMLIMIT="3GiB", GOGC="1500")
        p = run(cmd, st.get("timeout", 600), env=env, cwd=HERE)
        if p.returncode != 0:
            cur = [l for l in p.stderr.splitlines() if l.startswith("CASE ")]
            detail = p.stderr[:6000]
            if p.returncode == 66 and "DATA RACE" in p.stderr:
                raise Violation("data race", {"id": st["suite"], "seed": self.seed, "race": detail}, detail)
            if p.returncode == 2 and "goroutine" in p.stderr and "gosu-pp" in p.stderr:
                q = run(cmd, st.get("timeout", 600), env=env, cwd=HERE)   # reproduce before believing it
                if q.returncode == 2 and "goroutine" in q.stderr and "gosu-pp" in q.stderr:
                    raise Violation("the code brought the process down", {"id": st["suite"], "crash": detail}, detail)
            raise CheckError("driver %s: exit %d\n%s" % (st["suite"], p.returncode, p.stderr[-3000:]))
        m = re.search(r"cases (\d+) events (\d+)", p.stdout)
        if m:
            self.cases += int(m.group(1))
            self.events += int(m.group(2))
        return out

    def do_val(self, st, trace):
        st = self.merged(st)
        p, gen, dist = self.tlc(st["module"], st.get("cfg", st["module"]), None, (), timeout=st.get("timeout", 800),
                                env={"TRACE_FILE": trace}, heap="10g")
        if p.returncode == 0:
            return
        out = p.stdout
        bad = p.returncode in (11, 12) or (p.returncode in (75, 76) and "OutOfMemory" not in out and "StackOverflow" not in out)
        if not bad:
            at = out.find("Error: ")
            raise CheckError("acceptor %s: TLC exit %d\n%s" % (st["module"], p.returncode, out[at:at + 2500] if at >= 0 else out[-3000:]))
        cases = json.load(open(trace))
        cs = re.findall(r"^/\\ c = (\d+)", out, re.M)
        case = cases[int(cs[-1]) - 1] if cs else None
        ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
        mm = [l for l in out.splitlines() if "MISMATCH" in l]
        # several workers may report; the message printed last belongs to some rejected case
        what = mm[0][:400] if mm else ("deadlock: no specification step explains the next event" if p.returncode == 11
                                        else "trace cannot be explained")
        raise Violation(what, {"suite": st["module"], "seed": self.seed, "tier": self.tier, "event": ls[-1] if ls else None,
                               "mismatch": [l[:2000] for l in mm[:20]], "tlc": out[-4000:], "case": case})


def load():
    return json.load(open(os.path.join(HERE, "checks.json")))


def known(pid):
    """Lines of known_findings.txt: 'finding: property=<id> case=<regex on case id> <what>' (see DESIGN.md)."""
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3).strip()))
    return r


def main():
    pid = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if pid == "--setup":
        build_java()
        build_go()
        print("setup ok")
        return 0
    conf = load()[pid]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    ctx = Ctx(pid, tmp, seed, tier)
    viol = None
    try:
        with ThreadPoolExecutor(8) as ex:
            fj = ex.submit(build_java)
            fg = [ex.submit(build_go, r) for r in sorted({bool(s.get("race")) for s in conf["stages"] if s["kind"] == "drv"})]
            fj.result()
            mcs = [ex.submit(ctx.do_mc, s) for s in conf["stages"] if s["kind"] == "mc"]
            for f in fg:
                f.result()
            try:
                for s in conf["stages"]:
                    if s["kind"] == "gen":
                        ctx.do_gen(s)
                budget = conf.get("thorough_seconds", 420) if tier == "thorough" else 0
                rnd = 0
                while True:
                    for s in conf["stages"]:
                        if s["kind"] == "drv":
                            if rnd > 0 and s.get("once"):
                                continue
                            trace = ctx.do_drv(s, rnd)
                            ctx.do_val(s["val"], trace)
                            if rnd == 0 and len(ctx.samples) < 4:
                                for c in json.load(open(trace))[:: 10 ** 6][:1]:
                                    ctx.samples.append({"suite": s["suite"], "case": c["id"], "note": str(c.get("note", ""))[:600],
                                                        "in": json.dumps(c["in"])[:600],
                                                        "events": json.dumps(c["ev"][:2])[:1200]})
                            os.unlink(trace)
                    rnd += 1
                    if time.time() - t0 > budget:
                        break
            except Violation as v:
                viol = v
            for f in mcs:
                if viol is None:
                    f.result()
        ctx.rounds = rnd
    except CheckError as e:
        print("ERROR property=%s %s" % (pid, e), file=sys.stderr)
        shutil.rmtree(tmp, ignore_errors=True)
        return 2
    shutil.rmtree(tmp, ignore_errors=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": ctx.states, "transitions": ctx.transitions,
                       "traces_validated_against_impl": ctx.cases, "events_validated": ctx.events,
                       "models": ctx.mc, "samples": ctx.samples or ["none: stopped at a violation"],
                       "explanation": conf.get("explanation", "")},
          "assumptions": conf.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%d.json" % (pid, seed))
        json.dump({"property": pid, "what": viol.what, "replay": viol.case}, open(path, "w"), indent=1)
        print(viol.what[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for pat, what in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("OK property=%s tier=%s seed=%d: %d model states, %d traces (%d events) of the real code accepted, %.1fs" % (
        pid, tier, seed, ctx.states, ctx.cases, ctx.events, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
