"""Build the harness, run schedules through it, let TLC decide the recorded histories."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class ToolError(Exception):
    pass


def sh(cmd, timeout=600, env=None, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                          env=env, cwd=cwd, errors="replace")


def java_cp():
    d = os.path.dirname(JAR)
    jars = [JAR] + sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar") and f != os.path.basename(JAR))
    return ":".join(jars)


def build(profile="debug"):
    """cargo build of the harness against /repo's working tree; returns the binary"""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
    target = os.environ.get("VERIF_TARGET", os.path.join(HARNESS, "target"))
    env["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "build", "--offline", "-q"] + (["--release"] if profile == "release" else [])
    where = HARNESS
    if REPO != "/repo":
        # development only: the same harness against another checkout
        where = os.path.join(target, "harness-src-" + profile)
        shutil.rmtree(where, ignore_errors=True)
        os.makedirs(target, exist_ok=True)
        shutil.copytree(HARNESS, where, ignore=shutil.ignore_patterns("target"))
        for f in ("Cargo.toml", "churn/Cargo.toml"):
            t = open(os.path.join(where, f)).read().replace('path = "/repo"', 'path = "%s"' % REPO)
            open(os.path.join(where, f), "w").write(t)
    for attempt in (1, 2):
        p = sh(cmd, timeout=800, env=env, cwd=where)
        if p.returncode == 0:
            break
    else:
        raise ToolError("harness build failed:\n" + p.stdout[-4000:])
    src = os.path.join(target, profile, "harness")
    return src


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))


STALL = 40          # seconds without a new event: the call under test does not come back


def _start(binary, sched, out, err, start):
    return subprocess.Popen([binary, sched, out, str(start)], stdout=subprocess.DEVNULL, stderr=err, preexec_fn=_limits,
                            env=dict(os.environ, RUST_BACKTRACE="0"))       # a backtrace of a refused allocation takes a second


def _nomem(p, out, err):
    """the process ended with Rust's allocation error after a refused allocation: that is an event of the history, the
    next one gets a process of its own. Returns its number."""
    if p.returncode != -6:
        return None
    err.seek(0)
    msg = err.read()
    err.seek(0)
    err.truncate()
    if b"memory allocation of" not in msg:
        err.write(msg)
        err.flush()
        return None
    with open(out, "rb+") as f:
        size = f.seek(0, 2)
        f.seek(max(0, size - 65536))
        tail = f.read().decode(errors="replace")
        lines = tail.splitlines()
        heads = [x for x in lines if x.startswith('{"o":"H"')]
        if not heads or not tail.endswith("\n") or '"refused"' not in lines[-1]:
            return None
        f.write(b'{"o":"nomem","r":"nomem"}\n')
    return json.loads(heads[-1])["i"] + 1


def _chunk(binary, hists, work, tag):
    """one harness process; returns (list of traces, died)"""
    sched = os.path.join(work, tag + ".sched")
    out = os.path.join(work, tag + ".out")
    with open(sched, "w") as f:
        for kind, name, params, lines in hists:
            f.write("%s %s %s\n" % (kind, name, params))
            f.write("\n".join(lines))
            f.write("\n")
    with open(out, "w"):
        pass
    err = open(os.path.join(work, tag + ".err"), "w+b")
    start = 0
    p = _start(binary, sched, out, err, start)
    size, since, why = -1, time.time(), None
    while True:
        try:
            p.wait(0.1)
            start = _nomem(p, out, err)
            if start is None:
                break
            p = _start(binary, sched, out, err, start)
        except subprocess.TimeoutExpired:
            pass
        n = os.path.getsize(out)
        if n != size:
            size, since = n, time.time()
        elif time.time() - since > STALL:
            p.kill()
            p.wait()
            why = "hang"
            break
    if why is None and p.returncode != 0:
        err.seek(0)
        msg = err.read().decode(errors="replace")
        if "HARNESS-ERROR" in msg:
            raise ToolError("harness: " + msg[-500:])
        why = "crash"
    err.close()
    with open(out, "rb") as f:
        data = f.read()
    if why:
        data = data[:data.rfind(b"\n") + 1]
    res, cur, begun = [], None, 0
    for line in data.decode().splitlines():
        if line.startswith('{"o":"H"'):
            h = json.loads(line)
            cur = dict(name=h["name"], ev=[], hist=hists[h["i"]])
            res.append(cur)
            worlds, begun = {1: cur}, begun + 1
        elif line.startswith('{"o":"E"'):
            continue
        elif line[0] == "W":
            # one of several stores: a trace of its own
            k, line = int(line[1]), line[2:]
            if k not in worlds:
                worlds[k] = dict(worlds[1], name="%s#%d" % (worlds[1]["name"], k), ev=[])
                res.append(worlds[k])
            cur = worlds[k]
            cur["ev"].append(line)
        else:
            cur["ev"].append(line)
    if why:
        if cur is None:
            raise ToolError("harness ended before the first history (%s, %s)" % (why, tag))
        cur["ev"].append('{"o":"%s","r":"%s"}' % (why, why))
    elif begun != len(hists):
        raise ToolError("harness reported %d of %d histories" % (begun, len(hists)))
    os.remove(out)
    os.remove(sched)
    return res, why


def run_harness(binary, hists, work, tag, jobs=6):
    """hists: list of (kind, name, params, [lines]). Returns list of dicts {name, ev, hist}. A history that ends the
    process or does not come back ends its chunk with a crash / hang event, which no specification accepts."""
    from concurrent.futures import ThreadPoolExecutor
    if not hists:
        return []
    jobs = min(jobs, len(hists))
    # spread by size
    order = sorted(range(len(hists)), key=lambda i: -len(hists[i][3]))
    chunks = [[hists[i] for i in order[k::jobs]] for k in range(jobs)]
    with ThreadPoolExecutor(jobs) as ex:
        parts = list(ex.map(lambda k: _chunk(binary, chunks[k], work, "%s_%d" % (tag, k)), range(jobs)))
    return [t for p in parts for t in p[0]]


def tlc(module, cfg_text, work, env=None, workers=8, timeout=600, deadlock=True, extra=(), heap="6g"):
    """runs TLC on spec/<module>.tla; returns dict(code, out, generated, distinct)"""
    tag = "%s_%d" % (module, int(time.time() * 1e6))
    cfg = os.path.join(work, tag + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    meta = os.path.join(work, tag + ".meta")
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + work, "-cp", java_cp(), "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = sh(cmd, timeout=timeout, env=e, cwd=work)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return dict(code=p.returncode, out=p.stdout, generated=gen, distinct=dist, cfg=cfg)


def model(module, cfg_text, work, expect_ok=True, **kw):
    """exhaustive check of a design model; a failure here is an error of the specification"""
    r = tlc(module, cfg_text, work, **kw)
    if expect_ok and (r["code"] != 0 or r["distinct"] == 0):
        raise ToolError("model %s: TLC code %d\n%s" % (module, r["code"], r["out"][-3000:]))
    return r


class Rejected(Exception):
    def __init__(self, info):
        Exception.__init__(self, str(info)[:200])
        self.info = info


def validate(module, cfg_text, traces, work, tag, workers=8, timeout=3600):
    """TLC accepts every history or Rejected is raised. Returns (states, generated, known cases met)."""
    total = 0
    if not traces:
        raise ToolError("no histories recorded for " + tag)
    path = os.path.join(work, tag + ".ndjson")
    # long histories first, for an even load
    traces = sorted(traces, key=lambda t: -len(t["ev"]))
    with open(path, "w") as f:
        for t in traces:
            f.write('{"name":"%s",%s"ev":[%s]}\n' % (t["name"], t.get("extra", ""), ",".join(t["ev"])))
            total += len(t["ev"]) + 1
    r = tlc(module, cfg_text, work, env={"TRACE": path}, workers=workers, timeout=timeout, deadlock=True)
    out = r["out"]
    if r["code"] == 0:
        if r["distinct"] != total:
            raise ToolError("%s: %d distinct states for %d events: histories were not all followed"
                            % (tag, r["distinct"], total))
        os.remove(path)
        notes = set(re.findall(r'^"KNOWN (.*)"$', out, re.M))
        return r["distinct"], r["generated"], notes
    # any failure while following a history: find the last state of the error trace
    tl = re.findall(r"tid = (\d+)", out), re.findall(r"\bl = (\d+)", out)
    if r["code"] in (11, 12, 13) and tl[0] and tl[1]:
        t = traces[int(tl[0][-1]) - 1]
        pos = int(tl[1][-1])
        why = "no transition of the specification explains the event" if r["code"] == 11 else "invariant broken"
        raise Rejected(dict(trace=t, pos=pos, why=why, tlc=_tail(out)))
    # evaluation errors (an observation outside the domain of the specification) are rejections too,
    # if TLC can still tell where
    m = re.findall(r"\bl = (\d+)", out)
    if tl[0] and m and ("evaluating" in out or "applied to an argument" in out or "Attempted" in out):
        t = traces[int(tl[0][-1]) - 1]
        raise Rejected(dict(trace=t, pos=int(m[-1]), why="event outside the specification's domain", tlc=_tail(out)))
    raise ToolError("TLC code %d on %s\n%s" % (r["code"], tag, out[-3000:]))


def _tail(out):
    i = out.find("Error:")
    return out[i:i + 3000]


TRACE_CFG = """SPECIFICATION TraceSpec
INVARIANT TraceOK
ALIAS Short
CHECK_DEADLOCK TRUE
"""


def short(s, n=300):
    return s if len(s) <= n else s[:n] + "... (%d characters)" % len(s)


class Check:
    """one property check: collects coverage, writes evidence, prints the verdict"""

    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], events_validated=0,
                        models=[], histories_by_build={}, exhaustive_models=[])
        self.assumptions = []
        self.known = set()      # cases of listed findings that were met

    thorough = property(lambda s: s.tier == "thorough")

    def add_model(self, name, r, note):
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["models"].append(dict(model=name, distinct_states=r["distinct"], generated=r["generated"], what=note))

    def add_traces(self, module, traces, states, generated):
        self.cov["states"] += states
        self.cov["transitions"] += sum(len(t["ev"]) for t in traces)
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["events_validated"] += sum(len(t["ev"]) for t in traces)
        k = self.cov["histories_by_build"]
        for t in traces:
            k[t["build"]] = k.get(t["build"], 0) + 1
        ops = self.cov.setdefault("events_by_kind", {})
        for t in traces:
            for e in t["ev"]:
                o = e[6:e.index('"', 6)]
                ops[o] = ops.get(o, 0) + 1
        if len(self.cov["samples"]) < 3:
            t = min(traces, key=lambda t: abs(len(t["ev"]) - 12))
            self.cov["samples"].append(dict(history=t["name"], schedule=[short(x) for x in t["hist"][3][:12]],
                                            events=[json.loads(e) if len(e) < 1500 else short(e) for e in t["ev"][:6]]))

    def check_traces(self, module, cfg, traces, label):
        try:
            s, g, notes = validate(module, cfg, traces, self.work, label)
        except Rejected as r:
            r.info["module"] = module
            raise
        self.add_traces(module, traces, s, g)
        self.known |= notes

    def evidence(self, violations):
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = dict(property=self.pid, tier="thorough" if self.thorough else "quick", seed=self.seed,
                  level="model_checking", coverage=self.cov, wall_s=round(time.time() - self.t0, 2),
                  violations=violations, assumptions=self.assumptions)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def violation(self, info, name=None):
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % (name or self.pid))
        t = info["trace"]
        pos = info["pos"]
        ev = t["ev"][pos - 1] if pos <= len(t["ev"]) else None
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, why=info["why"], module=info["module"], build=t.get("build"), history=t["name"],
                           kind=t["hist"][0], params=t["hist"][2], schedule=t["hist"][3], rejected_event=pos,
                           event=json.loads(ev) if ev else None,
                           accepted_events=[json.loads(e) for e in t["ev"][max(0, pos - 12):pos - 1]],
                           tlc=info["tlc"]), f, indent=1)
        print("history %s, event %d: %s" % (t["name"], pos, (ev or "")[:400]))
        print("  " + info["why"])
        print("VIOLATION property=%s replay=%s" % (self.pid, path))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)
