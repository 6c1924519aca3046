"""Shared plumbing of the checks: build the harness, run TLC, compare, report."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(VERIF, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar"

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "nightly-2025-12-01"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["RUST_BACKTRACE"] = "0"
    for k in ("RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "SAVE_TO_EXPECTED"):
        e.pop(k, None)
    e["CARGO_TARGET_DIR"] = TARGET
    return e


def repo_hash():
    h = hashlib.sha256()
    paths = [os.path.join(REPO, "Cargo.toml")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        paths += [os.path.join(d, f) for f in fs]
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def build(profile="dev", rustflags=None, target=None, tdir=None, crate="harness", extra=()):
    """Build the harness against /repo's current tree; returns the artifact directory."""
    e = env()
    tdir = tdir or TARGET
    e["CARGO_TARGET_DIR"] = tdir
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, ".lock-verif"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # cargo decides staleness by time stamps; a tree with other contents but older stamps
        # must be rebuilt as well.
        stamp = os.path.join(tdir, ".repo-hash-%s-%s" % (crate, profile))
        h = repo_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        cwd = os.path.join(VERIF, crate)
        if old is not None and old != h:
            subprocess.run(["cargo", "clean", "--offline", "-p", "ozz-animation-rs"] + (["--target", target] if target else []) +
                           (["--profile", profile] if profile != "dev" else []),
                           cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.unlink(stamp)
        cmd = ["cargo", "build", "--offline", "--quiet"]
        if profile != "dev":
            cmd += ["--profile", profile]
        if target:
            cmd += ["--target", target]
        cmd += list(extra)
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("harness build failed:\n" + "\n".join(x for x in re.split(r"\n(?=warning|error)", r.stdout) if not x.startswith("warning"))[-4000:])
        with open(stamp, "w") as f:
            f.write(h)
    d = tdir
    if target:
        d = os.path.join(d, target)
    return os.path.join(d, "debug" if profile == "dev" else profile)


def workdir(pid):
    d = os.path.join(WORK, pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def tlc(spec, cfg, wd, envx=None, workers=8, timeout=600, extra=(), heap="6g"):
    """Run TLC; returns (returncode, output)."""
    e = dict(os.environ)
    for k in ("TRACE", "PLAN"):
        e[k] = ""
    e.update(envx or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    meta = os.path.join(wd, "tlc-" + os.path.splitext(os.path.basename(cfg))[0] + "-" + spec)
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + wd,
           "-cp", cp(), "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-nowarning"]
    cmd += list(extra) + [spec + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise ToolError("TLC timed out on %s" % spec)
    shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(wd, "tlc-%s-%s.log" % (spec, os.path.splitext(os.path.basename(cfg))[0])), "w") as f:
        f.write(r.stdout)
    return r.returncode, r.stdout


_cp = None


def cp():
    """Class path of the installed tlc wrapper (TLC + CommunityModules)."""
    global _cp
    if _cp is None:
        d = os.path.dirname(JAR)
        jars = sorted((f for f in os.listdir(d) if f.endswith(".jar")), key=lambda f: (f != "tla2tools.jar", f))
        _cp = ":".join(os.path.join(d, f) for f in jars)
    return _cp


def stats(out):
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(pid, spec, cfg, wd, ev, timeout=600, workers=8):
    """Exhaustive check of a design-level configuration; failure is an error of the model."""
    rc, out = tlc(spec, cfg, wd, timeout=timeout, workers=workers)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise ToolError("model %s/%s does not satisfy its invariants:\n%s" % (spec, cfg, out[-3000:]))
    g, d = stats(out)
    ev["models"].append({"spec": spec, "cfg": cfg, "states": d, "transitions": g})
    return d, g


def export_plan(spec, cfg, wd, name, workers=1, timeout=600):
    """Run a model with its labelled transitions printed; returns (plan json, edges)."""
    plan = os.path.join(wd, name)
    c = os.path.join(wd, "export-" + os.path.basename(cfg))
    shutil.copy(os.path.join(SPEC, cfg), c)
    with open(c, "a") as f:
        f.write("\nACTION_CONSTRAINT PrintEdge\n")
    rc, out = tlc(spec, c, wd, {"PLAN": plan}, workers=workers, timeout=timeout)
    if rc != 0:
        raise ToolError("plan export failed for %s/%s:\n%s" % (spec, cfg, out[-3000:]))
    edges = []
    for line in out.splitlines():
        if line.startswith('"EDGE '):
            p = line[6:-1].split("|")
            edges.append(p)
    return (json.load(open(plan)) if os.path.exists(plan) else None), edges


def export_json(spec, cfg, wd, name, timeout=600):
    """Run a specification whose ASSUME serialises its scenarios to IOEnv.PLAN."""
    plan = os.path.join(wd, name)
    rc, out = tlc(spec, cfg, wd, {"PLAN": plan}, workers=1, timeout=timeout)
    if rc != 0 or not os.path.exists(plan):
        raise ToolError("scenario export failed for %s/%s:\n%s" % (spec, cfg, out[-3000:]))
    return json.load(open(plan))


def tours(edges, start):
    """Walks covering every edge of a labelled graph: edges are (src, dst, label)."""
    adj, todo = {}, {}
    for s, d, a in edges:
        adj.setdefault(s, []).append((d, a))
        todo.setdefault(s, []).append((d, a))
    left = sum(len(v) for v in todo.values())
    walks, walk, cur = [], [], start
    while left:
        if todo.get(cur):
            d, a = todo[cur].pop()
            left -= 1
            walk.append(a)
            cur = d
            continue
        # nearest state with an uncovered edge
        prev, queue, seen, hit = {}, [cur], {cur}, None
        while queue and hit is None:
            nq = []
            for u in queue:
                for v, a in adj.get(u, ()):
                    if v not in seen:
                        seen.add(v)
                        prev[v] = (u, a)
                        if todo.get(v):
                            hit = v
                            break
                        nq.append(v)
                if hit:
                    break
            queue = nq
        if hit is None:
            walks.append(walk)
            if cur == start and not walk:
                raise ToolError("unreachable edges in tour")
            walk, cur = [], start
            continue
        path, v = [], hit
        while v != cur:
            u, a = prev[v]
            path.append(a)
            v = u
        walk += reversed(path)
        cur = hit
    walks.append(walk)
    return [w for w in walks if w]


def record(pid, suite, bindir, wd, trace, plan=None, timeout=600, extra=()):
    """Run the harness; a crash or hang of the code under test completes the scenario in flight."""
    cmd = [os.path.join(bindir, "ozzh"), suite, "--seed", str(SEED), "--tier", TIER, "--out", trace] + list(extra)
    if plan is not None:
        pf = trace + ".plan"
        json.dump(plan, open(pf, "w"))
        cmd += ["--plan", pf]
    e = env()
    try:
        r = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        raise ToolError("harness timed out on %s" % suite)
    if rc != 0:
        cur = trace + ".cur"
        if rc > 0 and rc not in (97, 101):
            raise ToolError("harness failed on %s (%s):\n%s" % (suite, rc, out[-3000:]))
        if rc == 101 or not os.path.exists(cur):
            # what a scenario is prepared with (archives to load, reference results to compute) did not
            # work: a failure of the code, unless the machine is to blame or it does not happen again
            r = subprocess.run(cmd, cwd=wd, env=dict(e, PANICS="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
            if r.returncode != rc or "Os {" in r.stdout or "memory allocation" in r.stdout:
                raise ToolError("harness failed on %s (%s):\n%s" % (suite, rc, r.stdout[-3000:]))
            print("%s: preparing a scenario failed: %s" % (suite, " | ".join(r.stdout.split("\n")[-6:])[:400]))
        if not os.path.exists(cur):
            json.dump({"id": 1, "kind": "setup", "cfg": {}, "ev": []}, open(cur, "w"))
        if not os.path.exists(trace):
            open(trace, "w").close()
        # drop a partial last line, then append the scenario in flight with a crash event
        lines = open(trace, errors="replace").read().split("\n")
        if lines and lines[-1]:
            lines[-1] = ""
        c = json.load(open(cur))
        c["ev"] = [{"op": "hang" if rc == 97 else "crash", "status": rc, "res": "crash"}]
        open(trace, "w").write("\n".join(lines) + json.dumps(c) + "\n")
    return out


def validate(pid, spec, trace, wd, ev, cfg="Trace.cfg", timeout=840, what=None):
    """TLC decides whether every recorded scenario is a behaviour of the specification."""
    rc, out = tlc(spec, cfg, wd, {"TRACE": trace}, timeout=timeout)
    scs = 0
    events = 0
    kinds = {}
    sample = None
    ops = {}
    with open(trace) as f:
        for line in f:
            s = json.loads(line)
            scs += 1
            events += len(s["ev"])
            kinds[s["kind"]] = kinds.get(s["kind"], 0) + 1
            for x in s["ev"]:
                k = "%s/%s" % (x.get("op"), x.get("res", "-"))
                ops[k] = ops.get(k, 0) + 1
            if sample is None or (s["id"] % 37 == SEED % 37 and len(ev["samples"]) < 3):
                sample = {"spec": spec, "kind": s["kind"], "first_events": [clip(x) for x in s["ev"][:3]]}
                if len(ev["samples"]) < 6:
                    ev["samples"].append(sample)
    g, d = stats(out)
    if rc == 0 and "No error has been found" in out:
        if d != scs + events:
            raise ToolError("%s consumed %d states, expected %d (vacuous trace?)" % (spec, d, scs + events))
        ev["validations"].append({"spec": spec, "scenarios": scs, "events": events, "by_kind": kinds, "by_result": ops, "states": d, "transitions": g})
        return
    bad_eval = "behavior up to this point" in out or "Evaluating" in out or "nested" in out
    if re.search(r"/\\ sc = \d+", out) and ("Deadlock reached" in out or bad_eval):
        m = re.findall(r"/\\ sc = (\d+)", out)
        k = re.findall(r"/\\ l = (\d+)", out)
        sc, l = int(m[-1]), int(k[-1])
        line = open(trace).read().split("\n")[sc - 1]
        s = json.loads(line)
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.json" % (pid, spec))
        s["rejected_event"] = l + 1
        s["spec"] = spec
        json.dump(s, open(rp, "w"))
        bad = s["ev"][l] if l < len(s["ev"]) else None
        raise Violation("%s: scenario %d (%s): event %d is not allowed by the specification: %s" %
                        (spec, sc, s["kind"], l + 1, json.dumps(clip(bad))[:1500]), rp)
    raise ToolError("TLC failed on %s:\n%s" % (spec, out[-3000:]))


def clip(x, n=12):
    if isinstance(x, list):
        r = [clip(y, n) for y in x[:n]]
        return r + ["... %d more" % (len(x) - n)] if len(x) > n else r
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in x.items()}
    return x


def known(pid):
    """Recorded, unrepaired defects of a property: [(key, what fails)]."""
    r = []
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            r.append((m.group(2), m.group(3).strip()))
    return r


def new_evidence():
    return {"models": [], "validations": [], "samples": [], "extra": {}}


def write_evidence(pid, ev, t0, level="model_checking", violations=0, assumptions=()):
    states = sum(m["states"] for m in ev["models"]) + sum(v["states"] for v in ev["validations"])
    trans = sum(m["transitions"] for m in ev["models"]) + sum(v["transitions"] for v in ev["validations"])
    cov = {
        "states": states,
        "transitions": trans,
        "traces_validated_against_impl": sum(v["scenarios"] for v in ev["validations"]),
        "events_validated": sum(v["events"] for v in ev["validations"]),
        "samples": ev["samples"] or [{"note": "violation before any trace was accepted"}],
        "models": ev["models"],
        "validations": ev["validations"],
    }
    cov.update(ev["extra"])
    d = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": level, "coverage": cov,
         "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
