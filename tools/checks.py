"""What each property's check runs."""
import json
import os
import random
import ozzlib as L

CHECKS = {}
THOROUGH = L.TIER == "thorough"


class Check:
    def __init__(self, pid, run, technique, note, assumptions=(), level="model_checking"):
        self.run, self.technique, self.note, self.assumptions, self.level = run, technique, note, list(assumptions), level
        CHECKS[pid] = self


def simple(pid, wd, ev, spec, suite=None, plan=None, cfg="Trace.cfg", name=None, extra=()):
    """Record a suite of the harness and let its trace specification judge it."""
    suite = suite or pid
    d = L.build()
    tr = os.path.join(wd, (name or suite) + ".ndjson")
    L.record(pid, suite, d, wd, tr, plan=plan, extra=extra)
    L.validate(pid, spec, tr, wd, ev, cfg=cfg)
    return tr


# ------------------------------------------------------------------------------ C01, C02 sampling

def sampling_plan(wd, cfg):
    """Tours covering every transition of the cache model."""
    plan, edges = L.export_plan("MCSampling", cfg, wd, "plan.json")
    by = {}
    for p in edges:
        by.setdefault(p[0], []).append((p[1], p[2], p[3]))
    scen = []
    for lst in sorted(by):
        start = None
        for e in by[lst]:
            if e[0].startswith("<<0, 0, 0, "):
                start = e[0]
                if set(start[len("<<0, 0, 0, "):]) <= set("<>, 0"):
                    break
        for walk in L.tours(sorted(set(by[lst])), start):
            steps = [[int(x) for x in a.strip("<>").split(",")] for a in walk]
            scen.append({"anims": plan[lst], "walk": steps})
    return {"scenarios": scen}, len(edges)


def c01(pid, wd, ev):
    d = L.build()
    L.model_check(pid, "MCSampling", "MCSampling.cfg", wd, ev)
    cfg = "MCSamplingPairs.cfg" if THOROUGH else "MCSamplingPairsQ.cfg"
    L.model_check(pid, "MCSampling", cfg, wd, ev)
    plan, n = sampling_plan(wd, "MCSampling.cfg")
    plan2, n2 = sampling_plan(wd, cfg)
    plan["scenarios"] += plan2["scenarios"]
    ev["extra"]["replayed_transitions"] = n + n2
    tr = os.path.join(wd, "trace.ndjson")
    L.record(pid, "C01", d, wd, tr, plan=plan)
    L.validate(pid, "TraceC01", tr, wd, ev)


def c02(pid, wd, ev):
    d = L.build()
    L.model_check(pid, "MCSampling", "MCSampling.cfg", wd, ev)
    plan, n = sampling_plan(wd, "MCSampling.cfg")
    ev["extra"]["replayed_transitions"] = n
    tr = os.path.join(wd, "trace.ndjson")
    L.record(pid, "C02", d, wd, tr, plan=plan)
    L.validate(pid, "TraceC02", tr, wd, ev)


SAMPLING_ASSUME = [
    "animations are laid out the way ozz's exporter does it (stream sorted by need time, then track)",
    "no animation is freed and another one allocated at the same address between two samples of one context",
]
Check("C01", c01, "TLA+ model of the keyframe cache (TLC, exhaustive) + replay of every model transition + TLC trace validation",
      "The cache cursor is model checked exhaustively for small clips; every transition of the model and random / recorded-clip histories are executed on the code and each recorded step must be a behaviour of the history-independence specification (bit-exact).",
      SAMPLING_ASSUME)
Check("C02", c02, "TLA+ model of key selection (TLC, exhaustive) + replay of every model transition + TLC trace validation",
      "Recorded poses are compared by TLC with the interpolation of the bracketing keys, for every ratio of every small clip, random clips and the recorded clips of the repository.",
      SAMPLING_ASSUME + ["values observed in units of 1/256 (translation, scale) and 1/4096 (rotation)"])


# ------------------------------------------------------------------------- C03, C04 user tracks

def c03(pid, wd, ev):
    d = L.build()
    cfg = "MCUserTrackT.cfg" if THOROUGH else "MCUserTrack.cfg"
    L.model_check(pid, "MCUserTrack", cfg, wd, ev)
    plan, edges = L.export_plan("MCUserTrack", cfg, wd, "plan.json")
    by = {}
    for p in edges:
        by.setdefault(p[0], set()).add((p[1], p[2], p[3]))
    scen = []
    for t in sorted(by):
        for walk in L.tours(sorted(by[t]), "-2"):
            scen.append({"track": plan[t], "walk": [int(x) for x in walk]})
    ev["extra"]["replayed_transitions"] = len(edges)
    tr = os.path.join(wd, "trace.ndjson")
    L.record(pid, "C03", d, wd, tr, plan={"scenarios": scen})
    L.validate(pid, "TraceC03", tr, wd, ev)


Check("C03", c03, "TLA+ model of key selection in user tracks (TLC, exhaustive) + replay of every model transition + TLC trace validation",
      "Every step/linear track on a small grid in every order of ratios, plus random tracks of all five value types, executed on the code; TLC compares each result with the selected key (bit-exact) or interpolation.",
      ["quaternion tracks have neighbouring keys in the same hemisphere, as ozz's track builder writes them", "first key at ratio 0"])


def c04(pid, wd, ev):
    d = L.build()
    L.model_check(pid, "MCTrigger", "MCTriggerT.cfg" if THOROUGH else "MCTrigger.cfg", wd, ev)
    L.model_check(pid, "MCTrigger", "MCTriggerDT.cfg" if THOROUGH else "MCTriggerD.cfg", wd, ev)
    plan = L.export_json("MCTrigger", "MCTriggerPlan.cfg", wd, "plan.json")
    plan["stride"] = 1 if THOROUGH else 5
    tr = os.path.join(wd, "trace.ndjson")
    L.record(pid, "C04", d, wd, tr, plan=plan)
    L.validate(pid, "TraceC04", tr, wd, ev)


Check("C04", c04, "TLA+ model of the triggering iterator (TLC, exhaustive: yields the declarative crossings, mirror, split, alternation, termination) + replay of the model's tracks and intervals + TLC trace validation",
      "The iterator's stepping is model checked against a declarative definition; the model's tracks / thresholds / intervals and random chains of intervals, up to 2^26 loops from zero, run on the code and TLC recomputes the exact edge list.",
      ["tracks cover 0..1 with a key at 0", "finite from / to"])


# ----------------------------------------------------------- C05, C06 hierarchies and local to model

def c05(pid, wd, ev):
    d = L.build()
    L.model_check(pid, "MCLocalToModel", "MCLocalToModelT.cfg" if THOROUGH else "MCLocalToModel.cfg", wd, ev)
    plan = L.export_json("MCForest", "ForestPlan6.cfg" if THOROUGH else "ForestPlan5.cfg", wd, "plan.json")
    tr = os.path.join(wd, "trace.ndjson")
    L.record(pid, "C05", d, wd, tr, plan=plan)
    L.validate(pid, "TraceC05", tr, wd, ev)


Check("C05", c05, "TLA+ model of partial updates (TLC, exhaustive over hierarchies, local changes and ranges) + replay of every hierarchy and range + TLC trace validation in exact integer arithmetic",
      "All hierarchies up to 5 joints (6 in the thorough tier) with every from/to/excluded range after arbitrary local changes, plus random large skeletons, run on the code; TLC recomputes every updated matrix exactly and requires all others to keep their bits.",
      ["rotations from the 24-element group whose matrices are exact in single precision; integer translations and scales"])


def c06(pid, wd, ev):
    d = L.build()
    L.model_check(pid, "MCForest", "MCForest8.cfg" if THOROUGH else "MCForest7.cfg", wd, ev)
    plan = L.export_json("MCForest", "ForestPlan8.cfg" if THOROUGH else "ForestPlan6.cfg", wd, "plan.json")
    tr = os.path.join(wd, "trace.ndjson")
    L.record(pid, "C06", d, wd, tr, plan=plan)
    L.validate(pid, "TraceC06", tr, wd, ev)


Check("C06", c06, "TLA+ model of depth-first iteration (TLC, exhaustive over hierarchies and starts) + replay of every hierarchy and start + TLC trace validation",
      "All hierarchies up to 6 joints (8 in the thorough tier) from every start joint, and random ones up to 300 joints, are queried on the code and compared by TLC with the subtree relation.",
      ["joint names are distinct, joints in depth-first order (what the format requires)"])


# ------------------------------------------------------------------------ C07, C08, C09 blending

BLEND_ASSUME = ["observed in units of 1/256 (translation, scale) and 1/4096 (rotation)",
                "a joint whose rotations are orthogonal (shortest path undefined) or nearly cancel out is only checked for its translation and scale"]


def c07(pid, wd, ev):
    d = L.build()
    if THOROUGH:
        L.model_check(pid, "MCBlending", "MCBlendingT.cfg", wd, ev)
    L.model_check(pid, "MCBlending", "MCBlending.cfg", wd, ev)
    plan = L.export_json("MCBlending", "MCBlendingPlan.cfg", wd, "plan.json")
    tr = os.path.join(wd, "trace.ndjson")
    L.record(pid, "C07", d, wd, tr, plan=plan)
    L.validate(pid, "TraceC07", tr, wd, ev)


Check("C07", c07, "TLA+ model of the normalization bookkeeping (TLC, exhaustive) + replay of the model's weight configurations + TLC trace validation",
      "Pass counters, partial weights, thresholds and stale contexts are model checked for up to three layers; every weight configuration of the model runs on the code with random transforms, plus random layer stacks, and TLC recomputes every joint.",
      BLEND_ASSUME)


def c08(pid, wd, ev):
    L.model_check(pid, "MCAdditive", "MCAdditiveT.cfg" if THOROUGH else "MCAdditive.cfg", wd, ev)
    plan = L.export_json("MCAdditive", "MCAdditivePlan.cfg", wd, "plan.json")
    simple(pid, wd, ev, "TraceC08", plan=plan)


Check("C08", c08, "TLA+ model of the additive stage (TLC, exhaustive over layer sequences, exact arithmetic) + replay of every sequence + TLC trace validation of layer-by-layer runs",
      "All sequences of up to three exactly representable layers (both signs, zero and negative joint weights) are model checked (composition, add-then-subtract restores, untouched joints, order independence of translation and scale) and executed on the code with exact comparison; random stacks of additive layers (both signs, zero, per-joint weights, add-then-subtract pairs) over random blends, run with ever longer layer lists; TLC checks that each layer's effect on each joint is the specified one.",
      BLEND_ASSUME)


def c09(pid, wd, ev):
    L.model_check(pid, "MCMotion", "MCMotionT.cfg" if THOROUGH else "MCMotion.cfg", wd, ev)
    plan = L.export_json("MCMotion", "MCMotionPlan.cfg", wd, "plan.json")
    simple(pid, wd, ev, "TraceC09", plan=plan)


Check("C09", c09, "TLA+ model of the accumulation (TLC, exhaustive over layer lists) + replay of its layer lists + TLC trace validation",
      "The accumulation of weights, lengths, directions and sign-aligned rotations is model checked (order independence of the translation, weights matter by ratio only, a single layer comes back as it is, the rotation cannot vanish); all pairs and many triples of its layers and random layer lists (zero, negative, opposite, repeated deltas of integer length) run on the code; TLC recomputes direction, length and rotation of the weighted mean.",
      ["the direction is not compared when the weighted directions nearly cancel out"] + BLEND_ASSUME[:1])


# ---------------------------------------------------------------------------------- C10 skinning

def c10(pid, wd, ev):
    L.model_check(pid, "MCSkinning", "MCSkinning.cfg", wd, ev)
    plan = L.export_json("MCSkinning", "MCSkinningPlan.cfg", wd, "plan.json")
    simple(pid, wd, ev, "TraceC10", plan=plan)


Check("C10", c10, "TLA+ model of the influence loop (TLC, exhaustive) + replay of every influence count x attributes x vertex count + TLC trace validation in exact integer arithmetic",
      "Every specialised path (1..7 influences, positions / normals / tangents, with and without inverse-transpose matrices, 0..5 vertices) and random larger ones run on the code with integer data; TLC recomputes every vertex exactly, including the vertices that must not be written.",
      ["integer matrices and vectors, weights in eighths: single precision is exact there"])


# ------------------------------------------------------------------------------ C11 job validation

def c11(pid, wd, ev):
    L.model_check(pid, "MCJobs", "MCJobs.cfg", wd, ev)
    plan = L.export_json("MCJobs", "MCJobsPlan.cfg", wd, "plan.json")
    simple(pid, wd, ev, "TraceC11", plan=plan)


Check("C11", c11, "TLA+ specification of job validity, model of the checking order (TLC, exhaustive over configurations) + replay of every configuration on long-lived job objects + TLC trace validation",
      "Every configuration of the lattice (missing / short / exact / long members, pairwise for skinning) and thousands of random ones are applied to one job object after the other; TLC compares validate, run's result, the outputs and what a new job does.",
      ["a job's buffers are distinct", "an unusable joint index is the only error that may leave earlier vertices written"])


# ---------------------------------------------------------------------------------- C12 archives

def c12(pid, wd, ev):
    L.model_check(pid, "MCArchive", "MCArchive.cfg", wd, ev)
    plan = L.export_json("MCArchive", "MCArchivePlan.cfg", wd, "plan.json")
    ev["extra"]["model_files"] = len(plan["files"])
    simple(pid, wd, ev, "TraceC12", plan=plan)


Check("C12", c12, "TLA+ specification of the archive format, byte by byte (TLC: writer/reader round trip, every truncation rejected) + the model's files, random files and recorded files loaded by the code and decoded again by TLC",
      "An explicit decoder in TLA+ is checked against an encoder for every small object of every type, in both byte orders, with the stream ending at every byte; archives of the model, random archives (all field bit patterns, both time-index widths), archives with other tags/versions, several objects per archive and the repository's own files are loaded through every constructor and each resulting object must equal what the specification decodes, field by field.",
      ["archives come from a conforming writer, possibly truncated or with another tag or version; counts in the header are not hostile", "joint names are distinct"])


# ------------------------------------------------------------------------------- C13 persistence

def c13(pid, wd, ev):
    cfg = "MCPersistT.cfg" if THOROUGH else "MCPersist.cfg"
    L.model_check(pid, "MCPersist", cfg, wd, ev)
    _, edges = L.export_plan("MCPersist", cfg, wd, "plan-edges.json")
    es = sorted({(p[0], p[1], p[2]) for p in edges})
    start = next(e[0] for e in es if e[0].count("99") == 6)
    walks = []
    for w in L.tours(es, start):
        steps = [[x if k == 0 else int(x) for k, x in enumerate(a.split())] for a in w]
        # a tour is cut into pieces that start from scratch at a cost of a few operations
        walks.append(steps)
    ev["extra"]["replayed_transitions"] = len(es)
    simple(pid, wd, ev, "TraceC13", plan={"scenarios": walks})


Check("C13", c13, "TLA+ model of saved / restored / cloned contexts over memory cells (TLC: refinement, no aliasing) + replay of every model transition + TLC trace validation",
      "Every transition of the model (and random histories with up to five contexts and three saved blobs) runs on real contexts through JSON text, JSON value tree, JSON reader, rkyv root, rkyv inside a tuple / vector and clone; after every step TLC checks the state of every context bit by bit, equality, and that sampling depends on that state alone. Animations, skeletons, the five track types and SoA values go through chains of three round trips with the originals freed, comparing all fields and the outputs of the jobs that use them.",
      ["non-finite values are saved through rkyv only (JSON has none)", "a blending job's state is its configuration and is not serializable"])


# ------------------------------------------------------------------------- C14 styles and locks

def c14(pid, wd, ev):
    L.model_check(pid, "MCLocks", "MCLocks.cfg", wd, ev)
    L.model_check(pid, "MCLocks", "MCLocksRe.cfg", wd, ev)
    plan = L.export_json("MCJobs", "MCJobsPlan.cfg", wd, "configs.json")
    plan.update(L.export_json("MCLocks", "MCLocksPlanT.cfg" if THOROUGH else "MCLocksPlan.cfg", wd, "schedules.json"))
    plan["known"] = [k for k, _ in L.known(pid)]
    ev["extra"]["schedules"] = len(plan["schedules"])
    tr = simple(pid, wd, ev, "TraceC14", plan=plan)
    # the recorded finding, if it is still there
    hits = 0
    for line in open(tr):
        s = json.loads(line)
        if s["kind"] == "faults" and s["cfg"]["job"] == "blending":
            hits += sum(1 for e in s["ev"] if e["op"] == "fault" and e["res"] in ("poison", "invalid") and e["after"] != e["before"])
    ev["extra"]["known_finding_runs"] = hits
    for k, what in L.known(pid):
        if k == "C14-blend-window" and hits:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))


Check("C14", c14, "TLA+ model of a job's locking against other threads (TLC, exhaustive: outcome, untouched outputs, nothing held, termination) + replay of its schedules with real threads, fault injection at every lock acquisition, every buffer style + TLC trace validation",
      "Two locking designs are model checked against arbitrary holders and poisonings. On the code: every configuration of C11 in the slice / Vec / Rc / Arc / custom styles with poisoned members; for valid jobs a poisoning, a shrinking or a whole other job injected before every single lock acquisition; every schedule of hold / release / poison / start up to length 4 (5 thorough) with real threads; eight threads sharing resources. TLC validates results, bits of the outputs and the state of the locks.",
      ["a job's buffers are distinct locks", "a job that may run gets 20 s to finish; a blocked one is watched for 15 ms"])


# ------------------------------------------------------------------- C15 same bits on every build

KINDS = ["sampling", "blending", "ltm", "skinning", "motion", "tracks", "aim", "twobone", "math"]


def c15_builds():
    flags = set()
    for line in open("/proc/cpuinfo"):
        if line.startswith("flags"):
            flags = set(line.split(":", 1)[1].split())
            break
    b = [("debug", "dev", None, None, ()), ("release", "release", None, None, ("--features", "full"))]
    if {"avx2", "fma", "bmi2", "f16c"} <= flags:
        b.append(("release-v3", "release", "-C target-cpu=x86-64-v3", None, ()))
    if {"sse4_2", "popcnt"} <= flags:
        b.append(("small-v2", "small", "-C target-cpu=x86-64-v2", None, ()))
    if {"avx512f", "avx512bw", "avx512vl", "avx512dq", "avx512cd"} <= flags:
        b.append(("release-v4", "release", "-C target-cpu=x86-64-v4", None, ()))
    b.append(("wasm", "release", None, "wasm32-unknown-unknown", ()))
    b.append(("wasm-simd", "release", "-C target-feature=+simd128", "wasm32-unknown-unknown", ()))
    return b


def c15(pid, wd, ev):
    from concurrent.futures import ThreadPoolExecutor
    import subprocess
    L.model_check(pid, "MCLockstep", "MCLockstep.cfg", wd, ev)
    walks = sorted(L.export_json("MCLockstep", "MCLockstepPlan.cfg", wd, "plan.json")["walks"])
    builds = c15_builds()

    def make(b):
        name, profile, rf, target, extra = b
        try:
            d = L.build(profile, rf, target, os.path.join(L.TARGET, "digest-" + name), "digest",
                        tuple(extra) + (("--lib",) if target else ("--bin", "ozzd")))
        except L.ToolError as e:
            return e
        return ["node", os.path.join(L.VERIF, "digest", "run.js"), os.path.join(d, "ozzd.wasm")] if target else [os.path.join(d, "ozzd")]

    with ThreadPoolExecutor(len(builds)) as ex:
        cmds = list(ex.map(make, builds))
    if isinstance(cmds[0], Exception):
        raise cmds[0]
    broken = [b[0] for b, c in zip(builds, cmds) if isinstance(c, Exception)]
    if broken:
        rdir = os.path.join(L.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, pid + "-build.json")
        json.dump({b[0]: str(c) for b, c in zip(builds, cmds) if isinstance(c, Exception)}, open(rp, "w"))
        raise L.Violation("does not build as " + ", ".join(broken), rp)
    rounds, free, steps = (40, 20000, 60) if THOROUGH else (5, 2000, 40)
    # every walk of the model with `rounds` inputs, twice round each, then free sequences
    lst = [((L.SEED * 1000 + r) * 10000 + w, 6, w) for w in walks for r in range(rounds)]
    lst += [((L.SEED * 1000 + 999) * 100000 + k, steps, 0) for k in range(free)]
    text = "".join("%d %d %d\n" % x for x in lst)
    rev = "".join("%d %d %d\n" % x for x in reversed(lst))

    def run(job):
        cmd, inp = job
        r = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, env=L.env())
        out = r.stdout.strip().split("\n")
        if r.returncode != 0 and len(out) < len(lst):
            out.append("crash %d" % r.returncode)
        return out + ["-"] * (len(lst) - len(out))

    # the first two native builds a second time, in another process and in the reverse order
    jobs = [(c, text) for c in cmds] + [(c, rev) for c in cmds[:2]]
    names = [b[0] for b in builds] + [b[0] + "-again" for b in builds[:2]]
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(run, jobs))
    for k in (-1, -2):
        outs[k].reverse()
    tr = os.path.join(wd, "C15.ndjson")
    with open(tr, "w") as f:
        for i, (seed, n, code) in enumerate(lst):
            rows = [o[i].split(" ") for o in outs]
            evs = []
            for k in range(max(len(r) for r in rows)):
                d = [r[k] if k < len(r) else "missing" for r in rows]
                evs.append({"op": "step", "res": d[0].split(":")[0], "d": d})
            f.write(json.dumps({"id": i, "kind": "walk" if code else "free",
                                "cfg": {"builds": len(rows), "names": names, "seed": str(seed), "steps": n, "code": code}, "ev": evs}) + "\n")
    ev["extra"]["builds"] = names
    L.validate(pid, "TraceC15", tr, wd, ev)


Check("C15", c15, "TLA+ lockstep model of builds over the registers jobs share (TLC, exhaustive: a deviation shows in the digest of its step) + its walks and random sequences executed by every build + TLC trace validation of the digests",
      "The same job sequences (every walk of three job kinds of the model, and long random ones with extreme values) run as debug, release, size-optimized SSE4.2, AVX2+FMA, AVX-512, wasm32 and wasm32+simd128 builds, and again in another process in the reverse order; TLC requires every step's bits to agree on all of them.",
      ["NaN payloads are not compared", "inputs are the same bits", "builds that this machine can execute (x86-64 levels, wasm32); other architectures cannot be run here"])


# ------------------------------------------------------------------------- C16 compressed keys

def c16(pid, wd, ev):
    L.model_check(pid, "MCKeys", "MCKeys.cfg", wd, ev)
    plan = L.export_json("MCKeys", "MCKeysPlan.cfg", wd, "plan.json")
    ev["extra"]["model_keys"] = len(plan["keys"])
    simple(pid, wd, ev, "TraceC16", plan=plan)


Check("C16", c16, "TLA+ definition of half floats and packed rotations (TLC, exhaustive over all 65536 halves: value, order, sign; packing round trip) + every half and families of rotation keys decoded by every code path + TLC trace validation",
      "All 65536 halves in every component and lane through key inspection, the four-lane decoder and SamplingJob at both ends of a key pair; rotation keys sweeping every stored component for each largest index and sign, the model's bit patterns, random words and encoded unit quaternions. TLC recomputes halves bit by bit and rotations in exact integers.",
      ["a sampled infinity or NaN only has to be non-finite (interpolation)", "rotation keys longer than a unit quaternion have to decode to numbers; sampling normalises them"])


# ------------------------------------------------------------------- C17, C18 inverse kinematics

def cik(pid, wd, ev):
    L.model_check(pid, "MCIK", "MCIKT.cfg" if THOROUGH else "MCIK.cfg", wd, ev)
    plan = L.export_json("MCIK", "MCIKPlan.cfg", wd, "plan.json")
    simple(pid, wd, ev, "Trace" + pid, plan=plan)


Check("C17", cik, "TLA+ model of the two-bone solver over integers (TLC, exhaustive: end distance, reached, softening) + replay of its configurations with exact coordinates, random chains on one reused job + TLC trace validation of the corrected chain's geometry",
      "For every run the harness applies the corrections to the chain in double precision; TLC decides from lengths and directions whether the end joint is where the specification puts it (softened, clamped to what the bones allow, on the line to the target), whether the chain lies in the plane of pole vector and twist on the right side, the reached flag (exactly, on the integer configurations), the blend for intermediate weights, unit corrections, rejection of bad axes and that a reused job behaves like a new one.",
      ["the middle axis is normal to the bones, the three joints are scaled uniformly and mirrored alike (otherwise only unit corrections, weights and the reached flag are checked)", "target and pole vector are not aligned, and the target is not at the start joint (the start correction is unspecified then; an existing test expects NaN)", "relative accuracy 1.5e-3 of the chain, 5e-3 rad"])

Check("C18", cik, "TLA+ model of the aim solver on an integer grid (TLC, exhaustive) + replay of grid configurations, random joints on one reused job + TLC trace validation of the corrected joint's geometry",
      "For every run the target is carried into the corrected joint's space in double precision; TLC decides whether it lies on the axis through the offset, ahead of the joint, whether the up axis leans towards the twisted pole vector, the reached flag (exactly on the grid), identity when unreached or without weight, the blend for intermediate weights, unit corrections, rejection of bad forward vectors and that a reused job behaves like a new one.",
      ["the up direction is checked when neither pole nor up is aligned with the target", "absolute accuracy 2e-3 of the larger of target and offset distance"])


# ------------------------------------------------------------------------ C19 jobs as functions

def c19(pid, wd, ev):
    L.model_check(pid, "MCParams", "MCParams.cfg", wd, ev)
    _, edges = L.export_plan("MCParams", "MCParams.cfg", wd, "edges.json")
    es = sorted({tuple(p[:3]) for p in edges})
    start = next(e[0] for e in es if e[0].startswith("<<<<0, -1>>, 0, 99"))
    walks = [[[x if k == 0 else int(x) for k, x in enumerate(a.split())] for a in w] for w in L.tours(es, start)]
    ev["extra"]["replayed_transitions"] = len(es)
    simple(pid, wd, ev, "TraceC19", plan={"walks": walks})


Check("C19", c19, "TLA+ model of parameters, shared buffers and derived data (TLC, exhaustive) + the model's walks replayed on every pair of parameters of every job, random lives + TLC trace validation",
      "Every setter, getter and clear of the nine jobs, taken and returned contexts, layer lists changed in place and the shared buffers edited between runs: after every call TLC compares all getters, the content of every buffer and the outputs with the specification, and every run with a new job of the same parameters and with every earlier run of the same parameters in that life.",
      ["a job's outputs are distinct buffers, not used as its inputs", "a run that fails on an unusable joint index may leave earlier vertices written"])


# ------------------------------------------------------------------------------ C20 SoA containers

def c20(pid, wd, ev):
    L.model_check(pid, "MCSoa", "MCSoaT.cfg" if THOROUGH else "MCSoa.cfg", wd, ev)
    simple(pid, wd, ev, "TraceC20")


Check("C20", c20, "TLA+ register machine of the SoA containers (TLC: the algebra of its operations on all small operands) + random programs on the real containers + TLC trace validation in exact integers and bit patterns",
      "Every operation, constructor, constant and accessor of SoaVec3, SoaQuat, SoaTransform and SoaMat4::from_affine; TLC recomputes each result lane by lane from the registers, and each lane must equal, bit for bit, what its operands yield alone in all lanes.",
      ["small integers (exact in single precision), unit quaternions observed in 1/2048, arbitrary bit patterns for masks and sign changes"])


# ------------------------------------------------------------------------------ C21 trigonometry

def c21(pid, wd, ev):
    L.model_check(pid, "MCTrig", "MCTrigT.cfg" if THOROUGH else "MCTrig.cfg", wd, ev)
    _, edges = L.export_plan("MCTrig", "MCTrigPlan.cfg", wd, "edges.json")
    angles = sorted({(int(e[0]), int(e[1])) for e in edges})
    ev["extra"]["replayed_angles"] = len(angles)
    simple(pid, wd, ev, "TraceC21", plan={"angles": angles})


Check("C21", c21, "TLA+ reference for sine, cosine and arc sine in multi-limb integers (TLC: circle, addition and doubling laws, inverse, on a walk of angles) + the walk's angles replayed, random and branch-boundary arguments + TLC trace validation",
      "Sine and cosine of angles up to 8192, arc sine and arc cosine of every argument; TLC compares each answer with its own reference in units of 2^-24, symmetry and agreement of the single functions with the pair bit for bit.",
      ["accuracy 5 units of 2^-24 (7 for the arc sine)", "nothing is required of sine and cosine beyond 8192 nor of NaN"])


# ------------------------------------------------------------------------ C22 typed archive reads

def c22(pid, wd, ev):
    L.model_check(pid, "MCReader", "MCReaderT.cfg" if THOROUGH else "MCReader.cfg", wd, ev)
    plan = L.export_json("MCReader", "MCReaderPlan.cfg", wd, "plan.json")
    simple(pid, wd, ev, "TraceC22", plan=plan)


Check("C22", c22, "TLA+ model of typed reads over a source that delivers in pieces, interrupts or fails (TLC, exhaustive: results depend on the bytes alone) + the model's streams and reads replayed on every kind of source + TLC trace validation",
      "Every short stream of the model with every pair of its reads, and random streams of all types (well-formed and broken text, cut anywhere) through slices, vectors, files, paths and readers that hand out pieces, interrupt or fail; TLC recomputes every value, error and error position from the bytes.",
      ["what follows a read that ran out of bytes is not specified", "element counts that fit in memory"])


# --------------------------------------------------------------------------- C23 memory

def c23(pid, wd, ev):
    L.model_check(pid, "MCHeap", "MCHeapT.cfg" if THOROUGH else "MCHeap.cfg", wd, ev)
    _, edges = L.export_plan("MCHeap", "MCHeapPlanT.cfg" if THOROUGH else "MCHeapPlan.cfg", wd, "edges.json")
    es = sorted({tuple(p[:3]) for p in edges})
    start = next(e[0] for e in es if not any(k in e[0] for k in ("context", "skeleton", "animation", "track")))
    ev["extra"]["replayed_transitions"] = len(es)
    # a walk is lived in pieces: each starts from nothing and makes what its piece needs
    walks = []
    for w in L.tours(es, start):
        live, piece = set(), []
        kinds = {}
        for a in w:
            piece.append(a)
            p = a.split(":")
            if p[0] == "make":
                kinds[p[1]] = p[2]
            elif p[0] == "copy":
                kinds[p[2]] = kinds[p[1]]
            elif p[0] == "drop":
                kinds.pop(p[1], None)
            if len(piece) >= 40:
                walks.append(piece)
                piece = ["make:%s:%s" % (s, k) for s, k in sorted(kinds.items())]
        walks.append(piece)
    simple(pid, wd, ev, "TraceC23", plan={"walks": walks})


Check("C23", c23, "TLA+ model of objects that lay their arrays out in blocks of a heap (TLC, exhaustive: no stray block, no overlap, sound layouts for every count) + the model's walks replayed under an allocator that logs, fences and pre-fills memory + TLC trace validation",
      "Every transition of the model (making, copying, using, failing to read, dropping, on one or several threads) runs on real skeletons, animations, contexts and tracks; TLC replays the allocator's log: every block asked for with a size, given back once and as it was taken, none left, every view inside its own object's block, aligned by construction, apart from the others; the same life on memory of other contents and against unmapped pages gives the same results.",
      ["blocks the standard library takes are judged as part of the object that keeps them"])

# --------------------------------------------------------------------------- C24 documents

def c24(pid, wd, ev):
    L.model_check(pid, "MCDocuments", "MCDocumentsT.cfg" if THOROUGH else "MCDocuments.cfg", wd, ev)
    _, edges = L.export_plan("MCDocuments", "MCDocumentsPlanT.cfg", wd, "docs.json")
    docs = sorted({(p[0], p[1], p[2].replace('\\"', '"')) for p in edges})
    docs = [[f, k, json.loads(c)] for f, k, c in docs]
    one = [d for d in docs if len(d[2]) == 1]
    two = [d for d in docs if len(d[2]) > 1]
    if not THOROUGH:
        two = random.Random(L.SEED).sample(two, min(1500, len(two)))
    ev["extra"]["replayed_documents"] = len(one) + len(two)
    simple(pid, wd, ev, "TraceC24", plan={"docs": one + two})


Check("C24", c24, "TLA+ model of documents (a count and arrays with lengths and places) changed step by step (TLC, exhaustive: what is accepted lies within the bytes, fits together and is no two arrays at once) + the model's changed documents made from real objects + TLC trace validation",
      "Every change of the model (a length, the count, all of them consistently, the place of an array, and pairs of these) is made to serialized contexts, skeletons, animations and tracks of all types, in JSON values, JSON text and CBOR, and to the bytes of archived contexts, besides random bits, shifted and cut bytes, missing and foreign parts; TLC decides from the changed document what must be refused and that what was accepted is restored as it says.",
      ["archives of skeletons, animations and tracks have no checked way in (archived_root is unsafe), so changed bytes of these are not judged"])
