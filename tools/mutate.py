#!/usr/bin/env python3
"""mutate.py WORKER N SEED [FILE...]: mutation experiment (not a check).

Copies /repo and /verif to /tmp/mut<WORKER>, applies N random single-token mutants to the library's
sources there, drops those that do not build or that the repository's tests notice, runs the checks
of the properties on the rest, and appends the outcome to /tmp/mut<WORKER>/log.jsonl.
"""
import json, os, random, re, shutil, subprocess, sys, time

W = sys.argv[1]
N = int(sys.argv[2])
SEED = int(sys.argv[3])
FILES = sys.argv[4:]
B = "/tmp/mut" + W
R, V = B + "/repo", B + "/verif"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BY_FILE = {  # checks in the order in which they are likely to notice
    "animation.rs": "C16 C02 C12 C13 C15 C01 C23 C24", "archive.rs": "C22 C12", "base.rs": "C11 C14 C19 C05 C13 C01",
    "blending_job.rs": "C07 C08 C11 C19 C13 C14 C15",
    "endian.rs": "C22 C12", "ik_aim_job.rs": "C18 C19 C11", "ik_two_bone_job.rs": "C17 C19 C11", "local_to_model_job.rs": "C05 C11 C19 C14",
    "math.rs": "C24 C20 C21 C16 C17 C18 C02 C07 C08 C09 C05 C13 C15 C10", "motion_blending_job.rs": "C09 C11 C19",
    "sampling_job.rs": "C01 C02 C13 C11 C19 C15 C14 C23 C24", "skeleton.rs": "C06 C12 C13 C05 C23 C24", "skinning_job.rs": "C10 C11 C19 C14",
    "track.rs": "C03 C12 C13 C23 C24", "track_sampling_job.rs": "C03 C11 C19", "track_triggering_job.rs": "C04 C11 C19"}
ALL = ["C%02d" % i for i in range(1, 25)]
SUBS = [(r"(?<![<>=\-!|&])<(?![<=])(?= )", "<="), (r"(?<= )<=", "<"), (r"(?<![<>=\-])>(?![>=])(?= )", ">="), (r"(?<= )>=", ">"),
        (r"==", "!="), (r"!=", "=="), (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "+"), (r"(?<= )/(?= )", "*"),
        (r"(?<= )&&(?= )", "||"), (r"(?<= )\|\|(?= )", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\+=", "-="), (r"-=", "+="), (r"simd_gt", "simd_ge"), (r"simd_ge", "simd_gt"), (r"simd_lt", "simd_le"), (r"simd_le", "simd_lt"),
        (r"simd_max", "simd_min"), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"(?<= )%(?= )", "/"), (r"<<", ">>"), (r"(?<= )>>(?= )", "<<"),
        (r"(?<= )&(?= )", "|"), (r"(?<= )\|(?= )", "&"), (r"\.\.=", ".."), (r"(?<=\w)\.\.(?=[\w(])", "..="), (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"),
        (r"-(?=[a-z])", ""), (r"!(?=[a-z(])", ""), (r"\.iter\(\)", ".iter().skip(1)"), (r"\bsome\b", "none"),
        (r"\bas usize\b", "as u8 as usize"), (r"\bas usize\b", "as u16 as usize"), (r"\bas u32\b", "as u16 as u32"), (r"\bas i32\b", "as i16 as i32")]

# names and calls instead of tokens (OPS=names)
SUBS2 = [(r"\.x\b", ".y"), (r"\.y\b", ".z"), (r"\.z\b", ".x"), (r"\.w\b", ".z"), (r"\bt_", "s_"), (r"\bs_", "t_"), (r"\br_", "t_"),
         (r"translation", "scale"), (r"scale(?!d)", "translation"), (r"\bONE\b", "ZERO"), (r"\bZERO\b", "ONE"),
         (r"\.(?:abs|recip|sqrt|normalize|conjugate|neg|positive_w|transpose|inverse|trunc)\(\)", ""),
         (r"\.len\(\)", ".len().min(64)"), (r"\.len\(\)", ".len().saturating_sub(1)"), (r"first", "last"), (r"last", "first"),
         (r"simd_gt", "simd_lt"), (r"simd_lt", "simd_gt"), (r"simd_eq", "simd_ne"), (r"saturating_add", "wrapping_add"), (r"saturating_sub", "wrapping_sub"),
         (r"saturating_mul", "wrapping_mul"), (r"div_ceil\(", "wrapping_div("), (r"\.take\(", ".skip("), (r"\.rev\(\)", ""), (r"is_empty\(\)", "is_ascii()"),
         (r"is_none", "is_some"), (r"is_some", "is_none"), (r"copysign", "min"), (r"partition_point", "len().min"), (r"unwrap_or\(false\)", "unwrap_or(true)"),
         (r"\bf32\b", "f64"), (r"from_le", "from_be"), (r"NEG_", ""), (r"\bmax_", "num_"), (r"\bnum_", "max_"), (r"soa_", "")]


def names(text, rng):
    """SUBS2, and one name taken for another of the same function."""
    end = re.search(r"#\[cfg\(test\)\]\s*\n(?:#[^\n]*\n)*mod ", text)
    text = text[:end.start()] if end else text
    res = []
    for f in re.finditer(r"\bfn \w+.*?\n    \}\n", text, re.S):
        body, at = f.group(0), f.start()
        code = re.sub(r"//[^\n]*", lambda m: " " * len(m.group(0)), body)
        start = code.find("{")
        for pat, rep in SUBS2:
            for m in re.finditer(pat, code):
                if m.start() > start:
                    res.append((at + m.start(), m.end() - m.start(), rep))
        ids = sorted(set(re.findall(r"\b(?:let (?:mut )?|for |\()?([a-z_][a-z0-9_]+)\b(?=\s*[:=,)\].*+/-])", code)) - {"self", "let", "mut", "if", "as", "in", "fn", "else", "return", "true", "false", "std", "mem", "crate", "f32", "u8", "u16", "u32", "i16", "i32", "usize", "f32x4", "i32x4"})
        uses = [m for m in re.finditer(r"(?<![\w.:])(?:self\.)?([a-z_][a-z0-9_]+)\b(?!\s*[(!:])", code) if m.start() > start and m.group(1) in ids]
        for m in uses:
            for o in rng.sample(ids, min(2, len(ids))):
                if o != m.group(1):
                    res.append((at + m.start(1), len(m.group(1)), o))
    return res


def sh(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "timeout"


def candidates(text):
    """(position, length, replacement) in the code before the test module."""
    end = re.search(r"#\[cfg\(test\)\]\s*\n(?:#[^\n]*\n)*mod ", text)
    end = end.start() if end else len(text)
    res = []
    pos = 0
    for line in text[:end].splitlines(keepends=True):
        code = line.split("//")[0]
        s = code.strip()
        if s and not s.startswith(("#", "use ", "impl", "pub trait", "trait", "where", "pub struct", "pub enum", "const ", "debug_assert", "assert")):
            for pat, rep in SUBS:
                for m in re.finditer(pat, code):
                    res.append((pos + m.start(), m.end() - m.start(), rep))
            for m in re.finditer(r"(?<![\w.#\"'])(\d+)(?![\w.\"'])", code):
                n = int(m.group(1))
                for d in (1, -1):
                    if n + d >= 0:
                        res.append((pos + m.start(), len(m.group(1)), str(n + d)))
            for m in re.finditer(r"(?<![\w])(\d+\.\d+(?:e-?\d+)?)", code):
                if float(m.group(1)) == 0:
                    continue
                for f in ("0.5", "1.01", "2.0"):
                    res.append((pos + m.start(), len(m.group(1)), "(%s * %s)" % (m.group(1), f)))
            if s.endswith(";") and not s.startswith(("let ", "return", "}", "break", "continue", "pub ", "type ", "mod ", "fn ")):
                a = len(line) - len(line.lstrip())
                res.append((pos + a, len(s), ""))
        pos += len(line)
    return res


def main():
    os.makedirs(B, exist_ok=True)
    for d in (R, V):
        shutil.rmtree(d, ignore_errors=True)
    sh("git -C /repo worktree prune; git clone -q /repo %s && cp /repo/Cargo.lock %s/ 2>/dev/null" % (R, R), 300)
    sh("cp -a /repo/resource /repo/expected %s/ 2>/dev/null" % R, 300)
    sh("git clone -q %s %s" % (HERE, V), 300)
    shutil.rmtree(V + "/seeded", ignore_errors=True)
    sh(r"grep -rlE '/repo|/verif' %s --include=*.rs --include=*.toml --include=*.py --include=*.js | xargs sed -i 's#/repo#%s#g'" % (V, R), 60)
    # the models do not depend on the code
    open(V + "/tools/ozzlib.py", "a").write("\nmodel_check = lambda *a, **k: None\n")
    for f in ("env", "build", "test"):
        s = open("/opt/vp/%s.sh" % f).read().replace("/repo", R)
        for g in ("env", "build", "test"):
            s = s.replace("/opt/vp/%s.sh" % g, B + "/%s.sh" % g)
        open(B + "/%s.sh" % f, "w").write(s)
    base = set()
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("passed", "pass", "stable"):
        if k in b:
            base = set(b[k])
    rng = random.Random(SEED)
    cands = []
    for f in FILES or sorted(BY_FILE):
        t = open(R + "/src/" + f).read()
        cs = names(t, rng) if os.environ.get("OPS") == "names" else candidates(t)
        # weigh every file by the square root of its size
        k = max(1, int(len(cs) ** 0.5 * 4))
        for c in rng.sample(cs, min(k, len(cs))):
            cands.append((f, c))
    rng.shuffle(cands)
    log = open(B + "/log.jsonl", "a")
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", MUTATE="1")
    for f, (p, n, rep) in cands[:N]:
        path = R + "/src/" + f
        sh("git checkout -q -- .", 60, R)
        t = open(path).read()
        line = t.count("\n", 0, p) + 1
        open(path, "w").write(t[:p] + rep + t[p + n:])
        rec = {"file": f, "line": line, "old": t[p:p + n], "new": rep, "text": t.split("\n")[line - 1].strip()}
        t0 = time.time()
        rc, out = sh("bash -c '. %s/env.sh; cd %s; cargo build --offline -q'" % (B, R), 400)
        if rc != 0:
            rec["end"] = "build"
        else:
            rc, out = sh("bash %s/test.sh %s/t.json" % (B, B), 400)
            try:
                tt = json.load(open(B + "/t.json"))
                got = set()
                for k in ("passed", "pass", "stable"):
                    if k in tt:
                        got = set(tt[k])
                rec["end"] = "survived" if base <= got else "tests"
            except Exception:
                rec["end"] = "tests"
            if os.path.exists(B + "/t.json"):
                os.unlink(B + "/t.json")
        if rec["end"] == "survived":
            order = BY_FILE[f].split()
            order += [c for c in ALL if c not in order]
            for c in order:
                rc, out = sh("python3 tools/check.py " + c, 900, V, env)
                if rc != 0:
                    rec["end"] = "caught" if rc == 1 else "error"
                    rec["by"] = c
                    rec["out"] = out.strip()[-300:]
                    if rc == 1:
                        break
        rec["s"] = round(time.time() - t0)
        log.write(json.dumps(rec) + "\n")
        log.flush()
    sh("git checkout -q -- .", 60, R)


main()
