#!/usr/bin/env python3
"""check.py ID: decide one property of /repo with Verus contracts (see DESIGN.md).

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; exit 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 2:
    TIER = sys.argv[2]
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
BUILD = os.path.join(HERE, "build")
OUTD = os.path.join(BUILD, PID)
QUICK = TIER == "quick"
SEARCH_SECS = 12 if QUICK else 400
CONFIRM_SECS = 60 if QUICK else 300
VARIANTS = {"std": ["--features", "std"], "simd": ["--features", "simd"], "nostd": ["--no-default-features"]}

sys.path.insert(0, HERE)
from cones import CONES, TRUST_NOTES  # noqa: E402


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)


def die(msg):
    log("NO ANSWER:", msg)
    sys.exit(2)


# ------------------------------------------------------------------ builds
def cargo(path, target, extra):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    return sh(["cargo", "build", "--release", "--offline", "--locked"] + extra, cwd=path, env=env)


def build_vx():
    r = cargo(os.path.join(HERE, "vx"), os.path.join(BUILD, "t-vx"), [])
    if r.returncode != 0:
        die("vx does not build: " + r.stderr[-2000:])


def replay_dir():
    """/verif/replay, or a copy pointing at another tree when VX_REPO is set (development only)"""
    if REPO == "/repo":
        return os.path.join(HERE, "replay")
    d = os.path.join(OUTD, "replay-src")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(HERE, "replay"), d, ignore=shutil.ignore_patterns("target"))
    p = os.path.join(d, "Cargo.toml")
    t = open(p).read().replace('path = "/repo"', f'path = "{REPO}"')
    open(p, "w").write(t)
    return d


def replay_bin(v):
    return os.path.join(BUILD, "t-" + v + ("" if REPO == "/repo" else "-alt"), "release", "replay")


def build_replay(v, src):
    tgt = os.path.dirname(os.path.dirname(replay_bin(v)))
    r = cargo(src, tgt, VARIANTS[v])
    if r.returncode != 0:
        r = cargo(src, tgt, VARIANTS[v])
    return None if r.returncode == 0 else r.stderr[-3000:]


# ------------------------------------------------------------------ concrete search
class Search:
    """bounded search for a failing input on the real crate"""

    def __init__(self):
        self.evals = 0
        self.distinct = 0
        self.samples = []
        self.failure = None  # (message, replay file)
        self.errors = []
        self.lock = threading.Lock()

    def run(self, variant, seed, secs, tag):
        out = os.path.join(OUTD, f"replay-{PID}-{tag}.txt")
        for f in (out, out + ".current"):
            if os.path.exists(f):
                os.remove(f)
        try:
            r = sh([replay_bin(variant), "search", PID, str(seed), str(secs), "1000000000", out], timeout=secs + 90)
        except subprocess.TimeoutExpired:
            self.note_fail(out, variant, "the encoder did not terminate in time on this input", True)
            return
        for line in r.stdout.splitlines():
            m = re.match(r"OK evaluations=(\d+) distinct=(\d+)", line)
            if m:
                with self.lock:
                    self.evals += int(m.group(1))
                    self.distinct += int(m.group(2))
            elif line.startswith("SAMPLE ") and len(self.samples) < 6:
                self.samples.append(line[7:][:400])
        if r.returncode == 1 and os.path.exists(out):
            msg = next((l[5:] for l in r.stdout.splitlines() if l.startswith("FAIL ")), "failure")
            self.note_fail(out, variant, msg, False)
        elif r.returncode != 0:
            # aborted (stack overflow, OOM kill, SIGABRT): the running case is in OUT.current
            if r.returncode in (-9, 137):
                self.errors.append(f"{variant}: killed")
            else:
                self.note_fail(out, variant, f"the process died with status {r.returncode}", True)

    def note_fail(self, out, variant, msg, from_current):
        cur = out + ".current"
        if from_current:
            txt = open(cur).read() if os.path.exists(cur) else ""
            with open(out, "w") as f:
                f.write(f"property={PID}\nwhat={msg}\n" + "".join(f"case {l}\n" for l in txt.splitlines()))
        with open(out, "a") as f:
            f.write(f"variant={variant}\nrerun=cd /verif/replay && cargo run --release --offline {' '.join(VARIANTS[variant])} -- replay {out}\n")
        with self.lock:
            if self.failure is None:
                self.failure = (msg, out)

    def compare(self, seed, secs, tag):
        """C14: the same cases through the scalar, SIMD and no_std builds, outputs compared byte for byte"""
        n = 100000 if QUICK else 1000000
        outs = {}

        def one(v):
            o = os.path.join(OUTD, f"digest-{tag}-{v}.txt")
            try:
                r = sh([replay_bin(v), "digest", str(seed), str(n), str(secs), o], timeout=secs + 120)
            except subprocess.TimeoutExpired:
                self.errors.append(f"digest {v}: timeout")
                return
            if r.returncode == 0:
                outs[v] = open(o).read().splitlines()
            else:
                self.errors.append(f"digest {v}: status {r.returncode} {r.stderr[-300:]}")
        ts = [threading.Thread(target=one, args=(v,)) for v in VARIANTS]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if len(outs) < 3:
            return
        m = min(len(x) for x in outs.values())
        with self.lock:
            self.evals += m
            self.distinct += len(set(outs["std"][:m]))
        if len(self.samples) < 4 and m:
            self.samples += [outs["std"][i][:300] for i in range(min(3, m))]
        for i in range(m):
            a = outs["std"][i]
            for v in ("simd", "nostd"):
                if outs[v][i] != a:
                    out = os.path.join(OUTD, f"replay-{PID}-{tag}.txt")
                    case = a.split(" ; ", 1)[1]
                    with open(out, "w") as f:
                        f.write(f"property={PID}\nwhat=the {v} build produces other output than the scalar build\n"
                                f"case {case}\nscalar: {a}\n{v}: {outs[v][i]}\n"
                                f"rerun: write the text after 'case ' to FILE; cd /verif/replay; cargo run --release --offline --features simd -- digest1 FILE; the same with --features std\n")
                    with self.lock:
                        if self.failure is None:
                            self.failure = (f"the {v} build produces other output than the scalar build [{case[:200]}]", out)
                    return


# ------------------------------------------------------------------ verification
class Verify:
    def __init__(self, tag, features="std,simd"):
        self.tag = tag
        self.features = features
        self.degraded = {}      # key -> reason
        self.nocontract = {}
        self.noiso = []         # functions verified with loop_isolation(false) (retry)
        self.failed = {}        # key -> [messages]
        self.whole = None       # reason when nothing could be verified
        self.map = None
        self.results = {}
        self.verified = 0
        self.fn_times = {}
        self.runs = 0
        self.wall = 0.0
        self.lines = []

    def extract(self, extra=()):
        rs, mp = os.path.join(OUTD, f"all{self.tag}.rs"), os.path.join(OUTD, f"map{self.tag}.json")
        cmd = [os.path.join(BUILD, "t-vx", "release", "vx"), "--src", os.path.join(REPO, "src"), "--contracts", os.path.join(HERE, "contracts"),
               "--out", rs, "--map", mp, "--baseline", os.path.join(HERE, "contracts", "baseline_locals.json"), "--auto-external",
               "--shapes", os.path.join(HERE, "contracts", "baseline.json"), "--noiso", ",".join(self.noiso),
               "--features", self.features, "--external", ",".join(self.degraded), "--nocontract", ",".join(self.nocontract)] + list(extra)
        r = sh(cmd)
        if r.returncode != 0:
            return r.stderr[-1500:]
        self.map = json.load(open(mp))
        self.lines = open(rs).read().split("\n")
        self.rs = rs
        return None

    def verus(self, modules, rlimit, seed=None, extra=(), limit=None):
        cmd = ["verus", self.rs, "--crate-type=lib", "--edition", "2021", "--output-json", "--time-expanded", "--triggers-mode", "silent",
               "--multiple-errors", "8", "--error-format=json", "--no-report-long-running", "--rlimit", str(rlimit)]
        if modules:
            for m in modules:
                cmd += ["--verify-only-module", m]
        if seed is not None:
            cmd += ["--smt-option", f"smt.random_seed={seed}"]
        cmd += list(extra)
        self.cmd = cmd
        t = time.time()
        try:
            r = sh(cmd, timeout=limit or (400 if QUICK else 1500), cwd=OUTD)
        except subprocess.TimeoutExpired:
            return None, [], "verus timed out"
        self.runs += 1
        self.wall += time.time() - t
        try:
            res = json.loads(r.stdout)
        except ValueError:
            res = None
        diags = []
        for l in r.stderr.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans") is not None:
                diags.append(d)
        return res, diags, r.stderr[-1500:]

    def fn_at(self, line):
        in_ = [f for f in self.map["functions"] if f["start"] <= line < f["end"]]
        return min(in_, key=lambda f: f["end"] - f["start"]) if in_ else None

    def mod_of(self, key):
        """the module of a function: the longest module name its key begins with"""
        ms = [m["name"] for m in self.map["modules"] if key.startswith(m["name"] + "::")]
        return max(ms, key=len) if ms else key.split("::")[0]

    def locate(self, d):
        """the function an error belongs to: a function with a body that one of its spans lies in"""
        spans = sorted(d["spans"], key=lambda s: not s["is_primary"])
        cands = []
        for s in spans:
            f = self.fn_at(s["line_start"])
            if f:
                cands.append(f)
        for f in cands:
            if f["has_body"] and not f["degraded"] and not f["trusted"]:
                return f
        return cands[0] if cands else None

    def module_at(self, line):
        for m in self.map["modules"]:
            if m["start"] <= line < m["end"]:
                return m["name"]
        return None

    PROOF_MSGS = ("precondition not satisfied", "postcondition not satisfied", "assertion failed", "invariant not satisfied",
                  "possible arithmetic", "possible division", "decreases not satisfied", "possible bit shift", "could not prove", "loop ensures not satisfied",
                  "Resource limit", "rlimit", "requirement not met", "recommendation not met", "simplif", "assert_by_compute", "unable to prove",
                  "constructed value may fail", "possible", "split assertion failure", "failed", "not satisfied")

    def run(self, modules, rlimit=10):
        """iterate until only proof failures are left"""
        for it in range(14):
            e = self.extract()
            if e:
                self.whole = "extraction: " + e
                return
            mods = [m for m in modules if any(x["name"] == m for x in self.map["modules"])] if modules else None
            res, diags, err = self.verus(mods, rlimit)
            if res is None:
                self.whole = "verus gave no result: " + err
                return
            vr = res.get("verification-results", {})
            verified_ran = "verified" in vr and (vr.get("verified", 0) + vr.get("errors", 0) > 0)
            fails, front, loose = {}, {}, []
            for d in diags:
                if d["message"].startswith("aborting due to"):
                    continue
                msg = d["message"]
                text = msg + " @ " + "; ".join(self.src_line(s) for s in d["spans"][:3])
                f = self.locate(d)
                is_proof = any(k in msg for k in self.PROOF_MSGS) and d.get("code") is None and (verified_ran or "simplif" in msg or "compute" in msg)
                if is_proof:
                    if f:
                        fails.setdefault(f["key"], []).append(text)
                    else:
                        loose.append(text)
                else:
                    if f:
                        front.setdefault(f["key"], []).append(text)
                    else:
                        loose.append(text)
            if verified_ran:
                self.results = res
                self.verified = vr.get("verified", 0)
                self.failed = fails
                self.collect_times(res)
                # failed queries that are not attributed to a function of /repo: lemmas or specs
                for t in loose:
                    self.failed.setdefault("(specification)", []).append(t)
                return
            # nothing was verified: take what blocks the run out of it
            progress = False
            for k, v in front.items():
                if k in self.degraded or self.is_external(k):
                    if k not in self.nocontract:
                        self.nocontract[k] = v[0][:300]
                        progress = True
                else:
                    self.degraded[k] = "not accepted by the verifier front end: " + v[0][:300]
                    progress = True
            for k, v in fails.items():
                # failed by compute: an obligation of k that aborts the whole run
                self.computefail = getattr(self, "computefail", {})
                self.computefail[k] = v
                if k not in self.degraded:
                    self.degraded[k] = "failed by computation"
                    progress = True
            if not progress:
                self.whole = "front end: " + " | ".join(loose)[:1500] + " " + (err[-500:] if not loose else "")
                return
            log("front end rejected", list(front) + list(fails), "- retrying without")
        self.whole = "too many front-end errors"

    def is_external(self, k):
        return any(f["key"] == k and (f["degraded"] or f["trusted"]) for f in self.map["functions"])

    def src_line(self, s):
        l = s["line_start"]
        t = self.lines[l - 1].strip() if 0 < l <= len(self.lines) else ""
        f = self.fn_at(l)
        where = f["key"] if f else (self.module_at(l) or "?")
        lab = (s.get("label") or "").strip()
        return f"{where}: `{t[:160]}`" + (f" ({lab})" if lab else "")

    def collect_times(self, res):
        for m in res.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                n = f["function"]
                t = self.fn_times.setdefault(n, [0, True])
                t[0] += f["time-micros"]
                t[1] = t[1] and f["success"]


def in_cone(key, pats):
    return any(re.fullmatch(p, key) for p in pats)


class OtherBuild(threading.Thread):
    """the functions whose text differs in the build without std and simd, verified one by one"""

    def __init__(self, main, cone):
        super().__init__()
        self.main, self.cone = main, cone
        self.v = Verify("-nostd", "")
        self.failed, self.undecided, self.verified, self.keys = {}, {}, 0, []

    def run(self):
        v = self.v
        a, b = Verify("-cmp"), v
        for x in (a, b):
            e = x.extract()
            if e:
                self.undecided["(build without std)"] = e
                return
        text = lambda x, f: "\n".join(x.lines[f["start"] - 1:f["end"]])
        have = {f["key"]: text(a, f) for f in a.map["functions"]}
        fs = [f for f in v.map["functions"] if have.get(f["key"]) != text(v, f) and in_cone(f["key"], self.cone["functions"] + self.cone.get("clause_functions", []))]
        self.keys = [f["key"] for f in fs]
        def one(f):
            k = f["key"]
            if f["degraded"] or not f["has_body"]:
                self.undecided[k] = "not under contract in the build without std"
                return
            for rl, seed in ((10, None), (40, 7), (40, 23)):
                res, diags, err = v.verus([v.mod_of(k)], rl, seed=seed, extra=("--verify-function", "*" + k.split("::")[-1].split("@")[0]), limit=300)
                vr = (res or {}).get("verification-results", {})
                if not vr.get("verified", 0) + vr.get("errors", 0):
                    self.undecided[k] = "build without std: " + (diags[0]["message"] if diags else err)[:300]
                    return
                msgs = []
                for d in diags:
                    g = v.locate(d)
                    if g and g["key"] == k:
                        msgs.append(d["message"] + " @ " + "; ".join(v.src_line(s) for s in d["spans"][:3]) + " (build without std and simd)")
                if not msgs:
                    self.verified += 1
                    self.failed.pop(k, None)
                    return
                self.failed[k] = msgs
        ts = [threading.Thread(target=one, args=(f,)) for f in fs]
        [t.start() for t in ts]
        [t.join() for t in ts]


def counts(key, msgs, cone):
    """is a failure of this function's obligations one of the property: the function is in the cone, or one of the
    failed clauses is the part of its contract that states the property"""
    return key == "(specification)" or in_cone(key, cone["functions"]) or \
        ("clause" in cone and any(re.search(cone["clause"], m) for m in msgs))


def main():
    if PID not in CONES:
        die("unknown property")
    cone = CONES[PID]
    shutil.rmtree(OUTD, ignore_errors=True)
    os.makedirs(OUTD, exist_ok=True)
    base = json.load(open(os.path.join(HERE, "contracts", "baseline.json")))
    src = replay_dir()
    search = Search()
    berr = {}
    ready = {v: threading.Event() for v in VARIANTS}

    def bsearch(v):
        e = build_replay(v, src)
        ready[v].set()
        if e:
            berr[v] = e
            return
        if PID == "C14":
            return
        if v == "std":
            ts = [threading.Thread(target=search.run, args=(v, SEED * 1000 + i, SEARCH_SECS, f"{v}{i}")) for i in range(2)]
        else:
            ts = [threading.Thread(target=search.run, args=(v, SEED * 1000 + 10 + len(v), SEARCH_SECS, v))]
        [t.start() for t in ts]
        [t.join() for t in ts]

    threads = [threading.Thread(target=bsearch, args=(v,)) for v in VARIANTS]
    [t.start() for t in threads]
    build_vx()
    log("vx built")
    v = Verify("")
    other = OtherBuild(v, cone) if cone.get("other_build") else None
    if other:
        other.start()
    v.run(cone["modules"], 10 if QUICK else 30)
    log("verus:", v.whole or f"verified {v.verified}, failing {list(v.failed)}")
    # retry failures: a higher limit and other seeds tell instability from failure
    if v.failed and not v.whole:
        mine = {k: m for k, m in v.failed.items() if counts(k, m, cone)}
        if mine:
            mods = sorted({v.mod_of(k) for k in mine if k != "(specification)"}) or cone["modules"]
            still = set(mine)
            # one function at a time where possible: a whole module takes too long to repeat
            single = [k for k in mine if k != "(specification)"]
            jobs = [([v.mod_of(k)], [k], ("--verify-function", "*" + k.split("::")[-1].split("@")[0])) for k in single] if len(single) <= 4 and "(specification)" not in mine else [(cone["modules"] if "(specification)" in mine else mods, list(mine), ())]
            for sd in (7, 23):
                # first with the facts about unchanged variables kept inside loops
                v.noiso = [k for k in single if k in still] if sd == 7 else []
                if v.extract():
                    break
                for jm, keys, extra in jobs:
                    if not set(keys) & still:
                        continue
                    left = (480 if QUICK else 5000) - (time.time() - T0)
                    if left < 20:
                        log("no time left to retry", keys)
                        continue
                    res, diags, _ = v.verus(jm, 40, seed=sd, extra=extra, limit=left)
                    if res is None or res.get("verification-results", {}).get("verified", 0) + res.get("verification-results", {}).get("errors", 0) == 0:
                        continue
                    v.collect_times(res)
                    now = set()
                    for d in diags:
                        f = v.locate(d)
                        if f:
                            now.add(f["key"])
                        elif not d["message"].startswith("aborting"):
                            now.add("(specification)")
                    still -= set(keys) - now
            for k in list(v.failed):
                if k in mine and k not in still:
                    log("unstable, accepted on retry:", k)
                    v.verified += 1
                    del v.failed[k]
    for k, m in getattr(v, "computefail", {}).items():
        v.failed[k] = m
        v.degraded.pop(k, None)
    canary = None
    if not QUICK and not v.whole:
        canary = canary_run(v, cone)
    [t.join() for t in threads]
    log("search:", search.evals, "cases", search.failure or "no failure", search.errors)
    if berr:
        die("the replay crate does not build against /repo: " + json.dumps(berr)[-2500:])
    if PID == "C14":
        search.compare(SEED * 1000, 15 if QUICK else 240, "0")
        log("comparison:", search.evals, "cases", search.failure or "no difference", search.errors)

    if other:
        other.join()
        log("other build:", other.verified, "of", other.keys, "failing", list(other.failed), other.undecided or "")
        v.verified += other.verified
        for k, m in other.failed.items():
            v.failed.setdefault(k, []).extend(m)
        for k, m in other.undecided.items():
            v.degraded.setdefault(k, m)

    # ---------------------------------------------------------------- classify
    fmap = {f["key"]: f for f in (v.map or {}).get("functions", [])}
    known = set(base["keys"])
    new_fns = {k.split("::")[-1].split("@")[0]: k for k in fmap if k not in known}
    changed_contract = {k.split("::")[-1].split("@")[0] for k in v.nocontract}
    lost = {}
    for l in (v.map or {}).get("lost", []):
        lost.setdefault(l.split(": ")[0], []).append(l)
    violations, undecided = [], dict(v.degraded)
    undecided.update({k: "its contract no longer fits: " + r for k, r in v.nocontract.items()})
    for k, msgs in v.failed.items():
        if not counts(k, msgs, cone):
            continue
        f = fmap.get(k)
        why = None
        if k == "(specification)":
            why = "a lemma or specification constant does not hold of the changed source"
            if any("lemma" not in m for m in msgs):
                why = None
        elif k in lost:
            why = "contract anchors lost: " + "; ".join(lost[k])[:300]
        elif base["shapes"].get(k, []) != (f["shape"] if f else []):
            why = f"loop structure changed from {base['shapes'].get(k, [])} to {f['shape'] if f else None}"
        elif f:
            helper = [c for c in f.get("calls", []) if c in new_fns or c in changed_contract]
            if helper:
                why = f"calls {helper}, which have no contract"
        if why:
            undecided[k] = why + "; unproved: " + msgs[0][:300]
        else:
            violations.append((k, msgs))
    undecided = {k: r for k, r in undecided.items() if counts(k, v.failed.get(k, []), cone) or in_cone(k, cone.get("clause_functions", []))}
    for k in lost:
        if k not in undecided and k in cone.get("must", []):
            undecided[k] = "; ".join(lost[k])
    # a failed or undecided obligation: look harder for a failing input
    if search.failure is None and (violations or undecided or v.whole):
        log("looking for a failing input:", [k for k, _ in violations], list(undecided), v.whole or "")
        if PID == "C14":
            search.compare(SEED * 1000 + 77, CONFIRM_SECS, "1")
        else:
            ts = []
            for i in range(7):
                var = ["std", "simd", "nostd"][i % 3]
                ts.append(threading.Thread(target=search.run, args=(var, SEED * 1000 + 500 + i, CONFIRM_SECS if violations else CONFIRM_SECS // 2, f"c{i}")))
            [t.start() for t in ts]
            [t.join() for t in ts]
        log("search:", search.evals, "cases", search.failure or "no failure")

    # ---------------------------------------------------------------- evidence
    under, assumed = [], []
    for k, f in sorted(fmap.items()):
        if not in_cone(k, cone["functions"] + cone.get("clause_functions", [])):
            continue
        if f["contract"] and f["has_body"] and not f["degraded"] and not f["trusted"]:
            under.append(k)
        elif f["has_body"]:
            assumed.append(k + (" (contract assumed, body trusted)" if f["trusted"] else " (no contract, not verified)" if not f["contract"] else " (degraded: " + undecided.get(k, v.degraded.get(k, v.nocontract.get(k, ""))) [:160] + ")"))
        else:
            assumed.append(k + " (trait method of the caller's type: contract assumed)")
    text = "\n".join(v.lines)
    scans = {w: len(re.findall(w, text)) for w in (r"\bassume\(", r"\badmit\(", r"external_body", r"assume_specification", r"axiom fn")}
    mods = cone["modules"]
    inmods = {n: t for n, t in v.fn_times.items()}
    nfail = len([1 for n, t in inmods.items() if not t[1]])
    fails_here = len(violations) + (1 if search.failure else 0)
    if v.whole:
        obligations = discharged = 0
    else:
        obligations = v.verified + len(v.failed)
        discharged = v.verified
    slow = sorted(((t[0] / 1e6, n) for n, t in inmods.items()), reverse=True)[:8]
    ev = {
        "property": PID, "tier": "quick" if QUICK else "thorough", "seed": SEED, "level": cone.get("level", "proof"),
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": " ".join(getattr(v, "cmd", ["verus"])),
            "trusted_base": TRUST_NOTES + [f"contract text scan of this run: {json.dumps(scans)}"] + assumed,
            "back_end": "Verus 0.2026.09.13 (Z3); bit_vector and compute_only obligations as marked in contracts/",
            "modules": mods, "functions_under_contract": under, "functions_under_contract_count": len(under),
            "functions_not_decided_this_run": undecided,
            "other_functions_with_failed_obligations": {k: m[:2] for k, m in v.failed.items() if not counts(k, m, cone)},
            "renamed_locals": (v.map or {}).get("renamed", []), "dropped_items": (v.map or {}).get("dropped", []),
            "smt_queries": len(inmods), "smt_queries_failed": nfail,
            "solver_seconds": round(sum(t[0] for t in inmods.values()) / 1e6, 2), "verus_wall_s": round(v.wall, 1), "verus_runs": v.runs,
            "slowest": [f"{n} {s:.1f}s" for s, n in slow],
            "vacuity_canary": canary,
            "verified_in_the_build_without_std_and_simd": other.keys if other else [],
            "bounded_search": {"label": "bounded, never counted as proved", "evaluations": search.evals, "distinct": search.distinct,
                               "rule": "seeded random encoder cases biased to this property, run on the real crate (scalar, SIMD and no_std builds) and judged by an independent strict JPEG parser/decoder or by comparison of builds",
                               "samples": search.samples},
            "evaluations": search.evals, "distinct_nontrivial": search.distinct,
            "rule": "bounded stand-in only: distinct case texts of the search above",
            "samples": search.samples,
            "explanation": cone["note"],
        },
        "assumptions": cone["assumptions"] + ([v.whole] if v.whole else []),
        "wall_s": round(time.time() - T0, 1), "violations": fails_here,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", PID + ".json"), "w"), indent=1)

    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith(f"finding: property={PID} "):
            print("KNOWN-FINDING: property=" + line.split("property=", 1)[1].strip())

    if search.failure:
        msg, path = search.failure
        with open(path, "a") as f:
            for k, m in violations:
                f.write(f"failed obligation in {k}: " + " || ".join(m[:3]) + "\n")
        print("failing input:", msg)
        for k, m in violations:
            print("failed obligation:", k, m[0])
        print(f"VIOLATION property={PID} replay={path}")
        sys.exit(1)
    if violations:
        path = os.path.join(OUTD, f"replay-{PID}-obligations.txt")
        with open(path, "w") as f:
            f.write(f"property={PID}\nThe verifier no longer accepts these obligations; the bounded search found no failing input.\ncommand: {' '.join(v.cmd)}\n")
            for k, m in violations:
                f.write(f"\nfunction {k}\n" + "\n".join("  " + x for x in m) + "\n")
        for k, m in violations:
            print("failed obligation:", k, m[0])
        print(f"VIOLATION property={PID} replay={path} no-failing-input-found")
        sys.exit(1)
    if undecided or v.whole:
        log("not decided by proof on this tree (bounded search instead):", json.dumps(undecided)[:2000], v.whole or "")
    log(f"held: {discharged}/{obligations} obligations, {len(under)} functions under contract, {search.evals} bounded cases")
    sys.exit(0)


def canary_run(v, cone):
    """every contract must be satisfiable: `assert(false)` at the start of each body has to fail"""
    save = (v.map, v.lines, v.rs)
    tag, v.tag = v.tag, "-canary"
    e = v.extract(["--canary"])
    out = {"asserted_false_in": 0, "not_refuted": []}
    if not e:
        res, diags, _ = v.verus(cone["modules"], 10)
        bad = set()
        for d in diags:
            f = v.locate(d)
            if f:
                bad.add(f["key"])
        want = [f["key"] for f in v.map["functions"] if f["contract"] and f["has_body"] and not f["degraded"] and not f["trusted"]
                and (not cone["modules"] or v.mod_of(f["key"]) in cone["modules"])]
        out["asserted_false_in"] = len(want)
        out["not_refuted"] = [k for k in want if k not in bad]
    v.tag = tag
    v.map, v.lines, v.rs = save
    return out


if __name__ == "__main__":
    main()
