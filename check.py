#!/usr/bin/env python3
"""Decides one property: python3 check.py <id> [--replay FILE]

Runs the harness (which executes the library and records what it did), hands
the recording to TLC, which checks it against the specification in spec/, and
model-checks the specification itself.  See DESIGN.md.
exit 0: held   exit 1: VIOLATION line   exit 2: the check itself failed"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(HERE, "target")
WORK = os.path.join(HERE, "work")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
VH = os.path.join(TARGET, "debug", "vh")
JAR = "/opt/veriftools/tla/tla2tools.jar"
T0 = time.time()
sys.path.insert(0, HERE)
from plan import PLAN, CFG  # noqa: E402


class Broken(Exception):
    """The check could not do its work."""


def say(*a):
    print(*a, flush=True)


def env(**kw):
    e = dict(os.environ)
    e.update({"HOME": "/root", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
              "CARGO_TARGET_DIR": TARGET, "RUSTUP_TOOLCHAIN": "stable", "RUSTC_WRAPPER": ""})
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTFLAGS", None)
    e.pop("RUST_BACKTRACE", None)
    e.update({k: str(v) for k, v in kw.items()})
    return e


# ------------------------------------------------------------------- build
def src_hash():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, base)
        fs = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build():
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(WORK, exist_ok=True)
    man = os.path.join(HERE, "harness", "Cargo.toml")
    mark = os.path.join(TARGET, "src.hash")
    now = src_hash()
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != now and os.path.exists(VH):
        subprocess.run(["cargo", "clean", "--offline", "--manifest-path", man, "-p", "dbus-message-parser"],
                       env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path", man], env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode:
        raise Broken("harness does not build:\n" + r.stdout[-4000:])
    with open(mark, "w") as f:
        f.write(now)


# ----------------------------------------------------------------- harness
class Crash(Exception):
    def __init__(self, case, how):
        self.case, self.how = case, how


def harness(fam, out, seed, limit, replay=None, script=None):
    """Runs the library.  Returns the number of library executions."""
    kw = {"VERIF_SEED": seed, "VERIF_TIER": TIER}
    if script:
        kw["VH_SCRIPT"] = script
    if replay:
        kw["VH_REPLAY"] = replay
    def go(**more):
        try:
            return subprocess.run([VH, fam, out], env=env(**kw, **more), stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, text=True, timeout=limit)
        except subprocess.TimeoutExpired:
            return None
    r = go()
    if r is not None and r.returncode == 0:
        m = re.search(r"executions=(\d+)", r.stdout)
        return int(m.group(1)) if m else 0
    if r is not None and r.returncode == 3:
        raise Broken("harness: " + r.stderr[-2000:] + " (set VH_LOUD=1)")
    # the library took the process down, or does not come back: which case was it?
    last = out + ".last"
    if os.path.exists(last):
        os.remove(last)
    r2 = go(VH_LAST=last)
    if os.path.exists(last) and (r2 is None or r2.returncode not in (0, 3)):
        with open(last) as f:
            case = f.read()
        raise Crash(case, "no answer" if r2 is None else "process ended by %d" % -r2.returncode)
    raise Broken("harness failed: %s" % (r.stderr[-2000:] if r else "timeout"))


# --------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self):
        self.states = self.distinct = 0
        self.bad = None      # (kind, name, record index or None, text)


def tlc(module, cfg_name, invs, trace=None, workers=8, limit=800, props=(), extra=(), defs=None):
    d = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    cfg = CFG[cfg_name] + "".join("INVARIANT %s\n" % i for i in invs) + \
        "".join("PROPERTY %s\n" % p for p in props)
    cp = os.path.join(d, "m.cfg")
    with open(cp, "w") as f:
        f.write(cfg)
    e = env()
    if trace:
        e["TRACE"] = trace
    e.update({k: str(v) for k, v in (defs or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xss64m", "-Xmx12g", "-cp",
           JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar",
           "tlc2.TLC", "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE",
           "-config", cp] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=os.path.join(HERE, "spec"), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=limit, errors="replace")
        out = r.stdout
    except subprocess.TimeoutExpired as x:
        raise Broken("TLC on %s: no answer within %d s" % (module, limit))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    t = Tlc()
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        t.states, t.distinct = int(m[-1][0]), int(m[-1][1])
    t.out = out
    if "Model checking completed. No error has been found." in out or \
            ("-simulate" in extra and r.returncode == 0):
        return t
    cs = re.findall(r"^(?:/\\ )?c = (\d+)\s*$", out, re.M)
    idx = int(cs[-1]) if cs else None
    m = re.search(r"Invariant (\w+) is violated", out) or \
        re.search(r"(?:Temporal properties|Action property \S+|Property (\w+)) (?:were|was|is) violated", out)
    if m:
        t.bad = ("invariant", (m.group(1) if m.groups() else None) or "?", idx, out)
        return t
    if trace and idx is not None and "evaluat" in out and "OutOfMemory" not in out \
            and "StackOverflow" not in out:
        t.bad = ("unexplained", "?", idx, out)
        return t
    raise Broken("TLC on %s:\n%s" % (module, out[-3000:]))


# ------------------------------------------------------------------ a check
def line(path, n):
    with open(path) as f:
        for i, x in enumerate(f, 1):
            if i == n:
                return x
    return ""


def violation(pid, text, case, why, fam):
    d = os.path.join(WORK, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.ndjson" % (pid, hashlib.sha256(case.encode()).hexdigest()[:10])
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(case if case.endswith("\n") else case + "\n")
    say("case (%s): %s" % (fam, case[:1500]))
    say("why: " + why)
    if text:
        i = text.rfind("\nState ")
        say(text[i if i > 0 else max(0, text.find("Error:")):][:3000])
    say("replay: python3 check.py %s --replay %s" % (pid, p))
    say("VIOLATION property=%s replay=%s" % (pid, p))
    return 1


def known(pid):
    """Findings listed as open: digests of their cases."""
    r = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for x in open(p):
            m = re.match(r"open: property=(\S+) case=([0-9a-f]{64}) (.*)", x)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r


def case_digest(rec):
    """Digest of what was run (without what came out)."""
    j = json.loads(rec)
    return hashlib.sha256(json.dumps({k: j[k] for k in sorted(j) if k in ("k", "in", "fds", "m", "s", "ops", "t", "a", "b", "v")},
                                     sort_keys=True).encode()).hexdigest()


def run(pid, replay=None):
    build()
    tot = {"states": 0, "distinct": 0, "traces": 0, "exec": 0, "models": [], "families": {}}
    samples = []
    rc = 0
    kf = known(pid)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=WORK)
    try:
        for task in PLAN[pid]:
            t1 = time.time()
            if task["kind"] == "model":
                if replay:
                    continue
                if TIER not in task.get("tiers", ("quick", "thorough")):
                    continue
                cfg = task["cfg"]
                if TIER == "thorough" and "cfg_thorough" in task:
                    cfg = task["cfg_thorough"]
                t = tlc(task["module"], cfg, task.get("invs", []), props=task.get("props", ()),
                        limit=task.get("limit", 800 if TIER == "quick" else 14000), extra=task.get("extra", ()),
                        workers=task.get("workers", 8))
                tot["states"] += t.states
                tot["distinct"] += t.distinct
                tot["models"].append({"module": task["module"], "config": cfg, "states": t.distinct,
                                      "transitions": t.states, "wall_s": round(time.time() - t1, 1)})
                if t.bad:
                    # the model is at odds with itself: that is not the code's fault
                    raise Broken("model %s: %s\n%s" % (task["module"], t.bad[1], t.bad[3][-3000:]))
                continue
            rounds = task.get("rounds", 1) if TIER == "quick" else task.get("thorough_rounds", 12)
            if replay:
                rounds = 1
            for rd in range(rounds):
                fam = task["fam"]
                out = os.path.join(work, "%s-%d.ndjson" % (fam, rd))
                script = None
                if "gen" in task and not replay:
                    # behaviours of the specification, for the real code to follow
                    g = task["gen"]
                    script = os.path.join(work, "%s-%d.script" % (fam, rd))
                    num = g["num"] * (1 if TIER == "quick" else 4)
                    t = tlc(g["module"], g["cfg"], [g.get("inv", "Written")], workers=1, defs={"OUT": script},
                            extra=("-simulate", "num=%d" % num, "-depth", str(g.get("depth", 60)), "-seed", str(SEED + 7919 * rd)))
                    if t.bad:
                        raise Broken("generator %s: %s" % (g["module"], t.out[-2000:]))
                try:
                    n = harness(fam, out, SEED + 7919 * rd, task.get("limit", 300), replay, script)
                except Crash as x:
                    return violation(pid, "", x.case, "the library gives no answer: " + x.how, fam), tot, samples
                if kf:
                    keep = []
                    with open(out) as f:
                        for x in f:
                            dg = case_digest(x)
                            if dg in kf:
                                say("KNOWN-FINDING: property=%s %s" % (pid, kf[dg]))
                            else:
                                keep.append(x)
                    with open(out, "w") as f:
                        f.writelines(keep)
                with open(out) as f:
                    cnt = sum(1 for _ in f)
                if replay:
                    # a recording may hold cases of other families too
                    mods = {json.loads(x)["k"] for x in open(out)}
                    if not mods <= set(task["kinds"]):
                        continue
                if cnt == 0:
                    raise Broken("family %s recorded nothing" % fam)
                t = tlc(task["module"], task["cfg"], task["invs"], trace=out, limit=task.get("tlc_limit", 800))
                tot["states"] += t.states
                tot["distinct"] += t.distinct
                tot["traces"] += cnt
                tot["exec"] += n
                f_ = tot["families"].setdefault(fam, {"records": 0, "executions": 0, "wall_s": 0})
                f_["records"] += cnt
                f_["executions"] += n
                f_["wall_s"] = round(f_["wall_s"] + time.time() - t1, 1)
                if t.bad:
                    kind, name, idx, text = t.bad
                    case = line(out, idx) if idx else ""
                    why = ("%s of the specification is violated" % name) if kind == "invariant" else \
                        "the recording is not a behaviour of the specification"
                    return violation(pid, text, case, why, fam), tot, samples
                if len(samples) < 6:
                    for i in (1, cnt // 2, cnt):
                        samples.append("%s: %s" % (fam, line(out, max(1, i)).strip()[:600]))
                os.remove(out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc, tot, samples


def main():
    pid = sys.argv[1]
    if pid == "--build":
        build()
        return 0
    replay = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1]) if "--replay" in sys.argv else None
    rc, tot, samples = run(pid, replay)
    if not replay:
        ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": "model_checking",
              "coverage": {"states": tot["distinct"], "transitions": tot["states"],
                           "traces_validated_against_impl": tot["traces"],
                           "library_executions": tot["exec"],
                           "families": tot["families"], "models": tot["models"],
                           "samples": samples},
              "assumptions": ["the harness' bridge (harness/src/val.rs, msg.rs) reports what the library's accessors return",
                              "inputs outside those generated are covered only by the structure they share with them"],
              "wall_s": round(time.time() - T0, 1), "violations": 1 if rc else 0}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    say("%s: %s  traces=%d executions=%d states=%d wall=%.1fs" % (
        pid, "held" if rc == 0 else "VIOLATED", tot["traces"], tot["exec"], tot["distinct"], time.time() - T0))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as x:
        say("CHECK FAILED: %s" % x)
        sys.exit(2)
    except subprocess.TimeoutExpired as x:
        say("CHECK FAILED: %s" % x)
        sys.exit(2)
