#!/usr/bin/env python3
"""Decides one property: run.py <ID> [--replay FILE]

Builds the test binary of the property from /repo's current tree, runs it in a
scratch directory with the seed of VERIF_SEED and the tier of VERIF_TIER,
writes evidence/<ID>.json, and exits 0 (held), 1 (VIOLATION line) or 2 (the
check itself could not run).
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import CHECKS

REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
GOROOT_BIN = "/opt/veriftools/go1.27.3/bin"
MODULE = "github.com/GalaIO/P2Pcrawler"
CONF = {
    "dht": {"Port": 0, "WorkPoolSize": 8, "BootstrapNodes": []},
    "fetchtorrent": {"InfoHashQueueSize": 1000, "WorkPoolSize": 10},
    "logger": {"Level": "Info"},
    "pprof": {"NeedRun": False},
}


def fail(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def main():
    t0 = time.time()
    sys.stdout.reconfigure(errors="backslashreplace")
    args = sys.argv[1:]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = json.load(open(args[i + 1]))
        del args[i:i + 2]
        args = args or [replay["property"]]
    pid = args[0]
    ck = CHECKS[pid]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if replay:
        seed, tier = replay["seed"], replay["tier"]
    # rapid takes 0 as "random"
    rseed = ((seed * 1000003 + 7919) & 0x7FFFFFFFFFFFFFFF) or 1

    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        code = run(pid, ck, tier, seed, rseed, replay, scratch, t0)
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def goenv():
    env = dict(os.environ)
    env.update(HOME=env.get("HOME") or "/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on")
    env["PATH"] = GOROOT_BIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env.pop("GODEBUG", None)
    return env


def build(pid, ck, scratch, env):
    bd = os.path.join(scratch, "build")
    os.mkdir(bd)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HARNESS, f), os.path.join(bd, f))
    base = ["go", "test", "-c", "-modfile", os.path.join(bd, "go.mod"), "-vet=off"]
    if ck["race"]:
        base.append("-race")
    if ck["shim"]:
        ov = {"Replace": {
            REPO + "/dht/zz_verif_shim.go": HARNESS + "/shims/dht.go.txt",
            REPO + "/dht/peerwire/zz_verif_shim.go": HARNESS + "/shims/peerwire.go.txt",
        }}
        json.dump(ov, open(os.path.join(bd, "overlay.json"), "w"))
        base += ["-overlay", os.path.join(bd, "overlay.json")]
    binary = os.path.join(bd, "check.test")
    cmds = [base + ["-o", binary, "./" + ck["pkg"]]]
    if ck["crawler"]:
        cmds.append(["go", "build", "-o", os.path.join(bd, "crawler"), MODULE])
    for cmd in cmds:
        cwd = REPO if cmd[1] == "build" else HARNESS
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
        if p.returncode != 0:
            fail("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return binary, os.path.join(bd, "crawler")


def run(pid, ck, tier, seed, rseed, replay, scratch, t0):
    env = goenv()
    binary, crawler = build(pid, ck, scratch, env)
    cwd = os.path.join(scratch, "run")
    os.makedirs(os.path.join(cwd, "conf"))
    json.dump(CONF, open(os.path.join(cwd, "conf", "config.json"), "w"))
    stats, journal = os.path.join(scratch, "stats.json"), os.path.join(scratch, "journal")
    note = os.path.join(scratch, "failnote")
    env.update(VERIF_STATS=stats, VERIF_FAILNOTE=note, VERIF_JOURNAL=journal, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_CRAWLER=crawler,
               TMPDIR=os.path.join(scratch, "tmp"))
    os.mkdir(env["TMPDIR"])
    pattern = "^%s$" % ck["test"]
    cmd = [binary, "-test.timeout", "0", "-rapid.seed", str(rseed), "-rapid.shrinktime", "20s"]
    if replay and replay.get("failfile"):
        ff = os.path.join(scratch, "replay.fail")
        open(ff, "w", encoding="latin-1", newline="").write(replay["failfile"])
        pattern = replay.get("pattern") or pattern
        cmd += ["-rapid.failfile", ff]
    cmd += ["-test.run", pattern]
    limit = ck["timeout"] if tier == "quick" else max(ck["timeout"], 800)

    def pre():
        if ck["mem_gb"]:
            b = ck["mem_gb"] << 30
            resource.setrlimit(resource.RLIMIT_AS, (b, b))

    log = os.path.join(scratch, "log")
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             preexec_fn=pre, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    out = tail(log)

    verdict, why = judge(rc, out)
    if verdict == "error" and os.path.exists(note):
        # a case failed, and what ended the run came afterwards, while it was being shrunk
        verdict, why = "violation", "a generated case broke the property: %s (then: %s)" % (open(note, errors="replace").read()[:2000].strip(), why)
    fuzz = None
    if verdict == "held" and tier == "thorough" and ck["fuzz"] and not replay:
        verdict, why, fuzz, out2 = run_fuzz(ck, scratch, env)
        if verdict != "held":
            out = out2
    jtext = open(journal, errors="replace").read() if os.path.exists(journal) else ""

    if verdict == "error":
        print(out[-6000:])
        fail("%s (last case: %s)" % (why, jtext[:500]))

    s = json.load(open(stats)) if os.path.exists(stats) else {"evaluations": 0, "distinct_nontrivial": 0, "parts": {}, "samples": [], "rules": {}}
    cov = {
        "evaluations": s["evaluations"],
        "distinct_nontrivial": s["distinct_nontrivial"],
        "rule": "; ".join("[%s] %s" % kv for kv in sorted((s.get("rules") or {}).items())) or "none completed",
        "samples": (s.get("samples") or []) or ([jtext[:400]] if jtext else ["none"]),
        "parts": s.get("parts") or {},
    }
    if fuzz:
        cov["coverage_guided"] = fuzz
        cov["evaluations"] += fuzz.get("execs", 0)
    violations = 0 if verdict == "held" else 1
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["generated-input search: absence of a violation is not a proof"],
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    if not replay:
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)

    for line in known(pid):
        print(line)
    if not violations:
        print("HELD property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        return 0
    # keep a replay file
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    failed = re.findall(r"--- FAIL: (Test\w+/[^\s]+)", out)
    ffs = []
    for root, _, files in os.walk(os.path.join(cwd, "testdata")):
        ffs += [os.path.join(root, f) for f in files if f.endswith(".fail")]
    pat = None
    if failed:
        pat = "/".join("^%s$" % x for x in failed[0].split("/"))
    rp = os.path.join(rdir, "%s-%d-%s.json" % (pid, seed, tier))
    json.dump({"property": pid, "seed": seed, "tier": tier, "test": ck["test"], "pattern": pat, "why": why,
               "failfile": open(sorted(ffs)[0], encoding="latin-1", newline="").read() if ffs else None, "last_case": jtext, "output": out[-20000:],
               "how": "python3 /verif/run.py %s --replay %s" % (pid, rp)}, open(rp, "w"), indent=1)
    print(out[-5000:])
    print("reason: %s" % why)
    if jtext and not ffs:
        print("last case: %s" % jtext[:1000])
    print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
    return 1


def tail(path, n=400000):
    with open(path, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        if size <= n:
            f.seek(0)
            return f.read().decode(errors="replace")
        f.seek(0)
        a = f.read(n // 2)
        f.seek(size - n // 2)
        return (a + b"\n...\n" + f.read()).decode(errors="replace")


def race_reports(out):
    """For each race report whether the code under test is what accessed the memory on one side of it at least."""
    r = []
    for rep in out.split("WARNING: DATA RACE")[1:]:
        rep = rep.split("\n==================")[0]
        own = False
        for acc in re.split(r"\n\s*\n", rep):
            if not re.match(r"\s*(Previous )?(atomic )?(read|write) at ", acc, re.I):
                continue
            if "failed to restore the stack" in acc:
                own = True
            for f in re.findall(r"^\s+(/\S+):\d+", acc, re.M):
                if f.startswith(REPO + "/"):
                    own = True
                    break
                if f.startswith(HARNESS + "/"):
                    break
        r.append(own)
    return r


def judge(rc, out):
    if rc == 0:
        return "held", ""
    if rc == "timeout":
        return "error", "the run did not finish in its time"
    if rc == 3 or "HARNESS-ERROR" in out:
        return "error", "the harness could not run"
    if rc == 4 and "VERIF-STUCK" in out:
        return "violation", "a case did not terminate"
    races = race_reports(out)
    if rc == 1 and races and not any(own for own in races) and not re.search(r"\[rapid\] (failed|panic|flaky)|^panic: |fatal error: ", out, re.M) \
            and "race detected during execution" in out and not re.search(r"^\s+\w+_test\.go:\d+: (?!\[rapid\])", out, re.M):
        # both sides of every race are the harness's own bookkeeping, and every case passed
        return "held", ""
    if rc in (1, 66) and any(races) and not re.search(r"--- FAIL: Test\w+/", out.split("WARNING: DATA RACE")[0]):
        return "violation", "data race in the code under test"
    if rc == 1 and "--- FAIL" in out:
        return "violation", "a generated case broke the property"
    if rc == 2 and re.search(r"^(panic|fatal error|runtime: )", out, re.M):
        if MODULE in out or "concurrent map" in out or "out of memory" in out or "stack overflow" in out:
            return "violation", "the process crashed"
        return "error", "the harness crashed"
    return "error", "unexpected end of the test binary: %r" % (rc,)


def run_fuzz(ck, scratch, env):
    """Coverage-guided search with Go's native fuzzer, thorough tier only."""
    bd = os.path.join(scratch, "build")
    cache = os.path.join(scratch, "fuzzcache")
    # run in a copy of the harness so that failing inputs land in the scratch directory
    hcopy = os.path.join(scratch, "harness")
    shutil.copytree(HARNESS, hcopy)
    cmd = ["go", "test", "-run", "^$", "-fuzz", "^%s$" % ck["fuzz"], "-fuzztime", "%ds" % ck["fuzztime"],
           "-test.fuzzcachedir", cache, "./" + ck["pkg"]]
    p = subprocess.run(cmd, cwd=hcopy, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=ck["fuzztime"] + 400)
    m = re.findall(r"execs: (\d+).*?new interesting: (\d+)", p.stdout)
    info = {"execs": int(m[-1][0]) if m else 0, "new_interesting": int(m[-1][1]) if m else 0, "seconds": ck["fuzztime"]}
    if p.returncode == 0:
        return "held", "", info, p.stdout
    if "--- FAIL" in p.stdout and "Failing input written" in p.stdout:
        extra = ""
        for root, _, files in os.walk(os.path.join(hcopy, ck["pkg"], "testdata", "fuzz")):
            for f in files:
                extra += "\n" + f + ":\n" + open(os.path.join(root, f), errors="replace").read()
        return "violation", "coverage-guided fuzzing found a counterexample", info, p.stdout + extra
    return "error", "fuzzing did not run", info, p.stdout


def known(pid):
    """KNOWN-FINDING lines of recorded, unrepaired defects (fixed ones print nothing)."""
    path = os.path.join(HERE, "known_findings.txt")
    r = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                r.append(line.rstrip("\n"))
    return r


if __name__ == "__main__":
    main()
