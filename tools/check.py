#!/usr/bin/env python3
"""Builds the harness from /repo's working tree, runs one check in one or more
monitored processes, merges what they observed, writes the evidence file and
reports violations.

exit 0: property held on everything explored; 1: VIOLATION line(s); 2: no answer.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")     # development only
LIB = "github.com/dropmorepackets/haproxy-go"
GO = None

sys.path.insert(0, os.path.join(ROOT, "tools"))
from plans import PLANS, Proc  # noqa: E402


def goenv():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode()
    env["GOFLAGS"] = "-mod=mod"
    env["GOPROXY"] = "off"
    env["GOSUMDB"] = "off"
    env["GOWORK"] = "off"
    env["PATH"] = env.get("PATH", "") + ":/usr/sbin:/usr/local/go/bin:/usr/local/sbin"
    return env


def build(env, work):
    """Builds the race-instrumented test binary; returns its path or None."""
    out = os.path.join(work, "checks.test")
    # go.mod/go.sum are copied so that the build never rewrites committed files
    mod = os.path.join(work, "go.mod")
    s = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(s)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(work, "go.sum"))
    cmd = ["go", "test", "-race", "-vet=off", "-modfile", mod, "-c", "-o", out, "./checks"]
    p = subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        sys.stderr.write("build failed:\n" + p.stdout[-4000:] + p.stderr[-8000:] + "\n")
        return None
    return out


def cpus():
    return sorted(os.sched_getaffinity(0))


def run_proc(i, proc, prop, binary, env, work, tier, results):
    d = os.path.join(work, "p%d" % i)
    os.makedirs(d, exist_ok=True)
    e = dict(env)
    e.update(proc.env)
    e["VERIF_PROC"] = str(i)
    e["VERIF_OUT"] = os.path.join(d, "out.json")
    e["VERIF_JOURNAL"] = os.path.join(d, "journal")
    e["VERIF_WORK"] = d
    e["VERIF_BUDGET"] = str(proc.budget)
    e["GORACE"] = "log_path=%s halt_on_error=0 exitcode=0 history_size=3" % os.path.join(d, "race")
    e["GOTRACEBACK"] = "all"
    if proc.gomaxprocs:
        e["GOMAXPROCS"] = str(proc.gomaxprocs)
    avail = cpus()
    cmd = []
    if proc.cpus and proc.cpus < len(avail):
        first = (i * proc.cpus) % len(avail)
        sel = [avail[(first + k) % len(avail)] for k in range(proc.cpus)]
        cmd = ["taskset", "-c", ",".join(map(str, sel))]
    test = proc.test or ("Test" + prop)
    cmd += [binary, "-test.run", "^%s$" % test, "-test.timeout", "0", "-test.v=false"]
    t0 = time.time()
    err = open(os.path.join(d, "stderr"), "wb")
    p = subprocess.Popen(cmd, cwd=d, env=e, stdout=err, stderr=subprocess.STDOUT, start_new_session=True)
    hang = False
    limit = proc.limit
    while p.poll() is None:
        if time.time() - t0 > limit:
            hang = True
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(15)
            except subprocess.TimeoutExpired:
                pass
            break
        time.sleep(0.02)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    err.close()
    r = dict(i=i, rc=p.returncode, hang=hang, wall=time.time() - t0, dir=d, proc=proc)
    try:
        r["rep"] = json.load(open(e["VERIF_OUT"]))
    except Exception:
        r["rep"] = None
    try:
        r["journal"] = open(e["VERIF_JOURNAL"], "rb").read().split(b"\0")[0].decode("utf8", "replace")
    except Exception:
        r["journal"] = ""
    r["stderr"] = open(os.path.join(d, "stderr"), "rb").read().decode("utf8", "replace")
    races = ""
    for f in glob.glob(os.path.join(d, "race.*")):
        races += open(f, errors="replace").read()
    r["races"] = races
    results[i] = r


def split_races(text):
    return [b for b in text.split("==================") if "DATA RACE" in b or "WARNING" in b]


def race_key(block):
    fr = re.findall(r"^  (\S+)\(", block, re.M)
    lib = [f for f in fr if LIB in f]
    return "|".join(sorted(set(lib))[:6])


def crash_block(text):
    """The part of a Go crash dump up to the end of the crashing goroutine."""
    m = re.search(r"^(panic:|fatal error:|SIGSEGV|unexpected fault)", text, re.M)
    if not m:
        return ""
    t = text[m.start():]
    g = [x.start() for x in re.finditer(r"^goroutine \d+", t, re.M)]
    return t[:g[1]] if len(g) > 1 else t


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build-only":
        env = goenv()
        work = tempfile.mkdtemp(prefix="verif-build-")
        try:
            return 0 if build(env, work) else 2
        finally:
            shutil.rmtree(work, ignore_errors=True)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    if not re.fullmatch(r"-?\d+", seed):
        seed = "1"
    t0 = time.time()
    env = goenv()
    env["VERIF_SEED"] = seed
    env["VERIF_TIER"] = tier
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return check(prop, tier, int(seed), env, work, t0)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)


def fit(procs, ncpu, total=660):
    """Shortens the exploration so that all processes, which can not run at
    once, take no longer than total seconds."""
    end, running = 0, []
    for p in procs:
        w = min(p.weight, ncpu)
        now = 0
        while sum(x for e, x in running if e > now) + w > ncpu:
            now = min(e for e, x in running if e > now)
        running.append((now + 1, w))
        running = [(e, x) for e, x in running if e > now]
        # nothing starts before an earlier one of the list
        running = [(e - now, x) for e, x in running]
        end += now
    waves = end + 1
    for p in procs:
        p.budget = min(p.budget, total // waves)


def check(prop, tier, seed, env, work, t0):
    binary = build(env, work)
    if not binary:
        return 2
    build_s = time.time() - t0
    procs = PLANS[prop](tier)
    if tier != "quick":
        fit(procs, max(1, len(cpus())))
    results = {}
    # run in waves so that the CPUs in use do not exceed what is there
    ncpu = max(1, len(cpus()))
    pending = list(enumerate(procs))
    running = []
    while pending or running:
        running = [(t, w) for t, w in running if t.is_alive()]
        load = sum(w for _, w in running)
        if pending:
            i, proc = pending[0]
            w = min(proc.weight, ncpu)
            if load + w <= ncpu:
                pending.pop(0)
                t = threading.Thread(target=run_proc, args=(i, proc, prop, binary, env, work, tier, results))
                t.start()
                running.append((t, w))
                continue
        time.sleep(0.02)

    violations, errors = [], []
    evals, keys, distinct_max = 0, set(), 0
    counters, samples, rule, exhaustive = {}, [], "", []
    races = {}
    for i in sorted(results):
        r = results[i]
        rep = r["rep"]
        for blk in split_races(r["races"]):
            if LIB + "/" in blk:
                races.setdefault(race_key(blk), (blk, r["journal"]))
            else:
                errors.append("race inside the harness:\n" + blk[:3000])
        if "checkptr" in r["stderr"] and LIB + "/" in r["stderr"] and rep is None:
            pass  # falls through to the crash handling below
        if rep:
            evals += rep["evaluations"]
            distinct_max = max(distinct_max, rep["distinct"])
            keys.update(rep["distinct_keys"] or [])
            for k, v in (rep["counters"] or {}).items():
                counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
            for s in rep["samples"] or []:
                if len(samples) < 10:
                    samples.append(s)
            rule = rep["rule"] or rule
            for x in rep.get("exhaustive") or []:
                if x not in exhaustive:
                    exhaustive.append(x)
            for v in rep["violations"] or []:
                violations.append(v)
            if rep.get("harness_error"):
                errors.append(rep["harness_error"])
        crashed = rep is None or not rep["complete"] or r["rc"] != 0
        if crashed and not (rep and rep["complete"] and rep["violations"]):
            tail = r["stderr"][:6000] + ("\n...\n" + r["stderr"][-3000:] if len(r["stderr"]) > 9000 else r["stderr"][6000:])
            if r["hang"]:
                if LIB + "/" in r["stderr"]:
                    violations.append(dict(kind="hang", case=r["journal"], detail="no progress for %d s\n%s" % (r["wall"], tail)))
                else:
                    errors.append("hang: " + tail)
            elif LIB + "/" in crash_block(r["stderr"]):
                violations.append(dict(kind="crash", case=r["journal"], detail="process terminated (rc=%s)\n%s" % (r["rc"], tail)))
            elif r["rc"] in (-9, 137):
                errors.append("killed (out of memory?): " + r["journal"] + "\n" + tail[:2000])
            else:
                errors.append("rc=%s %s\n%s" % (r["rc"], r["journal"], tail))
    for k, (blk, j) in races.items():
        violations.append(dict(kind="data-race", case=j, detail=blk[:6000]))
    counters["race_reports"] = len(races)

    known = []
    try:
        for line in open(os.path.join(ROOT, "known_findings.txt")):
            line = line.strip()
            if line.startswith("known:"):
                known.append(dict(kv.split("=", 1) for kv in line[6:].split("|")[0].split() if "=" in kv) | {"text": line.split("|", 1)[-1].strip()})
    except OSError:
        pass
    real = []
    for v in violations:
        hit = None
        for k in known:
            if k.get("property") == prop and k.get("kind") == v["kind"] and k.get("match", "") in v["detail"]:
                hit = k
        if hit:
            hit["seen"] = True
        else:
            real.append(v)
    for k in known:
        if k.get("property") == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))

    wall = time.time() - t0
    distinct = max(len(keys), distinct_max)
    cov = dict(evaluations=evals, distinct_nontrivial=distinct, rule=rule, samples=samples or ["(none)"],
               observed=counters, processes=[
                   dict(cpus=p.cpus or len(cpus()), gomaxprocs=p.gomaxprocs or "default", test=p.test or prop,
                        wall_s=round(results[i]["wall"], 2)) for i, p in enumerate(procs)],
               build_s=round(build_s, 2), instrumentation="go build -race (race detector, checkptr)")
    if exhaustive:
        cov["exhaustively_enumerated"] = exhaustive
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=["Go 1.27 runtime, race detector and testing/synctest are correct",
                           "the harness's reference codecs implement the SPOP/peers documents"],
              wall_s=round(wall, 2), violations=len(real))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if real:
        rd = os.path.join(ROOT, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed,
                           rerun="VERIF_SEED=%d ./run.sh %s %s" % (seed, prop, tier),
                           violations=real), f, indent=1)
        for v in real[:6]:
            print("--- %s: %s\ncase: %s\n%s" % (prop, v["kind"], v["case"][:1500], v["detail"][:2500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        sys.stderr.write("no answer:\n" + "\n".join(errors)[:12000] + "\n")
        return 2
    if evals == 0:
        sys.stderr.write("nothing was evaluated\n")
        return 2
    print("%s %s: held on %d evaluations (%d distinct), %.1f s" % (prop, tier, evals, distinct, wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
