"""Runs harness jobs, classifies their endings and writes the evidence."""
import concurrent.futures, json, os, shutil, signal, struct, subprocess, sys, tempfile, time
from . import build

VERIF = build.VERIF
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))

SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=66:abort_on_error=0:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:handle_abort=1:allocator_may_return_null=1:malloc_context_size=12",
    "LSAN_OPTIONS": "exitcode=66",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:atexit_sleep_ms=0",
}


class Job:
    def __init__(self, binary, args, env=None, timeout=600, label=""):
        self.binary, self.args, self.env, self.timeout, self.label = binary, list(args), dict(env or {}), timeout, label


class Result:
    pass


def run_job(job, workdir, idx, stop):
    r = Result()
    r.job = job
    r.stopped = False
    stats = os.path.join(workdir, f"stats{idx}.json")
    tmp = os.path.join(workdir, f"tmp{idx}")
    os.makedirs(tmp, exist_ok=True)
    outp = os.path.join(workdir, f"out{idx}.txt")
    cmd = [job.binary] + job.args + ["--stats", stats, "--tmp", tmp]
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["VERIF_GOLDEN"] = os.path.join(VERIF, "golden", "protocol.json")
    env.update(job.env)
    t = time.time()
    r.timeout = False
    with open(outp, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=tmp, start_new_session=True)
        r.rc = None
        while r.rc is None and not r.timeout and not r.stopped:
            try:
                r.rc = p.wait(timeout=0.25)
            except subprocess.TimeoutExpired:
                r.timeout = time.time() - t > job.timeout
                r.stopped = stop["at"] is not None and time.time() > stop["at"]
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    r.wall = time.time() - t
    with open(outp, "rb") as f:
        r.out = f.read().decode("utf-8", "replace")
    r.cmd, r.env = cmd, {**{k: SAN_ENV[k] for k in SAN_ENV}, **job.env}
    r.stats, r.hashes = None, set()
    if os.path.exists(stats):
        with open(stats) as f:
            r.stats = json.load(f)
        hp = stats + ".hashes"
        if os.path.exists(hp):
            b = open(hp, "rb").read()
            r.hashes = set(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    shutil.rmtree(tmp, ignore_errors=True)
    return r


def classify(r):
    """ok | violation | inconclusive"""
    if r.stopped:
        return "ok", ""  # ended early, as another run had shown a violation
    if r.timeout:
        return "inconclusive", "time limit reached without a confirmed hang"
    if r.rc == 0 and r.stats is not None and "MONITOR-DONE" in r.out:
        return "ok", ""
    if r.rc == 3 or "MONITOR-INCONCLUSIVE" in r.out:
        return "inconclusive", tail(r.out)
    if r.rc == -signal.SIGKILL:
        return "inconclusive", "killed (out of memory?)"
    for line in r.out.splitlines():
        if "MONITOR-VIOLATION:" in line:
            return "violation", line.split("MONITOR-VIOLATION:", 1)[1].strip()
    for line in r.out.splitlines():
        if "SUMMARY:" in line or "runtime error:" in line or "ERROR: AddressSanitizer" in line or "WARNING: ThreadSanitizer" in line:
            return "violation", line.strip()
    if r.rc is not None and r.rc != 0:
        return "violation", f"process ended with status {r.rc}: " + tail(r.out, 3)
    return "inconclusive", "no result: " + tail(r.out)


def tail(s, n=5):
    return " | ".join(s.strip().splitlines()[-n:])


def run_all(prop, jobs, parallel, tier):
    """Runs the jobs; returns the results in order."""
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    res = [None] * len(jobs)
    finds = known_findings(prop)
    stop = {"at": None}  # once a violation is certain, the other runs get a few seconds to show theirs
    try:
        with concurrent.futures.ThreadPoolExecutor(parallel) as ex:
            futs = {ex.submit(run_job, j, work, i, stop): i for i, j in enumerate(jobs)}
            for f in concurrent.futures.as_completed(futs):
                r = res[futs[f]] = f.result()
                if stop["at"] is None and classify(r)[0] == "violation" and not any(k["match"] in r.out for k in finds):
                    stop["at"] = time.time() + 10
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return res


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            if e["property"] == prop:
                out.append(e)
    return out


def save_replay(prop, n, r, why):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{n}.txt")
    env = " ".join(f"{k}='{v}'" for k, v in sorted(r.env.items()))
    case = [l for l in r.out.splitlines() if l.startswith("MONITOR-CASE")]
    with open(path, "w") as f:
        f.write(f"property: {prop}\nwhat: {why}\nrerun: {env} {' '.join(r.cmd)}\n{case[0] if case else ''}\n--- output\n{r.out[-20000:]}\n")
    return path


def write_evidence(prop, spec, tier, seed, results, wall, violations, extra=None):
    ev, cnt, mx, hashes, samples = 0, {}, {}, set(), []
    for r in results:
        if r is None or r.stats is None:
            continue
        ev += r.stats["evaluations"]
        for k, v in r.stats["counters"].items():
            cnt[k] = cnt.get(k, 0) + v
        for k, v in r.stats["maxima"].items():
            mx[k] = max(mx.get(k, 0), v)
        hashes |= r.hashes
        for s in r.stats["samples"]:
            if len(samples) < 8:
                samples.append(s)
    cov = {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": spec["rule"], "samples": samples or ["(none)"],
           "observed": cnt, "maxima": mx,
           "processes": len(results), "configurations": sorted({r.job.label for r in results if r is not None})}
    if extra:
        cov.update(extra)
    os.makedirs(EVID, exist_ok=True)
    out = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
           "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    p = os.path.join(EVID, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(out, f, indent=1)
    os.replace(p + ".tmp", p)
