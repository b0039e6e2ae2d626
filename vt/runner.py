"""Runs one check: builds, runs the monitored executions, judges, writes evidence."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, time, concurrent.futures as cf
from . import build as B

VERIF = B.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"

class Job:
    """One monitored execution."""
    def __init__(self, exe, args=(), env=None, name=None, timeout=120, weight=1, scale=True, expect=None, judge=None, alone=False):
        self.exe, self.args, self.env = exe, [str(a) for a in args], dict(env or {})
        self.name = name or "%s %s" % (exe, " ".join(self.args))
        self.timeout, self.weight, self.expect, self.judge, self.alone = timeout, weight, expect, judge, alone

RSEQ = {"GLIBC_TUNABLES": "glibc.pthread.rseq=0"}

def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m: out.append(m.groups())
    return out

def run_once(job, exes, rundir, idx, attempt):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("TCMALLOC", "BORG", "GLIBC_TUNABLES", "PERCPU", "MALLOC"))}
    env["VERIF_SEED"] = str(SEED); env["VERIF_TIER"] = TIER
    env["VT_DIR"] = rundir
    env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=66:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4"
    env.update(job.env)
    out = os.path.join(rundir, "job%03d.%d.log" % (idx, attempt))
    t0 = time.time()
    with open(out, "wb") as f:
        p = subprocess.Popen([exes[job.exe]] + job.args, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT,
                             env=env, cwd=rundir, start_new_session=True)
        try:
            rc = p.wait(job.timeout)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try: os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError): pass
        p.wait()
    txt = open(out, errors="replace").read()
    return rc, txt, out, time.time() - t0

def classify(job, rc, txt):
    """-> list of (key, message) violations, or None when inconclusive."""
    v = []
    for m in re.finditer(r"^VIOL (\S+) ?(.*)$", txt, re.M): v.append((m.group(1), m.group(2)))
    if job.judge: return job.judge(job, rc, txt, v)
    if v: return v
    if rc == 0 and re.search(r"^DONE", txt, re.M): return []
    if rc == 3: return "inconclusive"
    if rc == "timeout": return "timeout"
    if rc in (-9, 137): return "killed"
    tail = [l for l in txt.strip().splitlines() if not l.startswith(("STAT", "SAMPLE"))][-12:]
    san = re.search(r"(WARNING: ThreadSanitizer: .*|ERROR: AddressSanitizer: .*|runtime error: .*)", txt)
    if san:
        return [("sanitizer", san.group(1)[:300])]
    return [("crash", "exit %s: %s" % (rc, " | ".join(tail)[-600:]))]

def run_job(args):
    job, exes, rundir, idx = args
    for attempt in (0, 1):
        rc, txt, out, dt = run_once(job, exes, rundir, idx, attempt)
        r = classify(job, rc, txt)
        if r not in ("timeout", "killed"): break
    if r == "timeout": r = [("hang", "no completion in %ds, twice" % job.timeout)]
    if r == "killed": r = "inconclusive"
    return job, r, txt, out, dt

def run_check(pid, spec):
    t0 = time.time()
    rundir = os.path.join(B.ROOT, "run", pid)
    shutil.rmtree(rundir, ignore_errors=True); os.makedirs(rundir)
    try:
        exes = B.build(spec["builds"])
    except B.BuildError as e:
        print("BUILD-ERROR: the current tree or a harness does not compile:\n%s" % e)
        return 2
    tb = time.time() - t0
    jobs = spec["jobs"](SEED, TIER)
    res = []
    par = [j for j in jobs if not j.alone]; alone = [j for j in jobs if j.alone]
    with cf.ThreadPoolExecutor(spec.get("parallel", 4)) as ex:
        res += list(ex.map(run_job, [(j, exes, rundir, i) for i, j in enumerate(par)]))
    for i, j in enumerate(alone): res.append(run_job((j, exes, rundir, len(par) + i)))
    stats, samples, distinct, viol, incon, perjob = {}, [], set(), [], [], []
    for job, r, txt, out, dt in res:
        st = {}
        for m in re.finditer(r"^STAT (\S+) (-?\d+)\s*$", txt, re.M): st[m.group(1)] = st.get(m.group(1), 0) + int(m.group(2))
        for k, n in st.items(): stats[k] = stats.get(k, 0) + n
        sm = re.findall(r"^SAMPLE (.*)$", txt, re.M)
        for x in sm[:3]: samples.append("[%s] %s" % (job.name, x[:400]))
        for m in re.finditer(r"^DIST (.*)$", txt, re.M): distinct.update(m.group(1).split())
        perjob.append({"job": job.name, "env": job.env, "seconds": round(dt, 2), "result": "ok" if r == [] else str(r)[:300]})
        if r == "inconclusive": incon.append(job.name)
        elif r: viol.append((job, r, out))
    cov = {"evaluations": stats.get("evals", 0), "distinct_nontrivial": stats.get("distinct", 0) + len(distinct),
           "rule": spec["rule"], "samples": samples[:40] or ["(none printed)"], "observed": stats, "jobs": perjob,
           "inconclusive_jobs": incon, "build_seconds": round(tb, 1)}
    kf = [k for k in known_findings() if k[0] == pid]
    real, seen = [], set()
    for job, r, out in viol:
        for key, msg in r:
            hit = [k for k in kf if k[1] == key]
            if hit:
                if key not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][2])); seen.add(key)
            else: real.append((job, key, msg, out))
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if real:
        rd = os.path.join(VERIF, "replay", pid); shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
        job, key, msg, out = real[0]
        shutil.copy(out, os.path.join(rd, "output.log"))
        rp = os.path.join(rd, "replay.sh")
        with open(rp, "w") as f:
            f.write("#!/bin/sh\n# %s: %s\n# rebuild first: VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s\n" % (key, msg.replace("\n", " ")[:500], SEED, TIER, VERIF, pid))
            f.write("cd %s && env VERIF_SEED=%d VERIF_TIER=%s VT_DIR=%s %s %s %s\n" % (rundir, SEED, TIER, rundir,
                    " ".join("%s='%s'" % kv for kv in job.env.items()), exes[job.exe], " ".join("'%s'" % a for a in job.args)))
        for job, key, msg, out in real[:8]:
            print("  violated in [%s] %s: %s" % (job.name, key, msg[:500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if stats.get("evals", 0) == 0:
        print("NO-ANSWER: nothing was observed (inconclusive: %s)" % incon); return 2
    print("OK property=%s evaluations=%d distinct=%d build=%.1fs wall=%.1fs%s" % (pid, cov["evaluations"], cov["distinct_nontrivial"], tb, time.time() - t0,
          " inconclusive=%s" % incon if incon else ""))
    return 0
