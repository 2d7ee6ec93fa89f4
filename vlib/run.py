"""Runs harness shards in parallel, watches them, and collects what their monitors observed."""
import concurrent.futures, json, os, re, resource, signal, subprocess, threading, time


class HarnessFailure(Exception):
    pass


class Result:
    def __init__(self):
        self.stats, self.samples, self.sigs, self.viols, self.notes = {}, [], set(), [], []
        self.lock = threading.Lock()

    def add_stat(self, k, v):
        self.stats[k] = self.stats.get(k, 0) + v


SAN = [
    (r"ERROR: AddressSanitizer: ([\w-]+)", "asan"),
    (r"ERROR: LeakSanitizer: (detected memory leaks)", "lsan"),
    (r"WARNING: ThreadSanitizer: ([\w ()-]+)", "tsan"),
    (r"runtime error: (.{0,90})", "ubsan"),
    (r"(Assertion '.{0,80}' failed)", "assert"),
    (r"terminate called after throwing an instance of '([^']*)'", "terminate"),
]


def frames(text):
    """Functions of the library named in a sanitizer report, outermost last."""
    out = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", text):
        fn, path = m.group(1), m.group(2)
        if "/visibility_graphs/code/" in path or "/cpp_libs/" in path:
            name = re.sub(r"\(.*", "", fn)
            if name not in out:
                out.append(name)
    return out


def classify(rc, err):
    for pat, kind in SAN:
        m = re.search(pat, err)
        if m:
            what = re.sub(r"0x[0-9a-f]+|\d{3,}", "N", m.group(1)).strip().rstrip("(")
            fr = frames(err[m.start():])
            return "%s:%s%s" % (kind, what, " in " + fr[0] if fr else "")
    if rc < 0:
        try:
            return "crash:" + signal.Signals(-rc).name
        except ValueError:
            return "crash:signal%d" % -rc
    return "crash:exit%d" % rc


def read_lines(path):
    out = []
    try:
        for line in open(path, errors="replace"):
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
    except OSError:
        pass
    return out


class Job:
    """One harness program with its arguments, split into shards."""

    def __init__(self, harness, variant, cases, mode="", shards=8, soft=240, hang=120, mem_gb=3, env=None, weight=1):
        self.harness, self.variant, self.cases, self.mode = harness, variant, cases, mode
        self.shards = max(1, min(shards, cases))
        self.soft, self.hang, self.mem_gb, self.env, self.weight = soft, hang, mem_gb, env or {}, weight


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.endswith("SAN_OPTIONS")}
    env["ASAN_OPTIONS"] = ("abort_on_error=1:detect_leaks=1:detect_stack_use_after_return=1:check_initialization_order=1:"
                           "strict_string_checks=1:max_allocation_size_mb=2048:allocator_may_return_null=0:hard_rss_limit_mb=6000:"
                           "quarantine_size_mb=64:handle_abort=0:malloc_context_size=12")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    here = os.path.dirname(os.path.abspath(__file__))
    env["TSAN_OPTIONS"] = ("halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:detect_deadlocks=1:history_size=4:"
                           "suppressions=%s/tsan.supp" % here)
    env["LSAN_OPTIONS"] = "report_objects=0"
    return env


def limits(variant, mem_gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant in ("fast", "yield"):
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
    return f


def cpu_seconds(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def is_runnable(pid):
    """does some thread of the process (one of ours) want a processor?"""
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            if open("/proc/%d/task/%s/stat" % (pid, t)).read().rsplit(")", 1)[1].split()[0] == "R":
                return True
    except (OSError, IndexError):
        pass
    return False


def run_process(cmd, outfile, errfile, env, variant, mem_gb, hang, cwd, hard_limit):
    """-> (rc, timed_out).  The watchdog counts silence, not total time, and while the process has work to do but gets no
    processor (a busy machine), it counts the processor time it got instead of the clock's."""
    with open(errfile, "w") as e, open(os.devnull, "w") as dn:
        p = subprocess.Popen(cmd, stdout=dn, stderr=e, env=env, cwd=cwd, preexec_fn=limits(variant, mem_gb))
    last_size, silence, total, prev, cpu = -1, 0.0, 0.0, time.monotonic(), 0.0
    while True:
        try:
            p.wait(timeout=0.5)
            return p.returncode, False
        except subprocess.TimeoutExpired:
            pass
        try:
            size = os.path.getsize(outfile)
        except OSError:
            size = 0
        now, used, runnable = time.monotonic(), cpu_seconds(p.pid), is_runnable(p.pid)
        passed = now - prev
        if runnable:
            passed = min(passed, max(used - cpu, passed / 8))
        prev, cpu = now, used
        total += passed
        silence += passed
        if size != last_size:
            last_size, silence = size, 0.0
        if silence > hang or total > hard_limit:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            return p.returncode, True


def collect(lines, res, job):
    done = False
    for l in lines:
        t = l.get("t")
        if t == "stat":
            res.add_stat(l["k"], l["v"])
        elif t == "sample":
            if len(res.samples) < 6:
                res.samples.append({"harness": job.harness, "build": job.variant, "mode": job.mode, "case": l["v"]})
        elif t == "sigs":
            res.sigs.update((job.harness + job.mode, v) for v in l["v"])
        elif t == "viol":
            res.viols.append({"key": l["key"], "case": l["case"], "detail": l["detail"], "job": job})
        elif t == "harness_error":
            raise HarnessFailure(l["v"])
        elif t == "done":
            done = True
    return done


def run_shard(exe, job, prop, seed, tier, shard, scratch, repo, res, only=None):
    base = os.path.join(scratch, "%s.%s.%s.%d" % (job.harness, job.variant, job.mode or "x", shard))
    env = base_env()
    env.update(job.env)
    start = shard
    hard = job.soft + 2 * job.hang + 60
    attempt = 0
    while True:
        attempt += 1
        out, err = "%s.%d.out" % (base, attempt), "%s.%d.err" % (base, attempt)
        wd = "%s.%d.d" % (base, attempt)
        os.makedirs(wd, exist_ok=True)
        cmd = (exe if isinstance(exe, list) else [exe]) + ["--prop", prop, "--seed", str(seed), "--tier", tier, "--cases", str(job.cases), "--shard", str(start),
               "--nshards", str(job.shards), "--soft", str(job.soft), "--scratch", wd, "--repo", repo, "--out", out]
        if job.mode:
            cmd += ["--mode", job.mode]
        if only is not None:
            cmd += ["--only", str(only), "--shard", "0", "--nshards", "1"]
        rc, timed_out = run_process(cmd, out, err, env, job.variant, job.mem_gb, job.hang, wd, hard)
        lines = read_lines(out)
        with res.lock:
            done = collect(lines, res, job)
        if done and rc == 0:
            return
        case = max([l["n"] for l in lines if l.get("t") == "case"], default=None)
        etext = open(err, errors="replace").read()
        if rc == 3 and not timed_out:
            raise HarnessFailure("%s: %s" % (job.harness, etext[-2000:]))
        if case is None:
            if attempt <= 2:
                continue
            raise HarnessFailure("%s/%s did not start: rc=%s %s" % (job.harness, job.variant, rc, etext[-2000:]))
        key = "hang" if timed_out else classify(rc, etext)
        if not timed_out and (done or key.startswith(("asan", "lsan", "ubsan", "tsan", "assert", "terminate"))):
            with res.lock:
                res.viols.append({"key": key, "case": case, "detail": excerpt(etext), "job": job})
            return
        # a hang, or an end without a report: has to happen again to count
        out2, err2, wd2 = base + ".again.out", base + ".again.err", base + ".again.d"
        os.makedirs(wd2, exist_ok=True)
        cmd2 = (exe if isinstance(exe, list) else [exe]) + ["--prop", prop, "--seed", str(seed), "--tier", tier, "--cases", str(job.cases), "--only", str(case),
                "--scratch", wd2, "--repo", repo, "--out", out2]
        if job.mode:
            cmd2 += ["--mode", job.mode]
        rc2, timed2 = run_process(cmd2, out2, err2, env, job.variant, job.mem_gb, 2 * job.hang, wd2, 3 * job.hang)
        lines2 = read_lines(out2)
        if any(l.get("t") == "viol" for l in lines2):
            with res.lock:
                collect([l for l in lines2 if l.get("t") == "viol"], res, job)
            return
        again = timed2 or (rc2 != 0 and rc2 != 3)
        if again:
            with res.lock:
                res.viols.append({"key": "hang" if timed2 else classify(rc2, open(err2, errors="replace").read()), "case": case,
                                  "detail": "twice: %s\n%s" % (key, excerpt(open(err2, errors="replace").read())), "job": job})
            return
        with res.lock:
            res.notes.append("inconclusive once, fine when repeated: %s case %s of %s/%s" % (key, case, job.harness, job.variant))
            res.add_stat("inconclusive", 1)
            if len([1 for n in res.notes if n.startswith("inconclusive")]) >= 6:
                # ends that come and go with the schedule are a failure, not bad luck
                res.viols.append({"key": key, "case": case, "detail": "repeatedly, though not on every schedule:\n" + excerpt(etext), "job": job})
                return
        start = case + job.shards
        if only is not None or start >= job.cases:
            return


def excerpt(text):
    for pat, _ in SAN:
        m = re.search(pat, text)
        if m:
            return text[max(0, m.start() - 200):m.start() + 5000]
    return text[-3000:]


def run_jobs(jobs, exes, prop, seed, tier, scratch, repo):
    res = Result()
    tasks = []
    for job in jobs:
        for s in range(job.shards):
            tasks.append((job, s))
    slots = threading.Semaphore(os.cpu_count() or 8)
    workers = os.cpu_count() or 8

    lock = threading.Condition()
    free = [workers]

    def go(job, s):
        need = min(job.weight, workers)
        with lock:
            while free[0] < need:
                lock.wait()
            free[0] -= need
        try:
            run_shard(exes[job.harness, job.variant], job, prop, seed, tier, s, scratch, repo, res)
        finally:
            with lock:
                free[0] += need
                lock.notify_all()

    with concurrent.futures.ThreadPoolExecutor(max_workers=workers) as ex:
        fs = [ex.submit(go, j, s) for j, s in tasks]
        errors = []
        for f in fs:
            try:
                f.result()
            except HarnessFailure as e:
                errors.append(e)
        if errors and not res.viols:
            raise errors[0]
    return res
