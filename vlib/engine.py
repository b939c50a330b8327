"""Runs the workloads of one property, judges what the monitors reported and
writes the evidence file."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, threading

from build import Builder, BuildError, VERIF, REPO
import spec

OUT = os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings():
    """lines "finding: property=<id> key=<regular expression> <what fails>"; "fixed:" lines suppress nothing"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.append(dict(property=m.group(1), key=m.group(2), what=m.group(3)))
    return out


SAN = [
    (re.compile(r"WARNING: ThreadSanitizer: ([^\(\n]+)"), "tsan"),
    (re.compile(r"ERROR: AddressSanitizer: ([\w-]+)"), "asan"),
    (re.compile(r"ERROR: LeakSanitizer: ([^\n]+)"), "lsan"),
    (re.compile(r"runtime error: ([^\n]+)"), "ubsan"),
]
FRAME = re.compile(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)")


def sanitizer_findings(err):
    out = []
    for rx, kind in SAN:
        for m in rx.finditer(err):
            text = err[m.start():m.start() + 6000]
            frame = ""
            for f in FRAME.finditer(text):
                if "/repo/" in f.group(2) or REPO in f.group(2):
                    frame = re.sub(r"[^A-Za-z0-9_:~]+", "_", f.group(1))[:80]
                    break
            what = re.sub(r"[0-9a-fx]{6,}|\d+", "N", m.group(1)).strip().replace(" ", "-")[:80]
            out.append((f"{kind}:{what}:{frame}", text))
            if len(out) > 5:
                return out
    return out


class Result:
    def __init__(self):
        self.violations = []   # (key, detail)
        self.stats = {}
        self.traces = []
        self.samples = []
        self.timeout = False
        self.note = ""
        self.wall = 0.0
        self.stdout = ""
        self.stderr = ""


def environment(run):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("VH_", "XDISPATCH2_", "ASAN_", "TSAN_", "UBSAN_", "LSAN_"))}
    env["ASAN_OPTIONS"] = "detect_leaks=%d:detect_stack_use_after_return=1:abort_on_error=0:exitcode=66:symbolize=1:handle_abort=0:quarantine_size_mb=64:allocator_may_return_null=1:fast_unwind_on_malloc=1" % (1 if run.get("leaks") else 0)
    env["LSAN_OPTIONS"] = "exitcode=66:suppressions=%s:print_suppressions=0" % os.path.join(VERIF, "vlib", "lsan.supp")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4:suppressions=%s:print_suppressions=0" % os.path.join(VERIF, "vlib", "tsan.supp")
    env.update(run["env"])
    return env


def execute(exe, run, timeout):
    cmd = [exe, "--scenario", run["scenario"], "--seed", str(run["seed"]), "--cases", str(run["cases"]),
           "--backend", run["backend"], "--scale", str(run["scale"])]
    if run.get("args"):
        cmd += run["args"]
    r = Result()
    start = time.time()
    scratch = tempfile.mkdtemp(prefix="vh-")
    so = open(os.path.join(scratch, "o"), "w+b")
    se = open(os.path.join(scratch, "e"), "w+b")
    p = subprocess.Popen(cmd, stdout=so, stderr=se, stdin=subprocess.DEVNULL, env=environment(run), cwd=scratch, start_new_session=True)
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        rc = p.wait()
    so.seek(0)
    se.seek(0, 2)
    size = se.tell()
    se.seek(0)
    head = se.read(400000)
    if size > 800000:
        se.seek(size - 200000)
        head += b"\n[...]\n" + se.read()
    elif size > 400000:
        head += se.read()
    out = so.read(20000000).decode(errors="replace")
    err = head.decode(errors="replace")
    so.close()
    se.close()
    shutil.rmtree(scratch, ignore_errors=True)
    r.wall = time.time() - start
    r.stdout, r.stderr = out[-20000:], err[-60000:]
    have = False
    for line in out.splitlines():
        if line.startswith("VHVIOLATION "):
            try:
                v = json.loads(line[12:])
                r.violations.append((v["key"], v["case"] + ": " + v["detail"]))
            except ValueError:
                r.violations.append(("unparsable", line[:2000]))
        elif line.startswith("VHSTATS "):
            try:
                d = json.loads(line[8:])
                r.stats, r.traces, r.samples = d["stats"], d["traces"], d["samples"]
                have = True
            except ValueError:
                pass
    r.violations += sanitizer_findings(err)
    if not r.timeout and not r.violations:
        if rc < 0:
            m = re.search(r"Assertion failed: ([^\n]*)", err)
            r.violations.append((f"crash:{signal.Signals(-rc).name}" + (":" + m.group(1)[:80] if m else ""), err[-3000:]))
        elif rc == 9:
            raise RuntimeError("driver does not know the scenario: " + " ".join(cmd))
        elif rc != 0:
            r.violations.append((f"exit-status-{rc}", err[-3000:]))
        elif not have:
            r.violations.append(("ended-without-result", (out + err)[-3000:]))
    return r


def expand(prop, tier, seed):
    """turns the property's workload list into concrete runs"""
    runs = []
    for wi, w in enumerate(spec.PROPERTIES[prop]["runs"]):
        reps = w.get("reps", 1)
        cases = w.get("cases", 10)
        if tier == "thorough":
            reps = w.get("treps", reps * 8)
            cases = w.get("tcases", cases * 2)
        modes = w.get("modes", [1, 2, 0, 3, 4] if w["flavour"] != "plain" else [0])
        threads = w.get("threads", [None])
        for rep in range(reps):
            rs = (seed * 1000003 + wi * 977 + rep * 31) % 2000000000 + 1
            env = dict(w.get("env", {}))
            mode = modes[(rep + seed - 1) % len(modes)]
            if mode:
                env["VH_DELAY"] = f"{mode}:{rs}:{w.get('budget_ms', 6000)}"
            th = threads[(rep + seed - 1) % len(threads)]
            if th:
                env["XDISPATCH2_THREAD_COUNT"] = str(th)
            if w["flavour"] == "chaos":
                env.setdefault("VH_WEAK", "5")
                env.setdefault("VH_WAKE", "7")
            for k, v in list(env.items()):
                if isinstance(v, list):
                    env[k] = str(v[(rep + seed - 1) % len(v)])
                    if env[k] == "":
                        del env[k]
            runs.append(dict(driver=w["driver"], flavour=w["flavour"], qt=w.get("qt", False), backend=w.get("backend", "qt5" if w.get("qt") else "naive"),
                             scenario=w["scenario"], seed=rs, cases=cases, env=env, scale=w.get("scale", 100), leaks=w.get("leaks", False),
                             timeout=w.get("timeout", 150) * (4 if tier == "thorough" else 1), weight=w.get("weight", 1), args=w.get("args")))
    return runs


def describe(run):
    e = " ".join(f"{k}={v}" for k, v in sorted(run["env"].items()))
    return f"{run['driver']}/{run['scenario']} [{run['flavour']}{'-qt' if run['qt'] else ''}, {run['backend']}] seed={run['seed']} cases={run['cases']} {e}"


def check(prop, tier, seed, jobs):
    start = time.time()
    deadline = start + (800 if tier == "quick" else 6 * 3600)
    p = spec.PROPERTIES[prop]
    runs = expand(prop, tier, seed)
    b = Builder()
    waits = {}
    for r in runs:
        k = (r["driver"], r["flavour"], r["qt"])
        if k not in waits:
            waits[k] = b.program(*k)
    try:
        exes = {k: w() for k, w in waits.items()}
    except BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    build_s = time.time() - start
    results = []
    stop = threading.Event()
    known = [k for k in known_findings() if k["property"] == prop]
    lock = threading.Lock()

    def is_known(key):
        return next((k for k in known if re.search(k["key"], key)), None)

    def one(i):
        r = runs[i]
        if stop.is_set() or time.time() > deadline:
            return
        res = execute(exes[(r["driver"], r["flavour"], r["qt"])], r, r["timeout"])
        if res.timeout and not res.violations:
            # nothing decided: the machine may just be slow, so repeat with more time
            again = execute(exes[(r["driver"], r["flavour"], r["qt"])], r, r["timeout"] * 2)
            if again.timeout and not again.violations:
                again.violations.append(("no-progress:" + r["scenario"], "the workload did not finish within %d s, twice\n" % (r["timeout"] * 2) + again.stderr[-2000:]))
            res = again
        with lock:
            results.append((i, res))
        if any(not is_known(k) for k, _ in res.violations) and tier == "quick":
            stop.set()

    order = sorted(range(len(runs)), key=lambda i: (-runs[i]["weight"], i))
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(one, i) for i in order]:
            f.result()
    results.sort(key=lambda x: x[0])

    os.makedirs(OUT, exist_ok=True)
    bad, seen_known = [], {}
    for i, res in results:
        for key, detail in res.violations:
            k = is_known(key)
            if k:
                seen_known[k["key"]] = k
            else:
                bad.append((i, key, detail))
    stats, traces, samples, sites = {}, set(), [], 0
    for i, res in results:
        for k, v in res.stats.items():
            if k.endswith("_max"):
                stats[k] = max(stats.get(k, 0), v)
            else:
                stats[k] = stats.get(k, 0) + v
        traces.update(res.traces)
        for s in res.samples:
            if len(samples) < 12:
                samples.append(s)
    evaluations = sum(len(res.traces) for _, res in results) or stats.get("cases", 0)
    events = stats.get("log_events", 0)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=int(evaluations), distinct_nontrivial=len(traces),
                            rule="a case is one generated workload executed against the real library under monitors; it is nontrivial when "
                                 "its monitors recorded events, and two cases are distinct when the recorded event sequences (kinds, ids, threads) differ",
                            samples=samples or ["(no case finished)"],
                            observed=stats, monitor_events=int(events),
                            runs=[describe(runs[i]) + " -> %.1fs, %d violations" % (res.wall, len(res.violations)) for i, res in results][:200],
                            runs_planned=len(runs), runs_done=len(results), build_s=round(build_s, 1)),
              assumptions=p.get("assumptions", []) + [
                  "x86-64 Linux, library compiled by clang 18 (asan+ubsan, tsan) and gcc 13 (chaos, plain)",
                  "what is not executed by the generated workloads and the injected delays is not judged"],
              wall_s=round(time.time() - start, 2), violations=len(bad))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"{prop} [{tier}] {len(results)}/{len(runs)} runs, {evaluations} cases, {len(traces)} distinct histories, {events} events, "
          f"build {build_s:.1f}s, total {time.time() - start:.1f}s")
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if bad:
        i, key, detail = bad[0]
        r = runs[i]
        name = hashlib.sha1((prop + key + str(r["seed"])).encode()).hexdigest()[:10]
        path = os.path.join(OUT, f"{prop}-{name}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, key=key, detail=detail, run=r, rerun=f"{sys.executable} {VERIF}/check.py replay {path}",
                           all=[dict(key=k, run=describe(runs[j]), detail=d[:1500]) for j, k, d in bad[:20]]), f, indent=1)
        for j, k, d in bad[:5]:
            print(f"  {describe(runs[j])}\n    {k}: {d[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if len(results) < len(runs):
        print(f"note: {len(runs) - len(results)} runs were not started within the time limit")
    return 0


def replay(path, times=5):
    d = json.load(open(path))
    r = d["run"]
    exe = Builder().program(r["driver"], r["flavour"], r["qt"])()
    for _ in range(times):
        res = execute(exe, r, r["timeout"])
        for k, det in res.violations:
            print(k, det[:1500])
        if res.violations:
            return 1
    print("not reproduced in %d attempts" % times)
    return 0


def setup():
    b = Builder()
    b.prune()
    waits = {}
    for p in spec.PROPERTIES.values():
        for w in p["runs"]:
            k = (w["driver"], w["flavour"], w.get("qt", False))
            if k not in waits:
                waits[k] = b.program(*k)
    ok = True
    for k, w in waits.items():
        try:
            w()
        except BuildError as e:
            print(k, str(e)[-3000:])
            ok = False
    print(f"built {len(waits)} programs ({b.compiled} objects compiled)")
    return 0 if ok else 2
