#!/usr/bin/env python3
"""check.py <PROPERTY>: run the monitors of one property against /repo's working tree.

Exit 0: no violation observed.  Exit 1 and `VIOLATION property=<id> replay=<path>`: violated.
Exit 2: the check could not decide (build failure, nothing observed, ...).
"""
import fcntl, hashlib, json, os, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
NCPU = 8
STALL = 110        # seconds without a new case before a shard counts as stalled
AFTER = 60         # seconds to go on for once something has been found (quick tier)
PY = "/opt/vp/venv/bin/python3"

sys.path.insert(0, VERIF)
from runs import RUNS, RULES, ASSUME  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(variant, target="all"):
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # sources that have gone leave no object behind
        cmd = ["make", "-C", os.path.join(VERIF, "harness"), "-j%d" % NCPU, "B=" + d, "V=" + variant, "REPO=" + REPO]
        cmd.append(target if target == "all" else os.path.join(d, target))
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log(r.stdout[-6000:])
            log("build of variant %s failed" % variant)
            sys.exit(2)


def build_py():
    """The Python package, copied to a scratch folder and built there."""
    r = subprocess.run([sys.executable, os.path.join(VERIF, "pychk", "build_py.py"), REPO, BUILD],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        log(r.stdout[-6000:])
        log("build of the Python package failed")
        sys.exit(2)


def env_for(run, shard):
    e = dict(os.environ)
    e["OMP_WAIT_POLICY"] = "passive"
    e["OMP_NUM_THREADS"] = str(run.get("threads", [1])[shard % len(run.get("threads", [1]))])
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=97:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=0:max_malloc_fill_size=1048576:strict_string_checks=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=97"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:second_deadlock_stack=1:report_signal_unsafe=0"
    e["LSAN_OPTIONS"] = "exitcode=97"
    e.pop("VERBOSITY", None)
    if run["engine"] == "py":
        root = os.path.join(BUILD, "py")
        e["PYTHONPATH"] = os.path.join(root, "python")
        e["LD_LIBRARY_PATH"] = root
        e["MPLBACKEND"] = "Agg"
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["VERIF_CABI"] = os.path.join(BUILD, "plain", "libcabi.so")
        e["ARCTIC_SRC_REPO"] = REPO
        e["VERIF_ARCTIC"] = os.path.join(BUILD, "asan", "arctic")
    return e


def command(run, prop, seed, tier):
    if run["engine"] == "py":
        c = [PY, os.path.join(VERIF, "pychk", "main.py"), run.get("as", prop)]
    else:
        c = [os.path.join(BUILD, run["variant"], "vh"), run.get("as", prop)]
        if run["variant"] == "tsan":   # TSan needs the usual address-space layout
            c = ["setarch", "-R"] + c if run.get("setarch") else c
    return c + ["--tier", tier, "--seed", str(seed)]


class Shard:
    hurry = False

    def __init__(self, run, i_run, prop, seed, tier, k, n_shards, n_cases, deadline, out_dir):
        self.run, self.k, self.step, self.n = run, k, n_shards, n_cases
        self.base = command(run, prop, seed, tier)
        self.env = env_for(run, k)
        self.deadline = deadline
        self.stem = os.path.join(out_dir, "%s-%d-%d" % (prop, i_run, k))
        self.lines, self.viol, self.problems = [], [], []
        self.next = k
        self.part = 0
        self.proc = None
        self.done = k >= n_cases
        self.t_end = time.time() + deadline
        self.max_gap = 0.0

    def start(self):
        self.out = "%s.%d.out" % (self.stem, self.part)
        self.err = "%s.%d.err" % (self.stem, self.part)
        self.marker = "%s.%d.mark" % (self.stem, self.part)
        self.part += 1
        left = max(1, int(self.t_end - time.time()))
        open(self.marker, "w").close()
        cmd = self.base + ["--from", str(self.next), "--to", str(self.n), "--step", str(self.step),
                           "--out", self.out, "--marker", self.marker, "--deadline", str(left)]
        self.proc = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(self.err, "w"), env=self.env,
                                     start_new_session=True, cwd=os.path.dirname(self.stem))
        self.last_mark, self.t_mark = None, time.time()

    def mark(self):
        try:
            return int(open(self.marker).read().split()[0])
        except Exception:
            return None

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def collect(self):
        ended = False
        try:
            for line in open(self.out, errors="replace"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d["type"] == "end":
                    ended = True
                elif d["type"] == "violation":
                    d["threads"] = self.env["OMP_NUM_THREADS"]
                    d["cmd"] = self.base + ["--case", str(d["case"])]
                    self.viol.append(d)
                else:
                    self.lines.append(d)
        except FileNotFoundError:
            pass
        return ended

    def rerun_case(self, case):
        """One more try of a case; returns (hung, returncode, err)."""
        cmd = self.base + ["--case", str(case), "--out", self.stem + ".re.out", "--marker", self.stem + ".re.mark"]
        errf = self.stem + ".re.err"
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(errf, "w"), env=self.env, start_new_session=True,
                             cwd=os.path.dirname(self.stem))
        try:
            p.wait(timeout=STALL)
            hung = False
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        return hung, p.returncode, open(errf, errors="replace").read()

    def found(self, known):
        """Whether anything not listed as known has been reported so far (looks at the file only when it has grown)."""
        if any(not match(v, known) for v in self.viol):
            return True
        try:
            n = os.path.getsize(self.out)
            if n == getattr(self, "seen", 0):
                return False
            self.seen = n
            for l in open(self.out, errors="replace"):
                if '"violation"' in l:
                    d = json.loads(l)
                    if d["type"] == "violation" and not match(d, known):
                        return True
        except (OSError, AttributeError, ValueError):
            pass
        return False

    def stop(self):
        """Ends this shard early, keeping what it has reported."""
        self.kill()
        self.collect()
        self.done = True

    def poll(self):
        """Returns True when this shard is finished."""
        if self.done:
            return True
        rc = self.proc.poll()
        m = self.mark()
        if m != self.last_mark:
            self.max_gap = max(self.max_gap, time.time() - self.t_mark)
            self.last_mark, self.t_mark = m, time.time()
        if rc is None:
            if time.time() - self.t_mark > STALL and m is not None:
                self.kill()
                self.collect()
                if Shard.hurry:  # something has been found already: no more second tries
                    self.problems.append("case %d stalled" % m)
                    self.done = True
                    return True
                hung, rc2, err = self.rerun_case(m)
                if hung:
                    Shard.hurry = True
                    self.add_crash(m, "hang", "no result within %d s, twice" % STALL)
                else:
                    self.problems.append("case %d stalled once, not again" % m)
                self.resume(m)
            elif time.time() > self.t_end + 200:
                self.kill()
                self.collect()
                self.problems.append("shard %d out of time" % self.k)
                self.done = True
            return self.done
        ended = self.collect()
        err = open(self.err, errors="replace").read()
        if ended and rc == 0:
            self.done = True
            return True
        if rc == 3:
            self.problems.append("harness error: " + err[-800:])
            self.done = True
            return True
        if ended:  # sanitizer report at exit (leaks)
            self.add_crash(m, crash_key(rc, err), err)
            self.done = True
            return True
        if rc == -9:
            hung, rc2, err2 = self.rerun_case(m if m is not None else self.next)
            self.problems.append("shard %d was killed from outside" % self.k)
            if rc2 not in (0, -9):
                self.add_crash(m, crash_key(rc2, err2), err2)
            self.resume(m)
            return self.done
        if m is None:
            self.problems.append("shard %d never started: rc=%s %s" % (self.k, rc, err[-800:]))
            self.done = True
            return True
        self.add_crash(m, crash_key(rc, err), err)
        self.resume(m)
        return self.done

    def resume(self, m):
        self.next = (m if m is not None else self.next) + self.step
        if self.next >= self.n or self.part > 4 or time.time() > self.t_end:
            self.done = True
        else:
            self.start()

    def add_crash(self, case, key, err):
        self.viol.append({"type": "violation", "key": key, "case": case, "desc": "", "msg": err[-5000:],
                          "threads": self.env["OMP_NUM_THREADS"], "cmd": self.base + ["--case", str(case)]})


def crash_key(rc, err):
    kind = "crash"
    for l in err.splitlines():
        if "SUMMARY:" in l:
            w = l.split("SUMMARY:")[1].strip()
            return "sanitizer:" + " ".join(w.split()[:2])
        if "runtime error:" in l:
            return "sanitizer:" + l.split("runtime error:")[1].strip()[:60]
    if rc is not None and rc < 0:
        kind = "signal %d" % -rc
    elif rc is not None:
        kind = "exit %d" % rc
    return "crash:" + kind


def known_findings(prop):
    """Lines `known: property=<id> key=<key> input=<start of sha1 of description> <what fails>`; keys have `_` for spaces."""
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p):
        if l.startswith("known:"):
            f = l.split(None, 4)
            d = dict(x.split("=", 1) for x in f[1:4])
            if d["property"] == prop:
                known.append((d["key"], d["input"], f[4].strip()))
    return known


def match(v, known):
    """The known finding that violation v is, or None."""
    h = hashlib.sha1(v.get("desc", "").encode()).hexdigest()[:12]
    for k in known:
        if k[0] == v["key"].replace(" ", "_") and k[1] == h:
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if prop not in RUNS:
        log("unknown property " + prop)
        return 2
    runs = RUNS[prop]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for v in sorted({r["variant"] for r in runs if r["engine"] == "vh"}):
        build(v)
    if any(r["engine"] == "py" for r in runs):
        build("plain", "libcabi.so")
        build_py()
    if any(r.get("program") for r in runs):
        build("asan", "arctic")
    t_build = time.time() - t0
    out_dir = os.path.join(BUILD, "out", "%s-%d" % (prop, os.getpid()))
    os.makedirs(out_dir, exist_ok=True)
    viol, problems, stats, per_run = [], [], [], []
    budget = 620 if tier == "quick" else 6 * 3600
    known = known_findings(prop)
    t_found = None
    for i_run, run in enumerate(runs):
        if t_found is not None and time.time() - t_found > AFTER:
            problems.append("stopped after the first findings")
            break
        n_cases = max(1, int(run[tier] * scale))
        n_shards = min(run.get("shards", NCPU), n_cases)
        deadline = max(30, (budget - (time.time() - t0)) / (len(runs) - i_run))
        shards = [Shard(run, i_run, prop, seed, tier, k, n_shards, n_cases, deadline, out_dir) for k in range(n_shards)]
        t1 = time.time()
        for s in shards:
            if not s.done:
                s.start()
        live = list(shards)
        t_look = time.time()
        while live:
            live = [s for s in live if not s.poll()]
            if t_found is None and tier == "quick" and time.time() - t_look > 1:
                t_look = time.time()
                if any(s.found(known) for s in shards):
                    t_found = time.time()
                    Shard.hurry = True
            if t_found is not None and time.time() - t_found > AFTER:
                for s in live:
                    s.stop()
                break
            if live:
                time.sleep(0.05)
        ev, cnt, dist, samples = 0, {}, set(), []
        for s in shards:
            viol += s.viol
            problems += s.problems
            for d in s.lines:
                if d["type"] == "stats":
                    ev += d["evaluations"]
                    for k, v in d["counters"].items():
                        cnt[k] = max(cnt.get(k, 0), v) if k.startswith("max_") else cnt.get(k, 0) + v
                    dist |= set(d["distinct"])
                    samples += d["samples"]
        name = "%s/%s" % (run.get("variant", "python"), run.get("as", prop))
        per_run.append({"run": name, "cases": ev, "distinct_nontrivial": len(dist), "observed": cnt,
                        "wall_s": round(time.time() - t1, 1), "samples": samples[:2],
                        "longest_case_s": round(max([s.max_gap for s in shards] + [0]), 1),
                        "threads": run.get("threads", [1]), "_dist": dist})
        floor = run.get("floor", 1)
        if not dist or ev == 0 or len(dist) < min(floor, n_cases // 20):
            if not viol:
                problems.append("run %s observed too little: %d cases, %d non-trivial" % (name, ev, len(dist)))
                per_run[-1]["empty"] = True
        for key in run.get("need", []):
            if not cnt.get(key) and not viol:
                problems.append("run %s observed no %s" % (name, key))
                per_run[-1]["empty"] = True
    shutil.rmtree(out_dir, ignore_errors=True)

    fresh, seen_known = [], set()
    for v in viol:
        k = match(v, known)
        if k is None:
            fresh.append(v)
        else:
            seen_known.add(k)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    all_dist = set()
    for p in per_run:
        all_dist |= {(p["run"].split("/")[-1], d) for d in p.pop("_dist")}
    ev = sum(p["cases"] for p in per_run)
    cov = {"evaluations": ev, "distinct_nontrivial": len(all_dist), "rule": RULES[prop],
           "samples": sum((p["samples"] for p in per_run), [])[:6] or ["none"], "runs": per_run,
           "build_s": round(t_build, 1)}
    if problems:
        cov["inconclusive"] = problems[:20]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": ASSUME.get(prop, []) + ASSUME["all"], "wall_s": round(time.time() - t0, 1),
                   "violations": len(fresh)}, f, indent=1)
        f.write("\n")
    for p in problems:
        log("inconclusive:", p)
    if fresh:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        shown = set()
        for v in fresh:
            if v["key"] in shown or len(shown) > 4:
                continue
            shown.add(v["key"])
            path = os.path.join(rd, "%s-%s.json" % (prop, hashlib.sha1((v["key"] + str(v["case"])).encode()).hexdigest()[:8]))
            with open(path, "w") as f:
                json.dump({"property": prop, "key": v["key"], "case": v["case"], "seed": seed, "tier": tier,
                           "input": v["desc"], "observed": v["msg"], "replay_cmd": v["cmd"],
                           "env": {"OMP_NUM_THREADS": v["threads"]}}, f, indent=1)
            log("%s [%s] case %s: %s\n   %s" % (prop, v["key"], v["case"], v["msg"][:1500], v["desc"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s %s: %d cases, %d distinct non-trivial, no violation, %.1f s (build %.1f s)" % (
        prop, tier, ev, len(all_dist), time.time() - t0, t_build))
    if any(p.get("empty") for p in per_run) or any("harness error" in p or "never started" in p for p in problems):
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
